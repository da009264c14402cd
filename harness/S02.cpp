// LINK: vos wire
// Volvo KWP71 services against a model ECU.
#include "sess.hpp"
#include <memory>
extern "C" {
#include "diag_l7.h"
#include "diag_l7_kwp71.h"
}
using namespace pbt;
using namespace wire;
using namespace sess;
const char *pbt::prop_id = "S02";
const char *pbt::prop_rule = "1-6 services (ping, memory, ROM and analog reads with any address and space, trouble codes in 1-4 blocks of any length, clearing) over a KWP1281 session on any suitable interface; the ECU answers "
	"positively, refuses, answers another block title, the wrong length, or falls silent at any block; non-trivial = a fault, several blocks, or a payload that is not the size of the caller's space";
unsigned pbt::quick_cases = 20000, pbt::thorough_cases = 300000;

namespace {
enum How { OK, NEG, OTHER, LENGTH, SILENT, SENDERR, RECVERR };
const char *hown[] = { "ok", "refused", "other title", "wrong length", "silent", "send error", "receive error" };
}

void pbt::property(Ctx &c) {
	init_lib();
	Sess s(PVAG, Sess::pick_itf(c, PVAG));
	uint8_t tgt = c.byte() & 0x7f;
	if (!s.start(c, tgt)) c.fail("harness: KWP1281 session did not start");
	diag_l2_recv(s.d, 0, NULL, NULL);       // collect the identification
	unsigned ops = c.range(1, 6);
	bool dead = false;
	for (unsigned o = 0; o < ops && !dead; o++) {
		s.got.clear(); s.w.tx.clear(); s.acc.clear();
		size_t before = lib_bytes();
		enum { PING, READ, LIST, CLEAR } op = (decltype(op))c.weighted({ 1, 6, 4, 3 });
		enum l7_namespace ns = c.pick({ NS_MEMORY, NS_ROM, NS_ADC });
		if (op == READ && c.chance(1, 20)) ns = c.pick({ NS_LIVEDATA, NS_LIVEDATA2, NS_NV, NS_FREEZE });
		uint16_t addr = c.chance(1, 2) ? c.byte() : (uint16_t)c.draw(65536);
		int space = op == READ || op == LIST ? (int)(c.chance(1, 6) ? c.range(0, 252) : c.range(0, 13)) : 0;
		if (op == READ && ns != NS_ADC && !space) space = 1;
		if (op == READ && ns == NS_ADC) space = (int)c.range(0, 4);
		uint8_t hi = (uint8_t)(addr >> 8), lo = (uint8_t)addr;
		Bytes want;
		uint8_t ans = 9;
		bool refused = false;
		switch (op) {
		case PING: want = { 9 }; break;
		case READ:
			if (ns == NS_MEMORY) { want = { 1, (uint8_t)space, hi, lo }; ans = 0xfe; }
			else if (ns == NS_ROM) { want = { 3, (uint8_t)space, hi, lo }; ans = 0xfd; }
			else if (ns == NS_ADC) { want = { 8, lo }; ans = 0xfb; refused = hi; }
			else refused = true;
			break;
		default: want = { 7 }; ans = 0xfc;
		}
		How how = (How)c.weighted({ 12, 2, 2, 2, 1, 1, 1 });
		if (op == PING && how == LENGTH) how = OTHER;
		if (op >= LIST && how == LENGTH) how = NEG;
		// the ECU's blocks, then the acknowledge that ends them
		std::vector<Bytes> blocks;
		size_t n = op == PING ? 0 : op == READ ? ns == NS_ADC ? 2 : (size_t)space : c.chance(1, 4) ? 1 : c.chance(1, 8) ? c.draw(253) : 5 * c.range(1, 2);
		Bytes d = c.bytes(n);
		bool none = op >= LIST && n == 1;
		if (none) { if (c.chance(1, 2)) d[0] = 0; none = d[0] == 0; }
		if (op >= LIST && n == 0) none = true;
		// clearing: the fault may come in the second request
		bool second = op == CLEAR && how == OK && !none, fault2 = second && c.chance(1, 2);
		How how2 = fault2 ? c.pick({ NEG, OTHER, SILENT, SILENT }) : OK;
		Bytes blk = { ans };
		blk.insert(blk.end(), d.begin(), d.end());
		uint8_t wrong = c.pick<uint8_t>({ 0xfe, 0xfd, 0xfc, 0xfb, 0xed, 0x09, 0xf6, 0x00, 0x01 });
		if (wrong == ans) wrong = 0xf0;
		if (how == OTHER) blk[0] = wrong;
		if (how == LENGTH) { size_t k = c.chance(1, 2) ? blk.size() - 1 : blk.size(); if (k == n) k = n ? n - 1 : 1; if (k > 252) k = 0; d = c.bytes(k); blk = { ans }; blk.insert(blk.end(), d.begin(), d.end()); }
		blocks.push_back(blk);
		if (op >= LIST && how == OK && n > 1) for (unsigned k = c.weighted({ 2, 1, 1, 1 }); k; k--) { Bytes x = { ans }, y = c.bytes(5 * c.range(1, 2)); x.insert(x.end(), y.begin(), y.end()); blocks.push_back(x); }
		unsigned silent_at = how == SILENT ? op == PING ? 0 : (unsigned)c.draw(2) : 99;
		size_t bi = 0;
		unsigned phase = 0;
		std::vector<Bytes> reqs;
		int inj = how == RECVERR ? (int)c.draw(s.itf.frame() ? 1 : 4) : -1;
		s.answer = [&](const Heard &h) -> std::vector<Say> {
			uint8_t t = h.data[0];
			bool request = bi == 0;
			if (request) reqs.push_back(h.data);
			else if (t != 9 || h.data.size() != 1) s.viol("block acknowledged with " + hex(h.data));
			if (phase == 0) {
				if (silent_at == bi) return {};
				if (how == NEG) { bi = 0; phase = second ? 1 : 2; return { { 0, { 0x0a, (uint8_t)(s.ve.tseq + 3) }, 0 } }; }
				if (bi < blocks.size()) { Bytes b = blocks[bi++]; bool last = b[0] == 9; if (last) { bi = 0; phase = 2; } return { { 0, b, 0 } }; }
				bi = 0; phase = second ? 1 : 2;
				return { { 0, { 9 }, 0 } };
			}
			if (phase == 1) {
				if (how2 == SILENT) return {};
				if (how2 == NEG) { phase = 2; return { { 0, { 0x0a, (uint8_t)(s.ve.tseq + 3) }, 0 } }; }
				if (how2 == OTHER && bi == 0) { bi = 1; return { { 0, { c.pick<uint8_t>({ 0xfc, 0xfb, 0xf6, 0x00, 0x05 }) }, 0 } }; }
				bi = 0; phase = 2;
				return { { 0, { 9 }, 0 } };
			}
			s.viol("unexpected request " + hex(h.data));
			return { { 0, { 9 }, 0 } };
		};
		auto keep = s.w.on_send;
		if (how == SENDERR) s.w.on_send = [&](const Bytes &) { return (int)DIAG_ERR_BUSERROR; };
		if (how == RECVERR) { s.w.recv_err = DIAG_ERR_BUSERROR; s.w.recv_err_after = inj; }
		std::unique_ptr<uint8_t[]> out(new uint8_t[space ? space : 1]);
		memset(out.get(), 0xa5, space ? space : 1);
		c.note("%s op %d ns %d addr %04x space %d: ECU %s/%s %zu blocks, first %s", s.itf.name, op, ns, addr, space, hown[how], hown[how2], blocks.size(), hex(blk).c_str());
		int rv = 0;
		switch (op) {
		case PING: rv = diag_l7_kwp71_ping(s.d); break;
		case READ: rv = diag_l7_kwp71_read(s.d, ns, addr, space, out.get()); break;
		case LIST: rv = diag_l7_kwp71_dtclist(s.d, space, out.get()); break;
		case CLEAR: rv = diag_l7_kwp71_cleardtc(s.d); break;
		}
		s.w.on_send = keep;
		s.w.recv_err_after = -1;
		(void)diag_geterr();
		c.label("op %d%s", op, refused ? " refused" : "");
		auto untouched = [&](size_t from) { for (int i = (int)from; i < space; i++) if (out[i] != 0xa5) return false; return true; };
		if (refused) {
			PBT_CHECK(c, rv < 0 && s.got.empty() && s.w.tx.empty(), "an impossible request returned %d and sent %s", rv, hex(s.w.sent()).c_str());
			PBT_CHECK(c, untouched(0), "refused request wrote to the caller's space");
			c.nontrivial();
			continue;
		}
		if (how <= LENGTH && how2 <= LENGTH) PBT_CHECK(c, s.trouble().empty(), "%s", s.trouble().c_str());
		c.label("%s", hown[second ? how2 : how]);
		if (how != OK || how2 != OK || blocks.size() > 1) c.nontrivial();
		bool fail = how != OK || how2 != OK;
		if (how == SILENT || how2 == SILENT || how == SENDERR || how == RECVERR) dead = true;
		else {
			PBT_CHECK(c, lib_bytes() == before, "the service leaks %ld bytes", (long)lib_bytes() - (long)before);
			PBT_CHECK(c, s.w.rx.empty() && s.w.frames.empty(), "the service left blocks of the ECU unread");
		}
		if (how != SENDERR) {
			PBT_CHECK(c, reqs.size() == (how == RECVERR ? reqs.size() : second ? 2u : 1u), "%zu requests", reqs.size());
			if (!reqs.empty()) PBT_CHECK(c, reqs[0] == want, "request %s instead of %s", hex(reqs[0]).c_str(), hex(want).c_str());
			if (reqs.size() > 1) PBT_CHECK(c, reqs[1] == Bytes{ 5 }, "clear request %s", hex(reqs[1]).c_str());
		}
		if (fail) {
			PBT_CHECK(c, rv < 0, "ECU: %s/%s, but the service returned %d", hown[how], hown[how2], rv);
			PBT_CHECK(c, untouched(0), "failed service wrote to the caller's space");
			continue;
		}
		if (op == PING) PBT_CHECK(c, rv == 0, "acknowledged, but returned %d", rv);
		else if (op == CLEAR) PBT_CHECK(c, rv == (second ? 1 : 0), "clearing returned %d", rv);
		else {
			size_t k = std::min(d.size(), (size_t)space);
			int exp = op == READ ? (int)k : none ? 0 : (int)d.size();
			PBT_CHECK(c, rv == exp, "%zu bytes of data into %d, but returned %d", d.size(), space, rv);
			if (none) k = 0;
			if (d.size() != (size_t)space) c.nontrivial();
			PBT_CHECK(c, !memcmp(out.get(), d.data(), k), "data %s instead of %s", hex(Bytes(out.get(), out.get() + k)).c_str(), hex(d).c_str());
			if (!none) PBT_CHECK(c, untouched(k), "wrote beyond the data");
			if (blocks.size() > 1) c.label("list of %zu blocks", blocks.size());
		}
	}
	s.answer = [&](const Heard &) -> std::vector<Say> { return { { 0, { 9 }, 0 } }; };
	diag_l2_StopCommunications(s.d);
	diag_l2_close(&s.dev);
}
