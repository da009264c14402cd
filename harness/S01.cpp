// LINK: vos wire
// Volvo D2 services against a model ECU.
#include "sess.hpp"
#include <memory>
extern "C" {
#include "diag_l7_d2.h"
}
using namespace pbt;
using namespace wire;
using namespace sess;
const char *pbt::prop_id = "S01";
const char *pbt::prop_rule = "1-6 services (ping, the five reads with any address and space, trouble codes, clearing, output control, routines) over a D2 session; the ECU answers positively with any payload length, "
	"after any number of busy messages, with further trouble code messages, or refuses, answers another service or identifier, too short, too long or not at all; non-trivial = a fault, busy or multi-message answer, or a payload that is not the size of the caller's space";
unsigned pbt::quick_cases = 40000, pbt::thorough_cases = 400000;

namespace {
enum How { OK, NEG, OTHERSID, OTHERID, SHORT, SILENT, SENDERR, RECVERR, NHOW };
const char *hown[] = { "ok", "refused", "other service", "other id", "short", "silent", "send error", "receive error" };
How pick(Ctx &c, bool id) {
	How h = (How)c.weighted({ 12, 2, 2, 2, 2, 1, 1, 1 });
	return h == OTHERID && !id ? OTHERSID : h;
}
}

void pbt::property(Ctx &c) {
	init_lib();
	size_t base = lib_bytes();
	Sess s(PD2, Sess::pick_itf(c, PD2));
	uint8_t tgt = c.byte();
	s.src = c.chance(1, 2) ? 0x13 : (uint8_t)c.range(1, 255);
	if (!s.start(c, tgt)) c.fail("harness: D2 session did not start");
	unsigned ops = c.range(1, 6);
	bool lingering = false;                 // after an error a late message may be around
	for (unsigned o = 0; o < ops; o++) {
		s.got.clear(); s.w.tx.clear(); s.acc.clear();
		if (lingering) { s.w.frames.clear(); lingering = false; }
		PBT_CHECK(c, s.w.frames.empty(), "the previous service left %zu messages of the ECU unread", s.w.frames.size());
		size_t before = lib_bytes();
		enum { PING, READ, LIST, CLEAR, IO, ROUTINE } op = (decltype(op))c.weighted({ 1, 6, 3, 3, 1, 1 });
		enum l7_namespace ns = c.pick({ NS_MEMORY, NS_LIVEDATA, NS_LIVEDATA2, NS_NV, NS_FREEZE, NS_MEMORY, NS_LIVEDATA, NS_NV, NS_FREEZE });
		if (op == READ && c.chance(1, 20)) ns = c.pick({ NS_ROM, NS_ADC });
		uint16_t addr = c.chance(1, 2) ? c.byte() : (uint16_t)c.draw(65536);
		int space = op == READ || op == LIST ? (int)(c.chance(1, 6) ? c.range(0, 255) : c.range(0, 62)) : 0;
		if (op == READ && ns == NS_MEMORY && space == 0) space = 1;
		uint8_t id = c.byte(), reps = c.chance(1, 2) ? c.byte() : 0;
		uint8_t hi = (uint8_t)(addr >> 8), lo = (uint8_t)addr;
		// the request the service stands for
		Bytes want;
		bool refused = false;
		switch (op) {
		case PING: want = { 0xa1 }; break;
		case READ:
			switch (ns) {
			case NS_MEMORY: want = { 0xa7, 0, hi, lo, 1, (uint8_t)space }; break;
			case NS_LIVEDATA: want = { 0xa5, lo, 1 }; refused = hi; break;
			case NS_LIVEDATA2: want = { 0xa6, hi, lo, 1 }; break;
			case NS_NV: want = { 0xb9, lo }; refused = hi; break;
			case NS_FREEZE: want = { 0xad, lo, 0 }; refused = hi; break;
			default: refused = true; want = { 0, 0 };
			}
			break;
		case LIST: case CLEAR: want = { 0xae, 1 }; break;
		case IO: want = { 0xb0, id }; if (reps) { want.push_back(0x32); want.push_back(reps); } break;
		case ROUTINE: want = { 0xb2, id }; break;
		}
		// what the ECU will do: one plan per request
		struct Plan { How how; Bytes head, data; unsigned busy; std::vector<Bytes> more; };
		std::vector<Plan> plans;
		auto plan = [&](const Bytes &req, bool last) {
			Plan p{ OK, {}, {}, 0, {} };
			p.how = last ? pick(c, req.size() > 1) : OK;
			p.busy = c.chance(1, 6) ? c.range(1, 4) : 0;
			p.head = { (uint8_t)(req[0] ^ 0x40) };
			if (req.size() > 1) p.head.push_back(req[1]);
			return p;
		};
		Plan a = plan(want, true);
		size_t n = 0;
		if (op == READ) n = ns == NS_MEMORY ? space : c.chance(1, 3) ? (size_t)space : c.size(58);
		if (op == LIST || op == CLEAR) n = c.chance(1, 4) ? 0 : c.chance(1, 4) ? 12 : c.range(1, 12);
		if (op == PING && c.chance(1, 4)) n = c.range(1, 4);
		if (n > 58) n = 58;
		if (op == READ && ns == NS_MEMORY) {
			a.head = { 0xe7, 0, hi, lo };
			if (space > 58) a.how = a.how == OK ? SHORT : a.how;          // cannot be answered in one message
			else if (c.chance(1, 10)) { n = c.draw(59); a.how = n == (size_t)space ? a.how : a.how == OK ? SHORT : a.how; }
		}
		if (op == READ && ns == NS_LIVEDATA2) a.head.push_back(lo);
		a.data = c.bytes(n);
		if ((op == LIST || op == CLEAR) && n == 12 && a.how == OK) {
			unsigned k = c.weighted({ 1, 2, 1, 1 });
			for (unsigned i = 0; i < k; i++) { Bytes m = a.head, d = c.bytes(i + 1 < k ? 12 : c.range(1, 12)); m.insert(m.end(), d.begin(), d.end()); a.more.push_back(m); }
		}
		Plan b = a;
		bool second = op == CLEAR && a.how == OK && n > 0;
		if (second) {
			b = plan({ 0xaf, 1 }, true);
			if (b.how == SENDERR) b.how = SILENT;
		}
		plans = { a, b };
		Plan &fin = second ? b : a;
		size_t step = 0;
		std::string said;
		auto build = [&](Plan &p) {
			Bytes m = p.head;
			m.insert(m.end(), p.data.begin(), p.data.end());
			switch (p.how) {
			case NEG: m = { 0x7e, (uint8_t)(p.head[0] ^ 0x40), c.pick<uint8_t>({ 0x11, 0x12, 0x22, 0x31, 0x40 }) }; if (c.chance(1, 3)) m[0] = 0x7f; break;
			case OTHERSID: m[0] = c.chance(1, 2) ? (uint8_t)(p.head[0] ^ 0x40) : c.pick<uint8_t>({ 0xe1, 0xe5, 0xe6, 0xe7, 0xed, 0xee, 0xef, 0xf0, 0xf2, 0xf9, 0x7e, 0x00 }); if (m[0] == p.head[0]) m[0] ^= 0x08; if (m[0] == 0x7e && m.size() > 2) m[2] = 0x11; break;
			case OTHERID: while (m.size() < 3) m.push_back(0); m[c.range(1, (long)p.head.size() - 1)] ^= (uint8_t)c.range(1, 255); break;
			default:;
			}
			return m;
		};
		Bytes fa = build(a), fb = second ? build(b) : Bytes();
		// LIVEDATA2: the low identifier byte is not known to be part of every ECU's answer
		if (op == READ && ns == NS_LIVEDATA2 && a.how == OTHERID && fa[1] == hi) fa[1] ^= 1;
		auto shorten = [&](Plan &p, Bytes &f) {
			if (p.how != SHORT) return;
			if (op == READ && ns == NS_MEMORY) { if (f.size() == (size_t)space + 4) { if (f.size() >= 62 || (f.size() > 4 && c.chance(1, 2))) f.resize(c.range(1, (long)f.size() - 1)); else f.push_back(1); } return; }
			if (op == PING) { f = { 0x00 }; return; }
			if (op == READ || (op == LIST || (op == CLEAR && &p == &plans[0])) || &p == &a) {
				if (op == IO || op == ROUTINE) { if (c.chance(1, 2)) f.resize(1); else f.push_back(c.byte()); return; }
				f.resize(1);
				return;
			}
			if (c.chance(1, 2)) f.resize(1); else f.push_back(c.byte());       // clearing
		};
		shorten(a, fa);
		if (second) shorten(b, fb);
		if (a.how == RECVERR || b.how == RECVERR || a.how == SENDERR) lingering = true;
		s.answer = [&](const Heard &h) -> std::vector<Say> {
			(void)h;
			std::vector<Say> v;
			Plan &p = step == 0 ? a : b;
			Bytes &f = step == 0 ? fa : fb;
			bool ok = step < (second ? 2u : 1u);
			step++;
			if (!ok) return v;
			uint64_t t = 0;
			for (unsigned i = 0; i < p.busy; i++) { t += 1000 * (uint64_t)c.range(10, 900); v.push_back({ t, { 0x7e, h.data[0], 0x23 }, 0 }); }
			if (p.how == RECVERR) { s.w.recv_err_after = p.busy; s.w.recv_err = c.pick<int>({ DIAG_ERR_GENERAL, DIAG_ERR_BUSERROR, DIAG_ERR_INCDATA, DIAG_ERR_TIMEOUT }); return v; }
			if (p.how == SILENT) return v;
			t += 1000 * (uint64_t)c.range(10, 900);
			v.push_back({ t, f, 0 });
			for (auto &m : p.more) { t += 1000 * (uint64_t)c.range(10, 500); v.push_back({ t, m, 0 }); }
			return v;
		};
		auto keep = s.w.on_send;
		if (a.how == SENDERR) s.w.on_send = [&](const Bytes &) { return (int)DIAG_ERR_BUSERROR; };
		std::unique_ptr<uint8_t[]> out(new uint8_t[space ? space : 1]);
		memset(out.get(), 0xa5, space ? space : 1);
		uint64_t t0 = vos::now_us;
		c.note("op %d ns %d addr %04x space %d id %02x reps %u: ECU %s, busy %u: %s / %s %s", op, ns, addr, space, id, reps, hown[a.how], a.busy, hex(fa).c_str(), second ? hown[b.how] : "-", hex(fb).c_str());
		int rv = 0;
		switch (op) {
		case PING: rv = diag_l7_d2_ping(s.d); break;
		case READ: rv = diag_l7_d2_read(s.d, ns, addr, space, out.get()); break;
		case LIST: rv = diag_l7_d2_dtclist(s.d, space, out.get()); break;
		case CLEAR: rv = diag_l7_d2_cleardtc(s.d); break;
		case IO: rv = diag_l7_d2_io_control(s.d, id, reps); break;
		case ROUTINE: rv = diag_l7_d2_run_routine(s.d, id); break;
		}
		s.w.on_send = keep;
		s.w.recv_err_after = -1;
		(void)diag_geterr();
		PBT_CHECK(c, vos::now_us - t0 < 30000000, "the service took %llu ms", (unsigned long long)(vos::now_us - t0) / 1000);
		PBT_CHECK(c, s.trouble().empty(), "%s", s.trouble().c_str());
		PBT_CHECK(c, lib_bytes() == before, "the service leaks %ld bytes", (long)lib_bytes() - (long)before);
		auto untouched = [&](size_t from) { for (int i = (int)from; i < space; i++) if (out[i] != 0xa5) return false; return true; };
		c.label("op %d%s", op, refused ? " refused" : "");
		if (refused) {
			PBT_CHECK(c, rv < 0 && s.got.empty(), "an impossible request returned %d and sent %s", rv, hex(s.w.sent()).c_str());
			PBT_CHECK(c, untouched(0), "refused request wrote to the caller's space");
			lingering = true;
			c.nontrivial();
			continue;
		}
		// requests
		std::vector<Bytes> wants;
		if (a.how != SENDERR) wants.push_back(want);
		if (second) wants.push_back({ 0xaf, 1 });
		PBT_CHECK(c, s.got.size() == wants.size(), "%zu requests instead of %zu", s.got.size(), wants.size());
		for (size_t i = 0; i < wants.size(); i++) {
			PBT_CHECK(c, s.got[i].data == wants[i], "request %s instead of %s", hex(s.got[i].data).c_str(), hex(wants[i]).c_str());
			PBT_CHECK(c, s.got[i].dest == tgt && s.got[i].src == s.src, "request addresses %02x %02x", s.got[i].dest, s.got[i].src);
		}
		c.label("%s", hown[fin.how]);
		if (fin.how != OK || a.busy || b.busy || !a.more.empty()) c.nontrivial();
		if (fin.how != OK) {
			PBT_CHECK(c, rv < 0, "ECU: %s, but the service returned %d", hown[fin.how], rv);
			if (op != CLEAR) PBT_CHECK(c, untouched(0), "failed service wrote to the caller's space");
			continue;
		}
		switch (op) {
		case PING: case IO: case ROUTINE: PBT_CHECK(c, rv == 0, "confirmed, but returned %d", rv); break;
		case CLEAR: PBT_CHECK(c, rv == (second ? 1 : 0), "clearing returned %d", rv); break;
		case LIST: case READ: {
			Bytes d = a.data;
			if (op == READ && ns == NS_LIVEDATA2) d.insert(d.begin(), lo);     // as returned by the ECU after the matched byte
			PBT_CHECK(c, rv == (int)d.size(), "%zu bytes of data, but returned %d", d.size(), rv);
			size_t k = std::min(d.size(), (size_t)space);
			if (d.size() != (size_t)space) c.nontrivial();
			PBT_CHECK(c, !memcmp(out.get(), d.data(), k), "data %s instead of %s", hex(Bytes(out.get(), out.get() + k)).c_str(), hex(d).c_str());
			PBT_CHECK(c, untouched(k), "wrote beyond the data");
			break; }
		}
		if (!a.more.empty()) c.label("long list +%zu", a.more.size());
	}
	s.answer = [&](const Heard &h) -> std::vector<Say> { return { { 20000, { (uint8_t)(h.data[0] ^ 0x40) }, 0 } }; };
	diag_l2_StopCommunications(s.d);
	diag_l2_close(&s.dev);
	(void)base;
}
