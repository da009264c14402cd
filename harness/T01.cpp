// LINK: vos wire
// OBD-II (J1979) sessions over every link.
#include "sess.hpp"
extern "C" {
#include "diag_l3.h"
}
using namespace pbt;
using namespace wire;
using namespace sess;
const char *pbt::prop_id = "T01";
const char *pbt::prop_rule = "an OBD-II session over ISO 14230, ISO 9141, J1850 or an unframed link on any suitable interface, started against an ECU that answers, refuses, answers something else or not at all; then 1-5 sends, "
	"requests and receptions with 0..3 answer frames from different ECUs (over an unframed link: standard responses cut into arbitrary pieces), silence and interface errors; non-trivial = two or more answers, a fault, or a cut message";
unsigned pbt::quick_cases = 40000, pbt::thorough_cases = 400000;

namespace {
// a standard response and its length on pre-CAN links
Bytes response(Ctx &c) {
	Bytes b;
	size_t n;
	uint8_t mode = (uint8_t)c.range(1, 9), pid;
	switch (mode) {
	case 1: case 2: {
		static const uint8_t two[] = { 3, 0x0c, 0x10, 0x14, 0x15, 0x1b, 0x1f }, one[] = { 4, 5, 6, 7, 8, 9, 0x0a, 0x0b, 0x0d, 0x0e, 0x0f, 0x11, 0x12, 0x13, 0x1c, 0x1d, 0x1e };
		switch (c.draw(4)) {
		case 0: pid = c.pick<uint8_t>({ 0, 0x20, 0x40 }); n = 4; break;
		case 1: pid = two[c.draw(7)]; n = 2; break;
		case 2: pid = one[c.draw(17)]; n = 1; break;
		default: pid = mode; n = mode == 1 ? 4 : 2;       // status / freeze frame code
		}
		b = { (uint8_t)(0x40 + mode), pid };
		if (mode == 2) b.push_back(0);
		n += b.size();
		break; }
	case 4: return { 0x44 };
	case 5: pid = c.pick<uint8_t>({ 0, 1, 4, 5, 10 }); b = { 0x45, pid }; n = pid == 0 ? 7 : pid <= 4 ? 4 : 6; break;
	case 9: pid = c.pick<uint8_t>({ 0, 1, 2, 3, 4, 5, 6 }); b = { 0x49, pid }; n = pid && (pid & 1) ? 3 : 7; break;
	default: b = { (uint8_t)(0x40 + mode) }; n = 7;
	}
	while (b.size() < n) b.push_back(c.byte());
	return b;
}
}

void pbt::property(Ctx &c) {
	init_lib();
	size_t base = lib_bytes();
	P p = (P)c.pick({ P14230, P9141, PJ1850, P14230, P9141, PJ1850, PRAW });
	iso::If itf = Sess::pick_itf(c, p);
	if (p == PRAW) itf = { DIAG_L1_DOESP4WAIT | DIAG_L1_AUTOSPEED | DIAG_L1_NOTTY | DIAG_L1_DOESL2FRAME, "raw" };
	Sess s(p, itf);
	uint8_t tgt = p == P9141 ? 0x33 : c.byte();
	s.src = c.chance(1, 2) ? 0xf1 : (uint8_t)c.range(1, 255);
	if (!s.start(c, tgt)) c.fail("harness: %s over %s did not start", pname[p], s.itf.name);
	size_t linked = lib_bytes();
	// --- session start
	struct diag_l3_conn *l3 = nullptr;
	for (unsigned k = 0; k < 3 && !l3; k++) {
		s.got.clear(); s.w.tx.clear(); s.w.frames.clear(); s.w.rx.clear(); s.acc.clear();
		enum { OK, SILENT, NEG, OTHER, SENDERR } how = (decltype(how))c.weighted({ 12, 1, 1, 1, 1 });
		s.expect = 2;
		s.answer = [&](const Heard &) -> std::vector<Say> {
			if (how == OK) return { { 30000, { 0x41, 0, 0xbe, 0x1f, 0xb8, 0x10 }, 0 } };
			if (how == NEG) return { { 30000, { 0x7f, 1, 0x12 }, 0 } };
			if (how == OTHER) return { { 30000, { c.pick<uint8_t>({ 0x43, 0x01, 0x42, 0x61, 0 }), 0, 1 }, 0 } };
			return {};
		};
		auto keep = s.w.on_send;
		if (how == SENDERR) s.w.on_send = [&](const Bytes &) { return (int)DIAG_ERR_BUSERROR; };
		c.note("%s over %s flags %x target %02x tester %02x start %d", pname[p], s.itf.name, s.w.flags, tgt, s.src, how);
		(void)diag_geterr();
		uint64_t t0 = vos::now_us;
		l3 = diag_l3_start(c.chance(1, 2) ? "SAEJ1979" : "saej1979", s.d);
		s.w.on_send = keep;
		PBT_CHECK(c, vos::now_us - t0 < 5000000, "start took too long");
		PBT_CHECK(c, !!l3 == (how == OK), "session start %s", l3 ? "succeeded" : "failed");
		PBT_CHECK(c, how == SENDERR || s.trouble().empty(), "%s", s.trouble().c_str());
		if (how != SENDERR) {
			PBT_CHECK(c, s.got.size() == 1 && s.got[0].data == (Bytes{ 1, 0 }), "probe: %s", hex(s.w.sent()).c_str());
			if (s.got[0].addr && p == P9141) PBT_CHECK(c, s.got[0].type == 0x68 && s.got[0].dest == 0x6a, "probe header %s", hex(s.got[0].raw).c_str());
			if (s.got[0].addr && p == PJ1850) PBT_CHECK(c, s.got[0].type == 0x68, "probe header %s", hex(s.got[0].raw).c_str());
		}
		if (!l3) { PBT_CHECK(c, lib_bytes() == linked, "failed start leaks"); PBT_CHECK(c, how == SILENT || diag_geterr() < 0, "failure without an error"); c.nontrivial(); }
		c.label("%s start %d", pname[p], how);
	}
	s.answer = nullptr;
	s.w.rx.clear(); s.w.frames.clear();
	unsigned ops = l3 ? c.range(1, 5) : 0;
	std::vector<Bytes> pending;            // unframed link: said but not delivered yet
	for (unsigned o = 0; o < ops; o++) {
		s.got.clear(); s.w.tx.clear(); s.acc.clear(); s.w.recv_err_after = -1;
		if (p != PRAW) { s.w.rx.clear(); s.w.frames.clear(); }
		(void)diag_geterr();
		size_t before = lib_bytes();
		if (p == PRAW && c.chance(3, 4)) {
			// the pieces of several responses, then as many receptions as it takes
			unsigned n = c.range(1, 4);
			Bytes all;
			for (unsigned i = 0; i < n; i++) { Bytes r = response(c); pending.push_back(r); all.insert(all.end(), r.begin(), r.end()); }
			if (c.chance(1, 8) && n == 1) all.pop_back();       // the end is missing for now
			uint64_t t = 0;
			unsigned calls = 4;
			for (size_t i = 0; i < all.size();) {
				size_t k = c.chance(1, 2) ? all.size() - i : (size_t)c.range(1, (long)(all.size() - i));
				if (k < all.size() - i) c.nontrivial();
				t += (uint64_t)c.range(0, 80) * 1000;
				s.w.ecu_frame(t, Bytes(all.begin() + i, all.begin() + i + k));
				i += k;
				calls += 2;
			}
			size_t missing = 0;
			for (auto &r : pending) missing += r.size();
			missing -= 0;
			c.note("unframed: %s", hex(all).c_str());
			std::vector<iso::Got> got;
			calls += pending.size();
			for (unsigned i = 0; i < calls; i++) {
				int rv = diag_l3_recv(l3, 100, iso::collect_cb, &got);
				PBT_CHECK(c, rv == 0 || rv == DIAG_ERR_TIMEOUT, "reception returned %d", rv);
				PBT_CHECK(c, got.size() <= pending.size(), "%zu messages for %zu responses", got.size(), pending.size());
			}
			size_t want = pending.size();
			size_t total = 0;
			for (auto &r : pending) total += r.size();
			if (all.size() + 0 < total && n == 1 && all.size() == pending.back().size() - 1) want--;
			PBT_CHECK(c, got.size() == want, "%zu messages delivered of %zu", got.size(), want);
			for (size_t i = 0; i < got.size(); i++) PBT_CHECK(c, got[i].data == pending[i], "message %zu is %s instead of %s", i, hex(got[i].data).c_str(), hex(pending[i]).c_str());
			if (want == pending.size()) pending.clear();
			else {                 // deliver the end
				s.w.ecu_frame(1000, { pending.back().back() });
				got.clear();
				for (unsigned i = 0; i < 3 && got.empty(); i++) diag_l3_recv(l3, 100, iso::collect_cb, &got);
				PBT_CHECK(c, got.size() == 1 && got[0].data == pending.back(), "completed message not delivered");
				pending.clear();
				c.label("RAW completed later");
			}
			c.label("RAW stream of %u", n);
			if (n > 1) c.nontrivial();
			continue;
		}
		unsigned op = c.weighted({ 2, 2, 6 });          // send, recv, request
		if (p == PRAW && op == 1) op = 2;
		Bytes m = c.bytes(c.range(1, 7));
		m[0] = (uint8_t)c.range(1, 9);
		Bytes keep = m;
		struct diag_msg msg;
		mkmsg(&msg, m);
		uint8_t msrc = c.chance(1, 3) ? (uint8_t)c.range(1, 255) : 0;
		msg.src = msrc;
		unsigned n = c.weighted({ 1, 6, 3, 2 });
		if (op == 0) n = 0;
		if (p == PRAW) n = std::min(n, 1u);
		std::vector<Say> ans;
		uint64_t t = 27000;
		for (unsigned i = 0; i < n; i++) {
			Say a;
			a.data = c.bytes(p == P9141 ? c.range(1, 7) : p == PRAW ? c.range(1, 40) : c.range(1, c.chance(1, 6) ? 60 : 8));
			if (p == P9141 && !itf.frame()) a.data = c.bytes(7);          // full length: split by length
			a.data[0] = p == P14230 && a.data[0] == 0x7f ? 0x41 : a.data[0];
			a.us = t;
			a.src = c.byte();
			if (!a.src) a.src = 1;
			t += (p == P14230 ? 10000 : p == P9141 ? 8000 : 20000) + (itf.frame() ? 0 : (a.data.size() + 4) * 1000);
			if (p == P14230 && !itf.frame()) t += 22000;
			ans.push_back(a);
		}
		enum { NONE, ERR, SENDERR } fault = (decltype(fault))c.weighted({ 8, 1, 1 });
		if (fault == SENDERR && op == 1) fault = NONE;
		if (fault == ERR && op == 0) fault = NONE;
		if (fault == ERR) { n = 0; ans.clear(); }
		s.expect = m.size();
		s.answer = op == 2 && fault == NONE ? std::function<std::vector<Say>(const Heard &)>([&](const Heard &) { return ans; }) : nullptr;
		auto ks = s.w.on_send;
		if (fault == SENDERR) s.w.on_send = [&](const Bytes &) { return (int)DIAG_ERR_BUSERROR; };
		if (fault == ERR) s.w.on_send = [&](const Bytes &b) {
			int rv = ks(b);
			if (!s.got.empty()) { s.w.recv_err = DIAG_ERR_BUSERROR; s.w.recv_err_after = itf.echo() ? 1 : 0; }
			return rv; };
		if (fault == ERR && op == 1) { s.w.recv_err = DIAG_ERR_BUSERROR; s.w.recv_err_after = 0; }
		if (n > 1 || fault) c.nontrivial();
		c.note("op %u %s src %02x fault %d", op, hex(m).c_str(), msrc, fault);
		for (auto &a : ans) c.note("  %llu us from %02x: %s", (unsigned long long)a.us, a.src, hex(a.data).c_str());
		std::vector<iso::Got> got;
		int rv = 0;
		uint64_t t0 = vos::now_us;
		if (op == 0) rv = diag_l3_send(l3, &msg);
		else if (op == 1) { for (auto &a : ans) s.say(a); rv = diag_l3_recv(l3, (unsigned)c.range(100, 400), iso::collect_cb, &got); }
		else {
			int e = 12345;
			struct diag_msg *r = diag_l3_request(l3, &msg, &e);
			if (r) { got = iso::chain(r); diag_freemsg(r); }
			else { PBT_CHECK(c, e < 0, "failure with error value %d", e); rv = e; }
		}
		s.w.on_send = ks;
		PBT_CHECK(c, m == keep && msg.len == keep.size(), "the caller's message was changed");
		PBT_CHECK(c, lib_bytes() == before, "memory leaked by operation %u", op);
		PBT_CHECK(c, vos::now_us - t0 < 5000000, "took too long");
		c.label("%s %s %u answers fault %d", pname[p], op == 0 ? "send" : op == 1 ? "recv" : "request", n, fault);
		if (op != 1 && fault != SENDERR) {
			PBT_CHECK(c, s.trouble().empty(), "%s", s.trouble().c_str());
			PBT_CHECK(c, s.got.size() == 1 && s.got[0].data == m, "transmitted %s", hex(s.w.sent()).c_str());
			const Heard &h = s.got[0];
			// the tester address given with the message, or one of the session's
			if (h.addr) PBT_CHECK(c, h.src == (p == P9141 || p == PJ1850 ? h.src : msrc ? msrc : op == 0 ? 0xf1 : s.src) || h.src == s.src, "tester address %02x", h.src);
			if (h.addr && p == P9141) PBT_CHECK(c, h.type == 0x68 && h.dest == 0x6a, "header %s", hex(h.raw).c_str());
			if (h.addr && p == PJ1850) PBT_CHECK(c, h.type == 0x68 && h.dest == tgt, "header %s", hex(h.raw).c_str());
			if (h.addr && p == P14230) PBT_CHECK(c, h.dest == tgt, "header %s", hex(h.raw).c_str());
		}
		if (fault) { PBT_CHECK(c, rv < 0 && got.empty(), "fault %d: result %d", fault, rv); continue; }
		if (op == 0) { PBT_CHECK(c, rv == 0, "send returned %d", rv); continue; }
		if (n == 0) { PBT_CHECK(c, rv == DIAG_ERR_TIMEOUT && got.empty(), "silence gave %d", rv); continue; }
		PBT_CHECK(c, rv == 0 && got.size() == n, "%zu messages for %u answers (result %d)", got.size(), n, rv);
		for (unsigned i = 0; i < n; i++) {
			PBT_CHECK(c, got[i].data == ans[i].data, "answer %u is %s instead of %s", i, hex(got[i].data).c_str(), hex(ans[i].data).c_str());
			if (p != PRAW && !itf.nohdr()) PBT_CHECK(c, got[i].src == ans[i].src, "answer %u comes from %02x instead of %02x", i, got[i].src, ans[i].src);
		}
	}
	if (l3) diag_l3_stop(l3);
	PBT_CHECK(c, lib_bytes() == linked, "session leaks");
	s.answer = nullptr;
	diag_l2_StopCommunications(s.d);
	PBT_CHECK(c, diag_l2_close(&s.dev) == 0, "close failed");
	PBT_CHECK(c, lib_bytes() == base, "memory leaked");
}
