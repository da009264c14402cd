// LINK: vos wire
// Keep-alives: timer ticks against a model of each connection's idle time.
#include "sess.hpp"
#include <memory>
extern "C" {
#include "diag_l3.h"
}
using namespace pbt;
using namespace wire;
using namespace sess;
const char *pbt::prop_id = "L03";
const char *pbt::prop_rule = "1-3 simultaneous connections of any protocol over any suitable interface (monitor mode, interfaces with own keep-alive, application sessions included), then 4-30 steps of pauses, "
	"timer ticks, sends, receptions, requests, session ends, with vehicles that answer or stay silent; non-trivial = at least one keep-alive was due and at least one tick came too early for one";
unsigned pbt::quick_cases = 30000, pbt::thorough_cases = 400000;

namespace {
struct Conn {
	Sess s;
	struct diag_l3_conn *l3 = nullptr;
	const char *l3n = "";
	bool keeps = false, l3keeps = false;
	unsigned interval = 3333;
	uint64_t lo = 0, hi = 0, lo3 = 0, hi3 = 0;       // last activity, somewhere in lo..hi
	bool open = true;
	bool sendfails = false;                          // the interface refuses to send
	Conn(P p, iso::If i) : s(p, i) {}
	void fresh(bool l2, bool l3) { if (l2) lo = hi = vos::now_us; if (l3) lo3 = hi3 = vos::now_us; }
	void maybe(bool l2, bool l3) { if (l2) hi = vos::now_us; if (l3) hi3 = vos::now_us; }
};
std::vector<Say> reply(P p, const Heard &r) {
	Bytes d;
	if (p == PVAG) { d = { 9 }; return { { 30000, d, 0 } }; }
	d = { (uint8_t)(r.data[0] | 0x40) };
	d.insert(d.end(), r.data.begin() + 1, r.data.end());
	for (int i = 0; i < 3 && d.size() < 6; i++) d.push_back(i);
	return { { 30000, d, 0 } };
}
}

void pbt::property(Ctx &c) {
	init_lib();
	size_t base = lib_bytes();
	std::vector<std::unique_ptr<Conn>> v;
	unsigned n = c.weighted({ 3, 3, 1 }) + 1;
	for (unsigned i = 0; i < n; i++) {
		P p = (P)c.weighted({ 5, 3, 3, 3, 3, 4, 1 });
		v.emplace_back(new Conn(p, Sess::pick_itf(c, p)));
		Conn &k = *v.back();
		Sess &s = k.s;
		if (c.chance(1, 8)) s.w.flags = (s.itf.flags ^= DIAG_L1_DOESKEEPALIVE);
		s.monitor = (p == P14230 || p == P9141) && c.chance(1, 6);
		s.idle1978 = p == P14230 && c.chance(1, 3);
		s.answer = [p](const Heard &r) { return reply(p, r); };
		uint8_t tgt = c.byte();
		Conn *kp = &k;
		if (!s.start(c, tgt)) c.fail("harness: %s over %s did not start", pname[p], s.itf.name);
		auto bus = s.w.on_send;
		s.w.on_send = [kp, bus](const Bytes &b) { return kp->sendfails ? (int)DIAG_ERR_GENERAL : bus ? bus(b) : 0; };
		bool own = s.w.flags & DIAG_L1_DOESKEEPALIVE;
		k.keeps = (p == P14230 || p == PD2 || p == PMB1 || p == PVAG) && !own && !s.monitor;
		if (p == PVAG) k.interval = 500;
		if (p == PMB1) k.interval = 666;
		k.fresh(true, true);
		if (!s.monitor && (p == P14230 || p == P9141 || p == PJ1850) && c.chance(2, 3)) {
			k.l3n = p == P14230 && c.chance(1, 3) ? "ISO14230" : "SAEJ1979";
			k.l3 = diag_l3_start(k.l3n, s.d);
			PBT_CHECK(c, k.l3, "%s session over %s did not start", k.l3n, pname[p]);
			k.l3keeps = !strcmp(k.l3n, "SAEJ1979") && p != P14230 && !own;
			k.fresh(k.l3n[0] == 'S', true);
		}
		c.note("connection %u: %s over %s flags %x target %02x%s %s", i, pname[p], s.itf.name, s.w.flags, tgt, s.monitor ? " monitor" : "", k.l3n);
		c.label("%s%s %s%s", pname[p], s.monitor ? " monitor" : "", k.l3n, own ? " own keep-alive" : "");
	}
	bool due = false, early = false;
	unsigned steps = c.range(4, 30);
	for (unsigned st = 0; st < steps; st++) {
		unsigned op = c.weighted({ 6, 8, 4, 1 });
		if (op == 0) {
			unsigned ms = c.pick({ 100u, 300u, 300u, 450u, 560u, 1000u, 3200u, 3450u, 3700u, 10000u }) + c.draw(40);
			c.note("wait %u ms", ms);
			vos::advance(ms * 1000ull);
			continue;
		}
		if (op == 1) {
			// one run of the periodic timer: first the sessions, then the links
			for (auto &k : v) { k->s.got.clear(); k->s.w.tx.clear(); }
			for (int layer = 3; layer >= 2; layer--) {
				uint64_t t = vos::now_us;
				c.note("tick L%d at %llu", layer, (unsigned long long)t / 1000);
				if (layer == 3) diag_l3_timer(); else diag_l2_timer();
				for (size_t i = 0; i < v.size(); i++) {
					Conn &k = *v[i];
					Sess &s = k.s;
					bool keeps = k.open && (layer == 3 ? k.l3 && k.l3keeps : k.keeps);
					uint64_t lo = layer == 3 ? k.lo3 : k.lo, hi = layer == 3 ? k.hi3 : k.hi;
					unsigned iv = layer == 3 ? 3500 : k.interval;
					bool must = keeps && t - hi > (iv + 20) * 1000ull, mustnot = !keeps || t - lo < (iv - 20) * 1000ull;
					if (must) due = true;
					if (keeps && mustnot) early = true;
					size_t sent = s.w.tx.size();
					if (mustnot) PBT_CHECK(c, sent == 0, "connection %zu (%s): keep-alive %s sent after %llu ms idle (L%d)", i, pname[s.p], hex(s.w.sent()).c_str(), (unsigned long long)(t - lo) / 1000, layer);
					if (must) PBT_CHECK(c, sent, "connection %zu (%s): no keep-alive after %llu ms idle (L%d)", i, pname[s.p], (unsigned long long)(t - hi) / 1000, layer);
					if (!sent) continue;
					c.label("keep-alive %s L%d%s", pname[s.p], layer, s.silent ? " silent" : "");
					if (!(s.silent && s.p == PVAG)) {
						PBT_CHECK(c, s.got.size() == 1, "connection %zu (%s): %zu keep-alives: %s", i, pname[s.p], s.got.size(), hex(s.w.sent()).c_str());
						const Heard &r = s.got[0];
						Bytes want = layer == 3 ? Bytes{ 1, 0 } : s.p == P14230 ? s.idle1978 ? Bytes{ 1, 0 } : Bytes{ 0x3e } : s.p == PD2 ? Bytes{ 0xa1 } : s.p == PMB1 ? Bytes{ 0x50, 1 } : Bytes{ 9 };
						PBT_CHECK(c, r.data == want, "connection %zu (%s): keep-alive is %s", i, pname[s.p], hex(r.raw).c_str());
						if (r.addr && (s.p == P14230 || s.p == PD2)) PBT_CHECK(c, r.dest == s.tgt && r.src == s.src, "keep-alive addressed %02x>%02x", r.src, r.dest);
					}
					if (!s.silent) { k.fresh(true, layer == 3); k.lo = t; if (layer == 3) k.lo3 = t; }
					else k.maybe(true, layer == 3);
					s.got.clear(); s.w.tx.clear();
					s.w.rx.clear(); s.w.frames.clear();
				}
			}
			for (auto &k : v) PBT_CHECK(c, k->s.silent || k->s.trouble().empty(), "%s", k->s.trouble().c_str());
			continue;
		}
		Conn &k = *v[c.draw(v.size())];
		Sess &s = k.s;
		if (!k.open) continue;
		if (op == 3) {
			if (k.l3 && c.chance(1, 2)) { c.note("end session"); diag_l3_stop(k.l3); k.l3 = nullptr; k.l3keeps = false; continue; }
			if (c.chance(1, 2)) { s.silent = !s.silent && s.p != PVAG; c.note("silent %d", s.silent); continue; }
			c.note("stop %s", pname[s.p]);
			if (k.l3) { diag_l3_stop(k.l3); k.l3 = nullptr; }
			diag_l2_StopCommunications(s.d);
			k.open = false;
			continue;
		}
		// traffic
		Bytes m = { c.pick<uint8_t>({ 0x21, 0x22, 0xa5, 1 }), c.byte() };
		struct diag_msg msg;
		mkmsg(&msg, m);
		bool via3 = k.l3 && c.chance(2, 3);
		unsigned kind = c.weighted({ 1, 2, 4 });
		if (s.p == PVAG) { kind = 2; m.clear(); mkmsg(&msg, m); msg.type = 5; }
		if (s.monitor && s.p == P14230 && kind != 1) kind = 1;
		bool was = s.silent;
		int rv = 0, e = 0;
		uint64_t t0 = vos::now_us, arr0 = s.w.arrived;
		if (kind != 1 && s.p != PVAG && c.chance(1, 6)) k.sendfails = true;
		bool refused = k.sendfails;
		if (kind == 0) {
			s.silent = true;               // the answer is not collected
			rv = via3 ? diag_l3_send(k.l3, &msg) : diag_l2_send(s.d, &msg);
			s.silent = was;
		} else if (kind == 1) {
			if (!s.silent && !c.chance(1, 4)) s.say({ 20000, { 0x41, 0, 1, 2, 3, 4 }, 0 });
			rv = via3 ? diag_l3_recv(k.l3, 300, NULL, NULL) : diag_l2_recv(s.d, 300, NULL, NULL);
		} else {
			struct diag_msg *r = via3 ? diag_l3_request(k.l3, &msg, &e) : diag_l2_request(s.d, &msg, &e);
			rv = r ? 0 : -1;
			if (r) diag_freemsg(r);
		}
		c.note("%s on %s%s: %d", kind == 0 ? "send" : kind == 1 ? "recv" : "request", pname[s.p], via3 ? " (session)" : "", rv);
		c.label("traffic %s %s %s", pname[s.p], kind == 0 ? "send" : kind == 1 ? "recv" : "request", rv ? "fails" : "ok");
		if (rv == 0) { k.fresh(true, via3); k.maybe(false, true); } else if (s.p == PVAG) k.maybe(true, true);
		else {
			// what failed counts from the last byte on the bus, if there was any
			uint64_t last = 0;
			if (!refused) for (auto &x : s.w.tx) if (x.t >= t0) last = std::max<uint64_t>(last, x.t + s.w.byte_us * x.data.size() + 60000);
			if (s.w.arrived > arr0) last = std::max<uint64_t>(last, s.w.arrived + 60000);
			last = std::min(last, vos::now_us);
			k.hi = std::max(k.hi, last);
			k.hi3 = std::max(k.hi3, last);
			c.label("failed traffic%s", refused ? ", refused" : last ? "" : ", bus idle");
		}
		k.sendfails = false;
		s.w.rx.clear(); s.w.frames.clear(); s.got.clear(); s.w.tx.clear(); s.acc.clear(); s.ie.acc.clear();
	}
	if (due && early) c.nontrivial();
	for (auto &k : v) {
		if (k->open) { if (k->l3) diag_l3_stop(k->l3); diag_l2_StopCommunications(k->s.d); }
		PBT_CHECK(c, diag_l2_close(&k->s.dev) == 0, "close failed");
	}
	for (auto &k : v) k->s.w.tx.clear();
	vos::advance(20000000);
	diag_l3_timer(); diag_l2_timer();
	for (auto &k : v) PBT_CHECK(c, k->s.w.tx.empty(), "keep-alive after the end");
	PBT_CHECK(c, lib_bytes() == base, "memory leaked: %ld", (long)(lib_bytes() - base));
}
