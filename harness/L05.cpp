// LINK: vos wire
// Line settings and quiet times on the bus: P3min before each message, P4 between its bytes.
#include "sess.hpp"
extern "C" {
#include "diag_l3.h"
}
using namespace pbt;
using namespace wire;
using namespace sess;
const char *pbt::prop_id = "L05";
const char *pbt::prop_rule = "connections of every protocol with quiet times over any suitable interface, at the protocol's or any other speed, with or without a session, and 2-14 steps of requests of 1-20 bytes, sends and receptions, answers of 0-3 ECUs (ISO 14230; else 0 or 1), keep-alives and pauses of 0-4 s; "
	"non-trivial = at least two messages were sent after the connection was made, one within 100 ms of an answer";
unsigned pbt::quick_cases = 40000, pbt::thorough_cases = 1000000;

void pbt::property(Ctx &c) {
	init_lib();
	P p = (P)c.weighted({ 5, 4, 0, 0, 3, 2, 0 });
	iso::If itf = Sess::pick_itf(c, p);
	Sess s(p, itf);
	Wire &w = s.w;
	s.idle1978 = p == P14230 && c.chance(1, 3);
	s.bitrate = c.chance(1, 2) ? 0 : c.pick({ 10400u, 9600u, 4800u, 1200u, 19200u, 115200u, 1u }) + c.draw(3);
	unsigned speed = s.bitrate ? s.bitrate : p == PMB1 ? 9600 : 10400;
	bool ok = s.start(c, c.byte());
	if (!ok) c.fail("harness: %s over %s did not start", pname[p], itf.name);
	c.note("%s over %s flags %x speed %u", pname[p], itf.name, w.flags, s.bitrate);
	// the line's settings
	unsigned nset = 0;
	for (auto &i : w.ioctls) if (i.cmd == DIAG_IOCTL_SETSPEED) {
		struct diag_serial_settings ss;
		memcpy(&ss, i.arg.data(), sizeof ss);
		nset++;
		PBT_CHECK(c, ss.speed == speed, "%s: asked for %u bps, the interface is set to %u", pname[p], s.bitrate, ss.speed);
		PBT_CHECK(c, ss.databits == diag_databits_8 && ss.stopbits == diag_stopbits_1 && ss.parflag == diag_par_n, "%s: the interface is set to %u data bits, %u stop bits, parity %u", pname[p], ss.databits, ss.stopbits, ss.parflag);
	}
	PBT_CHECK(c, nset || (w.flags & DIAG_L1_AUTOSPEED), "%s over %s: no speed was set", pname[p], itf.name);
	c.label("%s over %s", pname[p], itf.name);
	// messages
	bool own_p4 = (w.flags & (DIAG_L1_DOESP4WAIT | DIAG_L1_DOESL2FRAME)) != 0;
	w.byte_us = itf.frame() ? 0 : c.pick({ 960u, 1042u, 87u });
	uint64_t quiet = w.arrived;          // end of the vehicle's last byte
	size_t seen = 0;
	unsigned msgs = 0, close = 0;
	bool l3ka = false;
	unsigned necu = c.weighted({ 1, 8, 2, 1 });
	if (p != P14230) necu = std::min(necu, 1u);
	s.answer = [&](const Heard &h) {
		std::vector<Say> v;
		uint64_t t = 0;
		for (unsigned i = 0; i < necu; i++) {
			Say y;
			t += c.pick({ 26000, 30000, 45000, 34000 });
			y.us = t;
			y.data = { (uint8_t)(h.data[0] | 0x40) };
			y.data.insert(y.data.end(), h.data.begin() + 1, h.data.end());
			if (y.data.size() > 7) y.data.resize(7);
			while (y.data.size() < 5) y.data.push_back(0x55);
			y.src = i ? 0x60 + i : 0;
			v.push_back(y);
			t += 12000;
		}
		return v;
	};
	// whole messages among the transmissions since the last look
	auto look = [&](const char *what, uint64_t before) {
		uint64_t prev_end = 0;
		bool in = false;
		for (; seen < w.tx.size(); seen++) {
			auto &t = w.tx[seen];
			uint64_t end = t.t + w.byte_us * t.data.size();
			bool first = !in || own_p4;
			// an operation sends one message; L1 sends it whole or byte by byte
			if (first) {
				msgs++;
				if (before && t.t < before + 100000) close++;
				PBT_CHECK(c, !before || t.t >= before + 54000, "%s over %s: %s %s %llu us after the vehicle's last byte", pname[p], itf.name, what, hex(t.data).c_str(), (unsigned long long)(t.t - before));
			} else {
				PBT_CHECK(c, t.t >= prev_end + 4500, "%s over %s: %s: bytes %llu us apart", pname[p], itf.name, what, (unsigned long long)(t.t - prev_end));
				PBT_CHECK(c, t.t <= prev_end + 20000, "%s over %s: %s: bytes %llu us apart", pname[p], itf.name, what, (unsigned long long)(t.t - prev_end));
			}
			PBT_CHECK(c, own_p4 || t.data.size() == 1, "%s over %s: %s: %zu bytes without a pause on an interface that does not make one", pname[p], itf.name, what, t.data.size());
			in = true;
			prev_end = end;
		}
		quiet = std::max(quiet, w.arrived);
	};
	struct diag_l3_conn *l3 = nullptr;
	if ((p == P14230 || p == P9141) && c.chance(1, 3)) {
		s.expect = 2;
		bool n = necu == 0;
		if (n) necu = 1;
		l3 = diag_l3_start("SAEJ1979", s.d);
		if (n) necu = 0;
		PBT_CHECK(c, l3, "no session; the vehicle said%s", hex(w.seen).c_str());
		look("the session's first request", quiet);
		l3ka = true;
		c.label("session");
	}
	unsigned n = c.range(2, 14);
	for (unsigned st = 0; st < n; st++) {
		unsigned ms = c.weighted({ 3, 2, 2, 1 });
		ms = ms == 0 ? 0 : ms == 1 ? c.draw(10) : ms == 2 ? c.draw(120) : c.draw(4000);
		if (ms) vos::advance(ms * 1000ull);
		if (c.chance(1, 4)) {
			s.expect = 2;
			if (l3) diag_l3_timer();
			size_t k = w.tx.size();
			if (k > seen) look("the session's keep-alive", quiet);
			diag_l2_timer();
			if (w.tx.size() > seen) { look("the keep-alive", quiet); c.label("keep-alive"); }
			continue;
		}
		Bytes m = c.bytes(c.range(p == PMB1 ? 2 : 1, p == P9141 ? 7 : 20));
		m[0] = c.pick<uint8_t>({ 1, 0x21, 0x22, 0xa5 });
		s.expect = m.size();
		struct diag_msg msg;
		mkmsg(&msg, m);
		int e = 0;
		if (c.chance(1, 2)) {
			struct diag_msg *r = l3 ? diag_l3_request(l3, &msg, &e) : diag_l2_request(s.d, &msg, &e);
			if (r) diag_freemsg(r);
			c.note("request %zu bytes: %s", m.size(), r ? "answered" : "no answer");
			look("request", quiet);
		} else {
			int rv = l3 ? diag_l3_send(l3, &msg) : diag_l2_send(s.d, &msg);
			PBT_CHECK(c, rv == 0, "send fails (%d)", rv);
			look("message", quiet);
			auto cb = [](void *, struct diag_msg *) {};
			if (l3) diag_l3_recv(l3, 400, cb, nullptr); else diag_l2_recv(s.d, 400, cb, nullptr);
			c.note("send %zu bytes", m.size());
		}
		look("reception", quiet);
		std::string t = s.trouble();
		PBT_CHECK(c, t.empty(), "%s: %s", pname[p], t.c_str());
	}
	if (l3) diag_l3_stop(l3);
	look("the session's end", quiet);
	diag_l2_StopCommunications(s.d);
	look("the connection's end", quiet);
	diag_l2_close(&s.dev);
	(void)l3ka;
	if (msgs >= 2 && close) c.nontrivial();
}
