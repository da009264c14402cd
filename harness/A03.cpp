// LINK: vos wire vtty_stub
// LIBS: app
// The generic link commands (connect, addl3, sendreq, read, probe, disconnect ...) against generated vehicles.
#include "car.hpp"
#include <regex>
#include <set>
using namespace pbt;
using namespace car;
using namespace wire;
const char *pbt::prop_id = "A03";
const char *pbt::prop_rule = "histories of 3-14 diag commands (connect, sendreq, read, addl3, reml3, probe, fastprobe, disconnect, with legal and illegal arguments) with any link protocol, initialisation, addresses and suitable interface, "
	"and a vehicle that may be absent, answers any subset of addresses to probes and gives 0-3 answers of any content; non-trivial = a connection was made and at least two requests were answered on it";
unsigned pbt::quick_cases = 12000, pbt::thorough_cases = 200000;

namespace {
typedef std::vector<std::string> V;
struct Init { int kind; uint8_t addr; bool func; uint8_t src; };      // 0 = 5 baud, 1 = fast
struct Veh {
	Ctx &c;
	Sess s;
	bool absent = false, here = true, pend = false;
	bool slow = false, fast = false;
	std::set<uint8_t> alive;
	uint8_t cur = 0, kb9 = 8, kbf[2] = { 8, 0x8f };
	std::vector<Say> greets;             // said right after the start of communications
	std::vector<Init> inits;
	std::vector<int> opened;
	bool ready = false;
	Bytes raw;
	std::vector<Bytes> blocks;           // VAG: what is still to be said
	std::function<std::vector<Bytes>()> say;
	Veh(Ctx &c_, P p, iso::If i) : c(c_), s(p, i) {
		s.w.on_open = [this](int proto) { opened.push_back(proto); return here ? 0 : (int)DIAG_ERR_PROTO_NOTSUPP; };
		s.w.on_ioctl = [this](unsigned cmd, void *arg) -> int {
			if (cmd == DIAG_IOCTL_IFLUSH) { s.w.rx.clear(); return 0; }
			if (cmd != DIAG_IOCTL_INITBUS) return 0;
			auto *in = (struct diag_l1_initbus_args *)arg;
			if (in->type != DIAG_L1_INITBUS_5BAUD) {
				vos::advance(50000);
				if (!full()) return 0;
				inits.push_back({ 1, in->addr, !in->physaddr, in->testerid });
				cur = in->addr;
				if (!absent && !slow && alive.count(cur)) for (auto &g : greets) { Say x = g; x.us += 130000; s.say(x); }
				return absent || slow || !alive.count(cur) ? (int)DIAG_ERR_TIMEOUT : 0;
			}
			vos::advance(2000000);
			inits.push_back({ 0, in->addr, false, in->testerid });
			cur = s.p == PD2 ? in->addr & 0x7f : in->addr;
			if (absent || !alive.count(cur)) return DIAG_ERR_TIMEOUT;
			return greet(in);
		};
		s.ie.on_frame = [this](const iso::Frame &f) { on14230(f); };
		s.ve.on_block = [this](uint8_t t, const Bytes &b) {
			Bytes x = { t };
			x.insert(x.end(), b.begin(), b.end());
			if (t == 6) return;
			if (!ready) { s.ve.send(9, {}); return; }
			if (t != 9 || blocks.empty()) s.got.push_back({ false, t, 0, 0, x, x });
			if (t != 9 && say) blocks = say();
			Bytes r = { 9 };
			if (!blocks.empty()) { r = blocks[0]; blocks.erase(blocks.begin()); if (blocks.empty() && r[0] != 9) blocks.push_back({ 9 }); }
			s.ve.send(r[0], Bytes(r.begin() + 1, r.end()));
		};
		auto fr = s.w.on_send;
		s.w.on_send = [this, fr](const Bytes &b) {
			if (pend) {
				pend = false;
				Bytes x = { (uint8_t)~cur };
				if (s.p == P9141 || s.p == P14230) { if (s.itf.frame()) s.w.ecu_frame(30000, x); else s.w.ecu_bytes(30000, x); }
				if (s.p == PVAG) { s.ve.tseq = 0; s.ve.send(0xf6, { 1, 2, 3 }); }
				return 0;
			}
			if (s.p == PRAW) {
				raw.insert(raw.end(), b.begin(), b.end());
				if (raw.size() >= s.expect) { Bytes m = raw; raw.clear(); s.heard({ false, 0, 0, 0, m, m }); }
				return 0;
			}
			if (s.p == PVAG) s.ve.rx(b); else if (s.p == P14230) fr(b); else s.feed(b);
			return 0;
		};
	}
	bool full() const { return s.w.flags & DIAG_L1_DOESFULLINIT; }
	bool blind() const { return s.itf.dataonly() && !full(); }         // the vehicle does not see addresses
	int greet(struct diag_l1_initbus_args *in) {
		static const uint8_t kb[NP][2] = { { 8, 0x8f }, { 8, 8 }, { 0, 0 }, { 1, 0x8a }, { 0xc2, 0xcd }, { 0xd3, 0xb0 }, { 0, 0 } };
		in->kb1 = kb[s.p][0]; in->kb2 = kb[s.p][1];
		if (s.p == P9141) in->kb1 = in->kb2 = kb9;
		if (s.p == P9141) for (auto &g : greets) { Say x = g; x.us += full() ? 50000 : (s.w.flags & DIAG_L1_DOESSLOWINIT) ? 70000 : 120000; s.say(x); }
		pend = !full() && !((s.w.flags & DIAG_L1_DOESSLOWINIT) && s.p != PVAG) && s.p != PMB1;
		if (s.p == PD2) pend = false;
		Bytes k;
		if (!full()) k = { s.p == P14230 ? (uint8_t)0x88 : in->kb1, in->kb2 };
		if (s.itf.frame() && s.p == P14230) { if (!k.empty()) s.w.ecu_frame(10000, k); }
		else { uint64_t t = 10000; for (uint8_t x : k) { if (s.itf.frame()) s.w.ecu_frame(t, { x }); else s.w.ecu_bytes(t, { x }); t += 10000; } }
		return 0;
	}
	void on14230(const iso::Frame &f) {
		if (f.data == Bytes{ 0x81 }) {
			inits.push_back({ 1, f.dest, f.func, f.src });
			if (slow) return;
			cur = f.dest;
			if (s.itf.dataonly()) cur = s.tgt;
			if (!absent && (s.itf.dataonly() || alive.count(cur))) { s.say({ 30000, { 0xC1, kbf[0], kbf[1] }, cur }); for (auto &g : greets) { Say x = g; x.us += s.itf.frame() ? 330000 : 260000; s.say(x); } }
			return;
		}
		if (f.data == Bytes{ 0x82 }) { s.say({ 30000, { 0xC2 }, cur }); return; }
		s.heard({ f.addr, (uint8_t)f.func, f.dest, f.src, f.data, iso::encode(f) });
	}
};
// data of every message printed
std::vector<Bytes> printed(const std::string &o, std::vector<int> *srcs = nullptr) {
	std::vector<Bytes> v;
	static const std::regex h("^msg [0-9]+ src=0x([0-9A-Fa-f]+) dest=0x([0-9A-Fa-f]+)$"), d("^msg [0-9]+ data: ?(.*)$"), x("0x([0-9A-Fa-f]{1,2})");
	for (auto &l : lines(o)) {
		std::smatch m;
		if (std::regex_search(l, m, h) && srcs) srcs->push_back((int)strtol(m[1].str().c_str(), nullptr, 16));
		if (!std::regex_search(l, m, d)) continue;
		Bytes b;
		std::string r = m[1];
		for (auto it = std::sregex_iterator(r.begin(), r.end(), x); it != std::sregex_iterator(); ++it) b.push_back((uint8_t)strtol((*it)[1].str().c_str(), nullptr, 16));
		v.push_back(b);
	}
	return v;
}
std::string list(const std::vector<Bytes> &v) { std::string s; for (auto &b : v) s += "[" + hex(b) + "] "; return s; }
}

void pbt::property(Ctx &c) {
	PBT_CHECK(c, diag_init() == 0, "diag_init failed");
	set_init();
	P p = (P)c.weighted({ 6, 4, 3, 3, 2, 2, 2 });
	bool slow = p == P14230 && c.chance(1, 3), func = c.chance(1, 2), mon = (p == P14230 || p == P9141) && c.chance(1, 12);
	iso::If itf = Sess::pick_itf(c, p);
	bool rawp = p == P9141 && !itf.frame() && !itf.nohdr() && !mon && c.chance(1, 2);        // only probed
	if (p == P9141 && !itf.frame() && !rawp) { while (!itf.frame()) itf = Sess::pick_itf(c, p); }       // as the interfaces in use with it; raw ones split by timing
	if (slow && itf.dataonly()) slow = false;
	Veh v(c, p, itf);
	Sess &s = v.s;
	s.tgt = p == P9141 ? 0x33 : p == PJ1850 ? 0x6a : (uint8_t)c.range(1, p == PD2 ? 127 : 255);
	s.src = c.chance(1, 2) ? 0xf1 : (uint8_t)c.range(1, 255);
	if (s.tgt == s.src) s.src ^= 0x40;
	v.slow = slow;
	v.absent = c.chance(1, 6);
	v.here = !c.chance(1, 12);
	s.monitor = mon;
	if (global_dl0d) diag_l0_del(global_dl0d);
	global_dl0d = &s.dev;
	global_cfg.L1proto = p == PRAW ? DIAG_L1_RAW : p == PJ1850 ? (c.chance(1, 2) ? DIAG_L1_J1850_VPW : DIAG_L1_J1850_PWM) : p == P14230 ? DIAG_L1_ISO14230 : DIAG_L1_ISO9141;
	global_cfg.L2proto = l2p[p];
	global_cfg.initmode = mon ? DIAG_L2_TYPE_MONINIT : p == P14230 && !slow ? DIAG_L2_TYPE_FASTINIT : DIAG_L2_TYPE_SLOWINIT;
	global_cfg.addrtype = func;
	global_cfg.tgt = s.tgt;
	global_cfg.src = s.src;
	global_cfg.speed = c.pick({ 10400u, 10400u, 9600u, 4800u, 10416u, 38400u });
	if (p == PVAG || p == PD2 || p == PMB1) global_cfg.speed = c.pick({ 10400u, 9600u });
	v.kb9 = c.pick<uint8_t>({ 8, 0x94 });
	if (c.chance(1, 2)) { v.kbf[0] = c.pick<uint8_t>({ 8, 0x0b, 0x0f, 0x88 }); v.kbf[1] = c.chance(3, 4) ? 0x8f : c.byte(); }
	c.label(pname[p]);
	Ecu ecu = pick_ecu(c, s.tgt);
	// what the vehicle says to the next request
	std::vector<Bytes> says;
	std::vector<int> from;
	bool obd = false;
	s.answer = [&](const Heard &h) {
		std::vector<Say> r;
		uint64_t t = 27000;
		std::vector<Bytes> m = says;
		if (obd || (h.data.size() && h.data == Bytes{ 1, 0 } && says.empty())) { m = reply(ecu, h.data); if (!m.empty()) from.assign(m.size(), s.tgt); says = m; }
		for (size_t i = 0; i < m.size(); i++) {
			Say a;
			a.data = m[i]; a.us = t; a.src = (uint8_t)from[i];
			t += (p == P14230 ? 10000 : p == P9141 ? 8000 : 5000) + (itf.frame() ? 0 : (m[i].size() + 4) * 1000);
			if (p == P14230 && !itf.frame()) t += 22000;
			r.push_back(a);
		}
		return r;
	};
	v.say = [&]() { return says; };
	int state = 0;                     // 0 closed, 1 connected, 2 with L3
	int l3 = 0;                        // 1 J1979, 2 ISO14230, 3 VAG
	bool linkprobe = false;
	unsigned answered = 0, conns = 0;
	auto mix = [&](std::string x) { for (auto &ch : x) if (c.chance(1, 4)) ch = (char)(isupper(ch) ? tolower(ch) : toupper(ch)); return x; };
	auto num = [&](unsigned b) { return fmt(c.pick({ "0x%x", "%u", "0%o", "$%X", "0x%02X" }), b); };
	auto can_l3 = [&]() { return p == P14230 || p == P9141 || p == PJ1850; };
	unsigned n = c.range(3, 14);
	std::string hist;
	for (unsigned step = 0; step < n; step++) {
		c.reset_captured();
		s.w.tx.clear(); s.got.clear(); v.inits.clear(); v.opened.clear();
		s.w.rx.clear(); s.w.frames.clear(); s.w.ioctls.clear();
		says.clear(); from.clear(); obd = false;
		if (c.chance(1, 2)) vos::advance(c.range(1, 400) * 1000);
		V w;
		unsigned what = state == 0 ? c.weighted({ 9, 1, 1, 1, 1, p == P9141 || p == P14230 ? 3u : 0u, 1 }) : c.weighted({ 1, 12, 3, state == 1 ? 4u : 1u, state == 2 ? 3u : 1u, 1, 2 });
		if (step == 0) what = c.chance(1, 5) ? what : 0;
		if (rawp) what = state ? 6 : 5;
		auto run = [&]() { std::string t; for (auto &x : w) t += x + " "; hist += t + "; "; c.note("%s", t.c_str()); command(diag_cmd_table, w); std::string o = c.captured(); return o; };
		auto quiet = [&](const std::string &o) { PBT_CHECK(c, s.w.tx.empty() && v.inits.empty(), "%s transmitted %s\n%s", w[0].c_str(), hex(s.w.sent()).c_str(), o.c_str()); };
		auto has = [](const std::string &o, const char *x) { return o.find(x) != std::string::npos; };
		auto checkstate = [&](const std::string &o) {
			PBT_CHECK(c, s.w.is_open == (state > 0), "the interface is %s after %s\n%s", s.w.is_open ? "open" : "closed", hist.c_str(), o.c_str());
			PBT_CHECK(c, (global_l2_conn != nullptr) == (state > 0) && (global_l3_conn != nullptr) == (state == 2), "connections l2 %d l3 %d instead of %d %d after %s", !!global_l2_conn, !!global_l3_conn, state > 0, state == 2, hist.c_str());
			PBT_CHECK(c, global_state == (state == 0 ? STATE_IDLE : state == 1 ? STATE_CONNECTED : STATE_L3ADDED), "state is %d instead of %d after %s", (int)global_state, state, hist.c_str());
			PBT_CHECK(c, s.trouble().empty(), "vehicle saw: %s", s.trouble().c_str());
		};
		auto checkspeed = [&](const std::string &o) {
			if (p == PJ1850 || (s.w.flags & (DIAG_L1_AUTOSPEED | DIAG_L1_NOTTY))) return;
			struct diag_serial_settings ss;
			ss.speed = 0;
			for (auto &i : s.w.ioctls) if (i.cmd == DIAG_IOCTL_SETSPEED && i.arg.size() >= sizeof ss) memcpy(&ss, i.arg.data(), sizeof ss);
			PBT_CHECK(c, ss.speed == global_cfg.speed, "the line runs at %u instead of %u bps\n%s", ss.speed, global_cfg.speed, o.c_str());
		};
		switch (what) {
		case 0: {        // connect
			w = { "connect" };
			if (c.chance(1, 15)) { w.push_back(c.pick<std::string>({ "?", "now" })); std::string o = run(); quiet(o); PBT_CHECK(c, v.opened.empty(), "connect with an argument opened the interface"); checkstate(o); break; }
			v.alive = { s.tgt };
			v.ready = false;
			bool silent = p == PJ1850 || p == PRAW || mon;
			bool want = state == 0 && v.here && (silent || !v.absent);
			std::string o = run();
			if (state) {
				quiet(o);
				PBT_CHECK(c, has(o, "Already connected"), "connect while connected said\n%s", o.c_str());
				v.ready = true;
			} else {
				PBT_CHECK(c, v.opened == std::vector<int>{ (int)global_cfg.L1proto }, "opened %zu times, protocol %x", v.opened.size(), v.opened.empty() ? 0 : v.opened[0]);
				PBT_CHECK(c, has(o, "Connection to ECU established!") == want && has(o, "Connection to ECU failed") == !want, "connect should %s\n%s", want ? "succeed" : "fail", o.c_str());
				bool init = v.here && !silent;
				if (silent || !v.here) { PBT_CHECK(c, v.inits.empty() && s.w.tx.empty(), "bus initialised though not asked: %s", hex(s.w.sent()).c_str()); }
				else if (init) {
					PBT_CHECK(c, v.inits.size() == 1, "%zu initialisations", v.inits.size());
					Init &i = v.inits[0];
					bool wf = p == P14230 && !slow;
					PBT_CHECK(c, i.kind == (wf ? 1 : 0), "wrong kind of initialisation");
					uint8_t a = p == PD2 ? i.addr & 0x7f : i.addr;
					if (!(wf && v.blind())) PBT_CHECK(c, a == s.tgt, "initialised address %02x instead of %02x", i.addr, s.tgt);
					if (wf && !v.blind()) PBT_CHECK(c, i.func == func && i.src == s.src, "StartCommunications %s from %02x", i.func ? "functional" : "physical", i.src);
				}
				if (want) { checkspeed(o); state = 1; conns++; v.ready = true; linkprobe = false; }
			}
			checkstate(o);
			break; }
		case 1: {        // sendreq
			w = { c.pick<std::string>({ "sendreq", "sr" }) };
			if (c.chance(1, 12)) { if (c.chance(1, 2)) w.push_back("?"); std::string o = run(); quiet(o); checkstate(o); break; }
			if (c.chance(1, 14)) {
				unsigned k = c.range(1, 5), at = c.draw(k);
				for (unsigned i = 0; i < k; i++) w.push_back(i == at ? (c.chance(1, 3) ? fmt("-%u", (unsigned)c.range(1, 300)) : fmt(c.pick({ "0x%x", "%u" }), 256 + (c.chance(1, 2) ? (unsigned)c.draw(3) : (unsigned)c.draw(70000)))) : num(c.byte()));
				std::string o = run();
				quiet(o);
				PBT_CHECK(c, has(o, state ? "Invalid byte" : "Not connected"), "sendreq of an impossible byte said\n%s", o.c_str());
				checkstate(o); break;
			}
			Bytes req;
			bool vagl3 = l3 == 3 && state == 2;
			if (state == 2 && l3 == 1) {
				obd = true;
				switch (c.draw(6)) {
				case 0: req = { 1, (uint8_t)c.range(1, 31) }; break;
				case 1: req = { 1, 0 }; break;
				case 2: req = { 2, (uint8_t)c.range(2, 31), 0 }; break;
				case 3: req = { 3 }; break;
				case 4: req = { 7 }; break;
				case 5: req = { 9, 0 }; break;
				}
			} else {
				req = c.bytes(c.range(1, p == PVAG || p == PMB1 || p == P14230 ? (c.chance(1, 5) ? 60 : 10) : 7));
				if (p == PVAG && (req[0] == 6 || req[0] == 9 || req[0] == 10)) req[0] = 0x29;
				if (p == P14230 && req.size() == 1 && (req[0] == 0x81 || req[0] == 0x82)) req[0] = 0x21;
				if (p == PRAW || ((p == P9141 || p == PJ1850) && !itf.frame())) s.expect = req.size();
				if (req == Bytes{ 1, 0 }) req[1] = 1;
				unsigned k = p == PVAG ? c.weighted({ 1, 5, 2, 1 }) : p == PMB1 || p == PD2 || p == PRAW ? (c.chance(1, 6) ? 0 : 1) : c.weighted({ 2, 6, 3, 1 });
				if (itf.nohdr() && k > 1) k = 1;
				for (unsigned i = 0; i < k; i++) {
					Bytes b = c.bytes(c.range(1, p == P14230 ? (c.chance(1, 6) ? 80 : 10) : p == PVAG || p == PD2 || p == PMB1 ? 30 : 7));
					if (p == PVAG) b[0] = c.pick<uint8_t>({ 0xe7, 0xf6, 0xfc, 0xef });
					if (p == P14230 && b.size() >= 1 && b[0] == 0x7f) b[0] = 0x61;
					if (p == PD2 && b.size() < 2) b.push_back(c.byte());
					says.push_back(b);
					from.push_back(k > 1 || c.chance(1, 5) ? (p == PVAG || p == PMB1 || p == PD2 ? (int)s.tgt : (int)c.range(1, 250)) : s.tgt);
					if (from.back() == s.src) from.back() = s.tgt;
				}
			}
			if (obd && !itf.frame()) s.expect = req.size();
			for (uint8_t b : req) w.push_back(num(b));
			std::vector<Bytes> planned = says;
			std::string o = run();
			if (state == 0) { quiet(o); PBT_CHECK(c, has(o, "Not connected"), "sendreq without a connection said\n%s", o.c_str()); checkstate(o); break; }
			if (vagl3 || (mon && state)) { checkstate(o); break; }        // nothing asserted: see DESIGN.md
			std::vector<Bytes> want = says;
			PBT_CHECK(c, s.got.size() == 1 && s.got[0].data == req, "the vehicle heard %s instead of %s\n%s", s.got.empty() ? "nothing" : hex(s.got[0].data).c_str(), hex(req).c_str(), o.c_str());
			if (p == P14230 && s.got[0].addr) PBT_CHECK(c, s.got[0].dest == s.tgt && s.got[0].src == s.src, "addressed %02x from %02x", s.got[0].dest, s.got[0].src);
			if (p == PD2) PBT_CHECK(c, s.got[0].dest == s.tgt && s.got[0].src == s.src, "addressed %02x from %02x", s.got[0].dest, s.got[0].src);
			if ((p == P9141 || p == PJ1850) && s.got[0].addr) PBT_CHECK(c, s.got[0].src == s.src, "sent from %02x", s.got[0].src);
			if (p == PVAG) for (auto &b : want) b.erase(b.begin());
			if (p == PVAG && want.empty()) want.push_back({});
			std::vector<int> src;
			std::vector<Bytes> got = printed(o, &src);
			Bytes all, wall;
			if (p == PRAW) { for (auto &b : got) all.insert(all.end(), b.begin(), b.end()); for (auto &b : want) wall.insert(wall.end(), b.begin(), b.end()); PBT_CHECK(c, all == wall, "answer shown as %s instead of %s\n%s", hex(all).c_str(), hex(wall).c_str(), o.c_str()); }
			else PBT_CHECK(c, got == want, "answers shown as %s instead of %s\n%s", list(got).c_str(), list(want).c_str(), o.c_str());
			if (!itf.nohdr() && (p == P14230 || p == P9141 || p == PJ1850 || p == PD2) && src.size() == from.size())
				for (size_t i = 0; i < src.size(); i++) PBT_CHECK(c, src[i] == from[i], "answer %zu shown as from %02x instead of %02x", i, src[i], from[i]);
			if (want.empty()) PBT_CHECK(c, has(o, "No data received") || has(o, "failed"), "an unanswered request was not reported\n%s", o.c_str());
			else { PBT_CHECK(c, !has(o, "No data received") && !has(o, "failed error"), "an answered request was reported as failed\n%s", o.c_str()); answered++; }
			checkstate(o);
			break; }
		case 2: {        // read
			unsigned wait = c.range(1, 3);
			w = { c.pick<std::string>({ "read", "rx" }), fmt("%u", wait) };
			std::vector<Bytes> want;
			if (state == 1 && (p == P14230 || p == PJ1850 || p == P9141 || p == PRAW) && c.chance(2, 3)) {
				Bytes b = c.bytes(c.range(1, 7));
				if (p == P14230 && (b[0] == 0x7f || (mon && itf.nohdr() && !b[0]))) b[0] = 0x61;       // a listener takes a leading 0 for a fast initialisation
				want.push_back(b);
				s.say({ c.range(10, 800) * 1000, b, 0 });
			}
			bool rd3 = state == 2 && l3 <= 2 && c.chance(2, 3);
			if (rd3) {
				Bytes b = { 0x41, (uint8_t)c.range(1, 31) };
				if (l3 == 1) { if (b[1] >= 4 && b[1] < 0x0c) b[1] = 0x05; b = reply(ecu, { 1, 0 }).empty() ? Bytes{ 0x41, 0, 0, 0, 0, 0 } : reply(ecu, { 1, 0 })[0]; }
				else { b = c.bytes(c.range(1, 7)); if (b[0] == 0x7f) b[0] = 0x61; }
				want.push_back(b);
				s.say({ c.range(10, 800) * 1000, b, 0 });
			}
			std::string o = run();
			quiet(o);
			if (state == 0) PBT_CHECK(c, has(o, "Not connected"), "read without a connection said\n%s", o.c_str());
			else if (rd3 || (state == 1 && p != PVAG && p != PMB1)) {
				std::vector<Bytes> got = printed(o);
				PBT_CHECK(c, got == want, "read showed %s instead of %s\n%s", list(got).c_str(), list(want).c_str(), o.c_str());
				if (!want.empty()) answered++;
			}
			checkstate(o);
			break; }
		case 3: {        // addl3
			static const char *const names[] = { "SAEJ1979", "ISO14230", "VAG" };
			unsigned k = p == PVAG ? c.pick({ 2u, 2u, 3u }) : can_l3() ? (p == P14230 ? c.pick({ 0u, 1u, 0u, 3u }) : c.pick({ 0u, 0u, 3u })) : 3;
			w = { "addl3", k < 3 ? mix(names[k]) : c.pick<std::string>({ "?", "none", "SAE", "ISO14230X" }) };
			if (c.chance(1, 15)) { w.pop_back(); k = 3; }
			else if (c.chance(1, 15)) { w.push_back(c.pick<std::string>({ "now", "SAEJ1979", "?" })); k = 3; }
			if (mon) k = 3;
			bool mute = k == 0 && c.chance(1, 4);
			s.silent = mute;
			if (k == 3 && w.size() > 1 && mon) w[1] = "none";
			if (k == 0 && !itf.frame()) s.expect = 2;
			std::string o = run();
			s.silent = false;
			bool want = false;
			if (k == 3 || state != 1) {
				quiet(o);
				if (state == 0 && k < 3) PBT_CHECK(c, has(o, "Not connected"), "addl3 without a connection said\n%s", o.c_str());
				if (state == 2 && k < 3) PBT_CHECK(c, has(o, "already connected"), "addl3 twice said\n%s", o.c_str());
			} else {
				want = k == 1 || (k == 0 && !mute) || (k == 2 && !linkprobe);
				if (k == 0) { PBT_CHECK(c, !s.got.empty() && s.got[0].data == Bytes({ 1, 0 }), "J1979 started with %s", s.got.empty() ? "nothing" : hex(s.got[0].data).c_str()); }
				else quiet(o);
				PBT_CHECK(c, has(o, "Done") == want && has(o, "Failed to add L3") == !want, "addl3 should %s\n%s", want ? "succeed" : "fail", o.c_str());
			}
			PBT_CHECK(c, has(o, "Done") == want, "addl3 said\n%s", o.c_str());
			if (want) { state = 2; l3 = (int)k + 1; }
			checkstate(o);
			break; }
		case 4: {        // reml3
			w = { "reml3" };
			std::string o = run();
			quiet(o);
			PBT_CHECK(c, has(o, "No active global L3") == (state != 2), "reml3 said\n%s", o.c_str());
			if (state == 2) { state = 1; l3 = 0; }
			checkstate(o);
			break; }
		case 5: {        // probe, fastprobe
			bool fastp = p == P14230, f2 = fastp && c.chance(1, 2);
			w = { fastp ? "fastprobe" : "probe" };
			unsigned bad = c.weighted({ 8, 1, 1, 1, 1 });
			unsigned a = c.range(0, 255), b = std::min(255u, a + (unsigned)c.range(0, 5));
			if (bad == 1) { b = a; a = std::min(255u, a + 1); if (a == b) b--; }
			if (bad == 2) b = 256 + c.range(0, 300);
			if (bad == 3) a = 256 + c.range(0, 300);
			bool one = bad == 0 && c.chance(1, 5) && !f2;
			if (one) b = a;
			if (bad != 4) w.push_back(num(a));
			if (bad == 4 && c.chance(1, 2)) w.push_back("?");
			if (bad != 4 && !one) w.push_back(num(b));
			if (bad != 4 && !one && fastp) { if (f2) w.push_back(mix("func")); else if (c.chance(1, 3)) w.push_back(c.pick<std::string>({ "phys", "fast", "full", "x" })); }
			v.alive.clear();
			for (unsigned x = a; x <= b && x < 256; x++) if (c.chance(1, 5)) v.alive.insert((uint8_t)x);
			v.ready = state > 0;
			std::vector<Bytes> greet;
			v.greets.clear();
			if (c.chance(1, 2)) {
				unsigned k = rawp ? 1 : c.range(1, 3), t = 0;
				for (unsigned i = 0; i < k; i++) {
					Bytes b = c.bytes(c.range(1, 7));
					if (p == P14230 && (b[0] == 0x7f || b[0] == 0xc1)) b[0] = 0x61;
					greet.push_back(b); v.greets.push_back({ t, b, 0 });
					t += (unsigned)(itf.frame() ? c.chance(1, 2) ? c.range(60, 85) : c.range(156, 195) : c.chance(1, 2) ? c.range(60, 85) : c.range(80, 98)) * 1000;
				}
			}
			std::string o = run();
			v.greets.clear();
			bool elig = state == 0 && v.here && bad == 0;
			if (!elig) { quiet(o); PBT_CHECK(c, !has(o, "connected !!"), "probe said\n%s", o.c_str()); if (state) PBT_CHECK(c, has(o, "Cannot probe") || bad == 4, "probe said\n%s", o.c_str()); checkstate(o); break; }
			int hit = -1;
			for (unsigned x = a; x <= b; x++) if (v.alive.count((uint8_t)x)) { hit = (int)x; break; }
			if (fastp && v.blind()) hit = (int)a;
			if (v.absent || (fastp && slow)) hit = -1;
			unsigned last = hit < 0 ? b : (unsigned)hit;
			PBT_CHECK(c, v.inits.size() == last - a + 1, "%zu addresses tried instead of %u\n%s", v.inits.size(), last - a + 1, o.c_str());
			for (unsigned x = a; x <= last; x++) {
				Init &i = v.inits[x - a];
				if (!(fastp && v.blind())) PBT_CHECK(c, i.addr == x && i.kind == fastp, "tried %02x instead of %02x", i.addr, x);
				if (fastp && !v.blind()) PBT_CHECK(c, i.func == f2 && i.src == s.src, "tried %s from %02x", i.func ? "functionally" : "physically", i.src);
			}
			PBT_CHECK(c, has(o, "connected !!") == (hit >= 0), "probe said\n%s", o.c_str());
			if (hit >= 0) {
				if (!v.full()) { size_t q = o.find(fastp ? "Keybytes:" : "received:");
				PBT_CHECK(c, q != std::string::npos && squeeze(lines(o.substr(q + 9))[0]) == (fastp ? fmt("0x%X 0x%X", v.kbf[0], v.kbf[1]) : fmt("0x%X 0x%X", v.kb9, v.kb9)), "probe showed the key bytes of %x as\n%s", hit, o.c_str()); }
				auto shown = printed(o);
				PBT_CHECK(c, shown == greet, "probe showed %s instead of %s\n%s", list(shown).c_str(), list(greet).c_str(), o.c_str());
				if (!greet.empty()) c.label("probe greeted");
				checkspeed(o);
				state = 1; conns++; v.ready = true; linkprobe = true;
				c.label("probe hit");
				// later requests still go to the address set
			}
			checkstate(o);
			break; }
		default: {       // disconnect
			if (state && c.chance(1, 4)) {       // the interface in use cannot be swapped
				w = { "set interface", "dumb" };
				hist += "set interface; "; c.note("set interface");
				command(set_cmd_table, { "interface", c.pick<std::string>({ "dumb", "CARSIM", "elm" }) });
				std::string o = c.captured();
				quiet(o);
				PBT_CHECK(c, global_dl0d == &s.dev, "the interface was replaced while connected\n%s", o.c_str());
				checkstate(o);
				break;
			}
			w = { "disconnect" };
			if (c.chance(1, 15)) { w.push_back("?"); std::string o = run(); quiet(o); checkstate(o); break; }
			v.ready = state > 0;
			std::string o = run();
			if (state == 0) quiet(o);
			state = 0; l3 = 0;
			checkstate(o);
		}
		}
	}
	c.reset_captured();
	if (state) { v.ready = true; command(diag_cmd_table, { "disconnect" }); }
	PBT_CHECK(c, !s.w.is_open && s.w.opens == s.w.closes, "interface left open after %s", hist.c_str());
	global_dl0d = nullptr;
	if (conns && answered >= 2) c.nontrivial();
}
