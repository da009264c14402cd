// LINK: vos vtty
// ELM adapters: driven by the documented commands, answers parsed exactly.
#include "pbt.hpp"
#include "vos.hpp"
#include "vtty.hpp"
#include <algorithm>
#include <cstring>
#include <map>
#include <functional>
#include <memory>
extern "C" {
#include "diag.h"
#include "diag_err.h"
#include "diag_l0.h"
#include "diag_l1.h"
#include "diag_cfg.h"
#include "diag_tty.h"
#include "diag_l2.h"
}
using namespace pbt;
const char *pbt::prop_id = "E02";
const char *pbt::prop_rule = "histories of open / wakeup message / bus initialisation / request / close on a model ELM323 or ELM327 (official or clone version, any speed, any subset of "
	"optional commands) with generated answers: messages, error texts, garbage, filler, NULs, silence, slow and mid-line deadlines, failing commands and serial port; "
	"non-trivial = at least one request was transmitted and one answer message or error was read back";
unsigned pbt::quick_cases = 30000, pbt::thorough_cases = 800000;

namespace {
typedef std::string S;
struct Line { S text; bool good = false, open = false; Bytes data; size_t off = 0; };
struct Req { Bytes hdr, data; int tp; };
struct Elm {
	Ctx &c;
	bool is323 = false;
	S version;
	unsigned speed = 38400;
	bool fi, si, kw, kw0, iia, sr, al, wm, pc;
	bool echo = true, lf = false, hdr = false, mem = true;
	Bytes h, wmsg;
	int tp = 0;                       // 0 automatic, else the protocol number
	uint8_t init_addr = 0x33;
	bool kwcheck = true;
	int inited = 0;                   // 0 no, 1 fast, 2 slow
	int filter = -1;                  // receive filter
	uint8_t slow_addr = 0, kb1 = 0, kb2 = 0;
	Bytes fast_hdr;
	bool alive = true, proto_ok = true, answers0100 = true;
	S line;
	std::vector<S> cmds;
	std::vector<Req> reqs;
	std::vector<Line> lines;
	unsigned nul = 0;                 // NULs are inserted with this chance out of 64
	unsigned cmdfault = 0;            // chance out of 64
	unsigned faults = 0, kwcut = 0;   // kwcut: the answer to ATKW lacks a key byte
	bool noise_open = false;
	std::function<void()> on_request;
	uint64_t busy = 0;
	explicit Elm(Ctx &x) : c(x) { reset(); }
	void reset() {
		echo = true;
		hdr = lf = false;
		mem = true;
		h = {};
		tp = 0;
		init_addr = 0x33;
		filter = -1;
		inited = 0;
		kb1 = kb2 = 0;
		kwcheck = true;
		wmsg.clear();
	}
	uint64_t gap() { return 10 * 1000000ull / speed; }
	// text towards the host; \r as is or with line feed
	uint64_t put(uint64_t t, const S &s, int tag) {
		if (tty::speed != speed) return t;
		for (char ch : s) {
			S o(1, ch);
			if (ch == '\r' && lf) o += '\n';
			if (nul && c.chance(nul, 64)) o = S(1, '\0') + o;
			for (char k : o) {
				tty::feed_at(t, S(1, k), 0, tag);
				t += gap();
			}
		}
		return t;
	}
	// a whole line (tagged with its number), then CR
	uint64_t put_line(uint64_t t, const S &s, bool good, const Bytes &d, bool open = false) {
		Line l;
		l.text = s;
		l.good = good;
		l.data = d;
		l.open = open;
		lines.push_back(l);
		t = put(t, s, (int)lines.size());
		if (!open) t = put(t, "\r", 0);
		return t;
	}
	void prompt(uint64_t t) { busy = put(t, "\r>", 0); }
	void reply(const S &s, uint64_t delay) {
		uint64_t t = put_line(vos::now_us + delay, s, false, {});
		prompt(t);
	}
	static int hexv(char ch) { return ch >= '0' && ch <= '9' ? ch - '0' : ch >= 'A' && ch <= 'F' ? ch - 'A' + 10 : -1; }
	static bool hexbytes(const S &s, Bytes &o) {
		if (s.size() & 1) return false;
		for (size_t i = 0; i + 1 < s.size(); i += 2) {
			int a = hexv(s[i]), b = hexv(s[i + 1]);
			if (a < 0 || b < 0) return false;
			o.push_back((uint8_t)(a * 16 + b));
		}
		return true;
	}
	S fmt(const Bytes &d) {
		S s;
		unsigned style = c.weighted({ 6, 2, 1 });
		for (size_t i = 0; i < d.size(); i++) {
			char b[8];
			snprintf(b, sizeof b, "%02X", d[i]);
			s += b;
			if (style == 0 || (style == 1 && i + 1 < d.size())) s += ' ';
		}
		return s;
	}
	void input(const std::vector<uint8_t> &b) {
		if (tty::speed != speed) {           // garbled at the wrong speed
			size_t n = c.size(6);
			for (size_t i = 0; i < n; i++) line += (char)(c.byte() | 0x80);
			if (noise_open) {
				Bytes g = c.bytes(c.size(12));
				for (auto &x : g) if (x == '>') x = 0;
				tty::feed_at(vos::now_us + 1000, g, 200, -1);
			}
			return;
		}
		for (uint8_t x : b) {
			if (echo && x != '\r') tty::feed_at(vos::now_us, S(1, (char)x), 0, -1);
			if (x == '\r') {
				if (echo) tty::feed_at(vos::now_us, S(lf ? "\r\n" : "\r"), 0, -1);
				S l = line;
				line.clear();
				execute(l);
			} else
				line += (char)x;
		}
	}
	void execute(const S &raw) {
		S l;
		for (char ch : raw) if (ch != ' ' && ch != 0) l += (char)toupper((unsigned char)ch);
		if (l.empty()) { reply("?", 2000); return; }
		if (l.compare(0, 2, "AT") == 0) { at(l.substr(2)); return; }
		Bytes d;
		if (!hexbytes(l, d)) { reply("?", 3000); return; }
		cmds.push_back("<data>");
		request(d);
	}
	// false: the command fails in some way
	bool sabotage() {
		if (!cmdfault || !c.chance(cmdfault, 64)) return false;
		faults++;
		switch (c.weighted({ 3, 3, 2, 2, 2, 2 })) {
		case 0: reply("?", 3000); break;
		case 1: break;                                                    // silence
		case 2: put_line(vos::now_us + 2000, "OK", false, {}); break;      // no prompt
		case 3: reply(c.pick({ S("BUS BUSY"), S("NO DATA"), S("FB ERROR"), S("LV RESET"), S("STOPPED") }), 5000); break;
		case 4: reply("OK", 6000000); break;                              // late
		case 5: {
			S g;
			for (size_t i = c.size(1200); i--;) g += (char)c.byte();
			put(vos::now_us + 3000, g, -1);
			break;
		}
		}
		return true;
	}
	void at(const S &a) {
		cmds.push_back(a);
		if (sabotage()) return;
		Bytes v;
		auto ok = [&](uint64_t d) { reply("OK", d); };
		uint64_t d = (uint64_t)c.range(1, 60) * 1000;
		S id = S(is323 ? "ELM323 v" : "ELM327 v") + version;
		if (a == "Z") {
			reset();
			uint64_t t = put(vos::now_us + c.range(300, 1200) * 1000, "\r\r", 0);
			t = put_line(t, id, false, {});
			prompt(t);
		} else if (a == "I") reply(id, d);
		else if (a == "E0" || a == "E1") { echo = a[1] == '1'; ok(d); }
		else if (a == "L0" || a == "L1") { lf = a[1] == '1'; ok(d); }
		else if (a == "H0" || a == "H1") { hdr = a[1] == '1'; ok(d); }
		else if (!is323 && (a == "M0" || a == "M1")) { mem = a[1] == '1'; ok(d); }
		else if (!is323 && a.size() == 3 && (a.compare(0, 2, "TP") == 0 || a.compare(0, 2, "SP") == 0) && hexv(a[2]) >= 0) {
			if (tp != hexv(a[2])) inited = 0;
			tp = hexv(a[2]);
			ok(d);
		} else if (a.compare(0, 2, "SH") == 0 && hexbytes(a.substr(2), v) && v.size() == 3) { h = v; ok(d); }
		else if (sr && a.compare(0, 2, "SR") == 0 && hexbytes(a.substr(2), v) && v.size() == 1) { filter = v[0]; ok(d); }
		else if (wm && a.compare(0, 2, "WM") == 0 && hexbytes(a.substr(2), v) && v.size() >= 1 && v.size() <= 6) { wmsg = v; ok(d); }
		else if (iia && a.compare(0, 3, "IIA") == 0 && hexbytes(a.substr(3), v) && v.size() == 1) { init_addr = v[0]; ok(d); }
		else if (kw0 && (a == "KW0" || a == "KW1")) { kwcheck = a[2] == '1'; ok(d); }
		else if (kw && a == "KW") {
			char b[40];
			if (inited == 2 && kwcut) snprintf(b, sizeof b, kwcut == 1 ? "1:%02X 2:--" : kwcut == 2 ? "1:%02X" : "1:-- 2:%02X", kwcut == 3 ? kb2 : kb1);
			else if (inited == 2) snprintf(b, sizeof b, "1:%02X 2:%02X", kb1, kb2);
			else snprintf(b, sizeof b, "1:-- 2:--");
			reply(b, d);
		} else if (al && a == "AL") ok(d);
		else if (pc && a == "PC") { inited = 0; ok(d); }
		else if (fi && a == "FI") {
			if (!is323 && tp != 5) { reply("?", d); return; }
			if (start(1)) reply("BUS INIT: OK", c.range(60, 700) * 1000);
			else reply("BUS INIT: ERROR", c.range(60, 700) * 1000);
		} else if (si && a == "SI") {
			if (!is323 && tp != 3 && tp != 4) { reply("?", d); return; }
			bool r = start(2);
			slowtext(r);
		} else reply("?", d);
	}
	void slowtext(bool r) {
		uint64_t t = vos::now_us + 5000;
		lines.push_back({});
		int tag = (int)lines.size();
		t = put(t, "BUS INIT: ", tag);
		for (int i = 0; i < 3; i++) t = put(t + c.range(300, 800) * 1000, ".", tag);
		t = put(t, r ? "OK\r" : "ERROR\r", tag);
		prompt(t);
	}
	bool start(int type) {
		inited = 0;
		if (!alive || !proto_ok) return false;
		inited = type;
		if (type == 2) {
			slow_addr = init_addr;
			kb1 = c.byte();
			kb2 = c.byte();
		} else
			fast_hdr = h;
		return true;
	}
	void request(const Bytes &d) {
		reqs.push_back({ h, d, tp });
		tty::drop_pending();              // what was left from before is of no interest any more
		if (on_request) on_request();
	}
};
const char *const errs327[] = { "BUS BUSY", "FB ERROR", "DATA ERROR", "NO DATA", "?", "ACT ALERT", "BUFFER FULL", "BUS ERROR", "CAN ERROR", "LP ALERT", "LV RESET",
	"STOPPED", "UNABLE TO CONNECT", "ERR94", "BUS INIT: ERROR" };
const char *const errs323[] = { "BUS BUSY", "FB ERROR", "DATA ERROR", "NO DATA", "?", "BUS INIT: ERROR" };
}

void pbt::property(Ctx &c) {
	diag_init();
	tty::reset();
	size_t heap0 = lib_bytes();
	bool use_dbg = c.chance(1, 10);
	if (use_dbg) diag_l0_debug = -1;
	struct diag_l0_device *dl = diag_l0_new("ELM");
	PBT_CHECK(c, dl, "no ELM driver");
	Elm e(c);
	e.is323 = c.chance(1, 4);
	e.version = e.is323 ? c.pick({ S("2.0"), S("2.0"), S("1.1") }) : c.pick({ S("1.3a"), S("1.4b"), S("2.0"), S("1.0"), S("1.0a"), S("1.1"), S("1.2"), S("1.2a"), S("1.3"), S("1.4"), S("1.4a"),
		S("1.5"), S("1.5a"), S("2.1"), S("2.2"), S("1.6") });
	bool official = e.is323 ? e.version == "2.0" : e.version != "1.4" && e.version != "1.4a" && e.version != "1.5" && e.version != "1.5a" && e.version != "2.1" && e.version != "2.2" && e.version != "1.6";
	auto feat = [&]() { return official ? !c.chance(1, 12) : c.chance(1, 2); };
	e.fi = feat(); e.si = feat(); e.kw = feat(); e.kw0 = feat(); e.al = feat(); e.pc = feat();
	e.iia = !e.is323 && feat(); e.sr = feat(); e.wm = !e.is323 && feat();
	static const unsigned speeds[] = { 38400, 9600, 115200, 57600, 500000, 10400 };
	e.speed = speeds[c.weighted({ 8, 4, 4, 1, 1, 1 })];
	unsigned cfgspeed = c.chance(1, 3) ? speeds[c.draw(6)] : 38400;
	for (struct cfgi *f = diag_l0_getcfg(dl); f; f = f->next)
		if (f->shortname && !strcmp(f->shortname, "elmspeed")) diag_cfg_setint(f, (int)cfgspeed);
	bool reachable = e.speed == cfgspeed || e.speed == 38400 || e.speed == 9600 || e.speed == 115200;
	e.nul = c.chance(1, 5) ? c.range(1, 12) : 0;
	e.noise_open = c.chance(1, 3);
	unsigned basefault = c.chance(1, 3) ? c.range(1, 12) : 0;
	int ttyfault = -1;
	tty::fault = [&](tty::Op op) {
		if (op == tty::CLOSE || op == tty::IFLUSH || ttyfault < 0) return 0;
		return ttyfault-- == 0 ? (e.faults++, op == tty::WRITE && c.chance(1, 2) ? 2 : 1) : 0;
	};
	tty::on_write = [&](const std::vector<uint8_t> &b) { e.input(b); };
	S seq = S(e.is323 ? "ELM323 " : "ELM327 ") + e.version;
	unsigned sent = 0, got = 0, failed = 0;
	unsigned sessions = c.range(1, 2);
	for (unsigned ses = 0; ses < sessions; ses++) {
		int proto = c.pick({ DIAG_L1_ISO14230, DIAG_L1_ISO9141, DIAG_L1_J1850_VPW, DIAG_L1_J1850_PWM });
		// garbage left from before
		e.line.clear();
		if (c.chance(1, 6)) e.line = "\xff\xff""AB";
		tty::drop_pending();
		e.cmdfault = basefault && c.chance(1, 2) ? basefault : 0;
		ttyfault = c.chance(1, 20) ? c.range(0, 12) : -1;
		unsigned f0 = e.faults, opens0 = tty::opens;
		int rv = diag_l0_open(dl, proto);
		ttyfault = -1;
		seq += c.chance(0, 1) ? "" : "; open " + std::to_string(proto) + (rv ? " failed" : " ok");
		bool supported = !e.is323 || proto == DIAG_L1_ISO14230 || proto == DIAG_L1_ISO9141;
		if (rv) {
			PBT_CHECK(c, rv < 0, "open gives %d; %s", rv, seq.c_str());
			PBT_CHECK(c, !dl->opened && tty::opens == (int)opens0, "after a failed open the port stays open (opened %d, ports %d); %s", dl->opened, tty::opens, seq.c_str());
			PBT_CHECK(c, e.faults != f0 || !supported || !reachable, "open fails on a working adapter at %u bps (configured %u); commands %zu, last %s; %s\n%s", e.speed, cfgspeed,
				e.cmds.size(), e.cmds.empty() ? "-" : e.cmds.back().c_str(), seq.c_str(), c.captured().substr(0, 600).c_str());
			failed++;
			c.label("open failed");
			continue;
		}
		PBT_CHECK(c, dl->opened && tty::opens == 1, "open succeeded but nothing is open; %s", seq.c_str());
		PBT_CHECK(c, supported, "ELM323 opened with protocol %d; %s", proto, seq.c_str());
		PBT_CHECK(c, tty::speed == e.speed, "open succeeded at the wrong speed %u (adapter %u); %s", tty::speed, e.speed, seq.c_str());
		PBT_CHECK(c, !e.echo && !e.lf && e.hdr, "open succeeded but the adapter has echo %d, line feeds %d, headers %d; %s", e.echo, e.lf, e.hdr, seq.c_str());
		if (!e.is323) {
			PBT_CHECK(c, !e.mem, "open succeeded with the memory on; %s", seq.c_str());
			int want = proto == DIAG_L1_J1850_PWM ? 1 : proto == DIAG_L1_J1850_VPW ? 2 : proto == DIAG_L1_ISO9141 ? 3 : 0;
			PBT_CHECK(c, e.tp == want, "open succeeded with adapter protocol %d for protocol %d; %s", e.tp, proto, seq.c_str());
		}
		for (auto &r : tty::log) if (r.op == tty::SETUP)
			PBT_CHECK(c, r.databits == 8 && r.stopbits == 1 && r.par == diag_par_n, "port set to %u data, %u stop bits, parity %u; %s", r.databits, r.stopbits, r.par, seq.c_str());
		uint32_t flags = diag_l0_getflags(dl);
		bool dataonly = flags & DIAG_L1_DATAONLY;
		bool kline = proto == DIAG_L1_ISO14230 || proto == DIAG_L1_ISO9141;
		Bytes wm;
		bool wmset = false, wasinit = false, ready = !kline;
		Bytes needhdr;
		unsigned nops = c.range(1, 6), sesfaults = e.faults;
		auto settle = [&]() {
			if (tty::pending() && tty::peek().back().t > vos::now_us) vos::advance_to(tty::peek().back().t + 1000);
		};
		for (unsigned op = 0; op < nops; op++) {
			e.cmdfault = basefault && c.chance(1, 3) ? basefault : 0;
			unsigned what = kline ? (!ready ? c.weighted({ 8, 2, 1 }) : c.weighted({ 1, 1, 8 })) : 2;
			if (what == 1) {                       // wakeup message
				struct diag_msg m;
				memset(&m, 0, sizeof m);
				Bytes d = c.bytes(c.chance(1, 5) ? c.range(1, 8) : 4);
				m.len = d.size();
				m.data = d.data();
				rv = diag_l0_ioctl(dl, DIAG_IOCTL_SETWM, &m);
				bool okwm = !e.is323 && d.size() == 4;
				if (!okwm) PBT_CHECK(c, rv < 0, "wakeup message of %zu bytes accepted by %s", d.size(), seq.c_str());
				else if (!wasinit) PBT_CHECK(c, rv == 0, "wakeup message refused before any initialisation; %s", seq.c_str());
				if (rv == 0) { wm = d; wmset = true; }
				seq += "; setwm";
				continue;
			}
			if (what == 0) {                       // bus initialisation
				struct diag_l1_initbus_args in;
				memset(&in, 0, sizeof in);
				bool fast = proto == DIAG_L1_ISO14230 && c.chance(2, 3);
				in.type = fast ? DIAG_L1_INITBUS_FAST : DIAG_L1_INITBUS_5BAUD;
				in.addr = c.chance(2, 3) ? 0x33 : c.byte();
				in.testerid = c.chance(2, 3) ? 0xf1 : c.byte();
				in.physaddr = c.chance(1, 2);
				in.kb1 = 0xa5;
				in.kb2 = 0x5a;
				if (c.chance(1, 12)) in.type = c.pick({ DIAG_L1_INITBUS_2SLOW, DIAG_L1_INITBUS_NONE, 77 });
				bool known = in.type == DIAG_L1_INITBUS_FAST || in.type == DIAG_L1_INITBUS_5BAUD;
				e.alive = !c.chance(1, 5);
				e.proto_ok = true;
				e.answers0100 = !c.chance(1, 6);
				e.kwcut = c.chance(1, 10) ? c.range(1, 3) : 0;
				e.inited = 0;                      // the bus was idle for long
				e.kb1 = e.kb2 = 0;
				size_t lines0 = e.reqs.size();
				settle();
				e.on_request = [&]() {
					// the request that starts the bus
					uint64_t t = vos::now_us + 3000;
					int type = e.tp == 5 || (e.tp == 0 && fast) ? 1 : 2;
					if (!e.inited) {
						bool r = e.start(type);
						if (!r && !e.is323 && c.chance(1, 2)) {
							t = e.put(t + c.range(1, 900) * 1000, c.pick({ S("UNABLE TO CONNECT"), S("BUS ERROR"), S("STOPPED"), S("LV RESET"), S("ACT ALERT"), S("LP ALERT"), S("BUS BUSY") }) + "\r", -1);
							e.prompt(t);
							return;
						}
						t = e.put(t, "BUS INIT: ", -1);
						if (type == 2) for (int i = 0; i < 3; i++) t = e.put(t + c.range(300, 900) * 1000, ".", -1);
						t = e.put(t, r ? "OK\r" : "ERROR\r", -1);
						if (!r) { e.prompt(t); return; }
					}
					if (e.answers0100 && e.reqs.back().data == (Bytes{ 1, 0 })) t = e.put(t + 20000, "48 6B 10 41 00 BE 3E B8 11 FA \r", -1);
					else t = e.put(t + 100000, "NO DATA\r", -1);
					e.prompt(t + 200000);
				};
				f0 = e.faults;
				ttyfault = c.chance(1, 20) ? c.range(0, 8) : -1;
				rv = diag_l0_ioctl(dl, DIAG_IOCTL_INITBUS, &in);
				ttyfault = -1;
				e.on_request = nullptr;
				char b[100];
				snprintf(b, sizeof b, "; initbus %d addr %02x src %02x phys %d = %d", in.type, in.addr, in.testerid, in.physaddr, rv);
				seq += b;
				bool f = e.faults != f0;
				bool used0100 = e.reqs.size() != lines0;
				if (rv == 0) {
					PBT_CHECK(c, known, "an unknown initialisation succeeds; %s", seq.c_str());
					PBT_CHECK(c, e.inited == (fast ? 1 : 2), "initialisation reported as successful but the bus was %s; %s\ncommands: %s", e.inited == 0 ? "not initialised" : "initialised in the other way", seq.c_str(),
						[&]() { S s; for (auto &x : e.cmds) s += x + " "; return s; }().c_str());
					if (!fast) PBT_CHECK(c, e.slow_addr == in.addr, "5 baud initialisation of address %02x instead of %02x; %s", e.slow_addr, in.addr, seq.c_str());
					if (!e.is323) PBT_CHECK(c, e.tp == (fast ? 5 : proto == DIAG_L1_ISO9141 ? 3 : 4), "initialised with adapter protocol %d; %s", e.tp, seq.c_str());
					if (wmset) PBT_CHECK(c, e.wmsg == wm, "wakeup message %s instead of %s; %s", hex(e.wmsg).c_str(), hex(wm).c_str(), seq.c_str());
					needhdr = { (uint8_t)(in.physaddr ? 0x81 : 0xc1), in.addr, in.testerid };
					if (proto == DIAG_L1_ISO14230)
						PBT_CHECK(c, e.h == needhdr, "after the initialisation requests would go out with headers %s instead of %s; %s", hex(e.h).c_str(), hex(needhdr).c_str(), seq.c_str());
					if (fast) PBT_CHECK(c, e.fast_hdr == needhdr, "fast initialisation with headers %s instead of %s; %s", hex(e.fast_hdr).c_str(), hex(needhdr).c_str(), seq.c_str());
					if (in.kb1 != 0xa5 || in.kb2 != 0x5a)
						PBT_CHECK(c, (in.kb1 == e.kb1 && in.kb2 == e.kb2), "key bytes %02x %02x reported, the ECU sent %02x %02x; %s", in.kb1, in.kb2, e.kb1, e.kb2, seq.c_str());
					if (!fast && official && e.si && e.kw && !e.kwcut && !f && !used0100)
						PBT_CHECK(c, in.kb1 == e.kb1 && in.kb2 == e.kb2, "key bytes %02x %02x not reported; %s", e.kb1, e.kb2, seq.c_str());
					ready = wasinit = true;
					c.label("initialised%s%s", fast ? " fast" : " slow", used0100 ? " by request" : "");
				} else {
					PBT_CHECK(c, rv < 0, "initbus gives %d", rv);
					bool possible = known && e.alive && !f && (fast || (in.addr == 0x33 && e.faults == sesfaults) || e.iia) && (!wmset || e.wm) && e.answers0100 && (official || true);
					PBT_CHECK(c, !possible, "initialisation of a working bus fails; %s\ncommands: %s\n%s", seq.c_str(),
						[&]() { S s; for (auto &x : e.cmds) s += x + " "; return s; }().c_str(), c.captured().substr(0, 800).c_str());
					failed++;
					ready = false;
					c.label("initialisation failed");
				}
				settle();
				tty::drop_pending();
				continue;
			}
			if (kline && !ready) {
				if (c.chance(2, 3)) continue;
				e.alive = true;
			}
			// ---- a request ----
			size_t len;
			switch (c.weighted({ 6, 3, 1, 1 })) {
			case 0: len = c.range(1, 8); break;
			case 1: len = c.range(1, 12); break;
			case 2: len = c.range(1, 260); break;
			default: len = c.range(480, 1100); break;
			}
			Bytes d = c.bytes(len);
			if (!dataonly && len >= 3 && !c.chance(1, 3)) {
				static const Bytes hs[] = { { 0x68, 0x6a, 0xf1 }, { 0x68, 0x6a, 0xf1 }, { 0x82, 0x10, 0xf1 }, { 0, 0, 0 }, { 0x68, 0x6a, 0xf2 }, { 0x82, 0x11, 0xf1 } };
				const Bytes &x = hs[c.draw(6)];
				std::copy(x.begin(), x.end(), d.begin());
			}
			e.on_request = [&]() {
				uint64_t t = vos::now_us + c.range(1, 40) * 1000;
				auto data_line = [&](size_t n) {
					Bytes m = c.bytes(n);
					t = e.put_line(t, e.fmt(m), true, m);
				};
				auto msgs = [&](unsigned n) {
					for (unsigned i = 0; i < n; i++) {
						data_line(c.chance(1, 10) ? c.range(1, 260) : c.range(1, 12));
						t += (uint64_t)(c.chance(1, 8) ? c.range(0, 2000) : c.range(0, 60)) * 1000;
					}
				};
				if (c.chance(1, 8)) t += c.range(0, 2500) * 1000;
				switch (c.weighted({ 10, 3, 4, 2, 2, 2, 1, 2, 2 })) {
				case 0: msgs(c.range(1, 4)); e.prompt(t + 200000); break;
				case 1: e.put_line(t, "NO DATA", false, {}); e.prompt(t + 20000); break;
				case 2: {
					if (c.chance(1, 3)) msgs(c.range(1, 2));
					const char *x = e.is323 ? errs323[c.draw(sizeof errs323 / sizeof *errs323)] : errs327[c.draw(sizeof errs327 / sizeof *errs327)];
					t = e.put_line(t, x, false, {});
					e.prompt(t);
					c.label("error text");
					break;
				}
				case 3: {
					if (c.chance(1, 3)) msgs(c.range(1, 2));
					Bytes m = c.bytes(c.range(1, 8));
					t = e.put_line(t, e.fmt(m) + (e.is323 || c.chance(1, 2) ? "<DATA ERROR" : "<RX ERROR"), false, {});
					if (c.chance(1, 3)) msgs(1);
					e.prompt(t);
					c.label("marked line");
					break;
				}
				case 4: {                                 // garbage
					unsigned n = c.range(1, 4);
					for (unsigned i = 0; i < n; i++) {
						S g;
						static const char al[] = "0123456789ABCDEFabcdef xX-+.:<GZOK";
						for (size_t k = c.size(60) + 1; k--;) g += c.chance(1, 12) ? (char)c.byte() : al[c.draw(sizeof al - 1)];
						for (auto &ch : g) if (ch == '\r' || ch == '\n' || ch == '>' || ch == 0) ch = '?';
						// pairs only?
						S st = g, up;
						Bytes v;
						bool good = true;
						while (!st.empty() && st[0] == ' ') st.erase(0, 1);
						for (size_t k = 0; k < st.size() && good;) {
							if (st[k] == ' ') { k++; continue; }
							if (k + 1 >= st.size() || !isxdigit((unsigned char)st[k]) || !isxdigit((unsigned char)st[k + 1])) { good = false; break; }
							v.push_back((uint8_t)strtol(st.substr(k, 2).c_str(), NULL, 16));
							k += 2;
						}
						t = e.put_line(t, g, good && !v.empty(), v);
						t += c.range(0, 150) * 1000;
					}
					if (c.chance(1, 2)) e.prompt(t);
					c.label("garbage");
					break;
				}
				case 5: break;                            // silence
				case 6: {                                 // unfinished line
					Bytes m = c.bytes(c.range(1, 8));
					t = e.put_line(t, e.fmt(m), true, m, true);
					c.label("unfinished line");
					break;
				}
				case 7: {                                 // lots of filler
					size_t n = c.chance(1, 2) ? c.range(1, 50) : c.range(1000, 9000);
					unsigned style = c.draw(4);
					S g;
					for (size_t i = 0; i < n; i++) g += style == 0 ? ' ' : style == 1 ? '\r' : style == 2 ? '>' : " \r\n>"[c.draw(4)];
					bool old = e.nul;
					e.nul = 0;
					t = e.put(t, g, 0);
					e.nul = old;
					if (style == 3 || style == 0) t = e.put(t, "\r", 0);
					if (c.chance(1, 2)) msgs(c.range(1, 2));
					c.label(n > 999 ? "much filler" : "filler");
					break;
				}
				case 8: {                                 // a very long line
					data_line(c.range(200, 1400));
					e.prompt(t);
					c.label("long line");
					break;
				}
				}
			};
			size_t reqs0 = e.reqs.size();
			f0 = e.faults;
			ttyfault = c.chance(1, 20) ? c.range(0, 4) : -1;
			settle();
			rv = diag_l0_send(dl, d.data(), d.size());
			int tf = ttyfault;
			ttyfault = -1;
			e.on_request = nullptr;
			seq += "; send " + (d.size() > 16 ? std::to_string(d.size()) + " bytes" : hex(d)) + " = " + std::to_string(rv);
			if (rv) {
				PBT_CHECK(c, rv < 0, "send gives %d", rv);
				bool fits = dataonly || d.size() > 3;
				bool must = fits && d.size() <= 260 && e.faults == f0 && (dataonly || e.sr || d[0] < 0x80);
				PBT_CHECK(c, !must, "a request is refused; %s\n%s", seq.c_str(), c.captured().substr(0, 600).c_str());
				PBT_CHECK(c, e.reqs.size() == reqs0, "a request reported as failed was transmitted; %s", seq.c_str());
				failed++;
				c.label("send failed");
				settle();
				tty::drop_pending();
				continue;
			}
			(void)tf;
			sent++;
			PBT_CHECK(c, e.reqs.size() == reqs0 + 1, "a request reported as sent reached the adapter %zu times; %s", e.reqs.size() - reqs0, seq.c_str());
			Req &q = e.reqs.back();
			Bytes want = d;
			if (!dataonly) {
				Bytes hh(d.begin(), d.begin() + 3);
				PBT_CHECK(c, q.hdr == hh, "request %s was transmitted with headers %s; %s", hex(d).c_str(), q.hdr.empty() ? "(default)" : hex(q.hdr).c_str(), seq.c_str());
				// with ISO14230 style headers the answers come to the tester's own address
				if (d[0] & 0x80) PBT_CHECK(c, e.filter == d[2], "request %s transmitted while the adapter receives address %d only; %s", hex(d).c_str(), e.filter, seq.c_str());
				want.erase(want.begin(), want.begin() + 3);
			} else if (ready && proto == DIAG_L1_ISO14230)
				PBT_CHECK(c, q.hdr == needhdr, "request transmitted with headers %s instead of %s; %s", hex(q.hdr).c_str(), hex(needhdr).c_str(), seq.c_str());
			PBT_CHECK(c, q.data == want, "request %s was transmitted as %s; %s", hex(want).c_str(), hex(q.data).c_str(), seq.c_str());
			// ---- its answers ----
			unsigned quiet = 0;
			bool unread = c.chance(1, 10);
			for (unsigned r = 0; !unread && r < 40 && quiet < 3; r++) {
				unsigned timeout = c.weighted({ 3, 1 }) ? c.range(1, 3000) : c.range(50, 400);
				// what comes next
				const tty::Byte *first = nullptr;
				bool midline = false;
				for (auto &x : tty::peek()) {
					if (x.b == ' ' || x.b == '\r' || x.b == '\n' || x.b == '>' || x.b == 0) continue;
					first = &x;
					break;
				}
				Line *l = first && first->tag > 0 ? &e.lines[first->tag - 1] : nullptr;
				size_t len2 = MAXRBUF;
				if (l && l->good && c.chance(1, 6)) len2 = c.range(1, 20);
				bool gone = l && l->good && l->off >= l->data.size();
				(void)midline;
				std::vector<uint8_t> buf(len2 + 1, 0xee);
				std::unique_ptr<uint8_t[]> exact(new uint8_t[len2]);
				uint64_t t0 = vos::now_us;
				uint64_t arr = first ? first->t : ~0ull;
				int tag = first ? first->tag : 0;
				bool flt = c.chance(1, 60);
				if (flt) ttyfault = c.range(0, 20);
				unsigned ff = e.faults;
				int n = diag_l0_recv(dl, exact.get(), len2, timeout);
				ttyfault = -1;
				flt = e.faults != ff;
				PBT_CHECK(c, n < 0 || (size_t)n <= len2, "recv of at most %zu bytes gives %d; %s", len2, n, seq.c_str());
				PBT_CHECK(c, vos::now_us - t0 <= (timeout + 3000ull) * 1000 + 5000 * e.gap(), "recv with timeout %u took %llu ms; %s", timeout, (unsigned long long)(vos::now_us - t0) / 1000, seq.c_str());
				S ctx = "(answer line \"" + (l ? l->text.substr(0, 200) : S("-")) + "\", first byte after " + (first ? std::to_string((long long)(arr - t0) / 1000) : S("never")) + " ms, timeout " +
					std::to_string(timeout) + ", at most " + std::to_string(len2) + ") " + seq;
				if (getenv("E02DBG")) fprintf(stderr, "RECV %d %s pend %zu head tag %d\n", n, ctx.substr(0, 300).c_str(), tty::pending(), tty::pending() ? tty::peek().front().tag : -9);
				if (n > 0) {
					Bytes m(exact.get(), exact.get() + n);
					PBT_CHECK(c, l, "recv gives %s though the adapter printed no such thing %s", hex(m).c_str(), ctx.c_str());
					PBT_CHECK(c, l->good, "recv gives data %s for a line that is not a message %s", hex(m).c_str(), ctx.c_str());
					Bytes rest(l->data.begin() + std::min(l->off, l->data.size()), l->data.end());
					if (rest.size() > len2) rest.resize(len2);
					if (l->open || flt) PBT_CHECK(c, m.size() <= rest.size() && std::equal(m.begin(), m.end(), rest.begin()), "recv gives %s instead of (part of) %s %s", hex(m).c_str(), hex(rest).c_str(), ctx.c_str());
					else PBT_CHECK(c, m == rest, "recv gives %s instead of %s %s", hex(m).c_str(), hex(rest).c_str(), ctx.c_str());
					l->off += n;
					got++;
					quiet = 0;
					c.label("message");
				} else {
					PBT_CHECK(c, n != 0, "recv gives 0 %s", ctx.c_str());
					if (l && l->good && !l->open && !gone && !flt)
						PBT_CHECK(c, arr >= t0 + timeout * 1000ull - 1000, "recv gives %d (%s) instead of the message %s %s\n%s", n, diag_errlookup(n), hex(l->data).c_str(), ctx.c_str(), c.captured().substr(0, 500).c_str());
					if (n == DIAG_ERR_TIMEOUT) quiet++;
					else { got++; c.label("error read"); }
					// whatever is left of a line that was given up is not a message
					for (auto &x : tty::peek()) {
						if (x.tag == tag && tag > 0 && arr < t0 + timeout * 1000ull) { e.lines[tag - 1].good = e.lines[tag - 1].good && flt; break; }
					}
					if (n != DIAG_ERR_TIMEOUT && n < 0) {
						// give up on a line read in part
						for (auto &x : tty::peek()) if (x.tag > 0 && x.tag <= (int)e.lines.size()) {
							Line &k = e.lines[x.tag - 1];
							bool whole = true;
							size_t cnt = 0;
							for (auto &y : tty::peek()) if (y.tag == x.tag && y.b) cnt++;
							whole = cnt == k.text.size();
							if (!whole && k.off == 0) k.good = false;
							break;
						}
					}
				}
				if (flt) break;                        // the port failed: what is left is anyone's guess
				if (!first || (tty::pending() == 0)) quiet++;
			}
			settle();
			// old answers nobody fetched stay around
			if (!unread) tty::drop_pending();
			else if (tty::pending()) c.label("answers left behind");
			if (c.chance(1, 10)) diag_l0_ioctl(dl, DIAG_IOCTL_IFLUSH, NULL);
		}
		e.cmdfault = basefault;
		size_t cmds0 = e.cmds.size();
		diag_l0_close(dl);
		if (!basefault) {
			bool closed = false;
			for (size_t i = cmds0; i < e.cmds.size(); i++) closed = closed || e.cmds[i] == "PC" || e.cmds[i] == "Z" || e.cmds[i] == "D";
			PBT_CHECK(c, closed, "the adapter was not told to close the protocol; %s", seq.c_str());
		}
		PBT_CHECK(c, !dl->opened && tty::opens == 0, "after closing the port is still open; %s", seq.c_str());
		settle();
		vos::advance(10000000);
		tty::drop_pending();
		seq += "; close";
	}
	diag_l0_del(dl);
	size_t heap1 = lib_bytes();
	PBT_CHECK(c, heap1 == heap0, "%zu bytes leaked; %s", heap1 - heap0, seq.c_str());
	diag_l0_debug = 0;
	diag_end();
	if (sent && got) {
		c.nontrivial();
		c.note("%s", seq.substr(0, 400).c_str());
	}
	(void)failed;
}
