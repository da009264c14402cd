// LINK: vos vtty
// Dumb K-line interfaces: bus initialisation signals, options, pass-through.
#include "pbt.hpp"
#include "vos.hpp"
#include "vtty.hpp"
#include <algorithm>
#include <cstring>
#include <functional>
#include <memory>
extern "C" {
#include "diag.h"
#include "diag_err.h"
#include "diag_l0.h"
#include "diag_l1.h"
#include "diag_cfg.h"
#include "diag_tty.h"
}
using namespace pbt;
const char *pbt::prop_id = "E05";
const char *pbt::prop_rule = "histories of open / port settings / transmission / reception / flushing / slow, fast and unsupported bus initialisation / close on a dumb interface with any option combination, a model ECU that decodes "
	"the K and L lines and answers (or not, or late) with the synchronisation byte and key bytes, echoes of breaks and stale bytes, and failing serial port operations; "
	"non-trivial = at least one bus initialisation was carried out";
unsigned pbt::quick_cases = 40000, pbt::thorough_cases = 1000000;

namespace {
typedef std::string S;
enum { USE_L = 1, CLR_DTR = 2, SET_RTS = 4, MAN_BREAK = 8, L_INV = 16, FASTB = 32, BLKDUP = 64 };
struct Low { uint64_t a, b; };
// when the K line was low
std::vector<Low> klow(size_t from, uint64_t since) {
	std::vector<Low> v;
	for (size_t i = from; i < tty::log.size(); i++) {
		auto &r = tty::log[i];
		if (r.t0 < since) continue;
		if (r.op == tty::BREAK) v.push_back({ r.t0, r.t1 });
		if (r.op == tty::FASTBREAK) v.push_back({ r.t0, r.t0 + 25000 });
		if (r.op == tty::WRITE && r.speed) {
			uint64_t t = r.t0, bit = 1000000 / r.speed;
			for (uint8_t x : r.data) {
				unsigned f = (unsigned)x << 1 | 0x200;
				for (unsigned k = 0; k < 10; k++) if (!(f >> k & 1)) v.push_back({ t + k * bit, t + (k + 1) * bit });
				t += 10 * bit;
			}
		}
	}
	std::sort(v.begin(), v.end(), [](const Low &x, const Low &y) { return x.a < y.a; });
	std::vector<Low> m;
	for (auto &x : v) {
		if (!m.empty() && x.a <= m.back().b + 3000) m.back().b = std::max(m.back().b, x.b);   // glitches of a few ms are not bits
		else m.push_back(x);
	}
	return m;
}
// when the L line was low, up to the given time
std::vector<Low> llow(size_t from, bool inv, bool rts, uint64_t until) {
	std::vector<Low> v;
	bool low = rts != inv;
	uint64_t t = 0;
	auto edge = [&](bool now, uint64_t when) {
		if (now == low) return;
		if (low && when > t) {
			if (!v.empty() && t <= v.back().b + 3000) v.back().b = when;
			else v.push_back({ t, when });
		}
		low = now;
		t = when;
	};
	for (size_t i = from; i < tty::log.size(); i++) if (tty::log[i].op == tty::CONTROL) edge((tty::log[i].rts != 0) != inv, tty::log[i].t0);
	edge(false, until);
	return v;
}
S show(const std::vector<Low> &v, uint64_t base) {
	S s;
	char b[60];
	for (auto &x : v) {
		snprintf(b, sizeof b, " [%.1f..%.1f]", ((double)x.a - (double)base) / 1000, ((double)x.b - (double)base) / 1000);
		s += b;
	}
	return s.empty() ? " never low" : s;
}
// do these low intervals show the address at 5 baud? edges within 3 %
bool fivebaud(const std::vector<Low> &v, uint64_t start, uint8_t addr) {
	unsigned f = (unsigned)addr << 1 | 0x200;
	std::vector<Low> want;
	for (unsigned k = 0; k < 10; k++) {
		if (f >> k & 1) continue;
		if (!want.empty() && want.back().b == k) want.back().b = k + 1;
		else want.push_back({ k, k + 1 });
	}
	if (want.size() != v.size()) return false;
	for (size_t i = 0; i < v.size(); i++) {
		double a = (double)v[i].a - (double)start, b = (double)v[i].b - (double)start;
		double wa = (double)want[i].a * 200000, wb = (double)want[i].b * 200000;
		if (a < wa * 0.97 - 12000 || a > wa * 1.03 + 12000 || b < wb * 0.97 - 12000 || b > wb * 1.03 + 12000) return false;
	}
	return true;
}
}

void pbt::property(Ctx &c) {
	diag_init();
	size_t heap0 = lib_bytes();
	vos::now_us = 1000000;
	tty::reset();
	tty::write_blocks = c.chance(1, 2);     // how far a write waits for the transmission is up to the system
	tty::step_us = 20000;
	int ttyfault = -1, lastfault = -1;
	unsigned faults = 0;
	bool setupfault = false;
	tty::fault = [&](tty::Op op) -> int {
		if (op == tty::CLOSE || ttyfault < 0) return 0;
		if (ttyfault-- > 0) return 0;
		ttyfault = -1;
		faults++;
		lastfault = op;
		if (op == tty::SETUP) setupfault = true;
		return op == tty::WRITE && c.chance(1, 2) ? 2 : 1;
	};
	S seq;
	char b[300];
	diag_l0_debug = c.chance(1, 6) ? -1 : 0;
	struct diag_l0_device *dl = diag_l0_new("DUMB");
	PBT_CHECK(c, dl, "no DUMB interface");
	struct cfgi *copts = nullptr;
	for (struct cfgi *p = diag_l0_getcfg(dl); p; p = p->next) {
		if (!strcmp(p->shortname, "port")) diag_cfg_setstr(p, "/dev/ttyS0");
		if (!strcmp(p->shortname, "dumbopts")) copts = p;
	}
	PBT_CHECK(c, copts, "no option \"dumbopts\"");
	unsigned sessions = c.range(1, 3);
	for (unsigned s = 0; s < sessions; s++) {
		unsigned opts = c.chance(1, 6) ? 0x48 : c.range(0, 127);
		if (c.chance(2, 3)) {                // polarity and resting level of the L line agree
			opts &= ~(SET_RTS | L_INV);
			if (c.chance(1, 3)) opts |= SET_RTS | L_INV;
		}
		bool dflt = s == 0 && opts == 0x48 && c.chance(1, 2);
		if (!dflt) diag_cfg_setint(copts, (int)opts);
		bool use_l = opts & USE_L, linv = opts & L_INV, rts0 = opts & SET_RTS, dtr0 = !(opts & CLR_DTR);
		bool lvalid = rts0 == linv;
		int proto = c.pick({ (int)DIAG_L1_ISO9141, (int)DIAG_L1_ISO14230, (int)DIAG_L1_ISO14230, (int)DIAG_L1_RAW });
		tty::log.clear();
		tty::drop_pending();
		ttyfault = c.chance(1, 15) ? c.range(0, 3) : -1;
		unsigned f0 = faults;
		int rv = diag_l0_open(dl, proto);
		ttyfault = -1;
		bool flt = faults != f0;
		snprintf(b, sizeof b, "%sopen protocol %d options %02x%s = %d", s ? "; " : "", proto, opts, flt ? " port fault" : "", rv);
		seq += b;
		if (rv) {
			PBT_CHECK(c, rv < 0 && !dl->opened && tty::opens == 0, "after a failed open (%d) opened is %d and %d ports are open; %s", rv, dl->opened, tty::opens, seq.c_str());
			PBT_CHECK(c, flt, "open fails; %s", seq.c_str());
			c.label("open failed");
			continue;
		}
		PBT_CHECK(c, !flt || lastfault == tty::IFLUSH, "open reports success though the port failed; %s", seq.c_str());
		PBT_CHECK(c, dl->opened && tty::opens == 1, "opened is %d with %d ports; %s", dl->opened, tty::opens, seq.c_str());
		auto rest = [&](const char *when) {
			PBT_CHECK(c, (tty::dtr != 0) == dtr0 && (tty::rts != 0) == rts0, "DTR is %u and RTS is %u %s; %s", tty::dtr, tty::rts, when, seq.c_str());
		};
		rest("after opening");
		uint32_t flags = (proto == DIAG_L1_ISO14230 ? DIAG_L1_FAST | DIAG_L1_PREFFAST | DIAG_L1_SLOW | DIAG_L1_HALFDUPLEX : proto == DIAG_L1_ISO9141 ? DIAG_L1_SLOW | DIAG_L1_HALFDUPLEX : 0) | (opts & BLKDUP ? DIAG_L1_BLOCKDUPLEX : 0);
		uint32_t fl = diag_l0_getflags(dl);
		PBT_CHECK(c, fl == flags, "flags %#x; %s", fl, seq.c_str());
		struct diag_serial_settings cur = {};
		bool have = false, dead = false;
		auto same = [&](const tty::Rec &r) { return r.speed == cur.speed && r.databits == (unsigned)cur.databits && r.stopbits == (unsigned)cur.stopbits && r.par == (unsigned)cur.parflag; };
		auto port = [&](const char *when) {      // the port is as set
			const tty::Rec *l = nullptr;
			for (auto &r : tty::log) if (r.op == tty::SETUP) l = &r;
			if (!have) PBT_CHECK(c, !l, "port settings were changed; %s", seq.c_str());
			else PBT_CHECK(c, l && same(*l), "port runs at %u bps (%u data bits, %u stop bits, parity %u) %s, %u bps (%u, %u, %u) asked for; %s",
				l ? l->speed : 0, l ? l->databits : 0, l ? l->stopbits : 0, l ? l->par : 0, when, cur.speed, cur.databits, cur.stopbits, cur.parflag, seq.c_str());
		};
		auto setspeed = [&]() {
			cur.speed = c.chance(2, 3) ? 10400 : c.pick<unsigned>({ 1200, 4800, 9600, 9615, 19200, 38400 });
			cur.databits = c.chance(4, 5) ? diag_databits_8 : c.pick({ diag_databits_7, diag_databits_6, diag_databits_5 });
			cur.stopbits = c.chance(4, 5) ? diag_stopbits_1 : diag_stopbits_2;
			cur.parflag = c.chance(4, 5) ? diag_par_n : c.pick({ diag_par_e, diag_par_o });
			setupfault = false;
			ttyfault = c.chance(1, 30) ? 0 : -1;
			int r = diag_l0_ioctl(dl, DIAG_IOCTL_SETSPEED, &cur);
			ttyfault = -1;
			snprintf(b, sizeof b, "; %u bps%s = %d", cur.speed, setupfault ? " port fault" : "", r);
			seq += b;
			PBT_CHECK(c, setupfault ? r < 0 : r == 0, "setting the speed: %s", seq.c_str());
			have = true;
			if (setupfault) dead = true;
			else port("after setting it");
		};
		unsigned nops = c.range(1, 6);
		for (unsigned op = 0; op < nops && !dead; op++) {
			unsigned what = c.weighted({ 8, 3, 3, 1, 2, 1 });
			if (what == 0 && !have) setspeed();
			if (dead) break;
			switch (what) {
			case 0: {            // ---- bus initialisation ----
				struct diag_l1_initbus_args in;
				memset(&in, 0, sizeof in);
				in.type = c.weighted({ 6, 4, 1 }) == 0 ? DIAG_L1_INITBUS_5BAUD : c.chance(4, 5) ? DIAG_L1_INITBUS_FAST : c.chance(1, 2) ? DIAG_L1_INITBUS_2SLOW : 0;
				if (!in.type && DIAG_L1_INITBUS_FAST == 0) in.type = DIAG_L1_INITBUS_FAST;
				bool slow = in.type == DIAG_L1_INITBUS_5BAUD, fast = in.type == DIAG_L1_INITBUS_FAST;
				in.addr = c.chance(1, 3) ? c.pick<uint8_t>({ 0x33, 0x01, 0, 0xff, 0x80, 0x55, 0xaa, 0x7f }) : c.byte();
				in.testerid = 0xf1;
				in.physaddr = c.chance(1, 2);
				struct diag_l1_initbus_args in0 = in;
				tty::drop_pending();                 // the bus is idle
				size_t l0 = tty::log.size();
				uint64_t t0 = vos::now_us;
				if (c.chance(1, 3)) tty::feed_at(t0 - c.range(0, 5) * 1000, c.bytes(c.range(1, 40)), 0, 7);   // stale
				bool silent = c.chance(1, 5), late = !silent && c.chance(1, 10), spurious = c.chance(2, 3);
				bool noecho = silent && c.chance(1, 2);
				uint64_t start = 0;
				bool decided = false;
				Bytes keys;
				size_t seen = l0;
				uint64_t syncat = 0;
				S plan;
				f0 = faults;
				setupfault = false;
				ttyfault = c.chance(1, 12) ? c.range(0, slow ? 22 : 6) : -1;
				vos::on_advance = [&]() {
					for (; seen < tty::log.size(); seen++) {     // echoes
						auto &r = tty::log[seen];
						if (r.op == tty::BREAK && spurious) tty::feed_at(r.t0 + std::min<uint64_t>(r.t1 - r.t0, 10000), Bytes{ 0 }, 0, 8);
						if (r.op == tty::FASTBREAK && spurious) tty::feed_at(r.t0 + 28000, Bytes{ 0 }, 0, 8);
						if (r.op == tty::WRITE && r.speed == 5 && !noecho) tty::feed_at(r.t0 + 2000000 + c.range(0, 15) * 1000, r.data, 0, 9);
					}
					if (!slow || decided) return;
					if (!start) {
						auto k = klow(l0, t0);
						if (!k.empty()) start = k[0].a;
					}
					if (!start || vos::now_us < start + 1975000) return;
					decided = true;
					auto k = klow(l0, t0);
					bool ok = fivebaud(k, start, in0.addr);
					auto l = llow(l0, linv, rts0, vos::now_us);
					if (use_l && lvalid) ok = ok && !l.empty() && fivebaud(l, l[0].a, in0.addr);
					if (!ok || silent) return;
					syncat = start + 2000000 + (late ? c.range(420, 900) : c.range(62, 295)) * 1000;
					tty::feed_at(syncat, Bytes{ 0x55 }, 0, 1);
					syncat = tty::peek().back().t;
					keys = c.bytes(2);
					tty::feed_at(syncat + c.range(6, 20) * 1000, keys, c.range(1, 19) * 1000, 2);
				};
				rv = diag_l0_ioctl(dl, DIAG_IOCTL_INITBUS, &in);
				vos::on_advance = nullptr;
				ttyfault = -1;
				flt = faults != f0;
				uint64_t t1 = vos::now_us;
				// the end of the history for klow: the initialisation itself
				auto k = klow(l0, t0);
				uint64_t base = k.empty() ? t0 : k[0].a;
				auto l = llow(l0, linv, rts0, t1);
				snprintf(b, sizeof b, "; initbus type %d addr %02x%s%s%s = %d after %.1f ms", in.type, in.addr, silent ? " silent ECU" : late ? " late ECU" : "", noecho ? " no echo" : "", flt ? " port fault" : "", rv, (double)(t1 - base) / 1000);
				seq += b;
				S lines = "K" + show(k, base) + " L" + (use_l ? show(l, base) : S(" unused"));
				PBT_CHECK(c, rv <= 0, "initbus gives %d; %s", rv, seq.c_str());
				PBT_CHECK(c, in.addr == in0.addr && in.type == in0.type && in.testerid == in0.testerid && in.physaddr == in0.physaddr, "arguments were changed; %s", seq.c_str());
				PBT_CHECK(c, t1 - t0 < 5000000, "takes %llu ms; %s", (unsigned long long)(t1 - t0) / 1000, seq.c_str());
				if (opts & MAN_BREAK) for (size_t i = l0; i < tty::log.size(); i++)
					PBT_CHECK(c, tty::log[i].op != tty::SETUP || tty::log[i].speed >= 300, "port set to %u bps, manual breaks asked for; %s", tty::log[i].speed, seq.c_str());
				if (!use_l) for (size_t i = l0; i < tty::log.size(); i++)
					PBT_CHECK(c, tty::log[i].op != tty::CONTROL || (tty::log[i].rts != 0) == rts0, "RTS is moved though the L line is not used; %s", seq.c_str());
				if (!slow && !fast) {
					PBT_CHECK(c, rv == DIAG_ERR_INIT_NOTSUPP, "unsupported initialisation; %s", seq.c_str());
					PBT_CHECK(c, k.empty(), "unsupported initialisation: %s; %s", lines.c_str(), seq.c_str());
					c.label("unsupported init");
					rest("after an unsupported initialisation");
					port("after an unsupported initialisation");
				} else if (flt) {
					c.label("%s init, port fault", slow ? "slow" : "fast");
					PBT_CHECK(c, rv == 0 || rv < 0, "%s", seq.c_str());
					if (slow && rv == 0) {
						bool sync = false;
						for (auto &x : tty::peek()) if (x.tag == 1) sync = true;
						PBT_CHECK(c, !sync || lastfault == tty::IFLUSH || lastfault == tty::CONTROL || lastfault == tty::SETUP || lastfault == tty::BREAK || lastfault == tty::WRITE, "%s", seq.c_str());
					}
					if (fast && (lastfault == tty::BREAK || lastfault == tty::FASTBREAK)) PBT_CHECK(c, rv < 0, "wake-up pattern failed, success reported; %s", seq.c_str());
					if (!setupfault && have) port("after the initialisation");
					dead = true;
				} else if (fast) {
					c.nontrivial();
					c.label("fast init%s%s", use_l ? " K+L" : " K", opts & FASTB ? " fastbreak" : "");
					PBT_CHECK(c, rv == 0, "fast initialisation fails; %s", seq.c_str());
					PBT_CHECK(c, k.size() == 1 && k[0].b - k[0].a >= 24000 && k[0].b - k[0].a <= 26000, "fast initialisation: %s; %s", lines.c_str(), seq.c_str());
					PBT_CHECK(c, t1 - base >= 49000 && t1 - base <= 51000, "fast initialisation ends %.1f ms after its start; %s", (double)(t1 - base) / 1000, seq.c_str());
					if (use_l && lvalid && !(opts & FASTB)) {
						PBT_CHECK(c, l.size() == 1, "fast initialisation: %s; %s", lines.c_str(), seq.c_str());
						PBT_CHECK(c, l[0].a <= k[0].a + 2000 && l[0].a + 2000 >= k[0].a && l[0].b <= k[0].b + 2000 && l[0].b + 2000 >= k[0].b, "fast initialisation: %s; %s", lines.c_str(), seq.c_str());
						c.label("L line driven");
					} else if (use_l && lvalid) PBT_CHECK(c, l.empty(), "fast initialisation: %s; %s", lines.c_str(), seq.c_str());
					PBT_CHECK(c, tty::pending() == 0, "%zu bytes from before the end of the initialisation are left; %s", tty::pending(), seq.c_str());
					rest("after the initialisation");
					port("after the initialisation");
				} else {
					c.nontrivial();
					c.label("slow init%s%s%s", use_l ? " K+L" : " K", opts & MAN_BREAK ? " by breaks" : " by writing", silent ? ", silent" : late ? ", late" : "");
					PBT_CHECK(c, k.size() && fivebaud(k, base, in.addr), "address %02x at 5 baud on %s; %s", in.addr, lines.c_str(), seq.c_str());
					if (use_l && lvalid) {
						PBT_CHECK(c, l.size() && fivebaud(l, l[0].a, in.addr) && l[0].a <= base + 20000 && l[0].a + 20000 >= base, "address %02x at 5 baud on %s; %s", in.addr, lines.c_str(), seq.c_str());
						c.label("L line driven");
					}
					if (silent || late) {
						PBT_CHECK(c, rv < 0, "no synchronisation byte, success reported; %s", seq.c_str());
						if (late) dead = true;              // bytes may be taken or not
					} else {
						PBT_CHECK(c, rv == 0, "synchronisation byte %.1f ms after the start missed; %s", ((double)syncat - (double)base) / 1000, seq.c_str());
						PBT_CHECK(c, t1 >= syncat && t1 < syncat + 5000, "returns %.1f ms after the synchronisation byte; %s", ((double)t1 - (double)syncat) / 1000, seq.c_str());
						Bytes left;
						for (auto &x : tty::peek()) left.push_back(x.b);
						PBT_CHECK(c, left == keys, "%s left to be read after the synchronisation byte, the key bytes are %s; %s", hex(left).c_str(), hex(keys).c_str(), seq.c_str());
						c.label("ECU answered");
					}
					rest("after the initialisation");
					port("after the initialisation");
				}
				break;
			}
			case 1: {            // ---- transmission ----
				size_t len = c.chance(1, 15) ? 0 : c.size(600);
				Bytes d = c.bytes(len);
				std::unique_ptr<uint8_t[]> p(new uint8_t[len]);
				std::copy(d.begin(), d.end(), p.get());
				size_t n0 = tty::log.size();
				f0 = faults;
				ttyfault = c.chance(1, 20) ? 0 : -1;
				rv = diag_l0_send(dl, p.get(), len);
				ttyfault = -1;
				flt = faults != f0;
				Bytes out;
				for (size_t i = n0; i < tty::log.size(); i++) if (tty::log[i].op == tty::WRITE) out.insert(out.end(), tty::log[i].data.begin(), tty::log[i].data.end());
				snprintf(b, sizeof b, "; send %zu%s = %d", len, flt ? " port fault" : "", rv);
				seq += b;
				if (len == 0) PBT_CHECK(c, rv < 0 && out.empty(), "%s", seq.c_str());
				else if (flt) PBT_CHECK(c, rv < 0, "%s", seq.c_str());
				else {
					PBT_CHECK(c, rv == 0, "%s", seq.c_str());
					PBT_CHECK(c, out == d, "%s transmitted instead of %s; %s", hex(out).c_str(), hex(d).c_str(), seq.c_str());
					if (c.chance(1, 2)) tty::feed_at(vos::now_us + c.range(0, 20) * 1000, d, c.range(0, 5) * 1000, 3);
				}
				c.label("send");
				break;
			}
			case 2: {            // ---- reception ----
				if (c.chance(2, 3)) tty::feed_at(vos::now_us + c.range(0, 300) * 1000, c.bytes(c.size(60)), c.range(0, 30) * 1000, 4);
				size_t len = c.chance(1, 15) ? 0 : c.chance(1, 2) ? c.range(1, 8) : c.range(1, 1024);
				unsigned timeout = c.range(1, 500);
				std::unique_ptr<uint8_t[]> p(new uint8_t[len]);
				Bytes want;
				uint64_t now = vos::now_us;
				for (auto &x : tty::peek()) if (want.size() < len && x.t <= now + timeout * 1000ull) want.push_back(x.b);
				f0 = faults;
				ttyfault = c.chance(1, 20) ? 0 : -1;
				rv = diag_l0_recv(dl, p.get(), len, timeout);
				ttyfault = -1;
				flt = faults != f0;
				snprintf(b, sizeof b, "; recv %zu %u ms%s = %d", len, timeout, flt ? " port fault" : "", rv);
				seq += b;
				if (len == 0) PBT_CHECK(c, rv < 0 && rv != DIAG_ERR_TIMEOUT, "%s", seq.c_str());
				else if (flt) PBT_CHECK(c, rv < 0 && rv != DIAG_ERR_TIMEOUT, "%s", seq.c_str());
				else if (want.empty()) PBT_CHECK(c, rv == DIAG_ERR_TIMEOUT, "nothing came; %s", seq.c_str());
				else PBT_CHECK(c, rv == (int)want.size() && !memcmp(p.get(), want.data(), want.size()), "%s received instead of %s; %s", rv > 0 ? hex(p.get(), rv).c_str() : "nothing", hex(want).c_str(), seq.c_str());
				PBT_CHECK(c, vos::now_us - now <= timeout * 1000ull + 20000, "takes %llu ms; %s", (unsigned long long)(vos::now_us - now) / 1000, seq.c_str());
				c.label("recv");
				break;
			}
			case 3: {            // ---- flush ----
				f0 = faults;
				ttyfault = c.chance(1, 10) ? 0 : -1;
				rv = diag_l0_ioctl(dl, DIAG_IOCTL_IFLUSH, nullptr);
				ttyfault = -1;
				snprintf(b, sizeof b, "; flush = %d", rv);
				seq += b;
				if (faults != f0) PBT_CHECK(c, rv < 0, "port fault; %s", seq.c_str());
				else {
					PBT_CHECK(c, rv == 0, "%s", seq.c_str());
					for (auto &x : tty::peek()) PBT_CHECK(c, x.t + 50000 > vos::now_us, "old bytes left; %s", seq.c_str());
				}
				break;
			}
			case 4: setspeed(); break;
			case 5: {
				fl = diag_l0_getflags(dl);
				PBT_CHECK(c, fl == flags, "flags %#x, were %#x; %s", fl, flags, seq.c_str());
				unsigned cmd = c.range(0, 0x30000);
				if (cmd == DIAG_IOCTL_INITBUS || cmd == DIAG_IOCTL_IFLUSH || cmd == DIAG_IOCTL_SETSPEED) break;
				uint8_t dummy[64] = {};
				size_t n0 = tty::log.size();
				rv = diag_l0_ioctl(dl, cmd, dummy);
				PBT_CHECK(c, rv == DIAG_ERR_IOCTL_NOTSUPP && tty::log.size() == n0, "unknown ioctl %x gives %d; %s", cmd, rv, seq.c_str());
				break;
			}
			}
			if (!dead) rest("between operations");
		}
		diag_l0_close(dl);
		PBT_CHECK(c, !dl->opened && tty::opens == 0, "after closing opened is %d and %d ports are open; %s", dl->opened, tty::opens, seq.c_str());
		vos::advance(500000);
	}
	diag_l0_del(dl);
	PBT_CHECK(c, lib_bytes() == heap0, "%zu bytes leaked; %s", lib_bytes() - heap0, seq.c_str());
	diag_l0_debug = 0;
	diag_end();
	c.note("%s", seq.substr(0, 500).c_str());
}
