// LINK: vos vtty
// Multiplex Engineering adapter: fixed size command packets, checked answers.
#include "pbt.hpp"
#include "vos.hpp"
#include "vtty.hpp"
#include <algorithm>
#include <cstring>
#include <functional>
#include <memory>
extern "C" {
#include "diag.h"
#include "diag_err.h"
#include "diag_l0.h"
#include "diag_l1.h"
#include "diag_cfg.h"
#include "diag_tty.h"
}
using namespace pbt;
const char *pbt::prop_id = "E03";
const char *pbt::prop_rule = "histories of open / bus initialisation / request / answers / close on a model Multiplex Engineering adapter (any address, all four protocols) answering with messages, "
	"error packets, wrong checksums, short packets, extra bytes, slowly or not at all, read in pieces of any size, with failing serial port operations; "
	"non-trivial = at least one request packet was transmitted and one answer (data or error) was read back";
unsigned pbt::quick_cases = 40000, pbt::thorough_cases = 1200000;

namespace {
typedef std::string S;
uint8_t crc8(const uint8_t *p, size_t n) {           // SAE J1850 CRC
	uint8_t crc = 0xff;
	while (n--) {
		crc ^= *p++;
		for (int i = 0; i < 8; i++) crc = (uint8_t)(crc & 0x80 ? crc << 1 ^ 0x1d : crc << 1);
	}
	return (uint8_t)~crc;
}
uint8_t sum8(const uint8_t *p, size_t n) { uint8_t s = 0; while (n--) s = (uint8_t)(s + *p++); return s; }
// the message lengths that are consistent with 11 padded payload bytes
std::vector<size_t> lengths(uint8_t type, const uint8_t *p) {
	std::vector<size_t> v;
	for (size_t n = 11; n >= 2; n--) {
		bool crc = type == 0x82 || type == 0x84;
		if ((crc ? crc8(p, n - 1) : sum8(p, n - 1)) == p[n - 1]) v.push_back(n);
		if (p[n - 1]) break;
	}
	return v;
}
struct Req { uint8_t cmd; Bytes data; };
struct Me {
	Ctx &c;
	uint8_t addr = 0x38;
	bool raw = false;
	Bytes acc, rawin;
	std::vector<Req> reqs;
	S broken;                          // first malformed packet
	std::function<void(const Req &)> on_req;
	std::function<void(const Bytes &)> on_raw;
	explicit Me(Ctx &x) : c(x) {}
	void input(const Bytes &b) {
		if (raw) {
			rawin.insert(rawin.end(), b.begin(), b.end());
			if (on_raw) on_raw(b);
			return;
		}
		acc.insert(acc.end(), b.begin(), b.end());
		while (acc.size() >= 15 && !raw) {
			Bytes p(acc.begin(), acc.begin() + 15);
			acc.erase(acc.begin(), acc.begin() + 15);
			bool slow = p[1] == 0x20;      // the address takes the place of the length
			unsigned n = slow ? 0 : p[2];
			bool ok = p[0] == addr && n <= 11;
			// the last payload byte may or may not be part of the sum
			ok = ok && (p[14] == sum8(&p[1], 12) || p[14] == sum8(&p[1], 13));
			for (size_t i = 3 + n; ok && i < 14; i++) ok = p[i] == 0;
			if (!ok && broken.empty()) broken = hex(p);
			reqs.push_back({ p[1], slow ? Bytes{ p[2] } : Bytes(p.begin() + 3, p.begin() + 3 + std::min<size_t>(n, 11)) });
			if (ok && on_req) on_req(reqs.back());
		}
	}
	Bytes packet(uint8_t type, const Bytes &payload) {
		Bytes p(14, 0);
		p[0] = addr;
		p[1] = type;
		std::copy(payload.begin(), payload.end(), p.begin() + 2);
		p[13] = sum8(&p[1], 12);
		return p;
	}
};
}

void pbt::property(Ctx &c) {
	diag_init();
	size_t heap0 = lib_bytes();
	vos::now_us = 1000000;
	tty::reset();
	Me m(c);
	tty::on_write = [&](const Bytes &b) { m.input(b); };
	int ttyfault = -1;                 // so many more operations succeed
	unsigned faults = 0;
	tty::fault = [&](tty::Op op) -> int {
		if (op == tty::CLOSE || op == tty::IFLUSH || ttyfault < 0) return 0;
		if (ttyfault-- > 0) return 0;
		ttyfault = -1;
		faults++;
		return op == tty::WRITE && c.chance(1, 2) ? 2 : 1;
	};
	S seq;
	bool sent = false, got = false;
	diag_l0_debug = c.chance(1, 4) ? -1 : 0;
	struct diag_l0_device *dl = diag_l0_new("MET16");
	PBT_CHECK(c, dl, "no MET16 interface");
	struct cfgi *cfg = diag_l0_getcfg(dl);
	for (struct cfgi *p = cfg; p; p = p->next) {
		if (p->type == CFGT_STR || !strcmp(p->shortname, "port")) diag_cfg_setstr(p, "/dev/ttyS0");
		else if (!strcmp(p->shortname, "meaddr")) {
			if (c.chance(1, 2)) diag_cfg_setu8(p, m.addr = c.byte());
			else PBT_CHECK(c, p->val.u8 == 0x38, "default adapter address %02x", p->val.u8);
		}
	}
	unsigned sessions = c.range(1, 3);
	for (unsigned s = 0; s < sessions; s++) {
		int proto = c.pick({ (int)DIAG_L1_ISO14230, (int)DIAG_L1_ISO9141, (int)DIAG_L1_J1850_VPW, (int)DIAG_L1_J1850_PWM });
		char b[200];
		m.raw = false;                     // the power was off
		m.acc.clear();
		m.broken.clear();
		tty::log.clear();
		tty::drop_pending();
		if (c.chance(1, 12)) tty::feed_at(vos::now_us - 10000, c.bytes(c.range(1, 30)), 100, -2);     // from before
		unsigned f0 = faults;
		ttyfault = c.chance(1, 8) ? c.range(0, 4) : -1;
		int rv = diag_l0_open(dl, proto);
		ttyfault = -1;
		snprintf(b, sizeof b, "open protocol %d address %02x = %d", proto, m.addr, rv);
		seq += (seq.empty() ? S("") : S("; ")) + b;
		if (rv) {
			PBT_CHECK(c, faults != f0, "open fails though the port works; %s", seq.c_str());
			PBT_CHECK(c, rv < 0 && !dl->opened && tty::opens == 0, "after a failed open (%d) opened is %d and %d ports are open; %s", rv, dl->opened, tty::opens, seq.c_str());
			c.label("open failed");
			continue;
		}
		PBT_CHECK(c, faults == f0, "open reports success though the port failed; %s", seq.c_str());
		PBT_CHECK(c, dl->opened && tty::opens == 1, "open succeeded but opened is %d with %d ports; %s", dl->opened, tty::opens, seq.c_str());
		const tty::Rec *set = nullptr;
		for (auto &r : tty::log) if (r.op == tty::SETUP) set = &r;
		PBT_CHECK(c, set && set->speed == 19200 && set->databits == 8 && set->stopbits == 1 && set->par == diag_par_n, "port not set to 19200 8N1; %s", seq.c_str());
		PBT_CHECK(c, tty::dtr == 1 && tty::rts == 0, "adapter is not powered: DTR %u RTS %u; %s", tty::dtr, tty::rts, seq.c_str());
		PBT_CHECK(c, tty::pending() == 0, "%zu bytes from before opening are left; %s", tty::pending(), seq.c_str());
		uint32_t flags = diag_l0_getflags(dl);
		bool kline = proto == DIAG_L1_ISO14230 || proto == DIAG_L1_ISO9141;
		bool fastpending = false, faststart = false, unsynced = false;
		Bytes kb;                          // key bytes to be reported
		Bytes partial, cur, stream;        // received so far of a packet; rest of the current message; everything received
		auto settle = [&]() {
			if (tty::pending() && tty::peek().back().t > vos::now_us) vos::advance_to(tty::peek().back().t + 1000);
		};
		auto clear = [&]() { partial.clear(); cur.clear(); kb.clear(); unsynced = tty::pending() != 0; };
		auto feed = [&](uint64_t t, const Bytes &p, uint64_t gap) {
			tty::feed_at(t, p, gap, 0);
			if (!p.empty()) t = tty::peek().back().t;
			return t;
		};
		// ---- what recv has to give ----
		auto recv = [&](size_t len, unsigned timeout) -> int {
			if (timeout < 1) timeout = 1;
			unsigned eff = timeout;
			bool rawm = m.raw;
			if (!rawm && kb.empty() && faststart) { eff = std::max(timeout, 200u); faststart = false; }
			Bytes win = partial, avail;
			for (auto &x : tty::peek()) if (x.t <= vos::now_us + eff * 1000ull) avail.push_back(x.b);
			Bytes want;                       // the only right answer, if not empty
			std::vector<size_t> ok;
			enum { DATA, LEN, ERR, NORESP, SHORT, ANY } exp;
			if (rawm) {
				exp = avail.empty() ? SHORT : DATA;
				want = avail;
				if (want.size() > len) want.resize(len);
			} else if (!kb.empty()) {
				exp = DATA;
				want = kb;
				if (want.size() > len) want.resize(len);
				kb.erase(kb.begin(), kb.begin() + want.size());
			} else if (!cur.empty()) {
				exp = DATA;
				want = cur;
				if (want.size() > len) want.resize(len);
				cur.erase(cur.begin(), cur.begin() + want.size());
			} else {
				win.insert(win.end(), avail.begin(), avail.begin() + std::min(avail.size(), 14 - partial.size()));
				if (unsynced) { exp = ANY; len = MAXRBUF; }
				else if (win.size() < 14) exp = SHORT;
				else if (sum8(&win[1], 12) != win[13]) exp = ERR;
				else if (win[1] == 0x80) exp = win[3] == 5 || win[3] == 7 || win[3] == 0xc ? NORESP : ERR;
				else if (win[1] == 1 || win[1] == 0x81 || win[1] == 0x82 || win[1] == 0x84) {
					exp = LEN;
					ok = lengths(win[1], &win[2]);
					if (ok.empty()) ok.push_back(11);
					if (ok.size() > 1) len = MAXRBUF;     // ambiguous: no telling what a partial read leaves
				} else { exp = ANY; len = MAXRBUF; }
			}
			size_t pend0 = tty::pending();
			Bytes before;
			for (auto &x : tty::peek()) before.push_back(x.b);
			uint64_t t0 = vos::now_us;
			std::unique_ptr<uint8_t[]> buf(new uint8_t[len]);
			f0 = faults;
			ttyfault = c.chance(1, 60) ? 0 : -1;
			int n = diag_l0_recv(dl, buf.get(), len, timeout);
			ttyfault = -1;
			bool flt = faults != f0;
			size_t used = pend0 - tty::pending();
			Bytes took(before.begin(), before.begin() + used);
			stream.insert(stream.end(), took.begin(), took.end());
			S ctx = "recv of at most " + std::to_string(len) + " timeout " + std::to_string(timeout) + " (before: " + hex(partial) + ", arriving " + hex(avail) + ") gives " +
				(n > 0 ? hex(buf.get(), std::min<size_t>(n, len)) : std::to_string(n)) + "; " + seq;
			PBT_CHECK(c, n != 0 && n <= (int)len, "%s", ctx.c_str());
			PBT_CHECK(c, vos::now_us - t0 <= (eff + 150ull) * 1000, "took %llu ms: %s", (unsigned long long)(vos::now_us - t0) / 1000, ctx.c_str());
			if (n > 0) got = true;
			if (flt) {
				PBT_CHECK(c, n < 0, "data though the port failed: %s", ctx.c_str());
				c.label("read fault");
				return n;
			}
			switch (exp) {
			case DATA:
				PBT_CHECK(c, n > 0 && (size_t)n == want.size() && !memcmp(buf.get(), want.data(), n), "expected %s: %s", hex(want).c_str(), ctx.c_str());
				c.label(rawm ? "raw data" : "data from buffer");
				return n;
			case SHORT:
				PBT_CHECK(c, n == DIAG_ERR_TIMEOUT || (n < 0 && !win.empty()), "no whole packet arrived: %s", ctx.c_str());
				if (rawm) break;
				if (n == DIAG_ERR_TIMEOUT) partial = win;
				else { partial.clear(); unsynced = tty::pending() != 0; }
				c.label(win.empty() ? "silence" : "short packet");
				if (!win.empty()) got = true;
				break;
			case ERR:
				PBT_CHECK(c, n < 0 && n != DIAG_ERR_TIMEOUT, "packet %s is an error: %s", hex(win).c_str(), ctx.c_str());
				partial.clear();
				if (win[1] != 0x80 || sum8(&win[1], 12) != win[13]) unsynced = tty::pending() != 0;
				c.label(sum8(&win[1], 12) != win[13] ? "bad checksum" : "error packet");
				got = true;
				break;
			case NORESP:
				PBT_CHECK(c, n == DIAG_ERR_TIMEOUT, "packet %s means no response: %s", hex(win).c_str(), ctx.c_str());
				partial.clear();
				c.label("no response packet");
				got = true;
				break;
			case LEN: {
				PBT_CHECK(c, n > 0, "packet %s is good: %s", hex(win).c_str(), ctx.c_str());
				PBT_CHECK(c, !memcmp(buf.get(), &win[2], n), "packet %s: %s", hex(win).c_str(), ctx.c_str());
				// the length can be told apart only when everything was read
				if ((size_t)n < len || len >= 11) {
					PBT_CHECK(c, std::count(ok.begin(), ok.end(), (size_t)n), "packet %s holds a message of %zu bytes: %s", hex(win).c_str(), ok[0], ctx.c_str());
				} else {
					PBT_CHECK(c, (size_t)n <= ok[0], "packet %s holds a message of %zu bytes: %s", hex(win).c_str(), ok[0], ctx.c_str());
					cur = Bytes(win.begin() + 2 + n, win.begin() + 2 + ok[0]);
				}
				partial.clear();
				c.label("message of %zu bytes", ok[0]);
				break;
			}
			case ANY:
				partial.clear();
				if (n > 0) {
					bool found = false;
					for (size_t o = 0; o + 14 <= stream.size() && !found; o++) {
						const uint8_t *w = &stream[o];
						if (sum8(w + 1, 12) != w[13] || w[1] == 0x80) continue;
						for (size_t k = 0; k + n <= 11 && !found; k++) found = !memcmp(w + 2 + k, buf.get(), n);
					}
					PBT_CHECK(c, found, "data was in no valid packet of %s: %s", hex(stream).c_str(), ctx.c_str());
				}
				c.label("out of step");
				break;
			}
			return n;
		};
		auto answers = [&](unsigned maxpackets) {
			uint64_t t = vos::now_us + c.range(1, 60) * 1000;
			unsigned k = c.weighted({ 1, 6, 3, 1 });
			if (k > maxpackets) k = maxpackets;
			for (unsigned i = 0; i < k; i++) {
				if (c.chance(1, 6)) t += c.range(0, 800) * 1000;
				uint64_t gap = c.chance(1, 5) ? c.range(500, 40000) : 521;
				uint8_t type = proto == DIAG_L1_J1850_VPW ? 0x82 : proto == DIAG_L1_J1850_PWM ? 0x84 : c.chance(1, 3) ? 0x01 : 0x81;
				if (c.chance(1, 20)) type = c.pick<uint8_t>({ 0x01, 0x81, 0x82, 0x84 });
				Bytes p;
				switch (c.weighted({ 12, 3, 2, 2, 1, 1 })) {
				case 0: {                             // a message
					Bytes d = c.bytes(c.range(1, 10));
					if (c.chance(1, 6)) for (auto &x : d) x = c.pick<uint8_t>({ 0, 0, 0xff, 1 });
					d.push_back(type & 6 ? crc8(d.data(), d.size()) : sum8(d.data(), d.size()));
					p = m.packet(type, d);
					break;
				}
				case 1: {                             // error
					uint8_t e = c.chance(1, 2) ? c.pick<uint8_t>({ 5, 7, 0xc }) : c.chance(1, 2) ? (uint8_t)c.range(0, 0x30) : c.byte();
					p = m.packet(0x80, { c.byte(), e, c.byte() });
					break;
				}
				case 2: {                             // corrupted
					Bytes d = c.bytes(c.range(1, 11));
					p = m.packet(type, d);
					p[c.range(2, 13)] ^= (uint8_t)(1 << c.draw(8));
					break;
				}
				case 3: {                             // cut short or too long
					Bytes d = c.bytes(c.range(1, 11));
					p = m.packet(type, d);
					if (c.chance(2, 3)) p.resize(c.range(1, 13));
					else { Bytes x = c.bytes(c.range(1, 14)); p.insert(p.end(), x.begin(), x.end()); }
					c.label("wrong length answer");
					break;
				}
				case 4: p = m.packet(type, c.bytes(11)); break;   // not a valid message inside
				case 5: p = m.packet(c.byte(), c.bytes(c.range(0, 11))); break;
				}
				t = feed(t, p, gap) + gap;
			}
		};
		bool dead = false;                   // failed initialisation: what requests do now is not specified
		unsigned nops = c.range(1, 7);
		for (unsigned op = 0; op < nops; op++) {
			unsigned what = kline ? c.weighted({ 6, 2, 1 }) : c.weighted({ 6, 0, 1 });
			if (what == 0 && (dead || m.raw) && kline && proto == DIAG_L1_ISO14230 && dead) what = 1;
			if (what == 2) {
				if (c.chance(1, 2)) {
					unsigned cmd = c.range(0, 0x30000);
					if (cmd == DIAG_IOCTL_INITBUS || cmd == DIAG_IOCTL_IFLUSH) continue;
					uint8_t dummy[64] = {};
					rv = diag_l0_ioctl(dl, cmd, dummy);
					PBT_CHECK(c, rv == DIAG_ERR_IOCTL_NOTSUPP, "unknown ioctl %x gives %d", cmd, rv);
				} else PBT_CHECK(c, diag_l0_getflags(dl) == flags, "flags changed; %s", seq.c_str());
				continue;
			}
			if (what == 1) {                         // ---- bus initialisation ----
				if (m.raw) break;                    // the adapter stays transparent until it is switched off
				settle();
				if (c.chance(3, 4)) vos::advance(c.range(0, 2000) * 1000);
				bool fast = proto == DIAG_L1_ISO14230 && c.chance(1, 2);
				struct diag_l1_initbus_args in;
				memset(&in, 0, sizeof in);
				in.type = fast ? DIAG_L1_INITBUS_FAST : DIAG_L1_INITBUS_5BAUD;
				in.addr = c.chance(1, 2) ? 0x33 : c.byte();
				in.testerid = 0xf1;
				size_t r0 = m.reqs.size();
				// the plan
				bool good = true;
				uint8_t speedcode = 0, k1 = c.byte(), k2 = c.byte();
				unsigned stage = 0;
				S plan;
				m.on_req = [&](const Req &q) {
					if (q.cmd == 0x20 && proto == DIAG_L1_ISO9141) {
						uint64_t t = vos::now_us + 1900000 + c.range(0, 400) * 1000;
						switch (c.weighted({ 8, 1, 1, 1 })) {
						case 0: do speedcode = c.chance(1, 2) ? (uint8_t)c.range(1, 60) : c.byte(); while (speedcode == 0x40 || speedcode == 0); break;
						case 1: speedcode = c.chance(1, 4) ? 0 : 0x40; good = false; plan += " error"; break;
						case 2: good = false; plan += " silence"; return;
						case 3: t += c.range(400, 3000) * 1000; speedcode = 39; good = t <= vos::now_us + 2350000; if (!good) plan += " late"; break;
						}
						tty::feed_at(t, Bytes{ speedcode }, 0, 0);
						if (good) m.raw = true;
						return;
					}
					if (proto != DIAG_L1_ISO14230) return;
					stage++;
					bool last = q.cmd == 0x86;
					uint64_t t = vos::now_us + c.range(1, 150) * 1000;
					Bytes p = m.packet(last ? 0x86 : 0x85, last ? Bytes{ k1, k2 } : c.bytes(c.range(0, 11)));
					if (p[1] == 0x80) p[1] = 0x85;
					switch (c.weighted({ 10, 1, 1, 1, 1 })) {
					case 0: break;
					case 1: good = false; plan += " silence"; return;
					case 2: p = m.packet(0x80, { 1, c.byte(), 3 }); good = false; plan += " error"; break;
					case 3: p.resize(c.range(1, 13)); good = false; plan += " short"; break;
					case 4: p[c.range(2, 13)] ^= (uint8_t)(1 << c.draw(8)); good = false; plan += " bad checksum"; break;
					}
					feed(t, p, 521);
				};
				f0 = faults;
				ttyfault = c.chance(1, 12) ? c.range(0, 4) : -1;
				rv = diag_l0_ioctl(dl, DIAG_IOCTL_INITBUS, &in);
				ttyfault = -1;
				m.on_req = nullptr;
				bool flt = faults != f0;
				snprintf(b, sizeof b, "; initbus %s addr %02x%s%s = %d", fast ? "fast" : "5 baud", in.addr, plan.c_str(), flt ? " port fault" : "", rv);
				seq += b;
				PBT_CHECK(c, m.broken.empty(), "malformed packet %s; %s", m.broken.c_str(), seq.c_str());
				PBT_CHECK(c, rv <= 0, "initbus gives %d; %s", rv, seq.c_str());
				faststart = fastpending = false;
				clear();
				if (fast) {
					PBT_CHECK(c, rv == 0 && m.reqs.size() == r0, "fast initialisation is done with the next request; %s", seq.c_str());
					fastpending = faststart = true;
					dead = false;
					c.label("fast init");
				} else if (flt) {
					PBT_CHECK(c, rv < 0, "initialisation reported as successful though the port failed; %s", seq.c_str());
					dead = true;
					c.label("init fault");
					if (m.raw) break;
				} else {
					PBT_CHECK(c, (rv == 0) == good, "%s initialisation gives %d; %s", good ? "good" : "failed", rv, seq.c_str());
					if (proto == DIAG_L1_ISO9141) {
						PBT_CHECK(c, m.reqs.size() == r0 + 1 && m.reqs[r0].cmd == 0x20 && m.reqs[r0].data == Bytes{ in.addr }, "wrong commands; %s", seq.c_str());
					} else {
						PBT_CHECK(c, m.reqs[r0].cmd == 0x85 && m.reqs[r0].data == Bytes{ 0x3e }, "wrong first command %02x %s; %s", m.reqs[r0].cmd, hex(m.reqs[r0].data).c_str(), seq.c_str());
						if (rv == 0) PBT_CHECK(c, m.reqs.size() == r0 + 2 && m.reqs[r0 + 1].cmd == 0x86 && m.reqs[r0 + 1].data.empty(), "wrong commands; %s", seq.c_str());
					}
					dead = rv != 0;
					if (rv == 0 && proto == DIAG_L1_ISO9141) {
						double real = 400000.0 / speedcode, rel = tty::speed / real;
						PBT_CHECK(c, rel > 0.94 && rel < (speedcode <= 222 ? 1.06 : 1.135), "the ECU talks at %.0f bps, the port was set to %u; %s", real, tty::speed, seq.c_str());
					}
					if (rv == 0 && proto == DIAG_L1_ISO14230) kb = { k1, k2 };
					c.label(rv ? "slow init failed" : "slow init");
				}
				if (rv && proto == DIAG_L1_ISO9141 && m.raw) break;
				unsynced = tty::pending() != 0;
				continue;
			}
			// ---- a request and its answers ----
			if (dead) continue;
			if (c.chance(2, 3)) { settle(); if (c.chance(1, 2)) { tty::drop_pending(); } }
			if (!kb.empty() && c.chance(3, 4)) {
				recv(c.range(1, 3), c.range(1, 100));
				if (!kb.empty()) recv(c.range(1, 3), c.range(1, 100));
			}
			size_t len = c.weighted({ 5, 3, 2, 1 }) == 0 ? c.range(1, 11) : c.chance(1, 2) ? c.range(1, 16) : c.range(1, m.raw ? 255 : 300);
			Bytes d = c.bytes(len);
			if (c.chance(1, 6)) for (auto &x : d) x = c.pick<uint8_t>({ '%', 'n', 's', 0, 0xff });
			size_t r0 = m.reqs.size(), raw0 = m.rawin.size(), w0 = tty::log.size();
			m.on_req = [&](const Req &) { answers(3); };
			m.on_raw = [&](const Bytes &) {
				uint64_t t = vos::now_us;
				for (unsigned k = c.range(0, 3); k--;) t = feed(t + c.range(1, 200) * 1000, c.bytes(c.range(1, 20)), c.range(300, 3000));
			};
			f0 = faults;
			ttyfault = c.chance(1, 30) ? 0 : -1;
			rv = diag_l0_send(dl, d.data(), d.size());
			ttyfault = -1;
			bool flt = faults != f0;
			m.on_req = nullptr;
			m.on_raw = nullptr;
			seq += "; send " + hex(d) + " = " + std::to_string(rv);
			PBT_CHECK(c, rv <= 0, "send gives %d; %s", rv, seq.c_str());
			PBT_CHECK(c, m.broken.empty(), "malformed packet %s for request %s; %s", m.broken.c_str(), hex(d).c_str(), seq.c_str());
			PBT_CHECK(c, m.acc.empty(), "part of a packet was left: %s; %s", hex(m.acc).c_str(), seq.c_str());
			bool rawm = m.raw;
			size_t max = rawm ? 255 : 11;
			if (rv) {
				PBT_CHECK(c, flt || len > max, "request %s is refused; %s", hex(d).c_str(), seq.c_str());
				if (!flt) PBT_CHECK(c, tty::log.size() == w0 && m.reqs.size() == r0, "a refused request was transmitted; %s", seq.c_str());
				c.label("send refused");
				if (flt) break;
				continue;
			}
			PBT_CHECK(c, !flt, "send reports success though the port failed; %s", seq.c_str());
			sent = true;
			if (rawm) {
				Bytes w(m.rawin.begin() + raw0, m.rawin.end());
				PBT_CHECK(c, w == d, "%s was sent instead of %s; %s", hex(w).c_str(), hex(d).c_str(), seq.c_str());
				PBT_CHECK(c, m.reqs.size() == r0, "command in transparent mode");
			} else {
				uint8_t cmd = proto == DIAG_L1_J1850_VPW ? 0x02 : proto == DIAG_L1_J1850_PWM ? 0x80 : proto == DIAG_L1_ISO9141 ? 0x10 : fastpending ? 0x87 : 0x88;
				PBT_CHECK(c, len <= max, "a message of %zu bytes was accepted; %s", len, seq.c_str());
				PBT_CHECK(c, m.reqs.size() == r0 + 1, "%zu packets for one request; %s", m.reqs.size() - r0, seq.c_str());
				PBT_CHECK(c, m.reqs[r0].cmd == cmd, "command %02x instead of %02x; %s", m.reqs[r0].cmd, cmd, seq.c_str());
				PBT_CHECK(c, m.reqs[r0].data == d, "%s was sent instead of %s; %s", hex(m.reqs[r0].data).c_str(), hex(d).c_str(), seq.c_str());
				fastpending = false;
				// whatever is left of a packet cannot be completed any more
				bool had = !partial.empty();
				partial.clear();
				bool clean = true;
				for (auto &x : tty::peek()) if (x.t <= tty::log.back().t1) clean = false;
				if (had && !clean) unsynced = true;
				if (unsynced && clean && cur.empty()) {
					unsynced = false;
					if (had) c.label("back in step");
				}
			}
			unsigned quiet = 0;
			for (unsigned r = 0; r < 12 && quiet < 2; r++) {
				size_t l = c.chance(2, 3) ? MAXRBUF : c.range(1, 14);
				unsigned to = c.chance(2, 3) ? c.range(50, 1000) : c.range(1, 60);
				bool more = !cur.empty() || !kb.empty();
				int n = recv(l, to);
				if (n < 0 && !more && !tty::pending()) quiet++;
				if (n < 0 && c.chance(1, 10)) break;
			}
		}
		ttyfault = -1;
		diag_l0_close(dl);
		PBT_CHECK(c, !dl->opened && tty::opens == 0, "after closing the port is still open; %s", seq.c_str());
		seq += "; close";
		settle();
		vos::advance(1000000);
	}
	diag_l0_del(dl);
	size_t heap1 = lib_bytes();
	PBT_CHECK(c, heap1 == heap0, "%zu bytes leaked; %s", heap1 - heap0, seq.c_str());
	diag_l0_debug = 0;
	diag_end();
	if (sent && got) {
		c.nontrivial();
		c.note("%s", seq.substr(0, 400).c_str());
	}
}
