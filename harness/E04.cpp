// LINK: vos vtty
// B. Roadman BR-1 adapter: packets with a control byte, frame numbers, key bytes.
#include "pbt.hpp"
#include "vos.hpp"
#include "vtty.hpp"
#include <algorithm>
#include <cstring>
#include <functional>
#include <memory>
extern "C" {
#include "diag.h"
#include "diag_err.h"
#include "diag_l0.h"
#include "diag_l1.h"
#include "diag_cfg.h"
#include "diag_tty.h"
}
using namespace pbt;
const char *pbt::prop_id = "E04";
const char *pbt::prop_rule = "histories of open / bus initialisation / request / repeated reception / close on a model BR-1 adapter (old and new type, all four protocols) answering frame by frame with messages, "
	"error packets, bus conflicts, empty and cut packets, slowly or not at all, read in pieces of any size, with failing serial port operations; "
	"non-trivial = at least one request packet was transmitted and one answer (data or error) was read back";
unsigned pbt::quick_cases = 40000, pbt::thorough_cases = 1200000;

namespace {
typedef std::string S;
enum Kind { DATA, ERR, CONFLICT, EMPTY, CUT };
struct Pk { Kind k; Bytes data; uint64_t first, last; bool used; size_t n; };
struct Req { uint8_t ctl; Bytes data; };
struct Br {
	Ctx &c;
	bool connected = false;
	Bytes acc;
	std::vector<Req> reqs;
	std::vector<Pk> pks;
	Bytes raw;
	S broken;
	std::function<void()> on_connect;
	std::function<void(const Req &)> on_req;
	explicit Br(Ctx &x) : c(x) {}
	void input(const Bytes &b) {
		for (uint8_t x : b) {
			raw.push_back(x);
			if (acc.empty() && x == 0x20) {
				connected = true;
				if (on_connect) on_connect();
				continue;
			}
			if (!connected) {
				if (broken.empty()) broken = "byte before the connection";
				continue;
			}
			acc.push_back(x);
			size_t n = acc[0] & 15;
			if (n == 0 || (acc[0] & 0xb0)) {
				if (broken.empty()) broken = "control byte " + hex(acc);
				acc.clear();
				continue;
			}
			if (acc.size() == n + 1) {
				Req q{ acc[0], Bytes(acc.begin() + 1, acc.end()) };
				acc.clear();
				reqs.push_back(q);
				if (on_req) on_req(q);
			}
		}
	}
	// a packet towards the host
	uint64_t put(uint64_t t, Kind k, const Bytes &d, uint64_t gap) {
		Bytes p{ (uint8_t)(d.size() | (k == ERR ? 0x80 : k == CONFLICT ? 0x40 : 0)) };
		if (k == EMPTY) p[0] = (uint8_t)(c.chance(1, 2) ? 0 : 0x10);
		if (k == ERR && c.chance(1, 4)) p[0] |= 0x40;
		p.insert(p.end(), d.begin(), d.end());
		if (k == CUT) p.resize(c.range(1, d.size()));
		// the line is quiet after a cut packet, or the next one would be taken for the rest of it
		if (!pks.empty() && pks.back().k == CUT) t = std::max(t, pks.back().last + 150000);
		pks.push_back({ k, d, 0, 0, false, p.size() });
		size_t before = tty::pending();
		tty::feed_at(t, p, gap, (int)pks.size());
		pks.back().first = tty::peek()[before].t;
		pks.back().last = tty::peek().back().t;
		if (getenv("E04DBG")) fprintf(stderr, "PUT %d %s at %llu gap %llu now %llu\n", k, hex(p).c_str(), (unsigned long long)pks.back().first, (unsigned long long)gap, (unsigned long long)vos::now_us);
		return pks.back().last;
	}
};
}

void pbt::property(Ctx &c) {
	diag_init();
	size_t heap0 = lib_bytes();
	vos::now_us = 1000000;
	tty::reset();
	Br m(c);
	tty::on_write = [&](const Bytes &b) { m.input(b); };
	int ttyfault = -1;
	unsigned faults = 0;
	tty::fault = [&](tty::Op op) -> int {
		if (op == tty::CLOSE || op == tty::IFLUSH || ttyfault < 0) return 0;
		if (ttyfault-- > 0) return 0;
		ttyfault = -1;
		faults++;
		return op == tty::WRITE && c.chance(1, 2) ? 2 : 1;
	};
	S seq;
	bool sent = false, got = false;
	diag_l0_debug = c.chance(1, 4) ? -1 : 0;
	struct diag_l0_device *dl = diag_l0_new("BR1");
	PBT_CHECK(c, dl, "no BR1 interface");
	for (struct cfgi *p = diag_l0_getcfg(dl); p; p = p->next)
		if (!strcmp(p->shortname, "port")) diag_cfg_setstr(p, "/dev/ttyS0");
	unsigned sessions = c.range(1, 3);
	for (unsigned s = 0; s < sessions; s++) {
		int proto = c.pick({ (int)DIAG_L1_J1850_VPW, (int)DIAG_L1_J1850_PWM, (int)DIAG_L1_ISO9141, (int)DIAG_L1_ISO14230 });
		bool j1850 = proto == DIAG_L1_J1850_VPW || proto == DIAG_L1_J1850_PWM;
		char b[200];
		m.connected = false;
		m.acc.clear();
		m.reqs.clear();
		m.pks.clear();
		m.broken.clear();
		tty::log.clear();
		tty::drop_pending();
		auto settle = [&]() {
			if (tty::pending() && tty::peek().back().t > vos::now_us) vos::advance_to(tty::peek().back().t + 1000);
		};
		// ---- open ----
		bool good = true;
		S plan;
		m.on_connect = [&]() {
			uint64_t t = vos::now_us + c.range(0, 90) * 1000;
			switch (c.weighted({ 14, 1, 1, 1 })) {
			case 0: tty::feed_at(t, Bytes{ 0xff }); break;
			case 1: tty::feed_at(t, Bytes{ (uint8_t)c.range(0, 254) }); good = false; plan += " wrong answer"; break;
			case 2: good = false; plan += " silence"; break;
			case 3: tty::feed_at(vos::now_us + c.range(105, 500) * 1000, Bytes{ 0xff }); good = false; plan += " late"; break;
			}
		};
		m.on_req = [&](const Req &q) {
			(void)q;
			uint64_t t = vos::now_us + c.range(0, 90) * 1000;
			switch (c.weighted({ 14, 1, 1, 1, 1, 1, 1 })) {
			case 0: m.put(t, DATA, c.chance(1, 2) ? Bytes{ 0 } : Bytes{ 0, c.byte() }, 521); break;
			case 1: m.put(t, DATA, Bytes{ (uint8_t)c.range(1, 255) }, 521); good = false; plan += " refused"; break;
			case 2: good = false; plan += " silence"; break;
			case 3: m.put(t, ERR, c.bytes(c.range(0, 3)), 521); good = false; plan += " error"; break;
			case 4: m.put(t, EMPTY, {}, 521); good = false; plan += " empty"; break;
			case 5: { Bytes d = c.bytes(c.range(3, 15)); d[0] = 0; m.put(t, DATA, d, 521); good = false; plan += " long"; break; }
			case 6: m.put(t, CUT, Bytes{ 0, 1 }, 521); good = false; plan += " cut"; break;
			}
		};
		unsigned f0 = faults;
		ttyfault = c.chance(1, 10) ? c.range(0, 6) : -1;
		int rv = diag_l0_open(dl, proto);
		ttyfault = -1;
		bool flt = faults != f0;
		snprintf(b, sizeof b, "open protocol %d%s%s = %d", proto, plan.c_str(), flt ? " port fault" : "", rv);
		seq += (seq.empty() ? S("") : S("; ")) + b;
		m.on_connect = nullptr;
		m.on_req = nullptr;
		PBT_CHECK(c, m.broken.empty(), "%s; %s", m.broken.c_str(), seq.c_str());
		if (rv) {
			PBT_CHECK(c, rv < 0 && !dl->opened && tty::opens == 0, "after a failed open (%d) opened is %d and %d ports are open; %s", rv, dl->opened, tty::opens, seq.c_str());
			PBT_CHECK(c, flt || !good, "open fails on a working adapter; %s", seq.c_str());
			c.label("open failed");
			settle();
			vos::advance(2000000);
			continue;
		}
		PBT_CHECK(c, !flt && good, "open reports success; %s", seq.c_str());
		PBT_CHECK(c, dl->opened && tty::opens == 1, "open succeeded but opened is %d with %d ports; %s", dl->opened, tty::opens, seq.c_str());
		const tty::Rec *set = nullptr;
		for (auto &r : tty::log) if (r.op == tty::SETUP) set = &r;
		PBT_CHECK(c, set && set->speed == 19200 && set->databits == 8 && set->stopbits == 1 && set->par == diag_par_n, "port not set to 19200 8N1; %s", seq.c_str());
		PBT_CHECK(c, m.connected && m.acc.empty(), "adapter not connected; %s", seq.c_str());
		if (j1850) PBT_CHECK(c, m.reqs.size() == 1 && m.reqs[0].ctl == 0x41 && m.reqs[0].data[0] == (proto == DIAG_L1_J1850_VPW ? 0 : 1), "wrong initialisation; %s", seq.c_str());
		else PBT_CHECK(c, m.reqs.empty(), "command sent without need; %s", seq.c_str());
		PBT_CHECK(c, tty::pending() == 0, "part of an answer was left; %s", seq.c_str());
		m.reqs.clear();
		m.pks.clear();
		uint32_t flags = diag_l0_getflags(dl);
		Bytes kb, cur;
		Bytes request;                    // being answered (J1850)
		unsigned frame = 0;               // number of the frame asked for last
		bool waiting = false, lastfailed = false, dead = false;
		size_t seen = 0;                  // requests accounted for
		std::function<void(unsigned)> answer;
		// one reception; false: the rest of the session is not specified
		auto recv = [&](size_t len, unsigned timeout) -> int {
			std::unique_ptr<uint8_t[]> buf(new uint8_t[len]);
			uint64_t t0 = vos::now_us;
			size_t p0 = tty::pending();
			Bytes avail;
			if (!j1850) for (auto &x : tty::peek()) if (x.t <= t0 + timeout * 1000ull && avail.size() < len) avail.push_back(x.b);
			(void)p0;
			f0 = faults;
			ttyfault = c.chance(1, 60) ? c.range(0, 3) : -1;
			size_t npk = m.pks.size();
			std::vector<bool> usedbefore;
			for (auto &p : m.pks) usedbefore.push_back(p.used);
			int n = diag_l0_recv(dl, buf.get(), len, timeout);
			if (getenv("E04DBG")) fprintf(stderr, "RECV %zu %u from %llu to %llu = %d\n", len, timeout, (unsigned long long)t0, (unsigned long long)vos::now_us, n);
			ttyfault = -1;
			flt = faults != f0;
			// what was consumed
			std::vector<bool> left(m.pks.size() + 1);
			std::vector<size_t> remain(m.pks.size() + 1);
			for (auto &x : tty::peek()) { left[x.tag] = true; remain[x.tag]++; }
			std::vector<Pk *> now;
			for (size_t i = 0; i < m.pks.size(); i++) {
				Pk &p = m.pks[i];
				if (!p.used && remain[i + 1] < p.n) { p.used = true; now.push_back(&p); }
			}
			(void)npk;
			std::vector<Req> rq(m.reqs.begin() + seen, m.reqs.end());
			seen = m.reqs.size();
			S ctx = "recv of at most " + std::to_string(len) + " timeout " + std::to_string(timeout) + " gives " + (n > 0 ? hex(buf.get(), std::min<size_t>(n, len)) : std::to_string(n)) + " after";
			for (auto p : now) ctx += S(p->k == DATA ? " data " : p->k == ERR ? " error " : p->k == CONFLICT ? " conflict " : p->k == EMPTY ? " empty " : " cut ") + hex(p->data);
			ctx += " requests";
			for (auto &q : rq) ctx += " [" + hex(Bytes{ q.ctl }) + ": " + hex(q.data) + "]";
			ctx += "; " + seq;
			PBT_CHECK(c, n != 0 && n <= (int)len, "%s", ctx.c_str());
			PBT_CHECK(c, m.broken.empty(), "%s: %s", m.broken.c_str(), ctx.c_str());
			unsigned tries = 1 + (unsigned)rq.size();
			PBT_CHECK(c, vos::now_us - t0 <= tries * (std::max(timeout, 500u) + 250ull) * 1000, "took %llu ms: %s", (unsigned long long)(vos::now_us - t0) / 1000, ctx.c_str());
			if (flt) {
				PBT_CHECK(c, n < 0, "data though the port failed: %s", ctx.c_str());
				dead = true;
				c.label("receive fault");
				return n;
			}
			PBT_CHECK(c, m.acc.empty(), "part of a packet was sent: %s", ctx.c_str());
			if (n > 0) got = true;
			if (!kb.empty()) {
				size_t k = std::min(kb.size(), len);
				PBT_CHECK(c, n == (int)k && !memcmp(buf.get(), kb.data(), k), "expected key bytes %s: %s", hex(kb).c_str(), ctx.c_str());
				kb.erase(kb.begin(), kb.begin() + k);
				c.label("key bytes");
				return n;
			}
			if (!j1850) {
				if (avail.empty()) PBT_CHECK(c, n == DIAG_ERR_TIMEOUT, "nothing arrived: %s", ctx.c_str());
				else PBT_CHECK(c, n == (int)avail.size() && !memcmp(buf.get(), avail.data(), n), "expected %s: %s", hex(avail).c_str(), ctx.c_str());
				return n;
			}
			if (!cur.empty()) {
				size_t k = std::min(cur.size(), len);
				PBT_CHECK(c, n == (int)k && !memcmp(buf.get(), cur.data(), k), "expected %s: %s", hex(cur).c_str(), ctx.c_str());
				PBT_CHECK(c, now.empty() && rq.empty(), "%s", ctx.c_str());
				cur.erase(cur.begin(), cur.begin() + k);
				c.label("rest of a message");
				return n;
			}
			// packets: conflicts, then at most one other
			size_t conf = 0;
			Pk *end = nullptr;
			for (auto p : now) {
				if (end && end->k == CUT) {           // both were waiting: no telling them apart
					c.label("out of step");
					dead = true;
					return n;
				}
				PBT_CHECK(c, !end, "more than one packet was consumed: %s", ctx.c_str());
				if (p->k == CONFLICT) conf++;
				else end = p;
			}
			// the requests sent meanwhile
			size_t i = 0;
			bool pre = !waiting && !request.empty() && frame;
			for (auto &q : rq) {
				PBT_CHECK(c, !request.empty(), "request transmitted without one being made: %s", ctx.c_str());
				PBT_CHECK(c, !(q.ctl & 0x40), "initialisation sent: %s", ctx.c_str());
				PBT_CHECK(c, q.data.size() == request.size() + 1 && std::equal(request.begin(), request.end(), q.data.begin()), "%s was transmitted instead of %s: %s", hex(q.data).c_str(), hex(request).c_str(), ctx.c_str());
				unsigned fr = q.data.back();
				if (i == 0 && pre) {
					PBT_CHECK(c, fr == frame + 1 || (lastfailed && fr == frame), "frame %u asked for after frame %u: %s", fr, frame, ctx.c_str());
					frame = fr;
				} else PBT_CHECK(c, fr == frame, "frame %u asked for again as frame %u after a conflict: %s", frame, fr, ctx.c_str());
				i++;
			}
			waiting = false;
			lastfailed = true;
			size_t extra = rq.size() - (pre && !rq.empty());
			PBT_CHECK(c, extra <= conf, "%zu repetitions for %zu conflicts: %s", extra, conf, ctx.c_str());
			if (end && end->k == DATA) {
				PBT_CHECK(c, extra == conf || request.empty(), "%zu repetitions for %zu conflicts: %s", extra, conf, ctx.c_str());
				// all of it in time?
				bool intime = n > 0 || end->last - end->first < 95000 || end->last <= t0;
				if (intime) {
					PBT_CHECK(c, n > 0, "message %s is lost: %s", hex(end->data).c_str(), ctx.c_str());
					size_t k = std::min(end->data.size(), len);
					PBT_CHECK(c, (size_t)n == k && !memcmp(buf.get(), end->data.data(), k), "expected %s: %s", hex(end->data).c_str(), ctx.c_str());
					cur = Bytes(end->data.begin() + k, end->data.end());
					lastfailed = false;
					c.label("frame %s", frame < 2 ? "1" : frame == 2 ? "2" : "more");
				} else {
					c.label("too slow packet");
					dead = true;
				}
				return n;
			}
			PBT_CHECK(c, n < 0, "data from nowhere: %s", ctx.c_str());
			if (end) {
				got = true;
				c.label(end->k == ERR ? "error packet" : end->k == EMPTY ? "empty packet" : "cut packet");
			} else if (conf > 20) c.label("many conflicts");
			else {
				// nothing came within the timeout
				for (auto &p : m.pks) PBT_CHECK(c, p.used || p.first > t0 + std::max(timeout, 400u) * 1000ull, "packet %s arrived in time: %s", hex(p.data).c_str(), ctx.c_str());
				PBT_CHECK(c, extra == conf || request.empty() , "gave up after %zu conflicts: %s", conf, ctx.c_str());
				PBT_CHECK(c, n == DIAG_ERR_TIMEOUT || request.empty(), "silence is a timeout: %s", ctx.c_str());
				c.label("silence");
			}
			if (conf) c.label("conflict");
			return n;
		};
		unsigned nops = c.range(1, 6);
		for (unsigned op = 0; op < nops && !dead; op++) {
			unsigned what = j1850 ? c.weighted({ 6, 0, 1, 1 }) : c.weighted({ 5, 3, 1, 1 });
			if (what == 2) {
				if (c.chance(1, 2)) {
					unsigned cmd = c.range(0, 0x30000);
					if (cmd == DIAG_IOCTL_INITBUS || cmd == DIAG_IOCTL_IFLUSH) continue;
					uint8_t dummy[64] = {};
					rv = diag_l0_ioctl(dl, cmd, dummy);
					PBT_CHECK(c, rv == DIAG_ERR_IOCTL_NOTSUPP, "unknown ioctl %x gives %d", cmd, rv);
				} else PBT_CHECK(c, diag_l0_getflags(dl) == flags, "flags changed; %s", seq.c_str());
				continue;
			}
			if (what == 3) {                        // reception without a new request
				for (unsigned k = c.range(1, 3); k-- && !dead;) recv(c.range(1, 20), c.range(1, 700));
				continue;
			}
			if (what == 1) {                        // ---- bus initialisation ----
				settle();
				struct diag_l1_initbus_args in;
				memset(&in, 0, sizeof in);
				bool fast = c.chance(1, 5);
				in.type = fast ? DIAG_L1_INITBUS_FAST : c.chance(1, 12) ? DIAG_L1_INITBUS_2SLOW : DIAG_L1_INITBUS_5BAUD;
				in.addr = c.chance(1, 2) ? 0x33 : c.byte();
				in.testerid = 0xf1;
				good = in.type == DIAG_L1_INITBUS_5BAUD;
				bool either = false;
				Bytes keys;
				plan.clear();
				m.on_req = [&](const Req &) {
					uint64_t t = vos::now_us + c.range(1900, 5500) * 1000;
					switch (c.weighted({ 10, 1, 1, 1, 1, 1 })) {
					case 0: {
						Bytes d = c.bytes(c.range(1, 2));
						if (c.chance(1, 10)) { d = c.bytes(c.range(3, 15)); either = true; }
						m.put(t, DATA, d, 521);
						keys = d.size() == 1 ? Bytes{ d[0], d[0] } : Bytes{ d[0], d[1] };
						break;
					}
					case 1: good = false; plan += " silence"; break;
					case 2: m.put(t, ERR, c.bytes(c.range(0, 15)), 521); good = false; plan += " error"; break;
					case 3: m.put(t, EMPTY, {}, 521); good = false; plan += " empty"; break;
					case 4: m.put(t, CUT, c.bytes(c.range(1, 15)), 521); good = false; plan += " cut"; break;
					case 5: m.put(vos::now_us + c.range(6050, 9000) * 1000, DATA, c.bytes(2), 521); good = false; plan += " late"; break;
					}
				};
				f0 = faults;
				ttyfault = c.chance(1, 12) ? c.range(0, 4) : -1;
				rv = diag_l0_ioctl(dl, DIAG_IOCTL_INITBUS, &in);
				ttyfault = -1;
				m.on_req = nullptr;
				flt = faults != f0;
				snprintf(b, sizeof b, "; initbus type %d addr %02x%s%s = %d", in.type, in.addr, plan.c_str(), flt ? " port fault" : "", rv);
				seq += b;
				kb.clear();
				PBT_CHECK(c, m.broken.empty() , "%s; %s", m.broken.c_str(), seq.c_str());
				PBT_CHECK(c, rv <= 0, "initbus gives %d; %s", rv, seq.c_str());
				if (rv == 0) {
					if (fast) c.discard();            // needs a newer adapter: not modelled
					PBT_CHECK(c, !flt && good, "initialisation reported as successful; %s", seq.c_str());
					PBT_CHECK(c, m.acc.empty() && m.reqs.size() == seen + 1 && m.reqs[seen].ctl == 0x42 && m.reqs[seen].data == (Bytes{ 2, in.addr }), "wrong initialisation %s; %s",
						m.reqs.size() > seen ? hex(m.reqs[seen].data).c_str() : "-", seq.c_str());
					kb = keys;
					c.label("slow init");
				} else {
					PBT_CHECK(c, flt || !good || either, "initialisation fails; %s", seq.c_str());
					c.label(fast ? "fast init refused" : "init failed");
					if (flt) dead = true;
				}
				seen = m.reqs.size();
				settle();
				tty::drop_pending();
				for (auto &p : m.pks) p.used = true;
				continue;
			}
			// ---- a request and its answers ----
			if (c.chance(2, 3)) settle();
			if (c.chance(1, 3)) {
				tty::drop_pending();
				for (auto &p : m.pks) p.used = true;
			}
			size_t len = c.chance(4, 5) ? c.range(1, j1850 ? 14 : 15) : c.chance(1, 2) ? c.range(13, 18) : c.range(1, 1100);
			Bytes d = c.bytes(len);
			if (c.chance(1, 6)) for (auto &x : d) x = c.pick<uint8_t>({ '%', 'n', 's', 0, 0xff, 0x20 });
			unsigned frames = c.range(1, 4), conflicts = c.chance(1, 5) ? c.range(1, 3) : c.chance(1, 40) ? c.range(25, 40) : 0;
			m.on_req = [&, frames, conflicts](const Req &q) mutable {
				uint64_t t = vos::now_us + c.range(1, 60) * 1000;
				if (!j1850) {
					for (unsigned k = c.range(0, 3); k--;) {
						t += c.range(1, 100) * 1000;
						tty::feed_at(t, c.bytes(c.range(1, 20)), 1000, 0);
					}
					return;
				}
				unsigned fr = q.data.back();
				if (conflicts && c.chance(9, 10)) {
					conflicts--;
					m.put(t, CONFLICT, c.bytes(c.chance(3, 4) ? 0 : c.range(0, 15)), 521);
					return;
				}
				if (c.chance(1, 12)) t += c.range(0, 1500) * 1000;
				if (fr > frames) {
					if (c.chance(1, 2)) m.put(t, ERR, c.bytes(c.chance(1, 2) ? 0 : c.range(0, 15)), 521);
					return;
				}
				uint64_t gap = c.chance(1, 8) ? c.range(500, 20000) : 521;
				switch (c.weighted({ 12, 1, 1, 1, 1 })) {
				case 0: m.put(t, DATA, c.bytes(c.range(1, 15)), gap); break;
				case 1: m.put(t, ERR, c.bytes(c.range(0, 15)), 521); break;
				case 2: m.put(t, EMPTY, {}, gap); break;
				case 3: m.put(t, CUT, c.bytes(c.range(1, 15)), 521); break;
				case 4: break;
				}
			};
			f0 = faults;
			ttyfault = c.chance(1, 30) ? c.range(0, 2) : -1;
			rv = diag_l0_send(dl, d.data(), d.size());
			ttyfault = -1;
			flt = faults != f0;
			seq += "; send " + hex(d.data(), std::min<size_t>(d.size(), 20)) + (d.size() > 20 ? "..." : "") + " = " + std::to_string(rv);
			PBT_CHECK(c, rv <= 0, "send gives %d; %s", rv, seq.c_str());
			PBT_CHECK(c, m.broken.empty(), "%s; %s", m.broken.c_str(), seq.c_str());
			size_t max = j1850 ? 14 : 15;
			if (rv) {
				PBT_CHECK(c, flt || len > max, "request %s is refused; %s", hex(d).c_str(), seq.c_str());
				if (flt) break;
				PBT_CHECK(c, m.acc.empty() && m.reqs.size() == seen, "a refused request was transmitted; %s", seq.c_str());
				c.label("send refused");
				if (c.chance(1, 2)) continue;
				// a refused request must not change what is received
				for (unsigned k = c.range(1, 2); k-- && !dead;) recv(MAXRBUF, c.range(1, 700));
				m.on_req = nullptr;
				continue;
			}
			PBT_CHECK(c, !flt, "send reports success though the port failed; %s", seq.c_str());
			PBT_CHECK(c, len <= max, "a message of %zu bytes was accepted; %s", len, seq.c_str());
			PBT_CHECK(c, m.acc.empty() && m.reqs.size() == seen + 1, "%zu packets for one request, rest %s; %s", m.reqs.size() - seen, hex(m.acc).c_str(), seq.c_str());
			Req &q = m.reqs[seen];
			Bytes want = d;
			if (j1850) want.push_back(1);
			PBT_CHECK(c, q.ctl == want.size() && q.data == want, "[%02x: %s] was sent instead of %s; %s", q.ctl, hex(q.data).c_str(), hex(want).c_str(), seq.c_str());
			seen = m.reqs.size();
			request = d;
			frame = 1;
			waiting = true;
			sent = true;
			unsigned quiet = 0;
			for (unsigned r = 0; r < 8 && quiet < 2 && !dead; r++) {
				int n = recv(c.chance(2, 3) ? MAXRBUF : c.range(1, 14), c.chance(1, 3) ? c.range(1, 60) : c.range(50, 1000));
				if (n < 0) quiet++;
				if (c.chance(1, 8)) break;
			}
			m.on_req = nullptr;
		}
		ttyfault = -1;
		diag_l0_close(dl);
		PBT_CHECK(c, !dl->opened && tty::opens == 0, "after closing the port is still open; %s", seq.c_str());
		seq += "; close";
		settle();
		vos::advance(1000000);
	}
	diag_l0_del(dl);
	size_t heap1 = lib_bytes();
	PBT_CHECK(c, heap1 == heap0, "%zu bytes leaked; %s", heap1 - heap0, seq.c_str());
	diag_l0_debug = 0;
	diag_end();
	if (sent && got) {
		c.nontrivial();
		c.note("%s", seq.substr(0, 400).c_str());
	}
}
