// A car with one or more OBD-II ECUs behind a simulated interface, driven
// through the program's own commands.
#pragma once
#include "sess.hpp"
#include <map>
#include <set>
#include <stdio_ext.h>
#include <sys/mman.h>
#include <unistd.h>
extern "C" {
#include "diag_l3.h"
#include "libcli.h"
#include "scantool.h"
#include "scantool_cli.h"
#include "scantool_obd.h"
}
namespace car {
using namespace sess;
struct T6 { uint8_t comp; bool min; unsigned val, lim; };
struct Ecu {
	uint8_t addr = 0;
	std::map<int, std::set<int>> sup;              // mode -> supported ids (block ids included)
	std::map<int, Bytes> v1, v2;                   // values (without mode, pid, frame)
	std::set<int> refuse;                          // mode 1 pids it declares but refuses
	std::vector<uint16_t> dtc, pending;
	bool mil = false;
	uint16_t freeze = 0;
	std::map<int, std::vector<T6>> t6;
	std::map<int, Bytes> t5;                       // tid<<8|sensor -> value(s)
	std::string vin, calid;
	Bytes cvn;
	bool gap = false;                              // leaves unused places between its trouble codes
	bool loud = false;                             // refuses what it does not support instead of staying silent
	int clear = 0;                                 // 0 accepts, 1 refuses, 2 silent
};
inline Bytes block(const std::set<int> &s, int b) {
	Bytes r(4, 0);
	for (int i = 1; i <= 32; i++) if (b + i < 256 && s.count(b + i)) r[(i - 1) / 8] |= 0x80 >> ((i - 1) % 8);
	return r;
}
inline std::vector<Bytes> reply(const Ecu &e, const Bytes &q) {
	std::vector<Bytes> out;
	auto no = [&]() { if (e.loud) out.push_back({ 0x7f, q[0], 0x12 }); return out; };
	int mode = q[0], id = q.size() > 1 ? q[1] : 0;
	auto has = [&](int m, int i) { auto it = e.sup.find(m); return it != e.sup.end() && it->second.count(i); };
	Bytes r = { (uint8_t)(mode + 0x40) };
	switch (mode) {
	case 1: case 2:
		if (!has(mode, id)) return no();
		if (mode == 1 && e.refuse.count(id)) { out.push_back({ 0x7f, 1, 0x12 }); return out; }
		r.push_back((uint8_t)id);
		if (mode == 2) r.push_back(0);
		if (id % 32 == 0) { Bytes b = block(e.sup.at(mode), id); r.insert(r.end(), b.begin(), b.end()); }
		else if (mode == 2 && id == 2) { r.push_back(e.freeze >> 8); r.push_back((uint8_t)e.freeze); }
		else {
			if (mode == 2 && !e.freeze) return no();
			const Bytes &b = mode == 1 ? e.v1.at(id) : e.v2.at(id);
			r.insert(r.end(), b.begin(), b.end());
		}
		break;
	case 3: case 7: {
		auto &d = mode == 3 ? e.dtc : e.pending;
		if (mode == 3 && d.empty() && !e.loud) return out;
		size_t per = e.gap ? 2 : 3;
		for (size_t i = 0; i < d.size() || i == 0; i += per) {
			r.resize(1);
			for (size_t k = i; k < i + per; k++) {
				if (e.gap && k == i + (i / 2 & 1)) { r.push_back(0); r.push_back(0); } uint16_t x = k < d.size() ? d[k] : 0; r.push_back(x >> 8); r.push_back((uint8_t)x); }
			out.push_back(r);
		}
		return out; }
	case 4: if (e.clear == 0) { out.push_back({ 0x44 }); } else if (e.clear == 1) out.push_back({ 0x7f, 4, 0x22 }); return out;
	case 5:
		if (!has(5, id)) return no();
		r.push_back((uint8_t)id);
		if (id % 32 == 0) { r.push_back(0xff); Bytes b = block(e.sup.at(5), id); r.insert(r.end(), b.begin(), b.end()); break; }
		else {
			auto it = e.t5.find(id << 8 | (q.size() > 2 ? q[2] : 0));
			if (it == e.t5.end()) return no();
			r.push_back(q[2]);
			r.insert(r.end(), it->second.begin(), it->second.end());
		}
		break;
	case 6:
		if (!has(6, id)) return no();
		if (id % 32 == 0) { r.push_back((uint8_t)id); r.push_back(0xff); Bytes b = block(e.sup.at(6), id); r.insert(r.end(), b.begin(), b.end()); break; }
		for (auto &t : e.t6.at(id)) out.push_back({ 0x46, (uint8_t)id, (uint8_t)(t.comp | (t.min ? 0x80 : 0)), (uint8_t)(t.val >> 8), (uint8_t)t.val, (uint8_t)(t.lim >> 8), (uint8_t)t.lim });
		return out;
	case 8:
		if (!has(8, id) || id % 32) return no();
		r.push_back((uint8_t)id); { Bytes b = block(e.sup.at(8), id); r.insert(r.end(), b.begin(), b.end()); }
		break;
	case 9: {
		if (!has(9, id)) return no();
		r.push_back((uint8_t)id);
		if (id % 32 == 0) { r.push_back(1); Bytes b = block(e.sup.at(9), id); r.insert(r.end(), b.begin(), b.end()); break; }
		Bytes t;
		if (id == 2) { t = { 0, 0, 0 }; t.insert(t.end(), e.vin.begin(), e.vin.end()); }
		else if (id == 4) { t.assign(e.calid.begin(), e.calid.end()); while (t.size() % 4) t.push_back(0); }
		else if (id == 6) t = e.cvn;
		else { r.push_back((uint8_t)(id == 1 ? 5 : 1)); break; }
		for (size_t i = 0; i < t.size(); i += 4) { Bytes m = { 0x49, (uint8_t)id, (uint8_t)(i / 4 + 1) }; m.insert(m.end(), t.begin() + i, t.begin() + i + 4); out.push_back(m); }
		return out; }
	default: return no();
	}
	out.push_back(r);
	return out;
}
// supported ids of a mode, with the chain of announcing blocks
inline std::set<int> pick_ids(Ctx &c, int most, int likely, int far) {
	std::set<int> s = { 0 };
	unsigned n = c.range(0, most);
	for (unsigned i = 0; i < n; i++) {
		int id = c.chance((unsigned)far, 100) ? (int)c.range(1, 255) : (int)c.range(1, likely);
		if (id % 32) s.insert(id);
	}
	int top = *s.rbegin();
	for (int b = 32; b < top; b += 32) s.insert(b);
	if (top < 224 && c.chance(1, 12)) s.insert((top / 32 + 1) * 32);       // announces an empty block
	return s;
}
inline void fresh_values(Ctx &c, Ecu &e) {
	auto len = [](int pid) { return pid == 1 ? 4 : pid == 2 || pid == 3 || pid == 0x0c || pid == 0x10 || (pid >= 0x14 && pid <= 0x1b) || pid == 0x1f ? 2 : pid <= 0x20 ? 1 : 1 + pid % 4; };
	for (int m = 1; m <= 2; m++) {
		if (!e.sup.count(m)) continue;
		for (int pid : e.sup[m]) {
			if (pid % 32 == 0) continue;
			Bytes b = c.bytes((size_t)len(pid));
			if (pid == 3 && c.chance(9, 10)) b[0] = (uint8_t)(1 << c.draw(5));
			if (pid >= 0x14 && pid <= 0x1b && c.chance(1, 3)) b[1] = 0xff;
			if (pid == 1) {
				b[0] = (uint8_t)((e.mil ? 0x80 : 0) | e.dtc.size());
				b[1] &= 7; b[1] |= (uint8_t)((b[1] & c.draw(8)) << 4);
				if (c.chance(1, 2)) b[2] |= 0x20;
				b[3] &= b[2];
			}
			(m == 1 ? e.v1 : e.v2)[pid] = b;
		}
	}
}
// what a running car changes from one request to the next: values, their lengths, what it refuses, the freeze frame
inline void drift(Ctx &c, Ecu &e) {
	fresh_values(c, e);
	for (int m = 1; m <= 2; m++) if (e.sup.count(m)) for (int pid : e.sup[m]) if (pid > 0x20 && pid % 32 && c.chance(1, 3)) (m == 1 ? e.v1 : e.v2)[pid] = c.bytes((size_t)c.range(1, m == 1 ? 5 : 4));
	if (c.chance(1, 4)) for (int pid : e.sup[1]) if (pid >= 3 && pid % 32 && pid != 0x13 && c.chance(1, 3)) { if (!e.refuse.erase(pid)) e.refuse.insert(pid); }
	if (e.sup.count(2) && c.chance(1, 6)) e.freeze = e.freeze ? 0 : (uint16_t)c.range(1, 0xffff);
}
inline Ecu pick_ecu(Ctx &c, uint8_t addr) {
	Ecu e;
	e.addr = addr;
	e.loud = c.chance(1, 3);
	for (unsigned n = c.weighted({ 3, 2, 1, 1, 1 }) * c.range(1, 3), i = 0; i < n; i++) e.dtc.push_back((uint16_t)c.range(1, 0xffff));
	e.gap = c.chance(1, 5);
	for (unsigned n = c.weighted({ 3, 2, 1, 1, 1 }) * c.range(1, 3), i = 0; i < n; i++) e.pending.push_back((uint16_t)c.range(1, 0xffff));
	e.mil = c.chance(1, 3);
	e.sup[1] = pick_ids(c, 14, 0x1f, 10);
	if (c.chance(7, 8)) e.sup[1].insert(1);
	if (c.chance(1, 2)) { e.sup[1].insert(0x13); }
	if (c.chance(2, 3)) {
		e.sup[2] = pick_ids(c, 8, 0x1f, 8);
		e.sup[2].erase(1); e.sup[2].insert(2);
		if (c.chance(1, 2)) e.freeze = (uint16_t)c.range(1, 0xffff);
	}
	if (e.sup[1].count(0x1c) == 0 && c.chance(1, 3)) e.sup[1].insert(0x1c);
	if (c.chance(1, 8)) { int id = c.pick({ 4, 5, 0x0c, 0x0d, 0x11 }); e.sup[1].insert(id); e.refuse.insert(id); }
	fresh_values(c, e);
	if (e.sup[1].count(0x13) && c.chance(1, 2)) e.v1[0x13] = { (uint8_t)(c.byte() & c.byte()) };
	if (c.chance(1, 2)) {
		e.sup[5] = pick_ids(c, 6, 0x0f, 3);
		for (int id : e.sup[5]) if (id % 32) for (int s = 0; s < 8; s++) if (c.chance(3, 4)) {
			Bytes b = c.bytes(id <= 4 ? 1 : 3);
			if (id > 4 && c.chance(2, 3)) { std::sort(b.begin(), b.end()); std::swap(b[0], b[1]); }
			if (id > 4 && c.chance(1, 4)) b[1 + c.draw(2)] = b[0];
			e.t5[id << 8 | 1 << s] = b;
		}
	}
	if (c.chance(1, 2)) {
		e.sup[6] = pick_ids(c, 6, 0x3f, 8);
		for (int id : e.sup[6]) if (id % 32) {
			unsigned n = c.weighted({ 0, 4, 2, 1 });
			for (unsigned i = 0; i < n; i++) {
				T6 t = { (uint8_t)c.range(0, 127), c.chance(1, 2), 0, 0 };
				t.val = !c.chance(1, 150) ? (unsigned)c.range(0, 255) : (unsigned)c.range(0, 65535);
				t.lim = c.chance(1, 6) ? t.val : t.val > 255 ? (unsigned)c.range(0, 65535) : (unsigned)c.range(0, 255);
				e.t6[id].push_back(t);
			}
		}
	}
	if (c.chance(1, 6)) e.sup[8] = pick_ids(c, 4, 0x1f, 5);
	if (c.chance(1, 2)) {
		e.sup[9] = { 0 };
		for (int i = 1; i <= 6; i++) if (c.chance(1, 2)) e.sup[9].insert(i);
		static const char al[] = "ABCDEFGHJKLMNPRSTUVWXYZ0123456789";
		for (int i = 0; i < 17; i++) e.vin += al[c.draw(33)];
		for (unsigned i = 0, n = c.range(1, 16); i < n; i++) e.calid += al[c.draw(33)];
		e.cvn = c.bytes(4 * c.range(1, 2));
	}
	e.clear = (int)c.weighted({ 6, 1, 1 });
	return e;
}
struct Car {
	Ctx &c;
	Sess s;
	std::vector<Ecu> ecus;
	bool slow = false, pwm = false, here = true;
	int l1 = 0;
	bool pend = false;
	int lose = -1;                                 // this many requests from now on, one is lost
	std::vector<Bytes> asked;                      // requests since the last reset
	std::map<int, std::map<int, Bytes>> stored[16]; // ecu -> mode -> id -> last answer
	bool warp = false;                             // answers of odd lengths
	int dead = -1;                                 // silent after this many requests
	std::function<void(const Bytes &)> hook;
	Car(Ctx &c_, P p, iso::If i) : c(c_), s(p, i) {
		static const int l1s[] = { DIAG_L1_ISO14230, DIAG_L1_ISO9141 };
		pwm = p == PJ1850 && c.chance(1, 2);
		slow = p == P14230 && c.chance(1, 4) && !i.dataonly();
		l1 = p == PJ1850 ? (pwm ? DIAG_L1_J1850_PWM : DIAG_L1_J1850_VPW) : l1s[p];
		s.tgt = p == P9141 ? 0x33 : p == PJ1850 ? 0x6a : global_cfg.tgt;
		s.src = global_cfg.src;
		s.expect = 2;
		s.ready = true;
		s.w.on_open = [this](int proto) { return proto == l1 && here ? 0 : (int)DIAG_ERR_PROTO_NOTSUPP; };
		s.answer = [this](const Heard &h) { return react(h); };
		s.w.on_ioctl = [this](unsigned cmd, void *arg) -> int {
			if (cmd == DIAG_IOCTL_IFLUSH) { s.w.rx.clear(); return 0; }
			if (cmd != DIAG_IOCTL_INITBUS) return 0;
			auto *in = (struct diag_l1_initbus_args *)arg;
			if (in->type != DIAG_L1_INITBUS_5BAUD) { vos::advance(50000); return 0; }
			vos::advance(2000000);
			uint8_t kb2 = s.p == P14230 ? 0x8f : 8;
			in->kb1 = 8; in->kb2 = kb2;
			pend = !(s.w.flags & DIAG_L1_DOESSLOWINIT);
			Bytes k;
			if (!(s.w.flags & DIAG_L1_DOESFULLINIT)) k = { (uint8_t)(s.p == P14230 ? 0x80 | 8 : 8), kb2 };
			else pend = false;
			if (!k.empty()) {
				if (s.itf.frame() && s.p == P14230) s.w.ecu_frame(10000, k);
				else { uint64_t t = 10000; for (uint8_t x : k) { if (s.itf.frame()) s.w.ecu_frame(t, { x }); else s.w.ecu_bytes(t, { x }); t += 10000; } }
			}
			return 0;
		};
		if (s.p == P14230) s.ie.on_frame = [this](const iso::Frame &f) {
			if (f.data.size() == 1 && f.data[0] == 0x81) { if (!slow) s.say({ 30000, { 0xC1, 8, 0x8f }, ecus.empty() ? (uint8_t)0x10 : ecus[0].addr }); return; }
			if (f.data.size() == 1 && f.data[0] == 0x82) { s.say({ 30000, { 0xC2 }, ecus.empty() ? (uint8_t)0x10 : ecus[0].addr }); return; }
			s.heard({ f.addr, (uint8_t)f.func, f.dest, f.src, f.data, iso::encode(f) });
		};
		auto tx = s.p == P14230 ? s.w.on_send : std::function<int(const Bytes &)>([this](const Bytes &b) { s.feed(b); return 0; });
		s.w.on_send = [this, tx](const Bytes &b) {
			if (pend) {
				pend = false;
				Bytes x = { (uint8_t)~s.tgt };
				if (s.itf.frame()) s.w.ecu_frame(30000, x); else s.w.ecu_bytes(30000, x);
				return 0;
			}
			return tx(b);
		};
	}
	std::vector<Say> react(const Heard &h) {
		asked.push_back(h.data);
		if (asked.size() > 4000) c.fail("does not end: more than 4000 requests, last %s", hex(h.data).c_str());
		if (hook) hook(h.data);
		if (lose >= 0 && lose-- == 0) return {};
		if (dead >= 0 && asked.size() > (size_t)dead) return {};
		std::vector<Say> v;
		uint64_t t = 27000;
		bool first = h.data == Bytes{ 1, 0 };
		size_t off = first || ecus.empty() ? 0 : c.draw(ecus.size());
		for (size_t k = 0; k < ecus.size(); k++) {
			size_t i = (k + off) % ecus.size();
			std::vector<Bytes> r = reply(ecus[i], h.data);
			if (!r.empty() && i < 8 && h.data.size() > 1 && (h.data[0] == 1 || h.data[0] == 2)) {
				if (r[0][0] == 0x7f) stored[i][h.data[0]].erase(h.data[1]); else stored[i][h.data[0]][h.data[1]] = r[0];
			}
			for (auto &m : r) {
				if (warp && c.chance(1, 3)) { size_t n = (size_t)c.range(1, c.chance(1, 2) ? 3 : 12); if (h.data[0] == 9 && h.data.size() > 1 && h.data[1] % 32 && n < 7) { if (c.chance(1, 40)) c.excluded("rvi-short"); n += 7; } while (m.size() < n) m.push_back(c.byte()); m.resize(n); }
				Say a;
				a.data = m; a.us = t; a.src = ecus[i].addr;
				t += (s.p == P14230 ? 10000 : s.p == P9141 ? 8000 : 5000) + (s.itf.frame() ? 0 : (m.size() + 4) * 1000);
				if (s.p == P14230 && !s.itf.frame()) t += 22000;
				v.push_back(a);
			}
		}
		return v;
	}
};
// --- the program's commands
inline enum cli_retval command(const struct cmd_tbl_entry *t, std::vector<std::string> w) {
	for (; t->command; t++) if (w[0] == t->command && t->routine) {
		std::vector<char *> a;
		for (auto &x : w) a.push_back(&x[0]);
		a.push_back(nullptr);
		enum cli_retval rv = t->routine((int)w.size(), a.data());
		fflush(stdout);
		return rv;
	}
	abort();
}
inline std::vector<std::string> lines(const std::string &s) {
	std::vector<std::string> v;
	size_t i = 0;
	while (i < s.size()) { size_t j = s.find('\n', i); if (j == std::string::npos) j = s.size(); v.push_back(s.substr(i, j - i)); i = j + 1; }
	return v;
}
inline std::string fmt(const char *f, ...) { char b[512]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
inline std::string squeeze(const std::string &s) { std::string r; for (char x : s) { if (x == '\t') x = ' '; if (x == ' ' && (r.empty() || r.back() == ' ')) continue; r += x; } while (!r.empty() && r.back() == ' ') r.pop_back(); return r; }
inline void set_stdin(const std::string &s) { __fpurge(stdin); int fd = memfd_create("in", 0); if (write(fd, s.data(), s.size()) < 0) {} lseek(fd, 0, SEEK_SET); dup2(fd, 0); close(fd); clearerr(stdin); }
}
