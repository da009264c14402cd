// A hostile vehicle for every link protocol: valid frames, mutations, noise, silence and interface errors.
#pragma once
#include "iso.hpp"
#include <algorithm>
namespace hostile {
using namespace pbt;
using namespace wire;
enum P { P14230, P9141, PJ1850, PVAG, PMB1, PD2, PRAW, NP };
static const int l2p[] = { DIAG_L2_PROT_ISO14230, DIAG_L2_PROT_ISO9141, DIAG_L2_PROT_SAEJ1850, DIAG_L2_PROT_VAG, DIAG_L2_PROT_MB1, DIAG_L2_PROT_D2, DIAG_L2_PROT_RAW };
static const char *const pname[] = { "14230", "9141", "J1850", "VAG", "MB1", "D2", "RAW" };
inline uint8_t crc8(const Bytes &b) { uint8_t r = 0xff; for (uint8_t x : b) { r ^= x; for (int k = 0; k < 8; k++) r = (r & 0x80) ? (r << 1) ^ 0x1d : r << 1; } return (uint8_t)~r; }

struct Hostile {
	Ctx &c; Wire &w; P p;
	size_t budget = 6000;
	bool hostile = false, calm = false;
	Bytes last;                        // last thing the tester transmitted
	uint8_t tgt = 0, src = 0xf1;
	// VAG state
	Bytes vtx, vacc; size_t vi = 0; uint8_t vseq = 1; bool vsend = false;
	Hostile(Ctx &c_, Wire &w_, P p_) : c(c_), w(w_), p(p_) {}
	bool bad() { bool b = !calm && c.chance(1, 3); if (b) hostile = true; return b; }
	void emit(uint64_t us, Bytes b, int err = 0) {
		if (b.size() > budget) b.resize(budget);
		if (b.empty() && !err && !w.smart()) return;
		budget -= b.size();
		if (budget < 20 || w.frames.size() > 100) budget = 0;
		if (w.smart()) {
			if (budget || !b.empty()) w.ecu_frame(us, b, err);
		} else w.ecu_bytes(us, b, c.pick({ 500u, 1000u, 5000u, 20000u }));
	}
	Bytes mutate(Bytes b) {
		hostile = true;
		unsigned n = c.range(1, 3);
		while (n--) switch (c.draw(8)) {
		case 0: if (!b.empty()) b[c.draw(b.size())] = c.byte(); break;
		case 1: if (!b.empty()) b.resize(c.draw(b.size())); break;
		case 2: { Bytes x = c.bytes(c.size(40)); b.insert(b.end(), x.begin(), x.end()); break; }
		case 3: if (!b.empty()) b[c.draw(b.size())] = c.pick<uint8_t>({ 0, 1, 2, 3, 0x3f, 0x40, 0x7f, 0x80, 0xc0, 0xff }); break;
		case 4: if (!b.empty()) b.erase(b.begin() + c.draw(b.size())); break;
		case 5: { Bytes x = b; b.insert(b.end(), x.begin(), x.end()); break; }
		case 6: b = c.bytes(c.size(60)); break;
		case 7: { uint8_t v = c.byte(); b = Bytes(c.pick({ 1, 6, 100, 250, 260, 300, 1100, 2000 }), v); break; }
		}
		return b;
	}
	Bytes payload() {                  // application data answering the last request
		Bytes d;
		uint8_t sid = last.empty() ? 0 : last[std::min<size_t>(last.size() - 1, c.pick({ 3u, 0u, 4u, 1u, 2u }))];
		switch (c.weighted({ 6, 3, 2, 2, 1 })) {
		case 0: d = { (uint8_t)(sid ^ 0x40) }; break;
		case 1: d = { 0x7f, sid, c.pick<uint8_t>({ 0x78, 0x21, 0x10, 0x23 }) }; if (c.chance(1, 4)) d.resize(c.range(1, 2)); return d;
		case 2: d = { 0x41 }; break;
		case 3: d = { c.pick<uint8_t>({ 0x7e, 0x5b, 0xee, 0xef, 0xe7, 0xfc, 0xfe }) }; break;
		case 4: return c.bytes(c.size(30));
		}
		Bytes x = c.bytes(c.chance(1, 8) ? c.range(0, 255) : c.range(0, 13));
		d.insert(d.end(), x.begin(), x.end());
		return d;
	}
	Bytes frame() {
		Bytes d = payload(), b;
		bool strip = w.flags & DIAG_L1_STRIPSL2CKSUM, nohdr = w.flags & DIAG_L1_NOHDRS;
		if (d.empty()) d.push_back(0);
		switch (p) {
		case P14230: {
			iso::Frame f; f.addr = c.chance(3, 4); f.func = c.chance(1, 4); f.dest = src; f.src = tgt; f.data = d; f.lenbyte = d.size() > 63 || c.chance(1, 4);
			if (f.data.size() > 255) f.data.resize(255);
			b = nohdr ? f.data : iso::header(f);
			if (!nohdr) b.insert(b.end(), f.data.begin(), f.data.end());
			if (!strip) b.push_back(iso::sum8(b, b.size()));
			break; }
		case P9141: case PJ1850:
			if (d.size() > 8) d.resize(8);
			if (!nohdr) b = { 0x48, 0x6b, tgt };
			b.insert(b.end(), d.begin(), d.end());
			if (!strip) b.push_back(p == PJ1850 ? crc8(b) : iso::sum8(b, b.size()));
			break;
		case PD2:
			if (d.size() > 50) d.resize(50);
			b = { (uint8_t)(0x80 | (d.size() + 1)), src, tgt, (uint8_t)tgt };
			b.insert(b.end(), d.begin(), d.end());
			if (!strip) b.push_back(iso::sum8(b, b.size()));
			break;
		case PMB1: {
			if (d.size() > 100) d.resize(100);
			b = { (uint8_t)(last.empty() ? 0 : last[0]), c.byte(), (uint8_t)(d.size() + 5) };
			b.insert(b.end(), d.begin(), d.end());
			unsigned s = 0;
			for (uint8_t x : b) s += x;
			b.push_back((uint8_t)s); b.push_back((uint8_t)(s >> 8));
			break; }
		case PVAG:
			if (d.size() > 250) d.resize(250);
			b = { (uint8_t)(d.size() + 3), vseq, c.pick<uint8_t>({ 9, 0x0a, 0xf6, 0xfc, 0xfe, 0xfd, 0xfb, 0xe7 }) };
			b.insert(b.end(), d.begin(), d.end());
			b.push_back(3);
			break;
		default: b = d;
		}
		return b;
	}
	void respond() {
		if (c.chance(1, 6)) return;            // silence
		unsigned n = c.weighted({ 0, 6, 2, 1, 1 });
		uint64_t at = c.pick({ 30u, 5u, 1u, 55u, 100u, 500u, 1000u }) * 1000;
		while (n--) {
			Bytes b = frame();
			if (bad()) b = mutate(b);
			int err = 0;
			if (w.smart() && !calm && c.chance(1, 20)) { err = c.pick({ DIAG_ERR_GENERAL, DIAG_ERR_BUSERROR, DIAG_ERR_TIMEOUT, DIAG_ERR_BADDATA, DIAG_ERR_INCDATA }); hostile = true; }
			emit(at, b, err);
			at += c.pick({ 30u, 0u, 1u, 10u, 60u, 200u }) * 1000 + b.size() * 1000;
		}
	}
	void vag(uint8_t x) {
		uint64_t us = c.pick({ 2u, 5u, 20u }) * 1000;
		if (bad() && c.chance(1, 12)) { if (c.chance(1, 2)) return; x = c.byte(); }
		if (vsend) {
			if (vi < vtx.size()) { emit(us, { vtx[vi++] }); if (vi == vtx.size()) vsend = false; }
			return;
		}
		vacc.push_back(x);
		if (vacc.size() > 1 && vacc.size() - 1 == vacc[0]) {
			vseq = (uint8_t)(vacc[1] + 1); last = vacc; vacc.clear();
			if (!calm && c.chance(1, 10)) return;
			start_block();
		} else emit(us, { (uint8_t)~x });
	}
	void start_block() {
		vtx = frame();
		if (vtx.size() > 2 && c.chance(1, 3)) { vtx = { 3, vtx[1], 9, 3 }; }
		if (bad() && c.chance(1, 2)) vtx = mutate(vtx);
		if (vtx.empty()) return;
		vi = 1; vsend = vtx.size() > 1;
		emit(c.pick({ 30u, 60u, 200u }) * 1000, { vtx[0] });
	}
	int sent(const Bytes &b) {
		if (!calm && c.chance(1, 40)) { hostile = true; return c.pick({ DIAG_ERR_GENERAL, DIAG_ERR_BUSERROR, DIAG_ERR_TIMEOUT }); }
		if (budget == 0) return 0;
		if (p == PVAG && !w.smart()) { for (uint8_t x : b) vag(x); return 0; }
		// byte-wise senders: answer a while after the last byte, at most once per burst
		if (vos::now_us > lastsend + 60000) last.clear();
		last.insert(last.end(), b.begin(), b.end());
		if (last.size() > 300) last.clear();
		lastsend = vos::now_us;
		if (w.smart() || b.size() > 1) { respond(); return 0; }
		// a complete looking message?
		bool done = false;
		if (p == P14230) { iso::Frame f; done = iso::parse(last, 0, f, true) != 0; }
		else if (p == P9141) done = last.size() >= 6;
		else if (p == PD2) done = last.size() >= 5 && last.size() >= (last[0] & 0x3f) + 4u;
		else if (p == PMB1) done = last.size() >= 3 && last.size() >= last[2];
		else done = true;
		if (done) { respond(); last.clear(); }
		else if (!calm && c.chance(1, 60)) respond();
		return 0;
	}
	uint64_t lastsend = 0;
	void init(uint8_t addr) {              // after a 5-baud initialisation
		Bytes kb;
		switch (p) {
		case P14230: kb = { c.pick<uint8_t>({ 0xef, 0xe9, 0x8f, 0xd0 }), 0x8f }; break;
		case P9141: kb = c.chance(1, 2) ? Bytes{ 8, 8 } : Bytes{ 0x94, 0x94 }; break;
		case PVAG: kb = { 1, 0x8a }; break;
		case PMB1: kb = { 0xc2, 0xcd }; break;
		default: kb = { 0xd3, 0xb0 };
		}
		if (bad()) kb = mutate(kb);
		if (w.smart()) {
			if (p != PMB1 && c.chance(1, 4)) emit(10000, kb);
			else for (uint8_t x : kb) emit(10000, { x });
		} else emit(10000, kb);
		inits = true;
		(void)addr;
	}
	bool inits = false;
};

}
