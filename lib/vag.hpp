// A byte-level KWP1281 ECU with injectable faults.
#pragma once
#include "wire.hpp"
namespace vag {
using pbt::Bytes;
using pbt::hex;
using wire::Wire;
enum Fault { NONE, BADCOMP, NOCOMP, NAKREQ, NAKACK, IGNORE, LOSEETX, BADETX, BADSEQ, SILENT, IOERR, SHORTFRAME, SHORTBLOCK };
struct Msg { uint8_t type; Bytes data; };

struct Ecu {
	Wire &w;
	bool framed;
	std::string bad;                        // first protocol violation of the tester
	unsigned comp_us = 2000, byte_us = 3000, block_us = 10000;
	// transmitter
	bool tx = false;
	Bytes cur;
	size_t idx = 0;
	uint64_t t_byte = 0;
	int sent_blocks = 0;
	bool cur_bad = false, exp_nak = false;
	// receiver
	Bytes acc;
	uint64_t t_restart = 0;
	uint8_t tseq = 0, lastseq = 0;          // tester's last counter, ours
	unsigned tester_blocks = 0;
	std::function<void(uint8_t, const Bytes &)> on_block;
	Fault fault = NONE;
	int count = 0;                          // how often (-1 = for ever)
	int at_block = 0;
	size_t at_byte = 0;
	bool wrongval = false;
	unsigned first_delay = 0;
	Ecu(Wire &w_, bool f) : w(w_), framed(f) {}
	void viol(const std::string &s) { if (bad.empty()) bad = s; }
	void put(uint64_t us, uint8_t b) { t_byte = vos::now_us + us; w.put(t_byte, b); }
	Msg repeat;
	void send(uint8_t type, const Bytes &data) {
		repeat = { type, data };
		Bytes b = { (uint8_t)(data.size() + 3), (uint8_t)(tseq + 1), type };
		b.insert(b.end(), data.begin(), data.end());
		b.push_back(3);
		cur_bad = false;
		bool here = fault != NONE && count && sent_blocks == at_block;
		if (here && fault == BADETX) { b.back() = 4; cur_bad = true; count = 0; }
		if (here && fault == BADSEQ) { b[1] = (uint8_t)(b[1] + 2 + 2 * (at_byte % 100)); cur_bad = true; count = 0; }
		if (here && fault == SHORTBLOCK) { b = { (uint8_t)(1 + at_byte % 2), b[1], 3 }; b.resize(b[0] + 1); b.back() = 3; if (b[0] == 1) b = { 1, 3 }; cur_bad = true; count = 0; }
		if (here && fault == SHORTFRAME) { b.resize(at_byte % b.size()); count = 0; if (b.empty()) return; }
		sent_blocks++;
		lastseq = b.size() > 1 ? b[1] : 0;
		exp_nak = cur_bad;
		acc.clear();
		if (framed) { if (!(here && fault == SILENT)) w.ecu_frame(block_us, b); return; }
		tx = true; cur = b; idx = 0;
		put_byte(block_us);
	}
	size_t fb() const { return cur.size() > 2 ? at_byte % (cur.size() - 1) : 0; }
	void put_byte(uint64_t us) {
		bool here = fault != NONE && count && sent_blocks - 1 == at_block;
		if (here && fault == SILENT && idx == fb()) { tx = false; return; }
		if (idx == cur.size() - 1) {
			tx = false;
			if (here && fault == LOSEETX) { count = 0; return; }
		}
		put(us, cur[idx]);
	}
	void rx(const Bytes &b) {
		if (framed) {
			if (b.size() < 4 || b.size() != b[0] + 1u) viol("malformed block " + hex(b));
			else block(b);
			return;
		}
		for (uint8_t x : b) rx1(x);
	}
	void rx1(uint8_t x) {
		if (tx) {
			if (x != (uint8_t)~cur[idx]) viol("byte " + hex({ cur[idx] }) + " answered with " + hex({ x }));
			if (!(fault == IGNORE && idx == 0) && vos::now_us < t_byte + 900) viol("complement sent too early");
			bool here = fault != NONE && count && sent_blocks - 1 == at_block;
			if (here && fault == IGNORE && idx == fb()) {
				count--;
				idx = 0;
				t_byte += 105000;
				w.put(t_byte, cur[0]);
				return;
			}
			idx++;
			put_byte(byte_us);
			return;
		}
		if (acc.empty() && vos::now_us < t_restart) viol("block restarted too early");
		acc.push_back(x);
		if (acc.size() - 1 == acc[0]) { Bytes b = acc; acc.clear(); block(b); return; }
		if ((fault == BADCOMP || fault == NOCOMP) && count && acc.size() - 1 == at_byte % 3) {
			if (count > 0) count--;
			acc.clear();
			t_restart = vos::now_us + 105000;
			if (fault == BADCOMP) w.put(vos::now_us + comp_us, wrongval ? x : (uint8_t)(~x ^ 0x10));
			return;
		}
		w.put(vos::now_us + comp_us, (uint8_t)~x);
	}
	void block(const Bytes &b) {
		tester_blocks++;
		if (b[0] < 3 || b.back() != 3) viol("malformed block " + hex(b));
		if (b.size() < 4) return;
		if (b[1] != (uint8_t)(tseq + 2)) viol("block counter " + hex({ b[1] }) + " after " + hex({ tseq }));
		tseq = b[1];
		Bytes d(b.begin() + 3, b.end() - 1);
		if (exp_nak) {
			if (b[2] != 0x0a || d.size() != 1 || (d[0] != lastseq && fault != SHORTBLOCK)) viol("bad block not refused: " + hex(b));
			Msg r = repeat;
			send(r.type, r.data);
			return;
		}
		if (b[2] == 0x0a) viol("good block refused");
		on_block(b[2], d);
	}
};
}
