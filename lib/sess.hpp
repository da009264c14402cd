// A started link session of any protocol with a well-behaved vehicle behind it.
#pragma once
#include "iso.hpp"
#include "vag.hpp"
namespace sess {
using pbt::Bytes;
using pbt::Ctx;
using pbt::hex;
using wire::Wire;
enum P { P14230, P9141, PJ1850, PVAG, PMB1, PD2, PRAW, NP };
static const int l2p[] = { DIAG_L2_PROT_ISO14230, DIAG_L2_PROT_ISO9141, DIAG_L2_PROT_SAEJ1850, DIAG_L2_PROT_VAG, DIAG_L2_PROT_MB1, DIAG_L2_PROT_D2, DIAG_L2_PROT_RAW };
static const char *const pname[] = { "14230", "9141", "J1850", "VAG", "MB1", "D2", "RAW" };
inline uint8_t crc8(const Bytes &b) { uint8_t r = 0xff; for (uint8_t x : b) { r ^= x; for (int k = 0; k < 8; k++) r = (r & 0x80) ? (r << 1) ^ 0x1d : r << 1; } return (uint8_t)~r; }
struct Heard { bool addr; uint8_t type, dest, src; Bytes data, raw; };      // what the vehicle received
struct Say { uint64_t us; Bytes data; uint8_t src; };                     // what it answers
struct Sess {
	P p;
	Wire w;
	iso::If itf;
	iso::Ecu ie;
	vag::Ecu ve;
	struct diag_l0_device dev;
	struct diag_l2_conn *d = nullptr;
	uint8_t tgt = 0, src = 0xf1;
	bool monitor = false, idle1978 = false, silent = false;
	unsigned bitrate = 0;
	size_t expect = 2;                       // payload length of the next unframed request
	std::vector<Heard> got;
	std::string bad;
	std::function<std::vector<Say>(const Heard &)> answer;
	Bytes acc;
	bool ready = false;
	Sess(P p_, iso::If i) : p(p_), itf(i), ie(w, i), ve(w, i.frame()) { w.flags = i.flags; w.echo = i.echo(); dev = wire::make_dev(&w); }
	void viol(const std::string &s) { if (bad.empty()) bad = s; }
	// one message of an ECU appears on the bus
	void say(const Say &t) {
		Bytes b;
		uint8_t s = t.src ? t.src : tgt;
		switch (p) {
		case P14230: { iso::Frame f; f.addr = true; f.dest = src; f.src = s; f.data = t.data; f.lenbyte = t.data.size() > 63; ie.answer(t.us, f); return; }
		case P9141: case PJ1850:
			if (!itf.nohdr()) b = { 0x48, 0x6b, s };
			b.insert(b.end(), t.data.begin(), t.data.end());
			if (!itf.strip()) b.push_back(p == PJ1850 ? crc8(b) : iso::sum8(b, b.size()));
			break;
		case PD2:
			b = { (uint8_t)(0x80 | (t.data.size() + 1)), src, tgt };
			b.insert(b.end(), t.data.begin(), t.data.end());
			b.push_back(iso::sum8(b, b.size()));
			break;
		case PMB1: {
			b = { tgt, t.data[0], (uint8_t)(t.data.size() + 4) };
			b.insert(b.end(), t.data.begin() + 1, t.data.end());
			unsigned n = 0;
			for (uint8_t x : b) n += x;
			b.push_back((uint8_t)n); b.push_back((uint8_t)(n >> 8));
			break; }
		case PVAG: ve.send(t.data[0], Bytes(t.data.begin() + 1, t.data.end())); return;
		default: b = t.data;
		}
		if (itf.frame()) w.ecu_frame(t.us, b); else w.ecu_bytes(t.us, b);
	}
	void heard(const Heard &r) {
		got.push_back(r);
		if (!silent && answer) for (auto &t : answer(r)) say(t);
	}
	void feed(const Bytes &b) {
		acc.insert(acc.end(), b.begin(), b.end());
		Bytes m = acc;
		switch (p) {
		case P9141: case PJ1850: {
			size_t h = itf.dataonly() ? 0 : 3, k = itf.dataonly() || itf.addsum() ? 0 : 1;
			if (!itf.frame() && m.size() < h + expect + k) return;
			acc.clear();
			if (m.size() < h + k + 1) { viol("short transmission " + hex(m)); return; }
			if (k) { Bytes x(m.begin(), m.end() - 1); if ((p == PJ1850 ? crc8(x) : iso::sum8(x, x.size())) != m.back()) viol("bad checksum " + hex(m)); }
			heard({ h != 0, (uint8_t)(h ? m[0] : 0), (uint8_t)(h ? m[1] : 0), (uint8_t)(h ? m[2] : 0), Bytes(m.begin() + h, m.end() - k), m });
			return; }
		case PD2:
			acc.clear();
			if (m.size() < 4 || m[0] != 0x80 + m.size() - 2) { viol("malformed " + hex(m)); return; }
			heard({ true, 0, m[1], m[2], Bytes(m.begin() + 3, m.end()), m });
			return;
		case PMB1: {
			if (m.size() < 3 || m.size() < m[2]) return;
			acc.clear();
			unsigned n = 0;
			for (size_t i = 0; i + 2 < m.size(); i++) n += m[i];
			if (m.size() != m[2] || m.size() < 5 || m[m.size() - 2] != (uint8_t)n || m.back() != (uint8_t)(n >> 8)) { viol("malformed " + hex(m)); return; }
			Bytes x = { m[1] };
			x.insert(x.end(), m.begin() + 3, m.end() - 2);
			heard({ true, 0, m[0], 0, x, m });
			return; }
		default:
			acc.clear();
			heard({ false, 0, 0, 0, m, m });
		}
	}
	// interfaces that suit the protocol
	static iso::If pick_itf(Ctx &c, P p) {
		static const iso::If vagif[] = { { DIAG_L1_SLOW | DIAG_L1_HALFDUPLEX, "dumb" }, { DIAG_L1_SLOW, "fulldup" }, { DIAG_L1_SLOW | DIAG_L1_DOESP4WAIT | DIAG_L1_AUTOSPEED | DIAG_L1_NOTTY | DIAG_L1_DOESL2FRAME, "smart" } };
		static const uint32_t d2 = DIAG_L1_AUTOSPEED | DIAG_L1_DOESP4WAIT | DIAG_L1_DOESL2FRAME | DIAG_L1_DOESL2CKSUM | DIAG_L1_DOESFULLINIT | DIAG_L1_SLOW;
		static const iso::If d2if[] = { { d2, "d2" }, { d2 | DIAG_L1_DOESKEEPALIVE, "d2-elm" } };
		static const iso::If mb1if[] = { { DIAG_L1_SLOW | DIAG_L1_HALFDUPLEX, "dumb" }, { DIAG_L1_SLOW, "fulldup" }, { DIAG_L1_SLOW | DIAG_L1_DOESP4WAIT | DIAG_L1_AUTOSPEED, "p4wait" } };
		switch (p) {
		case PVAG: return vagif[c.weighted({ 3, 1, 2 })];
		case PD2: return d2if[c.weighted({ 3, 1 })];
		case PMB1: return mb1if[c.draw(3)];
		case PJ1850: { iso::If i = iso::pick_if(c); i.flags |= DIAG_L1_DOESL2FRAME; if (i.frame()) i.flags &= ~DIAG_L1_HALFDUPLEX; return i; }
		default: return iso::pick_if(c);
		}
	}
	bool start(Ctx &c, uint8_t target) {
		tgt = target;
		bool pend = false, kb = false;
		w.on_ioctl = [&](unsigned cmd, void *arg) -> int {
			if (cmd == DIAG_IOCTL_IFLUSH) { w.rx.clear(); return 0; }
			if (cmd != DIAG_IOCTL_INITBUS) return 0;
			auto *in = (struct diag_l1_initbus_args *)arg;
			if (in->type != DIAG_L1_INITBUS_5BAUD) { vos::advance(50000); return 0; }
			vos::advance(2000000);
			in->kb1 = p == PD2 ? 0xd3 : 8; in->kb2 = p == PD2 ? 0xb0 : 8;
			pend = true; kb = true;
			Bytes k;
			if (p == P9141 && !(w.flags & DIAG_L1_DOESFULLINIT)) k = { 8, 8 };
			if (p == PVAG) k = { 1, 0x8a };
			if (p == PMB1) k = { 0xc2, 0xcd };
			uint64_t t = 10000;
			for (uint8_t x : k) { if (itf.frame()) w.ecu_frame(t, { x }); else w.ecu_bytes(t, { x }); t += 10000; }
			return 0;
		};
		if (p == P14230 && !monitor) {
			d = iso::start14230(&dev, ie, idle1978 ? DIAG_L2_IDLE_J1978 : 0, tgt, src, 0x8f, 0x8f, bitrate);
			ie.on_frame = [this](const iso::Frame &f) { heard({ f.addr, (uint8_t)f.func, f.dest, f.src, f.data, iso::encode(f) }); };
		} else {
			if (p == PVAG) {
				ve.on_block = [this](uint8_t t, const Bytes &b) {
					Bytes x = { t };
					x.insert(x.end(), b.begin(), b.end());
					if (!ready) ve.send(9, {}); else heard({ false, t, 0, 0, x, x });
				};
			}
			if (p != P14230) w.on_send = [&](const Bytes &b) {
				if (pend) {
					pend = false;
					if (p == P9141) { Bytes x = { (uint8_t)~tgt }; if (itf.frame()) w.ecu_frame(30000, x); else w.ecu_bytes(30000, x); }
					if (p == PVAG) { ve.tseq = 0; ve.send(0xf6, { 1, 2, 3 }); }
					return 0;
				}
				if (p == PVAG) ve.rx(b); else feed(b);
				return 0;
			};
			if (diag_l2_open(&dev, p == PRAW ? DIAG_L1_RAW : p == PJ1850 ? DIAG_L1_J1850_VPW : p == P14230 ? DIAG_L1_ISO14230 : DIAG_L1_ISO9141)) return false;
			unsigned type = monitor ? DIAG_L2_TYPE_MONINIT : p == PJ1850 || p == PVAG || p == PMB1 || p == PRAW ? 0 : DIAG_L2_TYPE_SLOWINIT;
			d = diag_l2_StartCommunications(&dev, l2p[p], type, bitrate, tgt, src);
			if (p == P14230) ie.on_frame = [this](const iso::Frame &f) { heard({ f.addr, (uint8_t)f.func, f.dest, f.src, f.data, iso::encode(f) }); };
		}
		w.on_ioctl = [this](unsigned cmd, void *) -> int { if (cmd == DIAG_IOCTL_IFLUSH) { w.rx.clear(); } return 0; };
		if (p != P14230) w.on_send = [this](const Bytes &b) { if (p == PVAG) ve.rx(b); else feed(b); return 0; };
		if (!bad.empty() || !ve.bad.empty() || ie.bad) c.fail("harness: session start: %s %s", bad.c_str(), ve.bad.c_str());
		w.tx.clear(); got.clear(); acc.clear(); w.rx.clear(); w.frames.clear();
		ready = true;
		return d != nullptr;
	}
	std::string trouble() { return !bad.empty() ? bad : !ve.bad.empty() ? ve.bad : ie.bad ? "not a frame: " + hex(ie.junk) : ""; }
};
}
