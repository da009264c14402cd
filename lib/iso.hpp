// Independent ISO 14230 frame codec, realistic interface classes and session
// helpers shared by the K-line harnesses.
#pragma once
#include "wire.hpp"
extern "C" {
#include "diag_l1.h"
}
namespace iso {
using pbt::Bytes;
using pbt::Ctx;
using wire::Wire;

inline uint8_t sum8(const Bytes &b, size_t n) { unsigned s = 0; for (size_t i = 0; i < n; i++) s += b[i]; return (uint8_t)s; }

struct Frame {
	bool addr = true, func = false, lenbyte = false;
	uint8_t dest = 0, src = 0;
	Bytes data;
};
inline Bytes header(const Frame &f) {
	Bytes b;
	uint8_t fmt = f.addr ? (f.func ? 0xC0 : 0x80) : 0;
	if (!f.lenbyte) fmt |= f.data.size() & 0x3f;
	b.push_back(fmt);
	if (f.addr) { b.push_back(f.dest); b.push_back(f.src); }
	if (f.lenbyte) b.push_back((uint8_t)f.data.size());
	return b;
}
inline Bytes encode(const Frame &f, bool cks = true) {
	Bytes b = header(f);
	b.insert(b.end(), f.data.begin(), f.data.end());
	if (cks) b.push_back(sum8(b, b.size()));
	return b;
}
// parses one frame at the start of b; returns bytes used, 0 = incomplete, -1 = impossible
inline int parse(const Bytes &b, size_t at, Frame &f, bool cks, bool *cks_ok = nullptr) {
	size_t n = b.size() - at, h = 1;
	if (!n) return 0;
	uint8_t fmt = b[at];
	if ((fmt & 0xC0) == 0x40) return -1;
	f.addr = (fmt & 0x80) != 0;
	f.func = (fmt & 0xC0) == 0xC0;
	if (f.addr) h += 2;
	size_t len = fmt & 0x3f;
	f.lenbyte = !len;
	if (f.lenbyte) h++;
	if (n < h) return 0;
	f.dest = f.src = 0;
	if (f.addr) { f.dest = b[at + 1]; f.src = b[at + 2]; }
	if (f.lenbyte) len = b[at + h - 1];
	if (!len) return -1;
	size_t tot = h + len + (cks ? 1 : 0);
	if (n < tot) return 0;
	f.data.assign(b.begin() + at + h, b.begin() + at + h + len);
	if (cks && cks_ok) {
		unsigned s = 0;
		for (size_t i = 0; i < tot - 1; i++) s += b[at + i];
		*cks_ok = (uint8_t)s == b[at + tot - 1];
	}
	return (int)tot;
}

// Interface classes that exist in the tree (flag sets reported by the drivers)
struct If {
	uint32_t flags;
	const char *name;
	bool frame() const { return flags & DIAG_L1_DOESL2FRAME; }
	bool strip() const { return flags & DIAG_L1_STRIPSL2CKSUM; }
	bool addsum() const { return flags & DIAG_L1_DOESL2CKSUM; }
	bool nohdr() const { return flags & DIAG_L1_NOHDRS; }
	bool dataonly() const { return flags & DIAG_L1_DATAONLY; }
	bool echo() const { return flags & DIAG_L1_HALFDUPLEX; }
};
inline If pick_if(Ctx &c) {
	static const If t[] = {
		{ DIAG_L1_SLOW | DIAG_L1_FAST | DIAG_L1_DOESP4WAIT | DIAG_L1_AUTOSPEED, "p4wait" },
		{ DIAG_L1_SLOW | DIAG_L1_FAST | DIAG_L1_HALFDUPLEX, "dumb" },
		{ DIAG_L1_SLOW | DIAG_L1_FAST, "fulldup" },
		{ DIAG_L1_AUTOSPEED | DIAG_L1_SLOW | DIAG_L1_FAST | DIAG_L1_DOESL2FRAME | DIAG_L1_DOESL2CKSUM | DIAG_L1_DOESSLOWINIT, "smart" },
		{ DIAG_L1_DOESP4WAIT | DIAG_L1_AUTOSPEED | DIAG_L1_NOTTY | DIAG_L1_DOESL2FRAME | DIAG_L1_DOESL2CKSUM | DIAG_L1_STRIPSL2CKSUM | DIAG_L1_SLOW | DIAG_L1_FAST, "smart-strip" },
		{ DIAG_L1_DOESP4WAIT | DIAG_L1_AUTOSPEED | DIAG_L1_NOTTY | DIAG_L1_DOESL2FRAME | DIAG_L1_SLOW | DIAG_L1_FAST, "smart-nocks" },
		{ DIAG_L1_DOESP4WAIT | DIAG_L1_AUTOSPEED | DIAG_L1_NOTTY | DIAG_L1_DOESL2FRAME | DIAG_L1_NOHDRS | DIAG_L1_DATAONLY | DIAG_L1_SLOW | DIAG_L1_FAST, "nohdr" },
		{ DIAG_L1_DOESP4WAIT | DIAG_L1_AUTOSPEED | DIAG_L1_NOTTY | DIAG_L1_DOESL2FRAME | DIAG_L1_NOHDRS | DIAG_L1_DATAONLY | DIAG_L1_DOESL2CKSUM | DIAG_L1_STRIPSL2CKSUM | DIAG_L1_SLOW | DIAG_L1_FAST, "nohdr-strip" },
		{ DIAG_L1_DATAONLY | DIAG_L1_AUTOSPEED | DIAG_L1_DOESP4WAIT | DIAG_L1_DOESL2FRAME | DIAG_L1_DOESL2CKSUM | DIAG_L1_DOESFULLINIT | DIAG_L1_DOESKEEPALIVE | DIAG_L1_SLOW | DIAG_L1_FAST, "elm" },
	};
	return t[c.weighted({ 4, 6, 2, 3, 3, 2, 2, 2, 2 })];
}
// what the interface hands up for a frame on the bus
inline Bytes seen(const If &i, const Frame &f) {
	Bytes full = encode(f, true);
	Bytes b;
	if (i.nohdr()) b = f.data; else { b = header(f); b.insert(b.end(), f.data.begin(), f.data.end()); }
	// a header-less interface that leaves the checksum in: sum of what it hands up
	if (!i.strip()) b.push_back(i.nohdr() ? sum8(b, b.size()) : full.back());
	return b;
}

// Collects what the tester transmits and calls on_frame for each complete frame.
struct Ecu {
	Wire &w;
	If itf;
	Bytes acc;
	std::function<void(const Frame &)> on_frame;
	std::vector<Frame> rx;                  // frames the ECU saw
	Bytes junk;                             // transmitted bytes that are no frame
	bool bad = false;                       // checksum error or impossible frame seen
	Ecu(Wire &w_, If i) : w(w_), itf(i) {
		w.flags = i.flags;
		w.echo = i.echo();
		w.on_send = [this](const Bytes &b) { feed(b); return 0; };
	}
	void feed(const Bytes &b) {
		if (itf.dataonly()) {
			Frame f; f.data = b; f.addr = false;
			rx.push_back(f);
			if (on_frame) on_frame(f);
			return;
		}
		acc.insert(acc.end(), b.begin(), b.end());
		Frame f;
		bool ok = true;
		int n = parse(acc, 0, f, !itf.addsum(), &ok);
		if (n < 0 || (n > 0 && ((size_t)n != acc.size() || !ok))) { bad = true; junk = acc; acc.clear(); return; }
		if (n == 0) return;
		acc.clear();
		rx.push_back(f);
		if (on_frame) on_frame(f);
	}
	// one frame appears on the bus (delay from now to first byte)
	void answer(uint64_t delay_us, const Frame &f, uint64_t gap_us = 1000) {
		Bytes b = seen(itf, f);
		raw(delay_us, b, gap_us);
	}
	void raw(uint64_t delay_us, const Bytes &b, uint64_t gap_us = 1000) {
		if (itf.frame()) w.ecu_frame(delay_us, b);
		else w.ecu_bytes(delay_us, b, gap_us);
	}
};
inline void collect_cb(void *h, struct diag_msg *m);
struct Got { Bytes data; uint8_t fmt, src, dest; unsigned long rxtime; };
inline std::vector<Got> chain(const struct diag_msg *m) {
	std::vector<Got> v;
	for (; m; m = m->next) v.push_back({ Bytes(m->data, m->data + m->len), (uint8_t)m->fmt, m->src, m->dest, m->rxtime });
	return v;
}
inline void collect_cb(void *h, struct diag_msg *m) {
	auto *v = (std::vector<Got> *)h;
	auto x = chain(m);
	v->insert(v->end(), x.begin(), x.end());
}
// starts a session by fast init with the given key bytes
inline struct diag_l2_conn *start14230(struct diag_l0_device *dev, Ecu &e, unsigned flags, uint8_t target, uint8_t source,
	uint8_t kb1, uint8_t kb2 = 0x8f, unsigned bitrate = 0) {
	if (diag_l2_open(dev, DIAG_L1_ISO14230)) return nullptr;
	e.on_frame = [&](const Frame &) {
		Frame r; r.addr = true; r.dest = source; r.src = target; r.data = { 0xC1, kb1, kb2 };
		e.answer(30000, r);
	};
	struct diag_l2_conn *d = diag_l2_StartCommunications(dev, DIAG_L2_PROT_ISO14230, DIAG_L2_TYPE_FASTINIT | flags, bitrate, target, source);
	e.on_frame = nullptr;
	e.rx.clear();
	e.w.tx.clear();
	e.w.log.clear();
	e.w.rx.clear();
	e.w.frames.clear();
	return d;
}
}
