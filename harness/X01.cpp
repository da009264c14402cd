// LINK: vos wire
// Hostile vehicles and interfaces against whole sessions of every link protocol and layer above.
#include "hostile.hpp"
extern "C" {
#include "diag_l3.h"
#include "diag_l7.h"
#include "diag_l7_d2.h"
#include "diag_l7_kwp71.h"
#include "diag_l2_d2.h"
}
using namespace pbt;
using namespace wire;
using namespace hostile;
const char *pbt::prop_id = "X01";
const char *pbt::prop_rule = "a session of one link protocol (start, up to 10 sends, receptions, requests, timer ticks, ioctls, application-layer and service operations, stop) on any interface capability combination, "
	"with an ECU that answers with valid frames, mutations of them, random bytes, oversize bursts, silence and interface errors, up to 6000 bytes in all; non-trivial = at least one hostile "
	"(mutated, random or error) answer reached the tester";
unsigned pbt::quick_cases = 40000, pbt::thorough_cases = 600000;

namespace {
struct Del { Ctx *c; Wire *w; P p; bool l3; unsigned n = 0; };
bool within(const Bytes &hay, const uint8_t *d, size_t n) { return std::search(hay.begin(), hay.end(), d, d + n) != hay.end(); }
bool subseq(const Bytes &hay, const uint8_t *d, size_t n) { size_t i = 0; for (uint8_t x : hay) if (i < n && x == d[i]) i++; return i == n; }
void check(Ctx &c, Wire &w, P p, struct diag_msg *m, bool weak) {
	unsigned n = 0;
	for (; m; m = m->next) {
		PBT_CHECK(c, ++n < 3000, "endless message chain");
		PBT_CHECK(c, m->len <= w.seen.size() || !m->len, "message of %u bytes, %zu received", m->len, w.seen.size());
		if (!m->len) continue;
		PBT_CHECK(c, m->data, "message without data");
		volatile uint8_t sum = 0;
		for (unsigned i = 0; i < m->len; i++) sum += m->data[i];
		bool ok = w.smart() && p != PRAW && !weak ? false : subseq(w.seen, m->data, m->len);
		if (w.smart() && p != PRAW && !weak) for (auto &f : w.seen_frames) if (within(f, m->data, m->len)) { ok = true; break; }
		PBT_CHECK(c, ok, "message data %s was never received", hex(m->data, m->len).c_str());
	}
}
void cb(void *h, struct diag_msg *m) { Del *d = (Del *)h; d->n++; check(*d->c, *d->w, d->p, m, d->l3); }
}

void pbt::property(Ctx &c) {
	init_lib();
	size_t base = lib_bytes();
	Wire w; W = &w;
	struct diag_l0_device dev = make_dev();
	P p = (P)c.weighted({ 5, 4, 3, 4, 2, 3, 1 });
	auto itf = iso::pick_if(c);
	w.flags = itf.flags;
	if (p == PJ1850 && c.chance(9, 10)) w.flags |= DIAG_L1_DOESL2FRAME;
	if (c.chance(1, 5)) {
		static const uint32_t bits[] = { DIAG_L1_DOESL2FRAME, DIAG_L1_DOESL2CKSUM, DIAG_L1_STRIPSL2CKSUM, DIAG_L1_HALFDUPLEX, DIAG_L1_BLOCKDUPLEX, DIAG_L1_NOHDRS,
			DIAG_L1_DATAONLY, DIAG_L1_DOESSLOWINIT, DIAG_L1_DOESFULLINIT, DIAG_L1_DOESP4WAIT, DIAG_L1_AUTOSPEED, DIAG_L1_NOTTY, DIAG_L1_DOESKEEPALIVE };
		for (uint32_t b : bits) if (c.chance(1, 3)) w.flags ^= b;
	}
	if (p == PD2 && c.chance(7, 8)) w.flags |= DIAG_L1_DOESFULLINIT | DIAG_L1_DOESL2CKSUM;
	w.echo = (w.flags & DIAG_L1_HALFDUPLEX) && !c.chance(1, 20);
	w.byte_us = c.pick({ 0, 1000 });
	Hostile h(c, w, p);
	h.tgt = c.byte();
	unsigned type = 0, speed = c.pick({ 0u, 9600u, 10400u });
	switch (p) {
	case P14230: type = c.pick({ (unsigned)DIAG_L2_TYPE_FASTINIT, (unsigned)DIAG_L2_TYPE_SLOWINIT, (unsigned)DIAG_L2_TYPE_MONINIT }); if (c.chance(1, 4)) type |= DIAG_L2_TYPE_FUNCADDR; break;
	case P9141: case PMB1: type = c.pick({ (unsigned)DIAG_L2_TYPE_SLOWINIT, (unsigned)DIAG_L2_TYPE_MONINIT }); break;
	case PD2: type = DIAG_L2_TYPE_SLOWINIT; if (c.chance(1, 8)) type = DIAG_L2_TYPE_FASTINIT; break;
	default: break;
	}
	if (c.chance(1, 8)) type |= DIAG_L2_IDLE_J1978;
	bool pending_inv = false, pending_first = false;
	w.on_ioctl = [&](unsigned cmd, void *arg) -> int {
		if (cmd != DIAG_IOCTL_INITBUS) return 0;
		if (!h.calm && c.chance(1, 20)) { h.hostile = true; return c.pick({ DIAG_ERR_GENERAL, DIAG_ERR_BUSERROR, DIAG_ERR_INIT_NOTSUPP, DIAG_ERR_TIMEOUT, DIAG_ERR_WRONGKB }); }
		auto *in = (struct diag_l1_initbus_args *)arg;
		if (in->type == DIAG_L1_INITBUS_FAST) { vos::advance(50000); return 0; }
		vos::advance(2000000);
		in->kb1 = p == P9141 ? 8 : p == PD2 && h.calm ? 0xd3 : c.byte(); in->kb2 = p == P9141 ? 8 : p == PD2 && h.calm ? 0xb0 : c.byte();
		pending_inv = true;
		h.init(in->addr);
		return 0;
	};
	w.on_send = [&](const Bytes &b) -> int {
		if (pending_inv) {                  // the inverted key byte
			pending_inv = false;
			if (!h.calm && c.chance(1, 20)) return DIAG_ERR_BUSERROR;
			if (p == PVAG) { h.vseq = 1; if (w.smart()) h.respond(); else h.start_block(); return 0; }
			Bytes inv = { (uint8_t)~h.tgt };
			if (h.bad()) inv = h.mutate(inv);
			h.emit(30000, inv);
			return 0;
		}
		return h.sent(b);
	};
	c.label("%s", pname[p]);
	c.note("%s flags %x type %x target %02x", pname[p], w.flags, type, h.tgt);
	PBT_CHECK(c, diag_l2_open(&dev, p == PRAW ? DIAG_L1_RAW : p == PJ1850 ? DIAG_L1_J1850_VPW : DIAG_L1_ISO9141) == 0, "open failed");
	uint64_t t0;
	auto begin = [&] {
		t0 = vos::now_us;
		w.recv_err_after = -1; w.recv_dead = false;
		if (!h.calm && c.chance(1, 15)) {
			h.hostile = true;
			w.recv_err = c.pick({ DIAG_ERR_GENERAL, DIAG_ERR_BUSERROR, DIAG_ERR_BADDATA });
			if (c.chance(1, 3)) w.recv_dead = true; else w.recv_err_after = (int)c.draw(12);
		}
	};
	auto bounded = [&](const char *what) {
		uint64_t from = std::max(t0, w.last_seen);
		PBT_CHECK(c, vos::now_us - from < 120000000, "%s returned %llu ms after the vehicle fell silent", what, (unsigned long long)(vos::now_us - from) / 1000);
	};
	bool easy = c.chance(3, 4);            // let most sessions start
	h.calm = easy;
	begin();
	struct diag_l2_conn *d = diag_l2_StartCommunications(&dev, l2p[p], type, speed, h.tgt, 0xf1);
	bounded("start");
	struct diag_l3_conn *l3 = nullptr;
	const char *l3n = nullptr;
	if (d && c.chance(1, 2)) {
		l3n = c.pick({ "SAEJ1979", "ISO14230", "VAG" });
		begin();
		l3 = diag_l3_start(l3n, d);
		bounded("session start");
	}
	c.label("%s %s%s%s", pname[p], d ? "started" : "not started", l3 ? " with " : "", l3 ? l3n : "");
	h.calm = false;
	unsigned ops = d ? c.range(1, 10) : 0;
	for (unsigned o = 0; o < ops; o++) {
		begin();
		if (c.chance(1, 4) && h.budget) {        // something arrives by itself
			h.last = c.bytes(2);
			h.respond();
		}
		if (c.chance(1, 4)) vos::advance(c.pick({ 10u, 600u, 4000u }) * 1000ull);
		Bytes m = c.bytes(c.chance(1, 12) ? c.range(0, 300) : c.range(1, 8));
		if (c.chance(1, 3) && !m.empty()) m[0] = c.pick<uint8_t>({ 1, 3, 0x1a, 0x21, 0x3e, 0xa1, 0xae });
		Bytes keep = m;
		struct diag_msg msg;
		mkmsg(&msg, m);
		msg.type = c.byte(); msg.dest = c.pick<uint8_t>({ 0, h.tgt, 0x33 }); msg.src = c.pick<uint8_t>({ 0, 0xf1 });
		bool glued = l3 || (type & DIAG_L2_TYPE_INITMASK) == DIAG_L2_TYPE_MONINIT;  // data of several frames may form one message
		Del del = { &c, &w, p, glued };
		int err = 12345;
		unsigned op = c.weighted({ 3, 3, 5, 2, 2, 3, 3, 1 });
		switch (op) {
		case 0: c.note("send %s", hex(m).c_str()); l3 ? diag_l3_send(l3, &msg) : diag_l2_send(d, &msg); bounded("send"); break;
		case 1: { unsigned t = c.pick({ 100u, 0u, 1000u, 10u }); c.note("recv %u", t); (l3 ? diag_l3_recv : nullptr) ? (void)0 : (void)0;
			if (l3) diag_l3_recv(l3, t, cb, &del); else diag_l2_recv(d, t, cb, &del);
			bounded("recv"); break; }
		case 2: { c.note("request %s", hex(m).c_str());
			struct diag_msg *r = l3 ? diag_l3_request(l3, &msg, &err) : diag_l2_request(d, &msg, &err);
			bounded("request");
			PBT_CHECK(c, r || err < 0, "no answer and no error: %d", err);
			check(c, w, p, r, glued);
			if (l3 && r && c.chance(1, 2)) {
				size_t bs = c.pick({ 1000u, 100u, 5000u, 40u });
				char *buf = (char *)malloc(bs);
				diag_l3_decode(l3, r, buf, bs);
				PBT_CHECK(c, memchr(buf, 0, bs), "decoded text not terminated");
				free(buf);
			}
			if (r) diag_freemsg(r);
			break; }
		case 3: c.note("tick"); diag_l2_timer(); diag_l3_timer(); bounded("timer"); break;
		case 4: { c.note("ioctl");
			struct diag_l2_data l2d;
			diag_l2_ioctl(d, DIAG_IOCTL_GET_L2_DATA, &l2d);
			diag_l2_ioctl(d, DIAG_IOCTL_IFLUSH, NULL);
			if (c.chance(1, 4)) { struct diag_l1_initbus_args in = { }; in.type = DIAG_L1_INITBUS_5BAUD; in.addr = h.tgt; diag_l2_ioctl(d, DIAG_IOCTL_INITBUS, &in); pending_inv = false; }
			break; }
		case 5: { // D2 services
			if (p != PD2 && !c.chance(1, 3)) break;
			int bl = (int)c.pick({ 1, 2, 10, 64, 255 });
			uint8_t *out = (uint8_t *)malloc(bl);
			unsigned k = c.draw(6);
			c.note("d2 service %u buffer %d", k, bl);
			switch (k) {
			case 0: diag_l7_d2_ping(d); break;
			case 1: diag_l7_d2_read(d, (enum l7_namespace)c.pick({ NS_MEMORY, NS_LIVEDATA, NS_LIVEDATA2, NS_NV, NS_FREEZE }), (uint16_t)c.draw(256), bl, out); break;
			case 2: diag_l7_d2_dtclist(d, bl, out); break;
			case 3: diag_l7_d2_cleardtc(d); break;
			case 4: diag_l7_d2_io_control(d, c.byte(), (uint8_t)c.draw(2)); break;
			case 5: diag_l7_d2_run_routine(d, c.byte()); break;
			}
			free(out);
			bounded("service");
			break; }
		case 6: {
			if (p != PVAG && !c.chance(1, 3)) break;
			int bl = (int)c.pick({ 1, 2, 10, 64, 255 });
			uint8_t *out = (uint8_t *)malloc(bl);
			unsigned k = c.draw(4);
			c.note("kwp71 service %u buffer %d", k, bl);
			switch (k) {
			case 0: diag_l7_kwp71_ping(d); break;
			case 1: diag_l7_kwp71_read(d, (enum l7_namespace)c.pick({ NS_MEMORY, NS_ROM, NS_ADC }), (uint16_t)c.draw(65536), bl, out); break;
			case 2: diag_l7_kwp71_dtclist(d, bl, out); break;
			case 3: diag_l7_kwp71_cleardtc(d); break;
			}
			free(out);
			bounded("service");
			break; }
		case 7: if (l3) { diag_l3_stop(l3); l3 = nullptr; } break;
		}
		PBT_CHECK(c, m == keep, "the caller's message was changed");
		c.label("%s op %u%s", pname[p], op, l3 ? " L3" : "");
	}
	if (h.hostile) c.nontrivial();
	if (l3) diag_l3_stop(l3);
	begin();
	if (d) diag_l2_StopCommunications(d);
	bounded("stop");
	PBT_CHECK(c, diag_l2_close(&dev) == 0, "close failed");
	PBT_CHECK(c, lib_bytes() == base, "memory leaked: %ld bytes", (long)(lib_bytes() - base));
}
