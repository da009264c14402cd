// LINK: vos wire
// ISO 9141 5-baud initialisation.
#include "iso.hpp"
using namespace pbt;
using namespace wire;
const char *pbt::prop_id = "N01";
const char *pbt::prop_rule = "1-4 session starts in a row over every interface class, with any target, init type, key bytes, inverted address, late or missing bytes, stale bytes, "
	"failing bus initialisation, transmission or line setup; non-trivial = a slow initialisation that gets past the bus initialisation";
unsigned pbt::quick_cases = 40000, pbt::thorough_cases = 400000;

void pbt::property(Ctx &c) {
	init_lib();
	size_t base = lib_bytes();
	Wire w; W = &w;
	struct diag_l0_device dev = make_dev();
	iso::If itf = iso::pick_if(c);
	w.flags = itf.flags;
	bool full = w.flags & DIAG_L1_DOESFULLINIT, slow = w.flags & DIAG_L1_DOESSLOWINIT;
	PBT_CHECK(c, diag_l2_open(&dev, DIAG_L1_ISO9141) == 0, "open failed");
	size_t opened = lib_bytes();
	unsigned rounds = c.range(1, 4);
	for (unsigned r = 0; r < rounds; r++) {
		w.tx.clear(); w.rx.clear(); w.frames.clear(); w.ioctls.clear(); w.log.clear();
		w.echo = itf.echo();
		uint8_t tgt = c.chance(1, 2) ? 0x33 : c.byte(), src = c.byte();
		int type = c.pick({ (int)DIAG_L2_TYPE_SLOWINIT, (int)DIAG_L2_TYPE_SLOWINIT, (int)DIAG_L2_TYPE_SLOWINIT, (int)DIAG_L2_TYPE_SLOWINIT,
			(int)DIAG_L2_TYPE_MONINIT, (int)DIAG_L2_TYPE_FASTINIT, (int)DIAG_L2_TYPE_CARBINIT });
		unsigned speed = c.pick({ 0u, 10400u, 9600u, 4800u });
		uint8_t kb1 = c.pick({ 0x08, 0x94 }), kb2 = kb1;
		switch (c.weighted({ 7, 1, 1, 1 })) {
		case 1: kb1 = kb2 = c.byte(); break;
		case 2: kb2 = c.byte(); break;
		case 3: kb1 = c.byte(); break;
		}
		uint8_t inv = (uint8_t)~tgt;
		if (c.chance(1, 5)) inv ^= 1 + c.draw(255);
		if (c.chance(1, 12)) inv = tgt;
		int miss = c.weighted({ 8, 1, 1, 1, 1, 1, 1 });      // 1..3 byte missing, 4..6 byte late
		int err = c.pick({ DIAG_ERR_GENERAL, DIAG_ERR_BUSERROR, DIAG_ERR_INIT_NOTSUPP, DIAG_ERR_BADDATA });
		int fault = c.weighted({ 10, 1, 1, 1 });             // 1 = INITBUS fails, 2 = transmission fails, 3 = line setup fails
		unsigned d1 = c.range(5, 20), d2 = c.range(1, 20), d4 = c.range(25, 50);
		uint64_t t_init = 0, t_flush = 0, t_kb2 = 0, t_send = 0, t_prev = vos::now_us;
		struct diag_l1_initbus_args seen = {};
		int inits = 0;
		auto put = [&](uint64_t ms, uint8_t b) { if (itf.frame()) w.ecu_frame(ms * 1000, { b }); else w.ecu_bytes(ms * 1000, { b }); };
		Bytes stale = c.bytes(w.flags & DIAG_L1_NOTTY ? 0 : c.draw(4));    // no serial line, nothing to flush
		for (uint8_t b : stale) put(0, b);
		unsigned last_speed = 0;
		w.on_ioctl = [&](unsigned cmd, void *arg) -> int {
			if (cmd == DIAG_IOCTL_IFLUSH) { w.rx.clear(); w.frames.clear(); t_flush = vos::now_us; return 0; }
			if (cmd == DIAG_IOCTL_SETSPEED) { last_speed = ((struct diag_serial_settings *)arg)->speed; return fault == 3 ? err : 0; }
			if (cmd != DIAG_IOCTL_INITBUS) return 0;
			inits++;
			seen = *(struct diag_l1_initbus_args *)arg;
			t_init = vos::now_us;
			if (fault == 1) return err;
			vos::advance(2100000);
			if (full) return 0;
			uint64_t t = d1 + (miss == 4 ? 150 : 0);
			if (miss != 1) put(t, kb1);
			t += d2 + (miss == 5 ? 150 : 0);
			if (miss != 2) put(t, kb2);
			t_kb2 = vos::now_us + t * 1000;
			return 0;
		};
		w.on_send = [&](const Bytes &) {
			t_send = vos::now_us;
			if (fault == 2) return err;
			if (miss != 3) put(d4 + (miss == 6 ? 300 : 0), inv);
			return 0;
		};
		c.note("%s type=%#x tgt=%02x speed=%u kb=%02x %02x inv=%02x miss=%d fault=%d(%d)", itf.name, type, tgt, speed, kb1, kb2, inv, miss, fault, err);
		bool slowtype = type == DIAG_L2_TYPE_SLOWINIT;
		bool speedfail = fault == 3 && !(w.flags & (DIAG_L1_AUTOSPEED | DIAG_L1_NOTTY));
		bool kbok = kb1 == kb2 && (kb1 == 0x08 || kb1 == 0x94) && miss != 1 && miss != 2 && miss != 4 && miss != 5;
		bool ok = type == DIAG_L2_TYPE_MONINIT || (slowtype && fault != 1 && (full || (kbok && (slow || (fault != 2 && inv == (uint8_t)~tgt && miss != 3 && miss != 6)))));
		if (speedfail) ok = false;
		if (slowtype && fault != 1 && !speedfail) c.nontrivial();
		c.label("%s %s", !slowtype ? "other type" : full ? "full init" : slow ? "slow init by interface" : "slow init", ok ? "ok" : "fails");
		(void)diag_geterr();
		uint64_t t0 = vos::now_us;
		struct diag_l2_conn *d = diag_l2_StartCommunications(&dev, DIAG_L2_PROT_ISO9141, type, speed, tgt, src);
		PBT_CHECK(c, !!d == ok, "start %s", d ? "succeeded" : "failed");
		PBT_CHECK(c, vos::now_us - t0 < 4000000, "took %llu us", (unsigned long long)(vos::now_us - t0));
		PBT_CHECK(c, inits == (slowtype && !speedfail ? 1 : 0), "%d bus initialisations", inits);
		if (inits) {
			PBT_CHECK(c, seen.type == DIAG_L1_INITBUS_5BAUD && seen.addr == tgt, "5-baud init type %d address %02x", seen.type, seen.addr);
			PBT_CHECK(c, t_init >= t_prev + 300000 - 1000, "bus not idle long enough before the address byte");
			(void)t_flush;
		}
		bool sends = slowtype && !speedfail && fault != 1 && !full && kbok && !slow;
		if (sends) {
			PBT_CHECK(c, w.sent() == Bytes{ (uint8_t)~kb2 }, "sent %s after the key bytes", hex(w.sent()).c_str());
			PBT_CHECK(c, t_send >= t_kb2 + 24000, "inverted key byte sent too early");
		} else PBT_CHECK(c, w.tx.empty(), "sent %s", hex(w.sent()).c_str());
		if (!(w.flags & (DIAG_L1_AUTOSPEED | DIAG_L1_NOTTY))) PBT_CHECK(c, last_speed == (speed ? speed : 10400), "line speed %u", last_speed);
		if (!d) {
			PBT_CHECK(c, diag_geterr() < 0, "failure without an error");
			PBT_CHECK(c, lib_bytes() == opened, "failed start leaks %zu bytes", lib_bytes() - opened);
			w.on_ioctl = nullptr; w.on_send = nullptr;
			continue;
		}
		if (slowtype && !full) {
			PBT_CHECK(c, d->diag_l2_kb1 == kb1 && d->diag_l2_kb2 == kb2, "key bytes %02x %02x", d->diag_l2_kb1, d->diag_l2_kb2);
			PBT_CHECK(c, d->diag_l2_p2min == (kb1 == 0x94 ? 0 : 25), "p2min %u", d->diag_l2_p2min);
		}
		w.tx.clear();
		w.on_ioctl = nullptr; w.on_send = nullptr;
		diag_l2_StopCommunications(d);
		PBT_CHECK(c, w.tx.empty(), "stop transmitted something");
		PBT_CHECK(c, lib_bytes() == opened, "session leaks %zu bytes", lib_bytes() - opened);
	}
	PBT_CHECK(c, diag_l2_close(&dev) == 0, "close failed");
	PBT_CHECK(c, lib_bytes() == base, "memory leaked");
}
