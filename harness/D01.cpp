// LINK: vos wire
// Volvo D2: initialisation, framing and "not complete yet" answers.
#include "iso.hpp"
using namespace pbt;
using namespace wire;
const char *pbt::prop_id = "D01";
const char *pbt::prop_rule = "1-3 session starts with any flags, speeds, addresses, key bytes and failures, then 1-4 operations (send / receive / request) with messages of 0..80 bytes and "
	"0-6 'not complete yet' answers before an answer of 0..62 bytes, an error or silence; non-trivial = an established session with a pending answer or fault, or a failed start";
unsigned pbt::quick_cases = 40000, pbt::thorough_cases = 400000;

void pbt::property(Ctx &c) {
	init_lib();
	size_t base = lib_bytes();
	Wire w; W = &w;
	struct diag_l0_device dev = make_dev();
	w.flags = DIAG_L1_AUTOSPEED | DIAG_L1_DOESP4WAIT | DIAG_L1_DOESL2FRAME | DIAG_L1_DOESL2CKSUM | DIAG_L1_DOESFULLINIT | DIAG_L1_DOESKEEPALIVE | DIAG_L1_SLOW;
	if (c.chance(1, 3)) w.flags |= DIAG_L1_DATAONLY;
	if (c.chance(1, 3)) w.flags &= ~DIAG_L1_DOESKEEPALIVE;
	if (c.chance(1, 4)) w.flags &= ~DIAG_L1_AUTOSPEED;
	if (c.chance(1, 10)) w.flags &= ~DIAG_L1_DOESFULLINIT;
	if (c.chance(1, 10)) w.flags &= ~DIAG_L1_DOESL2CKSUM;
	bool capable = (w.flags & DIAG_L1_DOESFULLINIT) && (w.flags & DIAG_L1_DOESL2CKSUM);
	PBT_CHECK(c, diag_l2_open(&dev, c.pick({ DIAG_L1_ISO9141, DIAG_L1_ISO14230 })) == 0, "open failed");
	size_t opened = lib_bytes();
	struct diag_l2_conn *d = NULL;
	uint8_t tgt = 0, src = 0;
	for (unsigned k = c.range(1, 3); k && !d; k--) {
		w.tx.clear(); w.frames.clear(); w.ioctls.clear();
		tgt = c.byte();
		src = c.chance(1, 2) ? 0x13 : c.byte();
		int type = c.chance(1, 6) ? c.pick({ (int)DIAG_L2_TYPE_FASTINIT, (int)DIAG_L2_TYPE_MONINIT, (int)DIAG_L2_TYPE_CARBINIT }) : (int)DIAG_L2_TYPE_SLOWINIT;
		unsigned speed = c.pick({ 0u, 9600u, 10400u });
		uint8_t kb1 = 0xd3, kb2 = 0xb0;
		switch (c.weighted({ 6, 2, 1, 1 })) {
		case 1: kb1 = kb2 = 0; break;           // interface cannot tell
		case 2: kb1 = c.byte(); break;
		case 3: kb2 = c.byte(); break;
		}
		int fault = c.weighted({ 8, 1, 1, 1 });
		if (fault == 2 && !(w.flags & DIAG_L1_DOESKEEPALIVE)) fault = 0;
		if (fault == 3 && (w.flags & DIAG_L1_AUTOSPEED)) fault = 0;
		bool kbok = (kb1 == 0xd3 && kb2 == 0xb0) || (!kb1 && !kb2);
		bool ok = capable && type == DIAG_L2_TYPE_SLOWINIT && !fault && kbok;
		int inits = 0;
		unsigned sp = 0;
		Bytes wm;
		struct diag_l1_initbus_args seen = {};
		uint64_t prev = vos::now_us, t_init = 0;
		w.on_ioctl = [&](unsigned cmd, void *arg) -> int {
			if (cmd == DIAG_IOCTL_SETSPEED) { sp = ((struct diag_serial_settings *)arg)->speed; return fault == 3 ? DIAG_ERR_GENERAL : 0; }
			if (cmd == DIAG_IOCTL_SETWM) { auto *m = (struct diag_msg *)arg; wm.assign(m->data, m->data + m->len); return fault == 2 ? DIAG_ERR_BADLEN : 0; }
			if (cmd != DIAG_IOCTL_INITBUS) return 0;
			inits++;
			auto *in = (struct diag_l1_initbus_args *)arg;
			seen = *in;
			t_init = vos::now_us;
			if (fault == 1) return DIAG_ERR_BUSERROR;
			vos::advance(2500000);
			in->kb1 = kb1; in->kb2 = kb2;
			return 0;
		};
		c.note("start flags=%#x type=%#x tgt=%02x src=%02x kb=%02x%02x fault=%d", w.flags, type, tgt, src, kb1, kb2, fault);
		c.label("start %s", ok ? "ok" : "fails");
		if (!ok) c.nontrivial();
		(void)diag_geterr();
		d = diag_l2_StartCommunications(&dev, DIAG_L2_PROT_D2, type, speed, tgt, src);
		PBT_CHECK(c, !!d == ok, "start %s", d ? "succeeded" : "failed");
		PBT_CHECK(c, w.tx.empty(), "start transmitted %s", hex(w.sent()).c_str());
		bool reach = capable && type == DIAG_L2_TYPE_SLOWINIT && fault != 2 && fault != 3;
		PBT_CHECK(c, inits == reach, "%d bus initialisations", inits);
		if (inits) {
			unsigned ones = 0;
			for (int i = 0; i < 7; i++) ones += (tgt >> i) & 1;
			uint8_t want = (tgt & 0x7f) | (ones % 2 ? 0 : 0x80);
			PBT_CHECK(c, seen.type == DIAG_L1_INITBUS_5BAUD && seen.addr == want && seen.testerid == src, "bus initialisation type %d address %02x (want %02x) tester %02x", seen.type, seen.addr, want, seen.testerid);
			PBT_CHECK(c, t_init >= prev + 299000, "bus not idle long enough");
			if (w.flags & DIAG_L1_DOESKEEPALIVE) PBT_CHECK(c, (wm == Bytes{ 0x82, tgt, src, 0xa1 }), "wakeup message %s", hex(wm).c_str());
			if (!(w.flags & DIAG_L1_AUTOSPEED)) PBT_CHECK(c, sp == (speed ? speed : 10400), "line speed %u", sp);
		}
		if (!d) {
			PBT_CHECK(c, diag_geterr() < 0, "failure without an error");
			PBT_CHECK(c, lib_bytes() == opened, "failed start leaks");
		} else PBT_CHECK(c, d->diag_l2_kb1 == 0xd3 && d->diag_l2_kb2 == 0xb0, "key bytes %02x%02x", d->diag_l2_kb1, d->diag_l2_kb2);
		w.on_ioctl = nullptr;
	}
	unsigned ops = d ? c.range(1, 4) : 0;
	for (unsigned o = 0; o < ops; o++) {
		w.tx.clear(); w.frames.clear(); w.recv_err_after = -1; w.on_send = nullptr;
		unsigned op = c.weighted({ 2, 2, 6 });      // send, receive, request
		Bytes m = c.bytes(c.chance(1, 5) ? c.range(0, 80) : c.range(1, 12));
		if (m.empty() && op == 2) m.push_back(0xa5);
		Bytes keep = m;
		struct diag_msg msg;
		mkmsg(&msg, m);
		if (c.chance(1, 4)) msg.dest = c.byte();
		if (c.chance(1, 4)) msg.src = c.byte();
		bool refuse = m.size() < 1 || m.size() > 62;
		unsigned pend = op == 2 ? c.weighted({ 4, 2, 1, 1, 1, 1, 1 }) : 0;
		enum { ANSWER, SILENT, ERR, SHORT, SENDERR } kind = (decltype(kind))c.weighted({ 6, 1, 1, 1, 0 });
		if (op != 1 && c.chance(1, 12)) kind = SENDERR;
		Bytes a = c.bytes(c.chance(1, 3) ? c.range(1, 62) : c.range(1, 12));
		if (c.chance(1, 6) && m.size()) a = { 0x7e, m[0], c.pick<uint8_t>({ 0x22, 0x23, 0x24 }) };
		if (c.chance(1, 12) && m.size()) { a = { 0x7e, m[0], 0x23, 0x00 }; }
		if (c.chance(1, 12) && m.size()) { a = { 0x7e, (uint8_t)(m[0] ^ (1 + c.draw(255))), 0x23 }; }
		if (a.size() == 3 && a[0] == 0x7e && m.size() && a[1] == m[0] && a[2] == 0x23 && op == 2) a[2] = 0x24;
		uint8_t ad = c.byte(), as = c.byte();
		auto fr = [&](const Bytes &x) {
			Bytes f = { (uint8_t)(0x80 + x.size() + 1), ad, as };
			f.insert(f.end(), x.begin(), x.end());
			f.push_back(iso::sum8(f, f.size()));
			return f;
		};
		unsigned timeout = (unsigned)c.range(1, 1000), lim = op == 2 ? 1000 : timeout;
		auto speak = [&]() {
			uint64_t t = 0;
			for (unsigned i = 0; i < pend; i++) { t += (uint64_t)c.range(0, 999) * 1000; w.ecu_frame(t, fr({ 0x7e, m[0], 0x23 })); }
			t += (uint64_t)c.range(0, (long)lim) * 1000;
			if (kind == ANSWER || kind == SENDERR) w.ecu_frame(t, fr(a));
			if (kind == SHORT) { Bytes f = fr(a); f.resize(c.range(1, 4)); w.ecu_frame(t, f); }
			if (kind == ERR) { w.recv_err = DIAG_ERR_BUSERROR; w.recv_err_after = (int)pend; }
		};
		w.on_send = [&](const Bytes &) { if (op == 2) speak(); return kind == SENDERR ? (int)DIAG_ERR_BUSERROR : 0; };
		c.note("op %u msg %s pending=%u kind=%d answer %s dest=%02x src=%02x", op, hex(m).c_str(), pend, kind, hex(a).c_str(), msg.dest, msg.src);
		if (pend || kind) c.nontrivial();
		c.label("%s pending %s kind %d", op == 0 ? "send" : op == 1 ? "recv" : "request", pend ? pend > 2 ? ">2" : "1-2" : "0", kind);
		(void)diag_geterr();
		std::vector<iso::Got> got;
		int rv = 0;
		size_t before = lib_bytes();
		uint64_t t0 = vos::now_us;
		if (op == 0) rv = diag_l2_send(d, &msg);
		else if (op == 1) { speak(); rv = diag_l2_recv(d, timeout, iso::collect_cb, &got); }
		else {
			int e = 12345;
			struct diag_msg *r = diag_l2_request(d, &msg, &e);
			if (r) { got = iso::chain(r); diag_freemsg(r); }
			else { PBT_CHECK(c, e < 0, "failure with error value %d", e); rv = e; }
		}
		PBT_CHECK(c, m == keep && msg.len == keep.size(), "the caller's message was changed");
		PBT_CHECK(c, lib_bytes() == before, "memory leaked by operation %u", op);
		PBT_CHECK(c, vos::now_us - t0 <= (pend + 1) * 1200000ull + 500000, "took %llu us", (unsigned long long)(vos::now_us - t0));
		if (op != 1) {
			if (refuse) { PBT_CHECK(c, rv < 0 && w.tx.empty() && got.empty(), "message of %zu bytes: result %d, sent %s", m.size(), rv, hex(w.sent()).c_str()); continue; }
			if (kind == SENDERR) { PBT_CHECK(c, rv < 0 && rv != DIAG_ERR_TIMEOUT && got.empty(), "send error reported as %d", rv); continue; }
			Bytes out = { (uint8_t)(0x80 + m.size() + 1), msg.dest ? msg.dest : tgt, msg.src ? msg.src : src };
			out.insert(out.end(), m.begin(), m.end());
			PBT_CHECK(c, w.tx.size() == 1 && w.sent() == out, "transmitted %s (%zu pieces) instead of %s", hex(w.sent()).c_str(), w.tx.size(), hex(out).c_str());
		} else PBT_CHECK(c, w.tx.empty(), "receive transmitted something");
		if (op == 0) { PBT_CHECK(c, rv == 0, "send returned %d", rv); continue; }
		if (kind == ANSWER) {
			PBT_CHECK(c, rv == 0 && got.size() == 1, "result %d, %zu messages", rv, got.size());
			PBT_CHECK(c, got[0].data == a, "received %s instead of %s", hex(got[0].data).c_str(), hex(a).c_str());
			PBT_CHECK(c, got[0].rxtime >= t0 / 1000 && got[0].rxtime <= vos::now_us / 1000 && (op == 2 || (got[0].fmt & DIAG_FMT_FRAMED)), "dated %lu, flags %x", got[0].rxtime, got[0].fmt);
			PBT_CHECK(c, got[0].src == as && got[0].dest == ad, "addresses %02x>%02x", got[0].src, got[0].dest);
		} else {
			PBT_CHECK(c, rv < 0 && got.empty(), "no valid answer, yet result %d", rv);
			if (kind == SILENT) PBT_CHECK(c, rv == DIAG_ERR_TIMEOUT, "silence gave %d", rv);
		}
	}
	if (d) {
		w.tx.clear(); w.frames.clear(); w.recv_err_after = -1;
		int how = c.draw(3);        // silence, answer, error
		w.on_send = [&](const Bytes &) { if (how == 1) w.ecu_frame(50000, { 0x82, src, tgt, 0xe0, 0 }); return how == 2 ? (int)DIAG_ERR_BUSERROR : 0; };
		diag_l2_StopCommunications(d);
		PBT_CHECK(c, (w.sent() == Bytes{ 0x82, tgt, src, 0xa0 }), "stop transmitted %s", hex(w.sent()).c_str());
	}
	PBT_CHECK(c, diag_l2_close(&dev) == 0, "close failed");
	PBT_CHECK(c, lib_bytes() == base, "memory leaked");
}
