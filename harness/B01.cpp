// LINK: vos wire
// Mercedes MB1: initialisation, framing and sums.
#include "iso.hpp"
using namespace pbt;
using namespace wire;
const char *pbt::prop_id = "B01";
const char *pbt::prop_rule = "session start with any key bytes, speeds, missing bytes and identification message, then 1-4 operations (send / receive / request) with messages of 0..300 bytes, "
	"answers of 1..251 bytes, one or two in a row, corrupted, truncated, mis-sized or missing; non-trivial = an established session with an answer of over 8 bytes or a fault";
unsigned pbt::quick_cases = 40000, pbt::thorough_cases = 400000;

static Bytes frame(uint8_t addr, const Bytes &m) {
	Bytes b = { addr, m[0], (uint8_t)(m.size() + 4) };
	b.insert(b.end(), m.begin() + 1, m.end());
	unsigned s = 0;
	for (uint8_t x : b) s += x;
	b.push_back((uint8_t)s);
	b.push_back((uint8_t)(s >> 8));
	return b;
}
// the message a receiver must find at the start of b; false if there is none
static bool unframe(const Bytes &b, Bytes &m) {
	if (b.size() < 5 || b[2] < 5 || b.size() < b[2]) return false;
	size_t n = b[2];
	unsigned s = 0;
	for (size_t i = 0; i < n - 2; i++) s += b[i];
	if (b[n - 2] != (uint8_t)s || b[n - 1] != (uint8_t)(s >> 8)) return false;
	m = { b[1] };
	m.insert(m.end(), b.begin() + 3, b.begin() + n - 2);
	return true;
}

void pbt::property(Ctx &c) {
	init_lib();
	size_t base = lib_bytes();
	Wire w; W = &w;
	struct diag_l0_device dev = make_dev();
	static const uint32_t fl[] = { DIAG_L1_SLOW | DIAG_L1_HALFDUPLEX, DIAG_L1_SLOW | DIAG_L1_HALFDUPLEX | DIAG_L1_BLOCKDUPLEX, DIAG_L1_SLOW, DIAG_L1_SLOW | DIAG_L1_DOESP4WAIT | DIAG_L1_AUTOSPEED };
	w.flags = fl[c.draw(4)];
	w.echo = w.flags & DIAG_L1_HALFDUPLEX;
	PBT_CHECK(c, diag_l2_open(&dev, c.pick({ DIAG_L1_ISO9141, DIAG_L1_ISO14230 })) == 0, "open failed");
	size_t opened = lib_bytes();
	// --- start, possibly after failed attempts
	struct diag_l2_conn *d = NULL;
	uint8_t tgt = 0;
	for (unsigned k = 0; k < 3 && !d; k++) {
		w.tx.clear(); w.rx.clear(); w.ioctls.clear();
		tgt = c.byte();
		unsigned speed = c.pick({ 0u, 9600u, 10400u, 4800u });
		uint8_t kb1 = 0xc2, kb2 = 0xcd;
		int fault = c.weighted({ 8, 1, 1, 1, 1, 1, 1 });
		if (fault == 1) kb1 = c.byte();
		if (fault == 2) kb2 = c.byte();
		bool ok = fault < 3 ? kb1 == 0xc2 && kb2 == 0xcd : false;
		bool autosp = w.flags & DIAG_L1_AUTOSPEED;
		if (fault == 6 && autosp) { fault = 0; ok = true; }
		Bytes id = c.chance(1, 2) ? frame(tgt, c.bytes(c.range(2, 40))) : Bytes();
		unsigned sp = 0;
		uint64_t prev = vos::now_us, t_init = 0;
		int inits = 0;
		struct diag_l1_initbus_args seen = {};
		Bytes stale = c.bytes(c.draw(3));
		w.ecu_bytes(0, stale);
		w.on_ioctl = [&](unsigned cmd, void *arg) -> int {
			if (cmd == DIAG_IOCTL_IFLUSH) w.rx.clear();
			if (cmd == DIAG_IOCTL_SETSPEED) { sp = ((struct diag_serial_settings *)arg)->speed; if (fault == 6) return DIAG_ERR_GENERAL; }
			if (cmd != DIAG_IOCTL_INITBUS) return 0;
			inits++;
			seen = *(struct diag_l1_initbus_args *)arg;
			t_init = vos::now_us;
			if (fault == 3) return DIAG_ERR_BUSERROR;
			vos::advance(2000000);
			if (fault != 4) w.ecu_bytes(10000, { kb1 });
			if (fault != 5 && fault != 4) w.ecu_bytes(20000, { kb2 });
			if (!id.empty()) w.ecu_bytes(100000, id, 900);
			return 0;
		};
		c.note("start tgt=%02x speed=%u kb=%02x%02x fault=%d id=%zu", tgt, speed, kb1, kb2, fault, id.size());
		c.label("start fault %d %s", fault, ok ? "ok" : "fails");
		(void)diag_geterr();
		uint64_t t0 = vos::now_us;
		if (fault == 5 && !id.empty() && id[0] == 0xcd) ok = kb1 == 0xc2;          // cannot be told apart
		d = diag_l2_StartCommunications(&dev, DIAG_L2_PROT_MB1, 0, speed, tgt, 0xf1);
		PBT_CHECK(c, !!d == ok || (fault >= 4 && fault <= 5 && !id.empty()), "start %s", d ? "succeeded" : "failed");
		PBT_CHECK(c, vos::now_us - t0 < 6000000, "start took too long");
		PBT_CHECK(c, w.tx.empty(), "start transmitted %s", hex(w.sent()).c_str());
		PBT_CHECK(c, inits == (fault == 6 ? 0 : 1), "%d bus initialisations", inits);
		if (inits) PBT_CHECK(c, seen.type == DIAG_L1_INITBUS_5BAUD && seen.addr == tgt && t_init >= prev + 299000, "wrong bus initialisation");
		if (!autosp) PBT_CHECK(c, sp == (speed ? speed : 9600), "line speed %u", sp);
		if (!d) { PBT_CHECK(c, lib_bytes() == opened, "failed start leaks"); }
		else if (!fault) PBT_CHECK(c, w.rx.empty(), "%zu bytes of the identification message are left for the first answer", w.rx.size());
		w.on_ioctl = nullptr;
	}
	unsigned ops = d ? c.range(1, 4) : 0;
	for (unsigned o = 0; o < ops; o++) {
		w.tx.clear(); w.rx.clear(); w.recv_err_after = -1; w.on_send = nullptr;
		unsigned op = c.weighted({ 2, 5, 5 });      // send, receive, request
		Bytes m = c.bytes(c.weighted({ 6, 1, 1 }) == 0 ? c.range(1, 12) : c.range(0, 300));
		if (m.empty() && op == 2) m.push_back(1);
		Bytes keep = m;
		struct diag_msg msg;
		uint8_t *heap = (uint8_t *)malloc(m.size() ? m.size() : 1);       // exact size: over-reads are seen
		if (m.size()) memcpy(heap, m.data(), m.size());
		mkmsg(&msg, m);
		msg.data = heap;
		bool toolong = m.size() > 251 || m.empty();
		unsigned n = op == 0 ? 0 : c.weighted({ 1, 6, 2 });
		std::vector<Bytes> raw, want;
		std::vector<uint64_t> at;
		unsigned timeout = (unsigned)c.range(30, 1500), lim = op == 2 ? 1000 : timeout;
		unsigned gap = c.pick({ 0u, 1000u, 5000u, 18000u });
		enum { NONE, FLIP, TRUNC, BADLEN, IOERR, TINY, SENDERR } fault = NONE;
		if (n) fault = (decltype(fault))c.weighted({ 8, 2, 2, 1, 1, 1, 0 });
		if (op != 1 && fault == NONE && c.chance(1, 10)) fault = SENDERR;
		if (fault) n = std::min(n, 1u);
		uint64_t t = (uint64_t)c.range(0, (long)lim - (c.chance(1, 2) ? lim / 2 : 22)) * 1000;
		for (unsigned i = 0; i < n; i++) {
			Bytes a = c.bytes(c.chance(1, 4) ? c.range(60, 251) : c.range(1, 20));
			Bytes f = frame(c.byte(), a);
			if (fault == FLIP) f[c.draw(f.size())] ^= 1 + c.draw(255);
			if (fault == TRUNC) f.resize(c.range(1, f.size() - 1));
			if (fault == BADLEN) { f[2] = (uint8_t)c.draw(8); }
			if (fault == TINY) { uint8_t x = c.byte(); if (c.chance(1, 2)) f = { x, x, 0 }; else f = { x, (uint8_t)(4 - x), 4, (uint8_t)((x + (uint8_t)(4 - x)) >> 8) }; }      // summed right, holds nothing
			raw.push_back(f);
			at.push_back(t);
			t += f.size() * gap + (uint64_t)c.range(1, 50) * 1000;
			Bytes x;
			if (unframe(f, x)) want.push_back(x);
			if (!fault && want.back() != a) c.fail("harness: codec");
		}
		auto speak = [&]() {
			for (unsigned i = 0; i < n; i++) w.ecu_bytes(at[i], raw[i], gap);
			if (fault == IOERR) { w.recv_err = DIAG_ERR_BUSERROR; w.recv_err_after = (int)c.draw(2); }
		};
		size_t sent = 0;
		w.on_send = [&](const Bytes &b) {
			sent += b.size();
			if (op == 2 && sent == keep.size() + 4) { speak(); if (fault == IOERR && w.echo) w.recv_err_after++; }
			return fault == SENDERR ? (int)DIAG_ERR_BUSERROR : 0;
		};
		c.note("op %u len=%zu n=%u fault=%d timeout=%u gap=%u", op, m.size(), n, fault, timeout, gap);
		for (unsigned i = 0; i < n; i++) c.note("  %llu us %s", (unsigned long long)at[i], hex(raw[i]).c_str());
		if (fault || (n && raw[0].size() > 12)) c.nontrivial();
		c.label("%s fault %d", op == 0 ? "send" : op == 1 ? "recv" : "request", fault);
		(void)diag_geterr();
		std::vector<iso::Got> got;
		int rv = 0;
		size_t before = lib_bytes();
		uint64_t t0 = vos::now_us;
		if (op == 0) rv = diag_l2_send(d, &msg);
		else if (op == 1) { speak(); rv = diag_l2_recv(d, timeout, iso::collect_cb, &got); }
		else {
			int e = 12345;
			struct diag_msg *r = diag_l2_request(d, &msg, &e);
			if (r) { got = iso::chain(r); diag_freemsg(r); }
			else { PBT_CHECK(c, e < 0, "failure with error value %d", e); rv = e; }
		}
		PBT_CHECK(c, !m.size() || !memcmp(heap, keep.data(), keep.size()), "the caller's message was changed");
		free(heap);
		PBT_CHECK(c, lib_bytes() == before - (keep.size() ? keep.size() : 1), "memory leaked by operation %u", op);
		PBT_CHECK(c, vos::now_us - t0 <= 12000000, "took too long");
		if (op != 1) {
			if (toolong) { PBT_CHECK(c, rv < 0 && w.tx.empty() && got.empty(), "message of %zu bytes: result %d, sent %s", m.size(), rv, hex(w.sent()).c_str()); continue; }
			if (fault == SENDERR) { PBT_CHECK(c, rv < 0 && rv != DIAG_ERR_TIMEOUT && got.empty(), "send error reported as %d", rv); continue; }
			PBT_CHECK(c, w.sent() == frame(tgt, m), "transmitted %s instead of %s", hex(w.sent()).c_str(), hex(frame(tgt, m)).c_str());
		} else PBT_CHECK(c, w.tx.empty(), "receive transmitted something");
		if (op == 0) { PBT_CHECK(c, rv == 0, "send returned %d", rv); continue; }
		if (rv) PBT_CHECK(c, got.empty(), "error %d and data", rv);
		if (fault == IOERR && w.recv_err_after < 0) { PBT_CHECK(c, rv < 0 || (want.size() && got.size() == 1 && got[0].data == want[0]), "interface error not reported"); continue; }
		if (n == 0) { PBT_CHECK(c, rv == DIAG_ERR_TIMEOUT, "silence gave %d", rv); continue; }
		if (want.empty()) { PBT_CHECK(c, rv < 0, "bad answer delivered: %s", got.size() ? hex(got[0].data).c_str() : "?"); continue; }
		PBT_CHECK(c, rv == 0 && got.size() == 1, "%zu messages delivered (result %d)", got.size(), rv);
		PBT_CHECK(c, got[0].data == want[0], "received %s instead of %s", hex(got[0].data).c_str(), hex(want[0]).c_str());
		PBT_CHECK(c, got[0].rxtime >= (t0 + at[0]) / 1000 && got[0].rxtime <= vos::now_us / 1000 && (got[0].fmt & DIAG_FMT_FRAMED), "dated %lu, flags %x", got[0].rxtime, got[0].fmt);
		if (n == 2) {
			got.clear();
			rv = diag_l2_recv(d, 3000, iso::collect_cb, &got);
			PBT_CHECK(c, rv == 0 && got.size() == 1, "second message: result %d, %zu messages", rv, got.size());
			PBT_CHECK(c, got[0].data == want[1], "second message is %s instead of %s", hex(got[0].data).c_str(), hex(want[1]).c_str());
		}
	}
	if (d) {
		w.tx.clear();
		diag_l2_StopCommunications(d);
		PBT_CHECK(c, w.tx.empty(), "stop transmitted something");
	}
	PBT_CHECK(c, diag_l2_close(&dev) == 0, "close failed");
	PBT_CHECK(c, lib_bytes() == base, "memory leaked");
}
