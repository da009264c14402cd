// LINK: vos wire
// ISO 14230 transmission: one legal frame per message, or an error and silence.
#include "iso.hpp"
using namespace pbt;
using namespace wire;
const char *pbt::prop_id = "K01";
const char *pbt::prop_rule = "session with random key byte 1, addresses, addressing mode and interface class; 1-3 messages of 0..300 (rarely up to 4200) "
	"random bytes with random per-message addresses; non-trivial = some message of 2 or more bytes";
unsigned pbt::quick_cases = 40000, pbt::thorough_cases = 400000;

void pbt::property(Ctx &c) {
	init_lib();
	Wire w; W = &w;
	struct diag_l0_device dev = make_dev();
	iso::If itf = iso::pick_if(c);
	iso::Ecu e(w, itf);
	bool func = c.chance(1, 2);
	uint8_t target = c.byte(), source = c.byte();
	uint8_t kb1 = 0x80 | c.draw(16) | (c.draw(8) << 4);
	bool full = itf.flags & DIAG_L1_DOESFULLINIT;
	struct diag_l2_conn *d = iso::start14230(&dev, e, func ? DIAG_L2_TYPE_FUNCADDR : 0, target, source, kb1);
	PBT_CHECK(c, d, "session did not start (%s)", itf.name);
	bool known = !full;     // a full-init interface reports no key bytes
	bool kfmt = known && (kb1 & 1), klen = known && (kb1 & 2), kshort = known && (kb1 & 4), klong = known && (kb1 & 8);
	unsigned n = c.range(1, 3);
	for (unsigned i = 0; i < n; i++) {
		size_t len;
		switch (c.weighted({ 6, 4, 3, 2, 2 })) {
		case 0: len = c.range(1, 20); break;
		case 1: len = c.range(55, 70); break;
		case 2: len = c.range(71, 255); break;
		case 3: len = c.range(250, 300); break;
		default: len = c.chance(1, 3) ? 0 : c.pick({ 1015, 1020, 1023, 1024, 1025, 2000, 4100, 4200 }); break;
		}
		Bytes m = c.bytes(len);
		uint8_t dst = c.chance(1, 2) ? c.byte() : 0, src = c.chance(1, 2) ? c.byte() : 0;
		if (len >= 2) c.nontrivial();
		c.note("%s kb1=%02x func=%d len=%zu dest=%02x src=%02x", itf.name, kb1, func, len, dst, src);
		uint8_t *heap = (uint8_t *)malloc(len ? len : 1);
		if (len) memcpy(heap, m.data(), len);
		struct diag_msg msg;
		memset(&msg, 0, sizeof msg);
		msg.len = len; msg.data = heap; msg.dest = dst; msg.src = src;
		w.tx.clear(); e.rx.clear(); e.acc.clear(); e.bad = false;
		(void)diag_geterr();
		int rv = diag_l2_send(d, &msg);
		PBT_CHECK(c, !len || !memcmp(heap, m.data(), len), "caller's data modified");
		free(heap);
		if (itf.dataonly()) {
			c.label("dataonly");
			if (len == 0 || len > 1024) { PBT_CHECK(c, rv < 0 && w.sent().empty(), "length %zu: rv=%d, %zu bytes sent", len, rv, w.sent().size()); continue; }
			if (len > 255) { if (rv) PBT_CHECK(c, w.sent().empty(), "refused but sent"); continue; }
			PBT_CHECK(c, rv == 0, "send refused: %d", rv);
			PBT_CHECK(c, w.sent() == m, "sent %s for %s", hex(w.sent()).c_str(), hex(m).c_str());
			continue;
		}
		bool fits = len >= 1 && len <= 255 && (len < 64 || klen);
		c.label("%s len %s", fits ? "fits" : "refused", len == 0 ? "0" : len < 64 ? "<64" : len <= 255 ? "64..255" : ">255");
		if (!fits) {
			PBT_CHECK(c, rv < 0, "message of %zu bytes accepted (kb1=%02x)", len, kb1);
			PBT_CHECK(c, w.sent().empty(), "%zu bytes transmitted for a refused message", w.sent().size());
			PBT_CHECK(c, diag_geterr() != 0, "refusal not reported");
			continue;
		}
		PBT_CHECK(c, rv == 0, "send of %zu bytes failed: %d (kb1=%02x)", len, rv, kb1);
		PBT_CHECK(c, !e.bad && e.rx.size() == 1 && e.acc.empty(), "not exactly one legal frame: %s", hex(w.sent()).c_str());
		const iso::Frame &f = e.rx[0];
		PBT_CHECK(c, f.data == m, "frame carries %s instead of %s", hex(f.data).c_str(), hex(m).c_str());
		if (f.addr) {
			PBT_CHECK(c, klong || !kshort, "address header used, ECU only takes short headers");
			PBT_CHECK(c, f.func == func, "wrong addressing mode");
			PBT_CHECK(c, f.dest == (dst ? dst : target), "target %02x", f.dest);
			PBT_CHECK(c, f.src == (src ? src : source), "source %02x", f.src);
		} else PBT_CHECK(c, kshort, "short header used, ECU did not offer it");
		if (f.lenbyte) PBT_CHECK(c, klen, "length byte used, ECU did not offer it");
		else PBT_CHECK(c, kfmt || !klen, "length in format byte, ECU only takes a length byte");
		c.label("%s%s%s", f.addr ? "addr" : "short", f.lenbyte ? "+lenbyte" : "", f.func ? "+func" : "");
	}
}
