// LINK: vos wire
// SAE J1850: headers and CRC in both directions.
#include "iso.hpp"
using namespace pbt;
using namespace wire;
const char *pbt::prop_id = "J01";
const char *pbt::prop_rule = "1-4 operations (send / receive / request / bare CRC) on one J1850 session over each interface class, messages of 0..1030 bytes, 0-6 answer frames, "
	"some too short, corrupted or followed by an interface error; non-trivial = at least two frames, a fault or a CRC over more than 32 bytes";
unsigned pbt::quick_cases = 40000, pbt::thorough_cases = 400000;
extern "C" uint8_t dl2p_j1850_crc(uint8_t *msg_buf, int nbytes);

// SAE J1850 CRC: polynomial x^8+x^4+x^3+x^2+1, preset and complemented
static uint8_t crc8(const Bytes &b) {
	unsigned r = 0xff;
	for (uint8_t x : b) {
		r ^= x;
		for (int i = 0; i < 8; i++) r = r & 0x80 ? ((r << 1) ^ 0x1d) & 0xff : r << 1;
	}
	return (uint8_t)(r ^ 0xff);
}
static const struct { uint32_t flags; const char *name; } ifs[] = {
	{ DIAG_L1_DOESL2FRAME, "br" },
	{ DIAG_L1_DOESL2FRAME | DIAG_L1_DOESL2CKSUM, "me" },
	{ DIAG_L1_DATAONLY | DIAG_L1_AUTOSPEED | DIAG_L1_DOESP4WAIT | DIAG_L1_DOESL2FRAME | DIAG_L1_DOESL2CKSUM | DIAG_L1_DOESFULLINIT | DIAG_L1_DOESKEEPALIVE, "elm" },
	{ DIAG_L1_DOESL2FRAME | DIAG_L1_DOESL2CKSUM | DIAG_L1_STRIPSL2CKSUM | DIAG_L1_NOTTY, "sim strip" },
	{ DIAG_L1_DOESL2FRAME | DIAG_L1_NOHDRS | DIAG_L1_DATAONLY | DIAG_L1_NOTTY, "sim nohdr" },
	{ DIAG_L1_DOESL2FRAME | DIAG_L1_NOHDRS | DIAG_L1_STRIPSL2CKSUM | DIAG_L1_DOESL2CKSUM | DIAG_L1_NOTTY, "sim nohdr strip" },
	{ DIAG_L1_HALFDUPLEX, "dumb" },
};

void pbt::property(Ctx &c) {
	init_lib();
	size_t base = lib_bytes();
	Wire w; W = &w;
	struct diag_l0_device dev = make_dev();
	unsigned k = c.weighted({ 4, 3, 3, 3, 2, 3, 1 });
	w.flags = ifs[k].flags;
	w.echo = w.flags & DIAG_L1_HALFDUPLEX;
	bool frame = w.flags & DIAG_L1_DOESL2FRAME, nohdr = w.flags & DIAG_L1_NOHDRS, strip = w.flags & DIAG_L1_STRIPSL2CKSUM;
	int proto = c.chance(1, 2) ? DIAG_L1_J1850_PWM : DIAG_L1_J1850_VPW;
	uint8_t tgt = c.byte(), src = c.byte();
	PBT_CHECK(c, diag_l2_open(&dev, proto) == 0, "open failed");
	struct diag_l2_conn *d = diag_l2_StartCommunications(&dev, DIAG_L2_PROT_SAEJ1850, c.pick({ 0, (int)DIAG_L2_TYPE_MONINIT, (int)DIAG_L2_TYPE_SLOWINIT }), 0, tgt, src);
	PBT_CHECK(c, d, "session did not start");
	PBT_CHECK(c, w.tx.empty(), "start transmitted something");
	unsigned ops = c.range(1, 4);
	for (unsigned o = 0; o < ops; o++) {
		w.tx.clear(); w.rx.clear(); w.frames.clear(); w.recv_err_after = -1; w.on_send = nullptr;
		unsigned op = c.weighted({ 2, 5, 4, 1 });
		(void)diag_geterr();
		if (op == 3) {
			Bytes b = c.bytes(c.weighted({ 3, 1 }) ? c.range(1, 1024) : c.range(1, 40));
			c.label("crc");
			if (b.size() > 32) c.nontrivial();
			Bytes keep = b;
			uint8_t got = dl2p_j1850_crc(b.data(), (int)b.size());
			PBT_CHECK(c, got == crc8(keep) && b == keep, "CRC of %zu bytes is %02x instead of %02x", b.size(), got, crc8(keep));
			continue;
		}
		// request data
		Bytes m = c.bytes(c.chance(1, 8) ? c.range(200, 1030) : c.range(1, 12));
		Bytes keep = m;
		struct diag_msg msg;
		mkmsg(&msg, m);
		if (c.chance(1, 4)) msg.src = c.byte();
		if (c.chance(1, 4)) msg.dest = c.byte();
		// answers
		struct F { Bytes raw, data; uint8_t dst, src; bool ok, shrt; uint64_t t; };
		std::vector<F> fr;
		unsigned n = c.weighted({ 1, 4, 4, 2, 1, 1, 1 });
		unsigned timeout = (unsigned)c.range(10, 500);
		unsigned window = (op == 2 ? 250 : timeout) + 150;
		bool special = false;
		unsigned chatter = n && c.chance(1, 8) ? 30 : 0;
		uint64_t t = 0;
		std::vector<uint64_t> at;
		for (unsigned i = 0; i < n; i++) {
			F f;
			f.dst = c.byte(); f.src = c.byte(); f.ok = true; f.shrt = false;
			f.data = c.bytes(c.chance(1, 10) ? c.range(200, 1000) : c.range(1, 12));
			Bytes full = { c.byte(), f.dst, f.src };
			full.insert(full.end(), f.data.begin(), f.data.end());
			f.raw = nohdr ? f.data : full;
			if (!strip) f.raw.push_back(crc8(f.raw));
			if (c.chance(1, 5)) {
				special = true;
				if (c.chance(1, 2)) {      // too short to hold anything
					size_t max = (nohdr ? 0 : 3) + (strip ? 0 : 1);
					if (max) { f.raw.resize(c.range(1, max)); f.shrt = true; f.ok = false; }
				} else if (!strip) {
					f.raw[c.draw(f.raw.size())] ^= 1 + c.draw(255);
					f.ok = false;
				}
			}
			t += (uint64_t)c.range(1, window / (n + 1) ? window / (n + 1) : 1) * 1000 - 500;
			at.push_back(t);
			f.t = t;
			fr.push_back(f);
		}
		int fault = c.weighted({ 6, 1, 1 });      // none, receive error, send error
		if (op == 1 && fault == 2) fault = 0;
		if (op == 0 && fault == 1) fault = 0;
		int err = c.pick({ DIAG_ERR_GENERAL, DIAG_ERR_BUSERROR, DIAG_ERR_BADDATA });
		unsigned errat = c.range(0, n);
		uint64_t spoke = 0;
		auto speak = [&]() {
			spoke = vos::now_us;
			for (unsigned i = 0; i < n; i++) w.ecu_frame(at[i], fr[i].raw);
			// others go on talking when it is over
			for (unsigned i = 0; i < chatter; i++) w.ecu_frame((window + 300 + i * 100) * 1000ull, Bytes{ 0x48, 0x6b, 0x10, 0x41, 0x42, 0x43 });
			if (fault == 1) { w.recv_err = err; w.recv_err_after = (int)errat; }
		};
		w.on_send = [&](const Bytes &) { if (op == 2) speak(); return fault == 2 ? err : 0; };
		c.note("%s op %u n=%u fault=%d errat=%u timeout=%u msg %s", ifs[k].name, op, n, fault, errat, timeout, hex(m).c_str());
		for (unsigned i = 0; i < n; i++) c.note("  %llu us: %s%s", (unsigned long long)at[i], hex(fr[i].raw).c_str(), fr[i].ok ? "" : fr[i].shrt ? " short" : " corrupt");
		if (n >= 2 || special || fault) c.nontrivial();
		c.label("%s %s fault %d", ifs[k].name, op == 0 ? "send" : op == 1 ? "recv" : "request", fault);
		std::vector<iso::Got> got;
		int rv = 0;
		size_t before = lib_bytes();
		uint64_t t0 = vos::now_us;
		bool toolong = m.size() > 1024 - 4;
		if (op == 0) {
			rv = diag_l2_send(d, &msg);
			if (toolong) PBT_CHECK(c, rv < 0, "over-long message accepted");
			else PBT_CHECK(c, m.size() > 1000 || (rv == 0) == (fault == 0), "send returned %d", rv);
		} else if (op == 1) {
			speak();
			rv = diag_l2_recv(d, timeout, iso::collect_cb, &got);
		} else {
			int e = 12345;
			struct diag_msg *r = diag_l2_request(d, &msg, &e);
			if (r) { got = iso::chain(r); diag_freemsg(r); }
			else { PBT_CHECK(c, e < 0, "failure with error value %d", e); rv = e; }
		}
		PBT_CHECK(c, m == keep && msg.len == keep.size(), "the caller's message was changed");
		PBT_CHECK(c, vos::now_us - t0 <= (window + 350) * 1000ull, "took %llu ms", (unsigned long long)(vos::now_us - t0) / 1000);
		// what went out
		if (op != 1) {
			Bytes out;
			if (!(w.flags & DIAG_L1_DATAONLY)) {
				out = { (uint8_t)(proto == DIAG_L1_J1850_PWM ? 0x61 : 0x68), tgt, src };
				out.insert(out.end(), m.begin(), m.end());
				if (!(w.flags & DIAG_L1_DOESL2CKSUM)) out.push_back(crc8(out));
			} else out = m;
			if (w.tx.empty()) PBT_CHECK(c, rv < 0 && m.size() > 1000, "nothing transmitted, result %d", rv);
			else {
				PBT_CHECK(c, !toolong, "over-long message transmitted");
				if (fault != 2) PBT_CHECK(c, w.tx.size() == 1 || !frame, "transmitted in %zu pieces", w.tx.size());
				if (fault != 2) PBT_CHECK(c, w.sent() == out || !frame, "transmitted %s instead of %s", hex(w.sent()).c_str(), hex(out).c_str());
			}
			if (w.tx.empty() || !frame) { PBT_CHECK(c, got.empty(), "answer to nothing"); continue; }
		}
		if (op == 0) continue;
		if (!frame) { PBT_CHECK(c, rv < 0 && got.empty(), "reception on an interface that cannot frame"); continue; }
		if (rv) PBT_CHECK(c, got.empty(), "error %d and data", rv);
		if (fault == 2) { PBT_CHECK(c, rv < 0 && (op != 2 || rv != DIAG_ERR_TIMEOUT), "send error %d reported as %d", err, rv); continue; }
		bool errhit = fault == 1 && w.recv_err_after < 0;
		if (errhit) { PBT_CHECK(c, rv < 0, "interface error not reported"); continue; }
		std::vector<F> want;
		for (auto &f : fr) if (f.ok) want.push_back(f);
		size_t i = 0;
		for (auto &g : got) {
			if (g.fmt & DIAG_FMT_BADCS) continue;
			PBT_CHECK(c, i < want.size(), "message %s was never sent correctly", hex(g.data).c_str());
			PBT_CHECK(c, g.data == want[i].data, "message %zu is %s instead of %s", i, hex(g.data).c_str(), hex(want[i].data).c_str());
			if (!nohdr) PBT_CHECK(c, g.src == want[i].src && g.dest == want[i].dst, "addresses of message %zu: %02x>%02x", i, g.src, g.dest);
			PBT_CHECK(c, g.fmt & DIAG_FMT_FRAMED, "not marked as framed");
			PBT_CHECK(c, g.rxtime >= (spoke + want[i].t) / 1000 && g.rxtime <= vos::now_us / 1000, "message %zu arrived at %llu ms, is dated %lu ms", i,
				(unsigned long long)(spoke + want[i].t) / 1000, g.rxtime);
			i++;
		}
		PBT_CHECK(c, i == want.size(), "%zu of %zu good frames delivered (result %d)", i, want.size(), rv);
		if (fr.empty()) PBT_CHECK(c, rv == DIAG_ERR_TIMEOUT, "silence gave %d", rv);
		PBT_CHECK(c, lib_bytes() == before, "memory leaked by operation %u", op);
		c.label("delivered %zu", want.size());
	}
	diag_l2_StopCommunications(d);
	PBT_CHECK(c, diag_l2_close(&dev) == 0, "close failed");
	PBT_CHECK(c, lib_bytes() == base, "memory leaked");
}
