// LINK: vos wire
// L1 transmission: every byte goes out once, in order, echoes verified.
#include "wire.hpp"
using namespace pbt;
using namespace wire;
const char *pbt::prop_id = "L01";
const char *pbt::prop_rule = "random message (0..1030 bytes), inter-byte delay, interface flags and echo behaviour "
	"(clean, corrupted/missing/short echo at a position, L0 send error at a call); non-trivial = at least 2 bytes, or an injected fault";
unsigned pbt::quick_cases = 60000, pbt::thorough_cases = 600000;

void pbt::property(Ctx &c) {
	init_lib();
	Wire w; W = &w;
	struct diag_l0_device dev = make_dev();
	// interface class
	bool half = c.chance(1, 2), block = false, framing = false, p4wait = false;
	block = half && c.chance(1, 2);
	framing = c.chance(1, 6);
	p4wait = c.chance(1, 6);
	w.flags = (half ? DIAG_L1_HALFDUPLEX : 0) | (block ? DIAG_L1_BLOCKDUPLEX : 0) |
		(framing ? DIAG_L1_DOESL2FRAME : 0) | (p4wait ? DIAG_L1_DOESP4WAIT : 0);
	unsigned p4 = c.chance(1, 2) ? (unsigned)(c.chance(1, 4) ? c.range(1, 300) : c.range(1, 20)) : 0;
	size_t n = c.chance(1, 10) ? c.range(1000, 1030) : c.size(64);
	Bytes m = c.bytes(n);
	bool whole = (p4 == 0 && !half) || framing || p4wait || (p4 == 0 && block);
	bool expects_echo = whole ? block : half;
	// fault
	enum { NONE, BADECHO, MISSING, SENDERR } fault = NONE;
	size_t at = 0;
	uint8_t x = 0;
	if (n) {
		switch (c.weighted({ 3, 2, 1, 1 })) {
		case 1: fault = BADECHO; break;
		case 2: fault = MISSING; break;
		case 3: fault = SENDERR; break;
		}
		at = c.draw(n);
		x = 1 + c.draw(255);
	}
	int serr = c.pick({ DIAG_ERR_GENERAL, DIAG_ERR_BUSERROR, DIAG_ERR_TIMEOUT, DIAG_ERR_INCDATA });
	size_t sentsofar = 0;
	unsigned echo_us = c.chance(1, 3) ? 960 : 0;       // on the bus the echo of a block takes its time
	uint64_t echo_lag = block && whole && echo_us ? c.range(0, 280) * 1000 : 0;
	bool sawfault = false;
	// echo comes back only when the medium is half duplex; smart interfaces that
	// frame/space themselves but do not ask for block echo removal swallow it.
	w.on_send = [&](const Bytes &b) {
		if (fault == SENDERR && sentsofar + b.size() > at) { sawfault = true; return serr; }
		Bytes e = b;
		if (expects_echo) {
			if (fault == BADECHO && sentsofar + b.size() > at && sentsofar <= at) { e[at - sentsofar] ^= x; sawfault = true; }
			if (fault == MISSING && sentsofar + b.size() > at && sentsofar <= at) { e.erase(e.begin() + (at - sentsofar)); sawfault = true; }
			if (framing) { if (!e.empty()) w.ecu_frame(500 + echo_lag + (block ? echo_us * e.size() : 0), e); }
			else if (block && whole) for (size_t i = 0; i < e.size(); i++) w.put(vos::now_us + 200 + echo_lag + i * echo_us, e[i]);
			else for (size_t i = 0; i < e.size(); i++) w.put(vos::now_us + 200, e[i]);
		}
		sentsofar += b.size();
		return 0;
	};
	c.note("flags=%#x p4=%u len=%zu fault=%d at=%zu", w.flags, p4, n, fault, at);
	if (n >= 2 || fault) c.nontrivial();
	c.label("%s%s%s", whole ? "block" : "bytewise", expects_echo ? "+echo" : "", p4 ? "+p4" : "");
	c.label("fault %d", fault);
	// heap copy so any over-read is seen
	uint8_t *data = (uint8_t *)malloc(n ? n : 1);
	if (n) memcpy(data, m.data(), n);
	uint64_t t0 = vos::now_us;
	int rv = diag_l1_send(&dev, data, n, p4);
	if (n) PBT_CHECK(c, !memcmp(data, m.data(), n), "caller's message modified");
	if (n > MAXRBUF) {
		PBT_CHECK(c, rv < 0, "over-long message accepted (rv=%d)", rv);
		PBT_CHECK(c, w.tx.empty(), "over-long message partly transmitted");
		c.label("too long");
		return;
	}
	if (n == 0) {
		PBT_CHECK(c, w.sent().empty(), "bytes sent for an empty message");
		return;
	}
	Bytes out = w.sent();
	if (!sawfault) {
		PBT_CHECK(c, rv == 0, "clean send failed rv=%d", rv);
		PBT_CHECK(c, out == m, "transmitted %s instead of %s", hex(out).c_str(), hex(m).c_str());
		if (whole) PBT_CHECK(c, w.tx.size() == 1, "message split into %zu writes", w.tx.size());
		else {
			PBT_CHECK(c, w.tx.size() == n, "bytes not sent one by one: %zu writes", w.tx.size());
			for (size_t i = 1; i < w.tx.size(); i++)
				PBT_CHECK(c, w.tx[i].t - w.tx[i - 1].t >= (uint64_t)p4 * 1000, "inter-byte gap %llu us < %u ms",
					(unsigned long long)(w.tx[i].t - w.tx[i - 1].t), p4);
			PBT_CHECK(c, vos::now_us - t0 <= (uint64_t)n * (p4 * 1000 + 1200), "send took too long");
		}
		PBT_CHECK(c, w.rx.empty() && w.frames.empty(), "echo bytes left in the input (%zu)", w.rx.size() + w.frames.size());
	} else {
		PBT_CHECK(c, rv < 0, "fault %d not reported", fault);
		if (fault == SENDERR) PBT_CHECK(c, rv == serr, "send error %d reported as %d", serr, rv);
		if (fault == BADECHO) PBT_CHECK(c, rv == DIAG_ERR_BUSERROR, "bad echo reported as %d", rv);
		// nothing but a prefix of the message was transmitted, and nothing after the faulty byte's unit
		PBT_CHECK(c, out.size() <= n && std::equal(out.begin(), out.end(), m.begin()), "not a prefix: %s", hex(out).c_str());
		if (!whole) PBT_CHECK(c, out.size() == at + 1, "kept transmitting after the fault: %zu bytes, fault at %zu", out.size(), at);
		else PBT_CHECK(c, w.tx.size() == 1, "retransmitted");
	}
	PBT_CHECK(c, diag_geterr() == rv, "error not latched");
}
