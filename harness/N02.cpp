// LINK: vos wire
// ISO 9141 requests and answers.
#include "iso.hpp"
using namespace pbt;
using namespace wire;
const char *pbt::prop_id = "N02";
const char *pbt::prop_rule = "1-4 operations (send / receive / request) on one session over every interface class, messages of 1..12 bytes, 0-6 answer frames from any ECUs with legal "
	"gaps, optionally a corrupted byte, a wrong header, a truncated frame or an interface error; non-trivial = at least two frames, or a fault";
unsigned pbt::quick_cases = 40000, pbt::thorough_cases = 400000;

void pbt::property(Ctx &c) {
	init_lib();
	size_t base = lib_bytes();
	Wire w; W = &w;
	struct diag_l0_device dev = make_dev();
	iso::If itf = iso::pick_if(c);
	w.flags = itf.flags;
	w.echo = itf.echo();
	PBT_CHECK(c, diag_l2_open(&dev, DIAG_L1_ISO9141) == 0, "open failed");
	uint8_t tgt = 0x33, src = c.chance(1, 2) ? 0xf1 : c.byte();
	bool mon = c.chance(1, 4);
	uint8_t kb = c.pick({ 0x08, 0x94 });
	w.on_ioctl = [&](unsigned cmd, void *) {
		if (cmd == DIAG_IOCTL_INITBUS) {
			if (itf.frame()) { w.ecu_frame(5000, { kb }); w.ecu_frame(10000, { kb }); }
			else { w.ecu_bytes(5000, { kb }); w.ecu_bytes(10000, { kb }); }
		}
		return 0;
	};
	w.on_send = [&](const Bytes &) { if (itf.frame()) w.ecu_frame(30000, { (uint8_t)~tgt }); else w.ecu_bytes(30000, { (uint8_t)~tgt }); return 0; };
	struct diag_l2_conn *d = diag_l2_StartCommunications(&dev, DIAG_L2_PROT_ISO9141, mon ? DIAG_L2_TYPE_MONINIT : DIAG_L2_TYPE_SLOWINIT, 10400, tgt, src);
	PBT_CHECK(c, d, "session did not start");
	w.on_ioctl = nullptr;
	unsigned ops = c.range(1, 4);
	for (unsigned o = 0; o < ops; o++) {
		w.tx.clear(); w.rx.clear(); w.frames.clear(); w.recv_err_after = -1; w.on_send = nullptr;
		unsigned op = c.weighted({ 2, 5, 5 });      // send, receive, request
		Bytes m = c.bytes(c.chance(1, 6) ? c.range(8, 12) : c.range(1, 7));
		Bytes keep = m;
		struct diag_msg msg;
		mkmsg(&msg, m);
		if (c.chance(1, 4)) msg.src = c.byte();
		if (c.chance(1, 4)) msg.dest = c.byte();
		unsigned timeout = (unsigned)c.range(30, 400);
		unsigned lim = op == 2 ? d->diag_l2_p2max : timeout;
		unsigned first_window = op == 2 ? d->diag_l2_p2max + 20u : timeout;
		unsigned inframe = std::max<int>((int)d->diag_l2_p2min - 2, (int)d->diag_l2_p1max);
		unsigned n = op == 0 ? 0 : c.weighted({ 1, 4, 4, 2, 1, 1, 1 });
		struct F { Bytes data, raw; uint8_t src; uint64_t t; };
		std::vector<F> fr;
		unsigned gap = (unsigned)c.range(0, 2) * 900;
		// windows in which a non-framing interface listens for a frame; times in us from the start of listening
		uint64_t win0 = 0, win1 = first_window * 1000ull, t = 0;
		enum { NONE, BADSUM, BADHDR, TRUNC, IOERR, SENDERR } fault = NONE;
		if (n) fault = (decltype(fault))c.weighted({ 8, 2, 1, 2, 1, 0 });
		if (op != 1 && fault == NONE && c.chance(1, 10)) fault = SENDERR;
		unsigned at = n ? c.draw(n) : 0;
		int err = c.pick({ DIAG_ERR_GENERAL, DIAG_ERR_BUSERROR, DIAG_ERR_BADDATA });
		for (unsigned i = 0; i < n; i++) {
			F f;
			f.src = c.byte();
			f.data = c.bytes(c.chance(1, 3) ? 7 : c.range(1, 7));
			if (f.data.empty()) f.data.push_back(1);
			Bytes full = { 0x48, 0x6b, f.src };
			full.insert(full.end(), f.data.begin(), f.data.end());
			f.raw = itf.nohdr() ? f.data : full;
			if (!itf.strip()) f.raw.push_back(iso::sum8(f.raw, f.raw.size()));
			if (i == at) {
				size_t h = itf.nohdr() ? 0 : 3;
				if (fault == BADSUM) { if (itf.strip()) fault = NONE; else f.raw[h + c.draw(f.raw.size() - h)] ^= 1 + c.draw(255); }
				if (fault == BADHDR) { if (itf.nohdr()) fault = NONE; else f.raw[c.draw(2)] ^= 1 + c.draw(255); }
				if (fault == TRUNC) {
					size_t min = (itf.nohdr() ? 0 : 3) + (itf.strip() ? 0 : 1);      // at most header and checksum left
					if (!min) fault = NONE; else f.raw.resize(c.range(1, min));
				}
			}
			if (itf.frame()) {
				uint64_t room = i ? (d->diag_l2_p3min + 100) * 1000ull : lim * 1000ull;
				t += c.range(0, (long)room / 1000 - 1) * 1000 + 100;
				f.t = t;
			} else {
				uint64_t span = (f.raw.size() - 1) * gap, last = (i ? win1 : std::min<uint64_t>(win1, lim * 1000ull + 15000));
				uint64_t slack = op == 2 ? 10000 : 0;   // listening may start a little after the last byte went out
				uint64_t room = last > win0 + slack + span + 2000 ? last - win0 - slack - span - 2000 : 0;
				f.t = win0 + slack + 500 + (uint64_t)c.draw(room + 1);
				if (f.raw.size() >= 11) win0 = f.t + span;
				else win0 = win1 + inframe * 1000ull;
				win1 = win0 + d->diag_l2_p3min * 1000ull;
			}
			fr.push_back(f);
		}
		uint64_t spoke = 0;
		auto speak = [&]() {
			spoke = vos::now_us;
			for (auto &f : fr) if (itf.frame()) w.ecu_frame(f.t, f.raw); else w.ecu_bytes(f.t, f.raw, gap);
			if (fault == IOERR) { w.recv_err = err; w.recv_err_after = (int)at; }
		};
		bool toolong = m.size() > 7;
		size_t outlen = itf.dataonly() ? m.size() : m.size() + 3 + (itf.addsum() ? 0 : 1), sent = 0;
		unsigned echo_reads = 0;
		(void)echo_reads;
		w.on_send = [&](const Bytes &b) {
			sent += b.size();
			if (fault == SENDERR) return err;
			if (op == 2 && sent == outlen) {
				speak();
				if (fault == IOERR && itf.echo()) w.recv_err_after++;     // the echo of the last byte is read first
			}
			return 0;
		};
		if (n >= 2 || fault) c.nontrivial();
		c.label("%s %s fault %d", itf.name, op == 0 ? "send" : op == 1 ? "recv" : "request", fault);
		c.note("%s op %u len=%zu n=%u fault=%d at=%u timeout=%u gap=%u p2min=%u p1max=%u p3min=%u", itf.name, op, m.size(), n, fault, at, timeout, gap, d->diag_l2_p2min, d->diag_l2_p1max, d->diag_l2_p3min);
		for (auto &f : fr) c.note("  %llu us %s", (unsigned long long)f.t, hex(f.raw).c_str());
		(void)diag_geterr();
		std::vector<iso::Got> got;
		int rv = 0;
		uint64_t t0 = vos::now_us;
		if (op == 0) rv = diag_l2_send(d, &msg);
		else if (op == 1) { speak(); rv = diag_l2_recv(d, timeout, iso::collect_cb, &got); }
		else {
			int e = 12345;
			struct diag_msg *r = diag_l2_request(d, &msg, &e);
			if (r) { got = iso::chain(r); diag_freemsg(r); }
			else { PBT_CHECK(c, e < 0, "failure with error value %d", e); rv = e; }
		}
		PBT_CHECK(c, m == keep && msg.len == keep.size(), "the caller's message was changed");
		PBT_CHECK(c, vos::now_us - t0 <= 4000000, "took too long");
		if (op != 1) {
			if (toolong) {
				PBT_CHECK(c, rv < 0 && w.tx.empty() && got.empty(), "over-long message: result %d, sent %s", rv, hex(w.sent()).c_str());
				continue;
			}
			if (fault == SENDERR) { PBT_CHECK(c, rv < 0 && rv != DIAG_ERR_TIMEOUT && got.empty(), "send error reported as %d", rv); continue; }
			Bytes out = m;
			if (!itf.dataonly()) {
				out = { 0x68, 0x6a, src };
				out.insert(out.end(), m.begin(), m.end());
				if (!itf.addsum()) out.push_back(iso::sum8(out, out.size()));
			}
			PBT_CHECK(c, w.sent() == out, "transmitted %s instead of %s", hex(w.sent()).c_str(), hex(out).c_str());
			if (itf.frame() || (w.flags & DIAG_L1_DOESP4WAIT)) PBT_CHECK(c, w.tx.size() == 1, "transmitted in %zu pieces", w.tx.size());
		} else PBT_CHECK(c, w.tx.empty(), "receive transmitted something");
		if (op == 0) { PBT_CHECK(c, rv == 0, "send returned %d", rv); continue; }
		if (rv) PBT_CHECK(c, got.empty(), "error %d and data", rv);
		if (fault == IOERR && w.recv_err_after < 0) { PBT_CHECK(c, rv < 0, "interface error not reported"); continue; }
		if (n == 0) { PBT_CHECK(c, rv == DIAG_ERR_TIMEOUT, "silence gave %d", rv); continue; }
		if (fault == BADHDR || fault == TRUNC) {
			for (size_t i = 0; i < got.size(); i++)
				PBT_CHECK(c, (got[i].fmt & DIAG_FMT_BADCS) || (i < fr.size() && i != at && got[i].data == fr[i].data), "bad frame delivered as valid: %s", hex(got[i].data).c_str());
			if (n == 1) PBT_CHECK(c, rv < 0, "only a bad frame, yet success");
			continue;
		}
		PBT_CHECK(c, rv == 0 && got.size() == n, "%zu messages delivered for %u frames (result %d)", got.size(), n, rv);
		for (unsigned i = 0; i < n; i++) {
			if (fault == BADSUM && i == at) { PBT_CHECK(c, got[i].fmt & DIAG_FMT_BADCS, "wrong checksum not flagged"); continue; }
			PBT_CHECK(c, !(got[i].fmt & DIAG_FMT_BADCS), "good frame flagged as bad");
			PBT_CHECK(c, got[i].fmt & DIAG_FMT_FRAMED, "message %u not marked as framed", i);
			PBT_CHECK(c, got[i].rxtime >= (spoke + fr[i].t) / 1000 && got[i].rxtime <= vos::now_us / 1000, "message %u arrived at %llu ms, is dated %lu ms", i,
				(unsigned long long)(spoke + fr[i].t) / 1000, got[i].rxtime);
			PBT_CHECK(c, got[i].data == fr[i].data, "message %u is %s instead of %s", i, hex(got[i].data).c_str(), hex(fr[i].data).c_str());
			if (!itf.nohdr()) PBT_CHECK(c, got[i].src == fr[i].src, "source of message %u: %02x", i, got[i].src);
		}
		c.label("delivered %u", n);
	}
	diag_l2_StopCommunications(d);
	PBT_CHECK(c, diag_l2_close(&dev) == 0, "close failed");
	PBT_CHECK(c, lib_bytes() == base, "memory leaked");
}
