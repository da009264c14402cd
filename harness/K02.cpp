// LINK: vos wire
// ISO 14230 reception: exactly the valid frames on the bus, in order.
#include "iso.hpp"
#include <set>
using namespace pbt;
using namespace wire;
const char *pbt::prop_id = "K02";
const char *pbt::prop_rule = "1-3 receptions on one session, each 0-6 frames in any header form with legal gaps, optionally one bad checksum, truncated last frame, "
	"impossible header or interface error; non-trivial = at least 2 frames or a fault";
unsigned pbt::quick_cases = 40000, pbt::thorough_cases = 400000;

static iso::Frame gen_frame(Ctx &c, const iso::If &itf, size_t room, bool mon, bool watching) {
	iso::Frame f;
	f.addr = mon || c.chance(3, 4);
	f.func = f.addr && c.chance(1, 3);
	f.dest = c.byte(); f.src = c.byte();
	size_t max = 1;
	switch (c.weighted({ 6, 3, 2, 1 })) {
	case 0: max = 8; break;
	case 1: max = 63; break;
	case 2: max = 255; break;
	case 3: max = 255; break;
	}
	if (max > room) max = room ? room : 1;
	size_t n = c.range(1, max);
	if (max == 255 && c.chance(1, 2)) n = c.range(250, 255);
	f.data = c.bytes(n);
	if (f.data.empty()) f.data.push_back(0);
	f.lenbyte = n > 63 || c.chance(1, 3);
	if (watching && !f.addr && f.lenbyte) f.addr = true;
	// a byte stream starting with 00 is indistinguishable from a break in monitor mode: addressed only
	return f;
}

void pbt::property(Ctx &c) {
	init_lib();
	size_t base_heap = lib_bytes();
	Wire w; W = &w;
	struct diag_l0_device dev = make_dev();
	iso::If itf = iso::pick_if(c);
	iso::Ecu e(w, itf);
	bool mon = !itf.nohdr() && c.chance(1, 5);
	struct diag_l2_conn *d;
	if (mon) {
		diag_l2_open(&dev, DIAG_L1_ISO14230);
		d = diag_l2_StartCommunications(&dev, DIAG_L2_PROT_ISO14230, DIAG_L2_TYPE_MONINIT, 0, 0x10, 0xf1);
	} else d = iso::start14230(&dev, e, 0, 0x10, 0xf1, 0x8f);
	PBT_CHECK(c, d, "session did not start");
	c.label("if %s%s", itf.name, mon ? " monitor" : "");
	unsigned rounds = c.range(1, 3);
	bool known = false;                  // monitoring: the ECU's addresses have been seen
	for (unsigned r = 0; r < rounds; r++) {
		w.rx.clear(); w.frames.clear(); w.recv_err_after = -1;
		unsigned n = c.weighted({ 1, 5, 4, 3, 2, 1, 1 });
		std::vector<iso::Frame> fr;
		std::vector<Bytes> raw;
		std::vector<uint64_t> when;
		size_t tot = 0;
		for (unsigned i = 0; i < n; i++) {
			size_t room = tot < 900 ? 900 - tot : 0;
			fr.push_back(gen_frame(c, itf, itf.frame() ? 255 : room, mon && !known && i == 0, mon));
			raw.push_back(iso::seen(itf, fr.back()));
			tot += raw.back().size() + 8;
			if (!itf.frame() && tot > 900) break;
		}
		n = fr.size();
		enum { NONE, BADSUM, TRUNC, IMPOSSIBLE, IOERR } fault = NONE;
		size_t at = n ? c.draw(n) : 0;
		std::set<size_t> bad;
		int ioerr = c.pick({ DIAG_ERR_GENERAL, DIAG_ERR_BUSERROR, DIAG_ERR_BADDATA });
		if (n && c.chance(1, 2)) fault = (decltype(fault))c.range(1, 4);
		if (fault == BADSUM) {
			if (itf.strip()) fault = NONE;
			else {
				for (size_t i = 0; i < n; i++) {
					if (i != at && !c.chance(1, 4)) continue;
					size_t h = itf.nohdr() ? 0 : iso::header(fr[i]).size();
					size_t pos = h + c.draw(raw[i].size() - h);    // a data byte or the checksum: framing stays intact
					raw[i][pos] ^= 1 + c.draw(255);
					bad.insert(i);
				}
			}
		}
		if (fault == TRUNC) {
			at = n - 1;
			if (itf.nohdr()) {
				if (itf.strip()) fault = NONE;
				else raw[at].resize(1);         // only a checksum left
			} else raw[at].resize(1 + c.draw(raw[at].size() - 1));
		}
		if (fault == IMPOSSIBLE) {
			at = n - 1;
			if (itf.nohdr()) fault = NONE;
			else {
				raw[at] = c.pick(std::vector<Bytes>{ { 0x80, 0xf1, 0x10, 0x00 }, { 0xC0, 0x33, 0x10, 0 }, { 0x00, 0x00 }, { 0x48, 0x6b, 0x10 }, { 0x40, 1, 2 } });
				if (mon && !raw[at][0]) raw[at][0] = 0x41;
				raw[at].push_back(iso::sum8(raw[at], raw[at].size()));
				if (c.chance(1, 2)) { Bytes x = c.bytes(c.size(20)); raw[at].insert(raw[at].end(), x.begin(), x.end()); }
				if (itf.strip()) raw[at].pop_back();
			}
		}
		unsigned timeout = (unsigned)c.range(60, 600);
		uint64_t first = (uint64_t)c.range(0, (long)timeout - 1) * 1000, t = first;
		if (mon && !itf.frame() && c.chance(1, 3)) { w.put(vos::now_us + t, 0); c.label("break byte"); }
		unsigned gap = c.pick({ 960u, 0u, 5000u, 20000u });
		for (unsigned i = 0; i < n; i++) {
			e.raw(t, raw[i], gap);
			when.push_back(vos::now_us + t);
			if (itf.frame()) t += (uint64_t)c.range(0, 140) * 1000;
			else t += raw[i].size() * gap + (uint64_t)c.range(0, 49) * 1000 + 100 - (raw[i].empty() ? 0 : gap);
		}
		if (fault == IOERR) {
			w.recv_err_after = (int)c.range(0, 6);
			w.recv_err = ioerr;
		}
		c.note("%s%s round %u: %u frames fault=%d at=%zu timeout=%u gap=%u first=%llums", itf.name, mon ? " mon" : "", r, n, fault, at, timeout, gap, (unsigned long long)first / 1000);
		for (unsigned i = 0; i < n; i++) c.note("  %s", hex(raw[i]).c_str());
		if (n >= 2 || fault) c.nontrivial();
		c.label("fault %d", fault);
		// receive
		std::vector<iso::Got> got;
		(void)diag_geterr();
		uint64_t t0 = vos::now_us;
		int rv = diag_l2_recv(d, timeout, iso::collect_cb, &got);
		uint64_t dt = vos::now_us - t0;
		bool ioerr_hit = fault == IOERR && w.recv_err_after < 0;
		if (fault == IOERR && !ioerr_hit) fault = NONE;
		PBT_CHECK(c, dt <= (uint64_t)timeout * 1000 + t + 1000000, "reception took %llu us", (unsigned long long)dt);
		if (rv) PBT_CHECK(c, got.empty(), "error %d but %zu messages delivered", rv, got.size());
		if (n == 0) {
			if (fault == NONE) PBT_CHECK(c, rv == DIAG_ERR_TIMEOUT, "silence gave %d", rv);
			continue;
		}
		if (fault == IOERR) {
			PBT_CHECK(c, rv < 0, "interface error not reported");
			continue;
		}
		if (fault == TRUNC || fault == IMPOSSIBLE) {
			// a valid prefix may be delivered, the bad frame never as valid data
			for (size_t i = 0; i < got.size(); i++)
				PBT_CHECK(c, i < at ? got[i].data == fr[i].data : (got[i].fmt & DIAG_FMT_BADCS) != 0, "bad frame delivered as valid: %s", hex(got[i].data).c_str());
			if (at == 0) PBT_CHECK(c, rv < 0, "only a bad frame, yet success");
			continue;
		}
		PBT_CHECK(c, rv == 0, "reception of %u frames failed: %d", n, rv);
		PBT_CHECK(c, got.size() == n, "%zu messages delivered for %u frames", got.size(), n);
		for (unsigned i = 0; i < n; i++) {
			const iso::Got &g = got[i];
			if (bad.count(i)) {
				PBT_CHECK(c, g.fmt & DIAG_FMT_BADCS, "bad checksum not flagged");
				continue;
			}
			PBT_CHECK(c, g.rxtime >= when[i] / 1000 && g.rxtime <= vos::now_us / 1000, "message %u arrived at %llu ms, is dated %lu ms", i, (unsigned long long)when[i] / 1000, g.rxtime);
			PBT_CHECK(c, !(g.fmt & DIAG_FMT_BADCS), "good frame %u flagged as bad", i);
			PBT_CHECK(c, g.fmt & DIAG_FMT_FRAMED, "not marked framed");
			PBT_CHECK(c, g.data == fr[i].data, "message %u is %s instead of %s", i, hex(g.data).c_str(), hex(fr[i].data).c_str());
			if (!itf.nohdr()) {
				PBT_CHECK(c, !!(g.fmt & DIAG_FMT_ISO_FUNCADDR) == (fr[i].addr && fr[i].func), "addressing mode of message %u", i);
				PBT_CHECK(c, g.src == (fr[i].addr ? fr[i].src : 0) && g.dest == (fr[i].addr ? fr[i].dest : 0), "addresses of message %u: %02x>%02x", i, g.src, g.dest);
			}
		}
		known = true;
		c.label("delivered %s", n == 1 ? "1" : n <= 3 ? "2-3" : "4+");
	}
	size_t ntx = w.tx.size();
	diag_l2_StopCommunications(d);
	if (mon) PBT_CHECK(c, ntx == 0 && w.tx.empty(), "monitoring transmitted %s", hex(w.sent()).c_str());
	PBT_CHECK(c, diag_l2_close(&dev) == 0, "close failed");
	(void)base_heap;
}
