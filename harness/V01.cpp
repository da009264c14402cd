// LINK: vos wire
// VAG / KWP1281: byte-acknowledged, counted blocks against a byte-level ECU.
#include "iso.hpp"
#include "vag.hpp"
using namespace pbt;
using namespace wire;
using namespace vag;
const char *pbt::prop_id = "V01";
const char *pbt::prop_rule = "session start (any key bytes, identification of 1-3 or ~127 blocks, faults), then 0-4 requests answered by acknowledge, refusals or telegrams of 1-4 blocks, with at most one fault "
	"kind per exchange: wrong/missing complements, repeat requests, ignored complements, lost or wrong end bytes, wrong counters, silence, interface errors; non-trivial = a fault or a telegram of two blocks or more";
unsigned pbt::quick_cases = 30000, pbt::thorough_cases = 300000;

struct Col { std::vector<Msg> m; };
static void cb(void *h, struct diag_msg *m) { for (; m; m = m->next) ((Col *)h)->m.push_back({ m->type, Bytes(m->data, m->data + m->len) }); }

void pbt::property(Ctx &c) {
	init_lib();
	size_t base = lib_bytes();
	Wire w; W = &w;
	struct diag_l0_device dev = make_dev();
	static const uint32_t fl[] = { DIAG_L1_SLOW | DIAG_L1_HALFDUPLEX, DIAG_L1_SLOW, DIAG_L1_SLOW | DIAG_L1_HALFDUPLEX | DIAG_L1_BLOCKDUPLEX,
		DIAG_L1_SLOW | DIAG_L1_DOESP4WAIT | DIAG_L1_AUTOSPEED | DIAG_L1_NOTTY | DIAG_L1_DOESL2FRAME };
	unsigned k = c.weighted({ 4, 2, 2, 2 });
	w.flags = fl[k];
	w.echo = w.flags & DIAG_L1_HALFDUPLEX;
	bool framed = k == 3;
	Ecu e(w, framed);
	e.comp_us = (unsigned)c.range(1, 40) * 1000;
	e.byte_us = (unsigned)c.range(1, 45) * 1000;
	e.block_us = (unsigned)c.range(26, 45) * 1000;
	PBT_CHECK(c, diag_l2_open(&dev, c.pick({ DIAG_L1_ISO9141, DIAG_L1_ISO14230 })) == 0, "open failed");
	size_t opened = lib_bytes();
	// --- start
	uint8_t kb1 = 0x01, kb2 = 0x8a, tgt = c.byte();
	if (c.chance(1, 6)) { kb1 = c.byte(); kb2 = c.byte(); }
	unsigned speed = c.pick({ 0u, 9600u, 10400u });
	int sfault = c.weighted({ 12, 1, 1, 1, 1, 1 });         // 1 INITBUS, 2 kb1 missing, 3 kb2 missing, 4 no identification, 5 send error
	// the identification telegram
	std::vector<Msg> id;
	unsigned nid = c.chance(1, 25) ? (unsigned)c.range(120, 132) : (unsigned)c.range(1, 3);
	for (unsigned i = 0; i < nid; i++) id.push_back({ 0xf6, c.bytes(nid > 10 ? 1 : c.range(0, 12)) });
	size_t next = 0;
	bool got_inv = false;
	unsigned sp = 0;
	auto pickfault = [&](unsigned blocks, bool req) {
		e.fault = NONE; e.count = 0; e.sent_blocks = 0;
		if (!c.chance(1, 2)) return;
		std::vector<Fault> f;
		if (framed) f = { SILENT, SHORTFRAME, NAKACK };
		else f = { IGNORE, LOSEETX, BADETX, BADSEQ, SILENT, NAKACK, SHORTBLOCK };
		if (req) { f.push_back(NAKREQ); if (!framed) { f.push_back(BADCOMP); f.push_back(NOCOMP); } }
		e.fault = c.pick(f);
		e.count = 1;
		if (e.fault == BADCOMP || e.fault == NOCOMP || e.fault == NAKREQ || e.fault == NAKACK) e.count = c.pick({ 1, 2, 3, -1 });
		if (e.fault == BADCOMP || e.fault == NOCOMP) e.wrongval = c.chance(1, 2);
		if (e.fault == IGNORE) e.count = c.pick({ 1, 2 });
		e.at_block = (int)c.draw(blocks + 1);
		e.at_byte = c.draw(64);
	};
	pickfault(nid, false);
	if (sfault) e.fault = NONE;
	if (e.fault == SILENT && e.at_block == 0) e.at_byte = e.at_byte % 3;
	bool idfails = e.fault == SILENT || e.fault == SHORTFRAME || (e.fault == NAKACK && e.count < 0);
	// before the first block the tester cannot know ...
	Fault idfault = e.fault;
	int naks = e.fault == NAKACK ? e.count : 0;
	e.on_block = [&](uint8_t type, const Bytes &d) {
		if (type != 9 || !d.empty()) e.viol("identification block answered with " + hex({ type }));
		if (naks) { if (naks > 0) naks--; e.send(0x0a, { e.tseq }); return; }
		if (next < id.size()) { auto m = id[next++]; e.send(m.type, m.data); }
		else e.send(9, {});
	};
	int inits = 0;
	struct diag_l1_initbus_args seen = {};
	auto putk = [&](uint64_t us, uint8_t b) { if (framed) w.ecu_frame(us, { b }); else w.ecu_bytes(us, { b }); };
	w.on_ioctl = [&](unsigned cmd, void *arg) -> int {
		if (cmd == DIAG_IOCTL_SETSPEED) sp = ((struct diag_serial_settings *)arg)->speed;
		if (cmd != DIAG_IOCTL_INITBUS) return 0;
		inits++;
		seen = *(struct diag_l1_initbus_args *)arg;
		if (sfault == 1) return DIAG_ERR_BUSERROR;
		vos::advance(2000000);
		if (sfault != 2) putk(10000, kb1);
		if (sfault != 3 && sfault != 2) putk(20000, kb2);
		return 0;
	};
	w.on_send = [&](const Bytes &b) {
		if (!got_inv) {
			got_inv = true;
			if (sfault == 5) return (int)DIAG_ERR_BUSERROR;
			if (b != Bytes{ (uint8_t)~kb2 }) e.viol("sent " + hex(b) + " after the key bytes");
			if (sfault != 4) { auto m = id[next++]; e.tseq = 0; e.send(m.type, m.data); }
			return 0;
		}
		e.rx(b);
		return 0;
	};
	c.note("if %u tgt=%02x kb=%02x%02x sfault=%d id blocks=%u fault=%d count=%d at %d/%zu delays %u/%u/%u", k, tgt, kb1, kb2, sfault, nid, e.fault, e.count, e.at_block, e.at_byte, e.comp_us, e.byte_us, e.block_us);
	c.label("start fault %d/%d%s", sfault, idfault, nid > 100 ? " long" : "");
	if (sfault || idfault || nid > 1) c.nontrivial();
	bool ok = !sfault && !idfails;
	(void)diag_geterr();
	uint64_t t0 = vos::now_us;
	struct diag_l2_conn *d = diag_l2_StartCommunications(&dev, DIAG_L2_PROT_VAG, 0, speed, tgt, 0xf1);
	PBT_CHECK(c, e.bad.empty(), "%s", e.bad.c_str());
	PBT_CHECK(c, !!d == ok, "start %s", d ? "succeeded" : "failed");
	PBT_CHECK(c, vos::now_us - t0 < 300000000, "took too long");
	PBT_CHECK(c, inits == 1 && seen.type == DIAG_L1_INITBUS_5BAUD && seen.addr == tgt, "wrong bus initialisation");
	if (!(w.flags & (DIAG_L1_AUTOSPEED | DIAG_L1_NOTTY))) PBT_CHECK(c, sp == (speed ? speed : 10400), "line speed %u", sp);
	if (!d) {
		PBT_CHECK(c, lib_bytes() == opened, "failed start leaks %zu bytes", lib_bytes() - opened);
		PBT_CHECK(c, diag_l2_close(&dev) == 0, "close failed");
		PBT_CHECK(c, lib_bytes() == base, "memory leaked");
		return;
	}
	PBT_CHECK(c, d->diag_l2_kb1 == kb1 && d->diag_l2_kb2 == kb2, "key bytes %02x%02x", d->diag_l2_kb1, d->diag_l2_kb2);
	auto same = [&](const std::vector<Msg> &got, const std::vector<Msg> &want) {
		PBT_CHECK(c, got.size() == want.size(), "%zu blocks instead of %zu", got.size(), want.size());
		for (size_t i = 0; i < got.size(); i++)
			PBT_CHECK(c, got[i].type == want[i].type && got[i].data == want[i].data, "block %zu is %02x %s instead of %02x %s", i, got[i].type, hex(got[i].data).c_str(), want[i].type, hex(want[i].data).c_str());
	};
	if (c.chance(1, 2)) {
		Col col;
		int rv = diag_l2_recv(d, 1000, cb, &col);
		PBT_CHECK(c, rv == 0, "identification not delivered: %d", rv);
		same(col.m, id);
	}
	unsigned ops = c.range(0, 4);
	bool broken = false;
	for (unsigned o = 0; o < ops && !broken; o++) {
		Bytes m = c.bytes(c.chance(1, 6) ? c.range(0, 300) : c.range(0, 10));
		Bytes keep = m;
		struct diag_msg msg;
		mkmsg(&msg, m);
		msg.type = c.byte();
		if (msg.type == 0x0a) msg.type = 1;
		bool toolong = m.size() > 252;
		// the answer
		std::vector<Msg> want;
		unsigned how = c.weighted({ 5, 2, 1, 1 });
		if (how == 0) for (unsigned i = c.range(1, 4); i; i--) { uint8_t t = c.byte(); if (t == 9 || t == 0x0a) t = 0xfc; want.push_back({ t, c.bytes(c.chance(1, 6) ? c.range(0, 252) : c.range(0, 12)) }); }
		if (how == 1) want.push_back({ 9, c.bytes(c.draw(2)) });
		if (how == 2) want.push_back({ 0x0a, {} });     // refusal without a counter
		if (how == 3) want.push_back({ 0x0a, { 0 } });  // refusal of something else: data filled in below
		pickfault((unsigned)want.size() - (how ? 1 : 0), true);
		if (c.chance(1, 12)) { e.fault = IOERR; }
		int naq = e.fault == NAKREQ ? e.count : 0, naa = e.fault == NAKACK && how == 0 ? e.count : 0;
		bool infinite = (e.fault == BADCOMP || e.fault == NOCOMP) && e.count < 0;
		bool fails = e.fault == SILENT || e.fault == SHORTFRAME || e.fault == IOERR || naq < 0 || naa < 0 || infinite;
		size_t nx = 0;
		unsigned reqs = 0, blocks0 = e.tester_blocks;
		uint8_t reqseq = 0;
		e.on_block = [&](uint8_t type, const Bytes &data) {
			if (nx == 0) {
				if (type != msg.type || data != keep) e.viol("request sent as " + hex({ type }) + " " + hex(data));
				reqs++;
				reqseq = e.tseq;
				if (naq) { if (naq > 0) naq--; int sb = e.sent_blocks; e.send(0x0a, { e.tseq }); e.sent_blocks = sb; return; }
			} else {
				if (type != 9 || !data.empty()) e.viol("answer block acknowledged with " + hex({ type }));
				if (naa) { if (naa > 0) naa--; int sb = e.sent_blocks; e.send(0x0a, { e.tseq }); e.sent_blocks = sb; return; }
			}
			if (nx < want.size()) {
				auto &x = want[nx++];
				if (how == 3) x.data[0] = (uint8_t)(e.tseq + 1 + 2 * (keep.size() % 100));
				e.send(x.type, x.data);
			}
			else e.send(9, {});
		};
		c.note("request type=%02x %s answer how=%u %zu blocks fault=%d count=%d at %d/%zu", msg.type, hex(m).c_str(), how, want.size(), e.fault, e.count, e.at_block, e.at_byte);
		c.label("request fault %d answer %u%s", e.fault, how, toolong ? " too long" : "");
		if (e.fault || want.size() > 1) c.nontrivial();
		if (e.fault == IOERR) { w.recv_err = DIAG_ERR_BUSERROR; w.recv_err_after = (int)c.draw(framed ? 1 : 6); }
		size_t before = lib_bytes();
		int err = 12345;
		uint64_t t = vos::now_us;
		struct diag_msg *r = diag_l2_request(d, &msg, &err);
		w.recv_err_after = -1;
		PBT_CHECK(c, m == keep && msg.len == keep.size(), "the caller's message was changed");
		PBT_CHECK(c, vos::now_us - t < 400000000, "took too long");
		if (toolong) {
			PBT_CHECK(c, !r && err < 0 && e.tester_blocks == blocks0 && reqs == 0, "message of %zu bytes not refused", m.size());
			continue;
		}
		PBT_CHECK(c, e.bad.empty(), "%s", e.bad.c_str());
		if (naq < 0) PBT_CHECK(c, reqs <= 10, "request repeated %u times", reqs);
		if (fails) {
			PBT_CHECK(c, !r && err < 0, "no complete answer, yet success");
			broken = true;
		} else {
			PBT_CHECK(c, r, "request failed: %d", err);
			Col col;
			cb(&col, r);
			diag_freemsg(r);
			same(col.m, want);
			PBT_CHECK(c, lib_bytes() <= before, "memory leaked");
		}
	}
	if (broken) {
		// anything may happen now except a crash, a hang or made-up data
		w.rx.clear(); w.frames.clear();
		w.on_send = nullptr;
		Bytes m = { 1 };
		struct diag_msg msg;
		mkmsg(&msg, m);
		msg.type = 1;
		int err = 12345;
		struct diag_msg *r = diag_l2_request(d, &msg, &err);
		PBT_CHECK(c, !r && err < 0, "answer out of nowhere");
		c.label("request after failure");
	}
	w.on_send = nullptr;
	diag_l2_StopCommunications(d);
	PBT_CHECK(c, diag_l2_close(&dev) == 0, "close failed");
	PBT_CHECK(c, lib_bytes() == base, "memory leaked: %zu bytes", lib_bytes() - base);
}
