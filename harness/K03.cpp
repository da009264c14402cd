// LINK: vos wire
// ISO 14230 requests: pending, busy, negative, positive, short and missing answers.
#include "iso.hpp"
using namespace pbt;
using namespace wire;
const char *pbt::prop_id = "K03";
const char *pbt::prop_rule = "1-3 requests on one session; per transmission the ECU answers with 0-5 'pending' then busy / positive / other negative / short negative / nothing, "
	"sometimes followed by answers of other ECUs; non-trivial = at least one pending, busy, negative or missing answer";
unsigned pbt::quick_cases = 40000, pbt::thorough_cases = 400000;

void pbt::property(Ctx &c) {
	init_lib();
	Wire w; W = &w;
	struct diag_l0_device dev = make_dev();
	iso::If itf = iso::pick_if(c);
	iso::Ecu e(w, itf);
	struct diag_l2_conn *d = iso::start14230(&dev, e, 0, 0x10, 0xf1, 0x8f);
	PBT_CHECK(c, d, "session did not start");
	unsigned rounds = c.range(1, 3);
	unsigned serial = 0;
	for (unsigned r = 0; r < rounds; r++) {
		Bytes req = c.bytes(c.range(1, 8));
		// script of the ECU: one entry per expected transmission
		enum Kind { POS, NEG, SHORTNEG, SILENT, BUSY };
		struct Step { unsigned pending; Kind kind; Bytes data; std::vector<Bytes> more; std::vector<unsigned> gaps; };
		std::vector<Step> script;
		unsigned busy = c.weighted({ 6, 2, 1, 1, 1 });          // 4 = forever
		for (unsigned i = 0; i <= (busy == 4 ? 12 : busy); i++) {
			Step s;
			s.pending = c.weighted({ 5, 2, 1, 1, 1, 1 });
			bool last = i == busy && busy != 4;
			if (!last) { s.kind = BUSY; s.data = { 0x7f, req[0], 0x21 }; }
			else {
				s.kind = (Kind)c.weighted({ 5, 3, 1, 2 });
				if (s.kind == POS) {
					s.data = c.bytes(c.range(1, 12));
					if (s.data[0] == 0x7f) s.data[0] = 0x61;
					s.data.push_back((uint8_t)++serial);
				} else if (s.kind == NEG) {
					uint8_t code = c.byte();
					if (code == 0x21 || code == 0x78) code = 0x10;
					s.data = { 0x7f, req[0], code };
					if (c.chance(1, 4)) s.data.push_back(c.byte());
				} else if (s.kind == SHORTNEG) {
					s.data = { 0x7f };
					if (c.chance(1, 2)) s.data.push_back(req[0]);
				}
				if (s.kind != SILENT && c.chance(1, 4))
					for (unsigned k = c.range(1, 2); k; k--) { Bytes b = c.bytes(c.range(1, 6)); s.more.push_back(b); }
			}
			for (unsigned k = 0; k < s.pending + 1 + s.more.size(); k++) {
				unsigned g;
				if (k == 0) g = (unsigned)c.range(25, itf.frame() ? 100 : 50);
				else if (k <= s.pending) g = (unsigned)c.range(1, itf.frame() ? 140 : 110);    // may come after the first batch was read
				else g = (unsigned)c.range(1, 45);
				s.gaps.push_back(g);
			}
			script.push_back(s);
		}
		bool any = busy || script.back().pending || script.back().kind != POS;
		if (any) c.nontrivial();
		unsigned tx0 = 0, step = 0;
		std::vector<Bytes> txs;
		uint64_t lastans = vos::now_us;
		e.on_frame = [&](const iso::Frame &f) {
			txs.push_back(f.data);
			if (step >= script.size()) return;
			const Step &s = script[step++];
			uint64_t t = 0;
			unsigned k = 0;
			auto put = [&](const Bytes &b) {
				t += (uint64_t)s.gaps[k++] * 1000;
				iso::Frame a; a.dest = 0xf1; a.src = 0x10; a.data = b;
				e.answer(t, a, 100);
				t += 100 * (b.size() + 4);
				lastans = vos::now_us + t;
			};
			for (unsigned i = 0; i < s.pending; i++) put({ 0x7f, req[0], 0x78 });
			if (s.kind == SILENT) return;
			put(s.data);
			for (auto &m : s.more) put(m);
		};
		c.note("round %u %s: req %s busy=%u", r, itf.name, hex(req).c_str(), busy);
		for (auto &s : script) { c.note("  pending %u then kind %d %s (+%zu more)", s.pending, s.kind, hex(s.data).c_str(), s.more.size()); if (busy == 4) break; }
		Bytes copy = req;
		struct diag_msg m;
		mkmsg(&m, copy);
		int err = 12345;
		(void)diag_geterr();
		struct diag_msg *res = diag_l2_request(d, &m, &err);
		uint64_t end = vos::now_us;
		e.on_frame = nullptr;
		for (auto &t : txs) PBT_CHECK(c, t == req, "transmitted %s instead of the request", hex(t).c_str());
		PBT_CHECK(c, txs.size() >= 1, "request not transmitted");
		PBT_CHECK(c, end <= lastans + 2000000, "returned %llu us after the last answer", (unsigned long long)(end - lastans));
		if (busy == 4) {
			c.label("busy forever");
			PBT_CHECK(c, txs.size() >= 2 && txs.size() <= 10, "busy ECU: request transmitted %zu times", txs.size());
			PBT_CHECK(c, !res && err < 0, "busy forever returned %p err=%d", (void *)res, err);
			w.rx.clear(); w.frames.clear();
			continue;
		}
		const Step &s = script.back();
		PBT_CHECK(c, txs.size() == busy + 1, "request transmitted %zu times, %u busy answers", txs.size(), busy);
		c.label("busy %u kind %d%s", busy, s.kind, s.pending ? " pending" : "");
		if (s.kind == SILENT) {
			PBT_CHECK(c, !res, "silence returned a message");
			PBT_CHECK(c, err == DIAG_ERR_TIMEOUT, "silence returned error %d", err);
			continue;
		}
		PBT_CHECK(c, res, "answer %s lost, err=%d", hex(s.data).c_str(), err);
		auto got = iso::chain(res);
		PBT_CHECK(c, got[0].data == s.data, "returned %s instead of %s", hex(got[0].data).c_str(), hex(s.data).c_str());
		if (s.kind == POS) PBT_CHECK(c, err == 0, "positive answer with error %d", err);
		else PBT_CHECK(c, err < 0, "negative answer without error");
		PBT_CHECK(c, got.size() == 1 + s.more.size(), "%zu messages for %zu answers", got.size(), 1 + s.more.size());
		for (size_t i = 0; i < s.more.size(); i++) PBT_CHECK(c, got[i + 1].data == s.more[i], "further answer %zu", i);
		diag_freemsg(res);
	}
	e.on_frame = nullptr;
	diag_l2_StopCommunications(d);
	PBT_CHECK(c, diag_l2_close(&dev) == 0, "close failed");
}
