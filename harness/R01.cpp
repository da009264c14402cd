// LINK: vos wire
// RAW sessions: bytes pass through unchanged in both directions.
#include "iso.hpp"
using namespace pbt;
using namespace wire;
const char *pbt::prop_id = "R01";
const char *pbt::prop_rule = "1-4 operations (send / receive / request) on one raw session over every interface class, messages and answers of 1..1024 bytes, "
	"interface errors and silence injected; non-trivial = an answer or message longer than 16 bytes, or a fault";
unsigned pbt::quick_cases = 40000, pbt::thorough_cases = 400000;

void pbt::property(Ctx &c) {
	init_lib();
	size_t base = lib_bytes();
	Wire w; W = &w;
	struct diag_l0_device dev = make_dev();
	iso::If itf = iso::pick_if(c);
	w.flags = itf.flags;
	w.echo = itf.echo();
	int proto = c.pick({ DIAG_L1_RAW, DIAG_L1_ISO9141, DIAG_L1_ISO14230, DIAG_L1_J1850_VPW });
	PBT_CHECK(c, diag_l2_open(&dev, proto) == 0, "open failed");
	unsigned speed = c.pick({ 9600u, 10400u, 4800u, 115200u });
	struct diag_l2_conn *d = diag_l2_StartCommunications(&dev, DIAG_L2_PROT_RAW, 0, speed, c.byte(), c.byte());
	PBT_CHECK(c, d, "raw session did not start");
	PBT_CHECK(c, w.tx.empty(), "raw start transmitted something");
	if (!(itf.flags & (DIAG_L1_AUTOSPEED | DIAG_L1_NOTTY))) {
		bool set = false;
		for (auto &i : w.ioctls)
			if (i.cmd == DIAG_IOCTL_SETSPEED && i.arg.size() == sizeof(struct diag_serial_settings) &&
				((struct diag_serial_settings *)i.arg.data())->speed == speed) set = true;
		PBT_CHECK(c, set, "speed %u not set", speed);
	}
	unsigned ops = c.range(1, 4);
	for (unsigned o = 0; o < ops; o++) {
		w.tx.clear(); w.rx.clear(); w.frames.clear(); w.recv_err_after = -1; w.on_send = nullptr;
		enum { SEND, RECV, REQ } op = (decltype(op))c.draw(3);
		size_t n = c.weighted({ 5, 1, 1 }) == 0 ? c.range(1, 40) : c.range(200, 300);
		if (c.chance(1, 12)) n = c.range(1000, 1024);
		Bytes m = c.bytes(n);
		Bytes ans = c.bytes(c.weighted({ 6, 2, 1 }) == 0 ? c.range(1, 40) : c.range(200, 1024));
		int fault = c.weighted({ 4, 1, 1, 1 });           // none, silence, receive error, send error
		int err = c.pick({ DIAG_ERR_GENERAL, DIAG_ERR_BUSERROR, DIAG_ERR_BADDATA, DIAG_ERR_INCDATA });
		if (op == SEND && fault && fault != 3) fault = 0;
		if (op == RECV && fault == 3) fault = 0;
		unsigned timeout = (unsigned)c.range(20, 2000);
		unsigned limit = op == REQ ? 1000 : timeout;
		// the whole answer arrives well inside the time the tester listens
		uint64_t first = (uint64_t)c.range(0, (long)limit / 4) * 1000;
		unsigned gap = itf.frame() ? 0 : (unsigned)c.range(0, (long)(limit * 500ul / ans.size()));
		auto speak = [&]() {
			if (fault == 1) return;
			if (fault == 2) { w.recv_err = err; w.recv_err_after = 0; return; }
			if (itf.frame()) w.ecu_frame(first, ans);
			else w.ecu_bytes(first, ans, gap);
		};
		Bytes keep = m;
		struct diag_msg msg;
		mkmsg(&msg, m);
		size_t sent_upto = 0;
		w.on_send = [&](const Bytes &b) {
			sent_upto += b.size();
			if (fault == 3) return err;
			if (op == REQ && sent_upto == keep.size()) { if (itf.echo() && fault == 2) { /* the echo is read first */ w.recv_err = err; w.recv_err_after = 1; } else speak(); }
			return 0;
		};
		c.note("%s op %d len=%zu ans=%zu fault=%d timeout=%u", itf.name, op, n, ans.size(), fault, timeout);
		c.label("%s fault %d", op == SEND ? "send" : op == RECV ? "recv" : "request", fault);
		if (fault || (op != SEND && ans.size() > 16) || (op != RECV && n > 16)) c.nontrivial();
		c.label("answer %s", op == SEND || fault ? "-" : ans.size() > 255 ? ">255" : "<=255");
		(void)diag_geterr();
		size_t before = lib_bytes();
		uint64_t t0 = vos::now_us;
		if (op == SEND) {
			int rv = diag_l2_send(d, &msg);
			PBT_CHECK(c, (rv == 0) == (fault == 0), "send returned %d", rv);
		} else if (op == RECV) {
			speak();
			std::vector<iso::Got> got;
			int rv = diag_l2_recv(d, timeout, iso::collect_cb, &got);
			if (fault == 0) {
				PBT_CHECK(c, rv == 0, "receive returned %d", rv);
				PBT_CHECK(c, got.size() == 1, "%zu messages delivered", got.size());
				PBT_CHECK(c, got[0].rxtime >= t0 / 1000 && got[0].rxtime <= vos::now_us / 1000, "dated %lu", got[0].rxtime);
				PBT_CHECK(c, got[0].data == ans, "received %s instead of %s", hex(got[0].data).c_str(), hex(ans).c_str());
			} else {
				PBT_CHECK(c, got.empty(), "data delivered");
				PBT_CHECK(c, rv == (fault == 1 ? DIAG_ERR_TIMEOUT : err), "receive returned %d", rv);
			}
			PBT_CHECK(c, vos::now_us - t0 <= timeout * 1000ull + 1000000, "took too long");
		} else {
			int e = 12345;
			struct diag_msg *r = diag_l2_request(d, &msg, &e);
			if (fault == 0) {
				PBT_CHECK(c, r, "request failed with %d", e);
				PBT_CHECK(c, r->len == ans.size(), "answer of %u bytes instead of %zu", r->len, ans.size());
				PBT_CHECK(c, !memcmp(r->data, ans.data(), ans.size()), "answer is %s instead of %s", hex(Bytes(r->data, r->data + r->len)).c_str(), hex(ans).c_str());
				PBT_CHECK(c, !r->next, "extra message");
				PBT_CHECK(c, r->rxtime >= t0 / 1000 && r->rxtime <= vos::now_us / 1000, "dated %lu", r->rxtime);
				diag_freemsg(r);
			} else {
				PBT_CHECK(c, !r, "answer without data");
				if (fault == 1) PBT_CHECK(c, e == DIAG_ERR_TIMEOUT, "silence reported as %d", e);
				else PBT_CHECK(c, e < 0 && e != DIAG_ERR_TIMEOUT, "error %d reported as %d", err, e);
			}
			PBT_CHECK(c, vos::now_us - t0 <= 3000000 + n * 10000, "took too long");
		}
		PBT_CHECK(c, m == keep && msg.len == keep.size(), "the caller's message was changed");
		if (op != RECV && fault != 3) PBT_CHECK(c, w.sent() == keep, "transmitted %s instead of %s", hex(w.sent()).c_str(), hex(keep).c_str());
		if (op == RECV) PBT_CHECK(c, w.tx.empty(), "receive transmitted something");
		PBT_CHECK(c, lib_bytes() == before, "memory leaked by operation %d", op);
		w.echo = itf.echo();
	}
	w.tx.clear();
	diag_l2_StopCommunications(d);
	PBT_CHECK(c, w.tx.empty(), "raw stop transmitted something");
	PBT_CHECK(c, diag_l2_close(&dev) == 0, "close failed");
	PBT_CHECK(c, lib_bytes() == base, "memory leaked");
}
