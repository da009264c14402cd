// LINK: vos wire
// Links, connections and sessions: exclusive, balanced, leak-free.
#include "iso.hpp"
extern "C" {
#include "diag_l3.h"
}
using namespace pbt;
using namespace wire;
const char *pbt::prop_id = "L02";
const char *pbt::prop_rule = "histories of 3-40 open/close/start/stop/send/request/session-start/session-stop/tick operations over 1-3 interfaces and all link protocols, with "
	"open, initialisation, send and receive failures; non-trivial = at least one successful start and one refused or failed operation";
unsigned pbt::quick_cases = 40000, pbt::thorough_cases = 400000;

namespace {
struct Dev {
	Wire w;
	iso::If itf;
	struct diag_l0_device dev;
	int proto = 0;                       // model: 0 closed
	struct diag_l2_conn *conn = nullptr;
	int l2 = -1;
	bool mon = false;
	std::vector<struct diag_l3_conn *> l3;
	bool answer = true;                  // ECU alive
	int fault = 0, faulterr = 0;         // 1 ioctl, 2 send, 3 recv
	iso::Ecu *ecu = nullptr;
};
}

void pbt::property(Ctx &c) {
	init_lib();
	size_t heap0 = lib_bytes();
	unsigned nd = c.range(1, 3);
	std::vector<Dev *> devs;
	for (unsigned i = 0; i < nd; i++) {
		Dev *d = new Dev;
		d->itf = iso::pick_if(c);
		d->dev = make_dev(&d->w);
		d->ecu = new iso::Ecu(d->w, d->itf);
		auto feed = d->w.on_send;
		d->w.on_send = [d, feed](const Bytes &b) {
			if (d->fault == 2) { d->fault = 0; return d->faulterr; }
			if (d->l2 == 4 || d->l2 == 1) {       // J1850 / 9141: answer any frame with a mode-1 reply
				if (!d->answer) return 0;
				if (d->itf.frame() && d->l2 == 4) {
					Bytes r = { 0x48, 0x6b, 0x10, 0x41, 0, 0, 0, 0, 0 };
					if (!d->itf.strip()) {
						uint8_t crc = 0xff;
						for (uint8_t x : r) { crc ^= x; for (int k = 0; k < 8; k++) crc = (crc & 0x80) ? (crc << 1) ^ 0x1d : crc << 1; }
						r.push_back((uint8_t)~crc);
					}
					d->w.ecu_frame(10000, r);
				}
				return 0;
			}
			return feed(b);
		};
		d->ecu->on_frame = [d](const iso::Frame &f) {
			if (!d->answer) return;
			iso::Frame a; a.dest = f.src; a.src = f.dest;
			a.data = { (uint8_t)(f.data[0] | 0x40) };
			if (f.data[0] == 0x81) { a.data.push_back(0xef); a.data.push_back(0x8f); }
			if (f.data[0] == 1) a.data = { 0x41, 0, 0xbf, 0x9f, 0, 0 };
			d->ecu->answer(30000, a, 500);
		};
		d->w.on_ioctl = [d](unsigned cmd, void *) {
			if (cmd == DIAG_IOCTL_INITBUS && d->fault == 1) { d->fault = 0; return d->faulterr; }
			return 0;
		};
		devs.push_back(d);
	}
	static const int protos[] = { DIAG_L2_PROT_RAW, DIAG_L2_PROT_ISO14230, DIAG_L2_PROT_SAEJ1850, DIAG_L2_PROT_TEST, DIAG_L2_PROT_CAN, DIAG_L2_PROT_ISO9141, DIAG_L2_PROT_NOTUSED,
		DIAG_L2_PROT_MB2, 77, -1 };
	static const char *pn[] = { "SAEJ1979", "iso14230", "vag", "nothing", "", "ISO14230" };
	unsigned nops = c.range(3, 40);
	bool started = false, refused = false;
	for (unsigned op = 0; op < nops; op++) {
		Dev *d = devs[c.draw(nd)];
		Wire &w = d->w;
		int di = 0;
		for (unsigned i = 0; i < nd; i++) if (devs[i] == d) di = i;
		w.rx.clear(); w.frames.clear(); w.recv_err_after = -1; d->ecu->acc.clear();
		d->fault = 0;
		if (c.chance(1, 6)) {
			d->fault = c.range(1, 3);
			d->faulterr = c.pick({ DIAG_ERR_GENERAL, DIAG_ERR_BUSERROR, DIAG_ERR_INIT_NOTSUPP });
			if (d->fault == 3) { w.recv_err_after = 0; w.recv_err = d->faulterr; }
		}
		d->answer = !c.chance(1, 5);
		int o0 = w.opens, c0 = w.closes;
		int kind = c.weighted({ 5, 4, 6, 3, 3, 2, 3, 2, 2, 1 });
		switch (kind) {
		case 0: {       // open
			int p = c.pick({ (int)DIAG_L1_ISO14230, (int)DIAG_L1_ISO9141, (int)DIAG_L1_RAW, (int)DIAG_L1_J1850_VPW });
			w.open_rv = c.chance(1, 6) ? DIAG_ERR_BADIFADAPTER : 0;
			c.note("%d: open proto %d%s", di, p, w.open_rv ? " (fails)" : "");
			int rv = diag_l2_open(&d->dev, p);
			if (d->proto) {
				PBT_CHECK(c, w.opens == o0 && w.closes == c0, "interface reopened or closed");
				PBT_CHECK(c, (rv == 0) == (p == d->proto), "open with proto %d while open with %d: %d", p, d->proto, rv);
				if (rv) refused = true;
			} else if (w.open_rv) {
				PBT_CHECK(c, rv < 0, "failed open reported as %d", rv);
				refused = true;
			} else {
				PBT_CHECK(c, rv == 0 && w.opens == o0 + 1 && w.opened_proto == p, "open: rv %d, opens %d, proto %d", rv, w.opens - o0, w.opened_proto);
				d->proto = p;
			}
			w.open_rv = 0;
			break; }
		case 1: {       // close
			c.note("%d: close", di);
			int rv = diag_l2_close(&d->dev);
			if (d->conn) {
				PBT_CHECK(c, rv < 0, "closed while a connection uses it");
				PBT_CHECK(c, w.closes == c0, "interface closed under a connection");
				refused = true;
			} else {
				PBT_CHECK(c, rv == 0, "close failed: %d", rv);
				PBT_CHECK(c, w.closes == c0 + (d->proto ? 1 : 0), "%d closes", w.closes - c0);
				d->proto = 0;
			}
			break; }
		case 2: {       // start
			int l2 = protos[c.weighted({ 5, 6, 4, 2, 2, 2, 1, 1, 1, 1 })];
			unsigned fl = c.pick({ DIAG_L2_TYPE_FASTINIT, DIAG_L2_TYPE_MONINIT, DIAG_L2_TYPE_SLOWINIT, DIAG_L2_TYPE_CARBINIT });
			bool was = d->conn != nullptr;
			int old = d->l2;
			if (!was) d->l2 = l2;
			size_t h = lib_bytes(), ntx = w.tx.size(), nio = w.ioctls.size();
			c.note("%d: start l2 %d flags %u%s%s", di, l2, fl, d->answer ? "" : " mute", d->fault ? " fault" : "");
			(void)diag_geterr();
			struct diag_l2_conn *x = diag_l2_StartCommunications(&d->dev, l2, fl, 0, 0x10, 0xf1);
			if (!d->proto || was) {
				PBT_CHECK(c, !x, "second connection, or connection without a link");
				PBT_CHECK(c, w.tx.size() == ntx && w.ioctls.size() == nio, "bus touched by a refused start");
			}
			bool impl = l2 == DIAG_L2_PROT_RAW || l2 == DIAG_L2_PROT_ISO14230 || l2 == DIAG_L2_PROT_SAEJ1850 || l2 == DIAG_L2_PROT_TEST || l2 == DIAG_L2_PROT_ISO9141;
			if (!impl) PBT_CHECK(c, !x, "unknown protocol %d started", l2);
			if (d->proto && !was && !d->fault && (l2 == DIAG_L2_PROT_RAW || (l2 == DIAG_L2_PROT_ISO14230 && fl == DIAG_L2_TYPE_MONINIT) || (l2 == DIAG_L2_PROT_TEST)))
				PBT_CHECK(c, x, "start of protocol %d failed (%d)", l2, diag_geterr());
			if (!x) {
				refused = true;
				PBT_CHECK(c, diag_geterr() != 0, "failed start without an error");
				PBT_CHECK(c, lib_bytes() == h, "failed start keeps %zd bytes", (ssize_t)(lib_bytes() - h));
				if (!was) d->l2 = -1; else d->l2 = old;
			} else {
				started = true;
				c.label("started %d", l2);
				d->conn = x;
				d->mon = fl == DIAG_L2_TYPE_MONINIT;
			}
			PBT_CHECK(c, w.opens == o0 && w.closes == c0, "start opened or closed the interface");
			break; }
		case 3:         // stop
			if (!d->conn) break;
			c.note("%d: stop (%zu sessions first)", di, d->l3.size());
			for (auto *s : d->l3) diag_l3_stop(s);
			d->l3.clear();
			PBT_CHECK(c, diag_l2_StopCommunications(d->conn) == 0, "stop failed");
			d->conn = nullptr; d->l2 = -1;
			PBT_CHECK(c, w.opens == o0 && w.closes == c0, "stop opened or closed the interface");
			break;
		case 4: {       // send / request
			if (!d->conn) break;
			Bytes b = c.bytes(c.range(1, 6));
			struct diag_msg m;
			mkmsg(&m, b);
			if (c.chance(1, 2)) { c.note("%d: send", di); (void)diag_l2_send(d->conn, &m); }
			else {
				c.note("%d: request", di);
				int err = 0;
				struct diag_msg *r = diag_l2_request(d->conn, &m, &err);
				if (r) diag_freemsg(r);
			}
			break; }
		case 5: {       // tick
			uint64_t ms = c.range(0, 8000);
			c.note("tick after %llu ms", (unsigned long long)ms);
			vos::advance(ms * 1000);
			diag_l2_timer();
			diag_l3_timer();
			break; }
		case 6: {       // session start
			if (!d->conn) break;
			const char *name = pn[c.weighted({ 4, 3, 1, 1, 1, 2 })];
			c.note("%d: session %s", di, name);
			size_t h = lib_bytes();
			bool known = !strcasecmp(name, "SAEJ1979") || !strcasecmp(name, "ISO14230") || !strcasecmp(name, "VAG");
			struct diag_l3_conn *s = diag_l3_start(name, d->conn);
			if (!known) PBT_CHECK(c, !s, "unknown session protocol started");
			if (!strcasecmp(name, "ISO14230")) PBT_CHECK(c, s, "session not started");
			if (!s) { refused = true; (void)h; }
			else { d->l3.push_back(s); c.label("session %s", name); }
			break; }
		case 7:         // session stop
			if (d->l3.empty()) break;
			c.note("%d: session stop", di);
			{
				size_t i = c.draw(d->l3.size());
				(void)diag_l3_stop(d->l3[i]);
				d->l3.erase(d->l3.begin() + i);
			}
			break;
		case 8: {       // session request
			if (d->l3.empty()) break;
			Bytes b = { 1, 0 };
			struct diag_msg m;
			mkmsg(&m, b);
			int err = 0;
			c.note("%d: session request", di);
			struct diag_msg *r = diag_l3_request(d->l3[c.draw(d->l3.size())], &m, &err);
			if (r) diag_freemsg(r);
			break; }
		case 9: {       // receive
			if (!d->conn) break;
			c.note("%d: receive", di);
			std::vector<iso::Got> g;
			(void)diag_l2_recv(d->conn, 60, iso::collect_cb, &g);
			break; }
		}
		for (auto *x : devs) {
			PBT_CHECK(c, x->w.opens - x->w.closes == (x->proto ? 1 : 0), "interface open %d times, closed %d times", x->w.opens, x->w.closes);
			if (x != d) PBT_CHECK(c, x->w.is_open == (x->proto != 0), "another interface was affected");
		}
		PBT_CHECK(c, vos::lock_depth == 0, "a lock is still held after the operation");
	}
	// tear down
	for (auto *d : devs) {
		d->w.rx.clear(); d->w.frames.clear(); d->w.recv_err_after = -1; d->fault = 0;
		for (auto *s : d->l3) diag_l3_stop(s);
		if (d->conn) diag_l2_StopCommunications(d->conn);
		PBT_CHECK(c, diag_l2_close(&d->dev) == 0, "final close failed");
		PBT_CHECK(c, d->w.opens == d->w.closes && !d->w.is_open, "opens %d closes %d", d->w.opens, d->w.closes);
	}
	PBT_CHECK(c, lib_bytes() == heap0, "%zd bytes (%zu blocks) not returned", (ssize_t)(lib_bytes() - heap0), lib_blocks());
	if (started && refused) c.nontrivial();
}
