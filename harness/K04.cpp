// LINK: vos wire
// ISO 14230 session start and stop.
#include "iso.hpp"
using namespace pbt;
using namespace wire;
const char *pbt::prop_id = "K04";
const char *pbt::prop_rule = "1-3 attempts on one interface: init type, addresses, bit rate, interface class, ECU behaviour (correct, negative, other service, short, bad checksum, garbage, silent, "
	"wrong/missing key or address bytes, interface errors at each step); non-trivial = slow or fast init with the ECU or interface misbehaving, or a full start/stop";
unsigned pbt::quick_cases = 40000, pbt::thorough_cases = 400000;

void pbt::property(Ctx &c) {
	init_lib();
	Wire w; W = &w;
	struct diag_l0_device dev = make_dev();
	iso::If itf = iso::pick_if(c);
	iso::Ecu e(w, itf);
	bool full = itf.flags & DIAG_L1_DOESFULLINIT, slowinit = itf.flags & DIAG_L1_DOESSLOWINIT;
	PBT_CHECK(c, diag_l2_open(&dev, DIAG_L1_ISO14230) == 0, "open failed");
	(void)diag_l2_close(&dev);
	PBT_CHECK(c, diag_l2_open(&dev, DIAG_L1_ISO14230) == 0, "reopen failed");
	unsigned rounds = c.range(1, 3);
	for (unsigned r = 0; r < rounds; r++) {
		unsigned type = c.pick({ DIAG_L2_TYPE_FASTINIT, DIAG_L2_TYPE_SLOWINIT, DIAG_L2_TYPE_FASTINIT, DIAG_L2_TYPE_SLOWINIT, DIAG_L2_TYPE_FASTINIT, DIAG_L2_TYPE_SLOWINIT, DIAG_L2_TYPE_MONINIT, DIAG_L2_TYPE_CARBINIT, 7 });
		bool func = c.chance(1, 2);
		uint8_t target = c.byte(), source = c.byte(), kb1 = c.byte(), kb2 = c.chance(1, 4) ? c.byte() : 0x8f;
		unsigned rate = c.pick({ 0u, 10400u, 9600u, 4800u });
		enum { GOOD, NEGATIVE, OTHER, SHORT, BADSUM, GARBAGE, SILENT, E_SPEED, E_BUS, E_SEND, E_RECV, NKINDS } k =
			c.chance(2, 5) ? GOOD : (decltype(k))c.range(1, NKINDS - 1);
		if (k == BADSUM && (itf.strip() || itf.nohdr())) k = GOOD;
		int ioerr = c.pick({ DIAG_ERR_GENERAL, DIAG_ERR_BUSERROR, DIAG_ERR_INIT_NOTSUPP });
		unsigned variant = c.draw(4);
		unsigned sflags = type | (func ? DIAG_L2_TYPE_FUNCADDR : 0) | (c.chance(1, 4) ? DIAG_L2_IDLE_J1978 : 0);
		uint8_t x = 1 + c.draw(255);
		Bytes garbage = c.bytes(c.range(1, 12));
		bool late = c.chance(1, 4);                         // something still on the bus after the handshake
		w.tx.clear(); w.ioctls.clear(); w.log.clear(); w.rx.clear(); w.frames.clear(); w.recv_err_after = -1;
		e.rx.clear(); e.acc.clear(); e.bad = false;
		Bytes latebytes = c.bytes(c.range(1, 40));
		uint64_t lateat = c.range(150, 400) * 1000;
		unsigned lategap = c.pick({ 1000u, 5000u, 20000u });
		size_t nsent = 0;
		e.on_frame = nullptr;
		iso::Frame resp; resp.dest = source; resp.src = func && c.chance(1, 2) ? c.byte() : target;
		if (type == DIAG_L2_TYPE_FASTINIT) {
			if (k == GOOD || k == BADSUM) { resp.data = { 0xC1, kb1, kb2 }; if (c.chance(1, 6)) resp.data.push_back(c.byte()); }
			if (k == NEGATIVE) resp.data = { 0x7f, 0x81, c.byte() };
			if (k == NEGATIVE && variant == 0) resp.data.resize(c.range(1, 2));
			if (k == OTHER) { resp.data = { 0x41, kb1, kb2 }; }
			if (k == SHORT) { resp.data = { 0xC1, kb1 }; resp.data.resize(1 + (variant & 1)); }
			e.on_frame = [&](const iso::Frame &) {
				if (resp.data.size()) {
					Bytes b = iso::seen(itf, resp);
					if (k == BADSUM) b.back() ^= x;
					e.raw(30000, b);
				} else if (k == GARBAGE) e.raw(30000, garbage);
				if (late && !itf.frame()) e.raw(30000 + lateat, latebytes, lategap);
			};
			w.on_send = [&](const Bytes &b) { if (k == E_SEND && nsent++ == 0) return ioerr; e.feed(b); return 0; };
			if (k == E_RECV) { w.recv_err = ioerr; w.recv_err_after = (itf.echo() ? 5 : 0) + (int)(variant & 1); if (!itf.addsum() && itf.echo()) {} }
		} else if (type == DIAG_L2_TYPE_SLOWINIT) {
			w.on_send = [&](const Bytes &b) {
				if (k == E_SEND) return ioerr;
				nsent++;
				if (k == SILENT || k == SHORT) return 0;
				Bytes a = { (uint8_t)~target };
				if (k == OTHER) a[0] ^= x;
				if (nsent == 1) e.raw(30000, a);
				return 0;
			};
		} else w.on_send = [&](const Bytes &b) { nsent++; return 0; };
		w.on_ioctl = [&](unsigned cmd, void *) {
			if (cmd == DIAG_IOCTL_SETSPEED && k == E_SPEED) return ioerr;
			if (cmd == DIAG_IOCTL_INITBUS) {
				if (k == E_BUS) return ioerr;
				if (type == DIAG_L2_TYPE_SLOWINIT && !full) {
					Bytes kb = { kb1, kb2 };
					if (k == NEGATIVE) kb.resize(1);
					if (k == GARBAGE) kb.clear();
					if (kb.size()) e.raw(20000, kb);
				}
			}
			return 0;
		};
		c.note("round %u %s type=%u func=%d tgt=%02x src=%02x kb=%02x%02x k=%d variant=%u", r, itf.name, type, func, target, source, kb1, kb2, k, variant);
		size_t heap0 = lib_bytes();
		(void)diag_geterr();
		uint64_t t0 = vos::now_us;
		struct diag_l2_conn *d = diag_l2_StartCommunications(&dev, DIAG_L2_PROT_ISO14230, sflags, rate, target, source);
		int err = diag_geterr();
		uint64_t dt = vos::now_us - t0;
		PBT_CHECK(c, dt < 20000000, "initialisation took %llu us", (unsigned long long)dt);
		// what must have happened
		unsigned nbus = 0, nspeed = 0;
		struct diag_l1_initbus_args ib; memset(&ib, 0, sizeof ib);
		struct diag_serial_settings ss; memset(&ss, 0, sizeof ss);
		for (auto &i : w.ioctls) {
			if (i.cmd == DIAG_IOCTL_INITBUS) {
				nbus++;
				memcpy(&ib, i.arg.data(), sizeof ib);
				PBT_CHECK(c, i.t >= t0 + 299000, "bus initialised after %llu us of quiet", (unsigned long long)(i.t - t0));
			}
			if (i.cmd == DIAG_IOCTL_SETSPEED) { nspeed++; memcpy(&ss, i.arg.data(), sizeof ss); }
		}
		bool autospeed = itf.flags & (DIAG_L1_AUTOSPEED | DIAG_L1_NOTTY);
		if (!autospeed) {
			PBT_CHECK(c, nspeed >= 1, "speed never set");
			PBT_CHECK(c, ss.speed == (rate ? rate : 10400), "speed set to %u", ss.speed);
		}
		bool speedfail = k == E_SPEED && !autospeed;
		bool ok;
		bool active = type == DIAG_L2_TYPE_FASTINIT || type == DIAG_L2_TYPE_SLOWINIT;
		bool either = false;
		if (!active) ok = type == DIAG_L2_TYPE_MONINIT && !speedfail;
		else if (speedfail || k == E_BUS) ok = false;
		else if (full) ok = true;
		else if (type == DIAG_L2_TYPE_FASTINIT) {
			ok = k == GOOD || k == E_SPEED;
			if (k == E_SPEED) ok = false;           // interface without speed setting: ECU stays silent in this script
			if (k == E_RECV) either = true;         // judged below
			if (k == GARBAGE) either = true;        // random bytes may happen to be an answer
		} else {
			ok = k == GOOD || k == SILENT || k == OTHER || k == SHORT || k == BADSUM || k == E_SPEED || k == E_SEND || k == E_RECV;
			if (!slowinit && (k == SILENT || k == OTHER || k == SHORT || k == E_SEND)) ok = false;
		}
		if (either) { c.label("either %s", d ? "ok" : "fail"); }
		else PBT_CHECK(c, !!d == ok, "start %s, should %s (err %d)", d ? "succeeded" : "failed", ok ? "succeed" : "fail", err);
		c.label("type %u kind %d -> %s", type, k, d ? "ok" : "fail");
		if (d ? active : (active && !speedfail)) c.nontrivial();
		if (active && !speedfail) {
			PBT_CHECK(c, nbus == 1, "%u bus initialisations", nbus);
			PBT_CHECK(c, ib.type == (type == DIAG_L2_TYPE_FASTINIT ? DIAG_L1_INITBUS_FAST : DIAG_L1_INITBUS_5BAUD) && ib.addr == target, "init type %d address %02x", (int)ib.type, ib.addr);
			PBT_CHECK(c, ib.testerid == source && !!ib.physaddr == !func, "initialisation with tester %02x phys %d", ib.testerid, ib.physaddr);
		} else PBT_CHECK(c, nbus == 0, "bus initialised");
		if (full || !active || k == E_BUS || speedfail) PBT_CHECK(c, w.tx.empty(), "transmitted %s", hex(w.sent()).c_str());
		else if (type == DIAG_L2_TYPE_FASTINIT) {
			if (k != E_SEND) {
				PBT_CHECK(c, e.rx.size() == 1 && !e.bad, "start request: %s", hex(w.sent()).c_str());
				const iso::Frame &f = e.rx[0];
				PBT_CHECK(c, f.data == Bytes{ 0x81 }, "start request carries %s", hex(f.data).c_str());
				if (!itf.dataonly())
					PBT_CHECK(c, f.addr && f.func == func && f.dest == target && f.src == source, "start request header %02x>%02x func %d", f.src, f.dest, f.func);
			}
		} else {
			bool asks = !slowinit && k != NEGATIVE && k != GARBAGE && k != E_RECV;
			if (asks) PBT_CHECK(c, w.sent() == Bytes{ (uint8_t)~kb2 }, "handshake sent %s", hex(w.sent()).c_str());
			else if (k != E_RECV) PBT_CHECK(c, w.tx.empty(), "transmitted %s", hex(w.sent()).c_str());
		}
		if (!d) {
			PBT_CHECK(c, err != 0, "failure without an error");
			PBT_CHECK(c, lib_bytes() == heap0, "failed start leaks %zd bytes", (ssize_t)(lib_bytes() - heap0));
			PBT_CHECK(c, w.is_open, "interface closed behind the caller's back");
			continue;
		}
		if (!either && active && !full) {
			struct diag_l2_data dd;
			PBT_CHECK(c, diag_l2_ioctl(d, DIAG_IOCTL_GET_L2_DATA, &dd) == 0, "no link data");
			uint8_t want1 = type == DIAG_L2_TYPE_SLOWINIT ? (kb1 & 0x7f) : kb1;
			PBT_CHECK(c, dd.kb1 == want1 && dd.kb2 == kb2, "key bytes %02x %02x, ECU sent %02x %02x", dd.kb1, dd.kb2, kb1, kb2);
			if (type == DIAG_L2_TYPE_FASTINIT && !itf.nohdr()) PBT_CHECK(c, dd.physaddr == resp.src, "ECU address %02x, it answered from %02x", dd.physaddr, resp.src);
		}
		if (active && !full && !itf.frame()) PBT_CHECK(c, vos::now_us >= w.arrived + 24000, "session started %llu us after a byte on the bus", (unsigned long long)(vos::now_us - w.arrived));
		if (active && !itf.frame()) PBT_CHECK(c, w.rx.empty() || w.rx.front().t > vos::now_us, "bytes of the handshake left for the session");
		// stop
		w.rx.clear();
		w.tx.clear(); w.recv_err_after = -1;
		e.rx.clear(); e.acc.clear(); e.bad = false;
		bool refuse = c.chance(1, 3), mute = c.chance(1, 4);
		e.on_frame = [&](const iso::Frame &) {
			if (mute) return;
			iso::Frame a; a.dest = source; a.src = target; a.data = { 0xC2 };
			if (refuse) a.data = { 0x7f, 0x82, 0x10 };
			e.answer(30000, a);
		};
		w.on_send = [&](const Bytes &b) { e.feed(b); return 0; };
		w.on_ioctl = nullptr;
		PBT_CHECK(c, diag_l2_StopCommunications(d) == 0, "stop failed");
		if (!active) PBT_CHECK(c, w.tx.empty(), "monitor mode transmitted %s", hex(w.sent()).c_str());
		else PBT_CHECK(c, e.rx.size() == 1 && !e.bad && e.rx[0].data == Bytes{ 0x82 }, "stop request: %s", hex(w.sent()).c_str());
		PBT_CHECK(c, lib_bytes() == heap0, "session leaks %zd bytes", (ssize_t)(lib_bytes() - heap0));
	}
	PBT_CHECK(c, diag_l2_close(&dev) == 0, "close failed");
	PBT_CHECK(c, !w.is_open && w.opens == 2 && w.closes == 2, "opens %d closes %d", w.opens, w.closes);
}
