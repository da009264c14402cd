// LINK: vos wire
// The periodic timer runs in a thread of its own: schedules of that thread and the tester's operations.
// One of the two runs at a time; they are switched at every OS call (clock, sleep, lock, unlock), every wait for the
// vehicle, and whenever the one that runs sleeps or blocks.
#include "sess.hpp"
#include <memory>
#include <semaphore.h>
#include <thread>
extern "C" {
#include "diag_l3.h"
}
using namespace pbt;
using namespace wire;
using namespace sess;
const char *pbt::prop_id = "L04";
const char *pbt::prop_rule = "1-2 simultaneous connections of any protocol over any suitable interface, some with a session on top, and 3-16 steps of pauses, requests, sends followed by receptions, interface flushes, session ends, stops and new starts, "
	"while the periodic timer's thread runs 0-many times, switched at any OS call or wait of either thread; non-trivial = the timer ran during an operation and a keep-alive was sent";
unsigned pbt::quick_cases = 20000, pbt::thorough_cases = 300000;

namespace {
Ctx *C;
enum St { IDLE, READY, SLEEP, BLOCKED };
struct Sched {
	sem_t sem[2];
	int cur = 0;                     // 0 the tester, 1 the timer
	St st[2] = { READY, IDLE };
	uint64_t wake[2] = { 0, 0 };
	bool armed = false;              // in an operation: the timer may fire
	unsigned left = 0;               // scheduling points until the next decision
	unsigned ticks = 0, inside = 0;
	bool ticked_inside = false;
	std::string trace;
	void to(int o) {
		int me = cur;
		cur = o;
		sem_post(&sem[o]);
		sem_wait(&sem[me]);
	}
	void point() {
		if (left) { left--; return; }
		int o = !cur;
		left = C->weighted({ 6, 3, 1 });
		left = left == 0 ? C->draw(6) : left == 1 ? C->draw(40) : C->draw(300);
		if (cur == 0 && st[1] == IDLE && armed) { st[1] = READY; ticks++; ticked_inside = true; trace += '!'; to(1); return; }
		if (st[o] == READY) { trace += cur ? '<' : '>'; to(o); }
	}
	void sleep(uint64_t us) {
		int me = cur, o = !me;
		uint64_t end = vos::now_us + us;
		for (;;) {
			if (st[o] == READY || (st[o] == SLEEP && wake[o] < end)) {
				if (st[o] == SLEEP) { vos::now_us = std::max(vos::now_us, wake[o]); st[o] = READY; }
				st[me] = SLEEP;
				wake[me] = end;
				to(o);
				st[me] = READY;
				if (vos::now_us >= end) return;
				continue;
			}
			vos::now_us = end;
			return;
		}
	}
	void blocked() {
		int me = cur, o = !me;
		if (st[o] == IDLE || st[o] == BLOCKED) C->fail("deadlock of the timer and the tester");
		if (st[o] == SLEEP) { vos::now_us = std::max(vos::now_us, wake[o]); st[o] = READY; }
		st[me] = BLOCKED;
		to(o);
		st[me] = READY;
	}
	void unlocked() { if (st[!cur] == BLOCKED) st[!cur] = READY; }
	void timer() {
		for (;;) {
			sem_wait(&sem[1]);
			diag_l3_timer();
			diag_l2_timer();
			st[1] = IDLE;
			trace += '.';
			// back to the tester, which may sleep or wait for a lock
			cur = 0;
			if (st[0] == BLOCKED) st[0] = READY;
			sem_post(&sem[0]);
		}
	}
	// outside operations: let a timer run end, or do a whole one
	void finish() {
		while (st[1] != IDLE) {
			if (st[1] == SLEEP) { vos::now_us = std::max(vos::now_us, wake[1]); st[1] = READY; }
			if (st[1] == BLOCKED) C->fail("the timer waits for a lock that nobody holds");
			to(1);
		}
	}
} *S;
struct Conn {
	Sess s;
	struct diag_l3_conn *l3 = nullptr;
	std::string l3n;
	bool open = true, keeps = false, stopping = false;
	unsigned interval = 3333;
	uint64_t fresh = 0;                 // end of the last successful operation
	bool sent = false;                  // between a send and its receive
	uint64_t spoke = 0;                 // the tester's last message to the vehicle
	unsigned serial = 0;
	std::vector<Bytes> wanted;          // requests of the tester, not heard yet
	unsigned kas = 0;
	uint64_t last_ka = 0;
	Conn(P p, iso::If i) : s(p, i) {}
};
bool is_keepalive(Conn &k, const Heard &h) {
	switch (k.s.p) {
	case P14230: return h.data == Bytes{ 1, 0 } || h.data == Bytes{ 0x3e };
	case PD2: return h.data == Bytes{ 0xa1 };
	case PMB1: return h.data == Bytes{ 0x50, 1 };
	case PVAG: return h.type == 9;
	default: return h.data == Bytes{ 1, 0 };
	}
}
std::vector<Say> reply(Conn &k, const Heard &h) {
	Sess &s = k.s;
	if (S->cur == 1) {
		if (!is_keepalive(k, h)) C->fail("%s: the timer's thread sends %s", pname[s.p], hex(h.raw).c_str());
		k.kas++;
		k.last_ka = vos::now_us;
		uint64_t t = vos::now_us;
		// other connections' keep-alives took so long, between a send and its receive, that this one has become idle
		if (k.sent && t - k.spoke >= (k.interval - 20) * 1000ull) C->discard();
		if (k.spoke && t - k.spoke < (k.interval - 20) * 1000ull && s.p != PVAG) C->fail("%s: keep-alive %llu ms after a request; %s", pname[s.p], (unsigned long long)(t - k.spoke) / 1000, S->trace.c_str());
	} else if (!(s.p == PVAG && h.type == 9) && !k.stopping) {
		if (k.wanted.empty() || h.data != k.wanted[0]) C->fail("%s: the vehicle received %s from the tester instead of %s; %s", pname[s.p], hex(h.data).c_str(), k.wanted.empty() ? "nothing" : hex(k.wanted[0]).c_str(), S->trace.c_str());
		k.wanted.erase(k.wanted.begin());
		k.spoke = vos::now_us;
	}
	Bytes d;
	if (s.p == PVAG) {
		if (h.type == 9) return { { 20000, { 9 }, 0 } };
		d = { 0xfc };
		d.insert(d.end(), h.data.begin() + 1, h.data.end());
		return { { 20000, d, 0 } };
	}
	// an answer still under way: somebody did not wait for it
	if (!s.w.rx.empty() && s.w.rx.back().t > vos::now_us) C->fail("%s: %s is sent while an answer is being given; %s", pname[s.p], hex(h.raw).c_str(), S->trace.c_str());
	if (s.p == PRAW) d = { 0x99 }; else d = { (uint8_t)(h.data[0] | 0x40) };
	d.insert(d.end(), h.data.begin() + (s.p == PRAW ? 0 : 1), h.data.end());
	for (int i = 0; i < 3 && d.size() < 6; i++) d.push_back(0x11 * i);
	return { { (uint64_t)C->pick({ 30000, 30000, 26000, 40000 }), d, 0 } };
}
struct Rx { std::vector<Bytes> m; };
void rcv(void *h, struct diag_msg *m) { for (; m; m = m->next) ((Rx *)h)->m.push_back(Bytes(m->data, m->data + m->len)); }
}

void pbt::property(Ctx &c) {
	init_lib();
	C = &c;
	size_t base = lib_bytes();
	auto *sc = S = new Sched;            // the thread outlives this function
	sem_init(&sc->sem[0], 0, 0);
	sem_init(&sc->sem[1], 0, 0);
	std::thread([sc] { sc->timer(); }).detach();
	vos::on_call = [] { if (S->armed || S->cur == 1) S->point(); };
	vos::on_sleep = [](uint64_t us) { S->sleep(us); };
	vos::on_blocked = [] { S->blocked(); };
	vos::on_unlock = [] { S->unlocked(); };
	std::vector<std::unique_ptr<Conn>> v;
	bool ka = false;
	auto check = [&]() {
		for (auto &k : v) {
			std::string t = k->s.trouble();
			PBT_CHECK(c, t.empty(), "%s: %s; %s", pname[k->s.p], t.c_str(), sc->trace.c_str());
		}
	};
	auto begin = [&]() {
		sc->armed = c.chance(3, 4);
		sc->left = c.weighted({ 3, 3, 1 });
		sc->left = sc->left == 0 ? c.draw(8) : sc->left == 1 ? c.draw(60) : c.draw(400);
		sc->trace += '[';
	};
	uint64_t ended = 0;
	auto end = [&](bool full) {
		sc->armed = false;
		ended = vos::now_us;
		sc->trace += ']';
		if (full) { sc->finish(); check(); }
	};
	auto add = [&]() {
		P p = (P)c.weighted({ 5, 2, 2, 4, 3, 4, 1 });
		iso::If itf = Sess::pick_itf(c, p);
		if (p == PRAW) itf.flags = (itf.flags | DIAG_L1_DOESP4WAIT) & ~DIAG_L1_HALFDUPLEX;       // one transmission per message
		v.emplace_back(new Conn(p, itf));
		Conn &k = *v.back();
		Sess &s = k.s;
		bool more = v.size() > 1;
		s.idle1978 = p == P14230 && c.chance(1, 3);
		if (more) begin();
		bool ok = s.start(c, c.byte());
		if (more) end(false);
		k.fresh = vos::now_us;
		if (!ok) c.fail("harness: %s over %s did not start", pname[p], s.itf.name);
		if (p == PVAG) k.interval = 500;
		if (p == PMB1) k.interval = 666;
		s.answer = [&k](const Heard &h) { return reply(k, h); };
		bool own = s.w.flags & DIAG_L1_DOESKEEPALIVE;
		k.keeps = (p == P14230 || p == PD2 || p == PMB1 || p == PVAG) && !own;
		if (more && c.chance(1, 2)) { sc->finish(); check(); }
		if ((p == P14230 || p == P9141 || p == PJ1850) && c.chance(2, 3)) {
			k.l3n = p == P14230 && c.chance(1, 3) ? "ISO14230" : "SAEJ1979";
			if (k.l3n == "SAEJ1979") k.wanted.push_back({ 1, 0 });
			begin();
			k.l3 = diag_l3_start(k.l3n.c_str(), s.d);
			end(false);
			PBT_CHECK(c, k.l3, "%s session over %s did not start; %s", k.l3n.c_str(), pname[p], sc->trace.c_str());
			PBT_CHECK(c, k.wanted.empty(), "%s session did not ask for anything", k.l3n.c_str());
			k.fresh = ended;
			if (k.l3n == "SAEJ1979" && p != P14230 && !own) { k.keeps = true; k.interval = 3500; }
			if (c.chance(1, 2)) { sc->finish(); check(); }
		}
		c.note("connection %zu: %s over %s flags %x %s", v.size(), pname[p], s.itf.name, s.w.flags, k.l3n.c_str());
		c.label("%s %s", pname[p], k.l3n.c_str());
	};
	add();
	if (c.chance(1, 3)) add();
	unsigned steps = c.range(3, 16);
	for (unsigned st = 0; st < steps; st++) {
		std::vector<size_t> alive;
		for (size_t i = 0; i < v.size(); i++) if (v[i]->open) alive.push_back(i);
		unsigned what = c.weighted({ 4, 8, 3, 2, 1, 1, 1 });
		if (what == 0 || alive.empty()) {
			// a pause; the timer may run
			sc->finish();            // no thread is kept from running for long
			unsigned ms = c.pick({ 480u, 3300u, 640u, 3470u, 100u, 1000u, 5000u, 497u, 3330u, 661u, 3497u }) + c.draw(20);
			sc->trace += "w" + std::to_string(ms);
			vos::advance(ms * 1000ull);
			if (c.chance(1, 4)) {
				sc->finish();
				uint64_t t = vos::now_us;
				sc->trace += '!';
				sc->st[1] = READY;
				sc->left = 100000;
				std::vector<unsigned> k0;
				for (auto &k : v) k0.push_back(k->kas);
				sc->to(1);
				sc->finish();
				for (size_t i = 0; i < v.size(); i++) {
					Conn &k = *v[i];
					uint64_t last = std::max(k.fresh, k.last_ka + 1500000);
					if (k.open && k.keeps && k.fresh && t > last + (k.interval + 20) * 1000ull) PBT_CHECK(c, k.kas > k0[i], "%s: no keep-alive after %llu ms; %s", pname[k.s.p], (unsigned long long)(t - last) / 1000, sc->trace.c_str());
				}
				check();
			}
			continue;
		}
		Conn &k = *v[alive[c.draw(alive.size())]];
		Sess &s = k.s;
		s.acc.clear();
		if (what >= 4) {
			if (what == 6) {
				if (v.size() < 3) { sc->trace += 'n'; add(); }
				continue;
			}
			if (what == 4 && !k.l3) continue;
			sc->trace += what == 4 ? 'e' : 'x';
			k.stopping = true;
			if (k.l3) { begin(); diag_l3_stop(k.l3); end(c.chance(1, 2)); k.l3 = nullptr; }
			if (what == 5) {
				begin();
				diag_l2_StopCommunications(s.d);
				k.open = false;
				size_t n = s.w.tx.size();
				PBT_CHECK(c, diag_l2_close(&s.dev) == 0, "close failed");
				end(c.chance(1, 2));
				PBT_CHECK(c, s.w.tx.size() == n && !s.w.is_open, "traffic on a closed connection");
				k.keeps = false;
			} else {
				k.stopping = false;
				bool own = s.w.flags & DIAG_L1_DOESKEEPALIVE;
				k.keeps = (s.p == P14230) && !own;
				k.interval = 3333;
			}
			c.label(what == 4 ? "end of session" : "stop");
			continue;
		}
		Bytes m = { c.pick<uint8_t>({ 0x21, 0x22, 0xa5, 2 }), (uint8_t)(0x80 + ++k.serial) };
		struct diag_msg msg;
		Bytes mm = m;
		if (s.p == PVAG) { mm = { (uint8_t)(0x80 + k.serial) }; }
		mkmsg(&msg, mm);
		if (s.p == PVAG) { msg.type = 5; m = { 5, mm[0] }; if (what == 2) what = 1; }
		if (what == 3) {
			sc->trace += 'f';
			begin();
			diag_l2_ioctl(s.d, DIAG_IOCTL_IFLUSH, NULL);
			end(c.chance(1, 2));
			continue;
		}
		k.wanted.push_back(m);
		s.expect = 2;
		Rx r;
		int rv = 0, e = 0;
		unsigned ka0 = k.kas, tick0 = sc->ticks;
		sc->trace += what == 1 ? 'r' : 's';
		begin();
		if (what == 1) {
			struct diag_msg *x = k.l3 ? diag_l3_request(k.l3, &msg, &e) : diag_l2_request(s.d, &msg, &e);
			rv = x ? 0 : e;
			rcv(&r, x);
			if (x) diag_freemsg(x);
		} else {
			k.sent = true;
			rv = k.l3 ? diag_l3_send(k.l3, &msg) : diag_l2_send(s.d, &msg);
			if (!rv) rv = k.l3 ? diag_l3_recv(k.l3, 300, rcv, &r) : diag_l2_recv(s.d, 300, rcv, &r);
		}
		k.sent = false;
		end(false);
		std::string got;
		for (auto &x : r.m) got += " " + hex(x);
		c.label("%s %s%s", what == 1 ? "request" : "send, receive", pname[s.p], k.l3 ? " session" : "");
		PBT_CHECK(c, k.wanted.empty(), "%s: the request did not reach the vehicle; %s", pname[s.p], sc->trace.c_str());
		PBT_CHECK(c, rv == 0, "%s over %s: %s fails (%d) while the timer runs; %s", pname[s.p], s.itf.name, what == 1 ? "request" : "send and receive", rv, sc->trace.c_str());
		Bytes want;
		if (s.p == PVAG) want = { m[1] };
		else { want = { (uint8_t)(m[0] | 0x40), m[1], 0, 0x11, 0x22 }; if (s.p == PRAW) want = { 0x99, m[0], m[1], 0, 0x11, 0x22 }; }
		bool ok = !r.m.empty() && r.m[0].size() >= want.size() && std::equal(want.begin(), want.end(), r.m[0].begin());
		PBT_CHECK(c, ok && (r.m.size() == 1 || s.p == PVAG), "%s over %s: answered %s, received%s while the timer runs; %s", pname[s.p], s.itf.name, hex(want).c_str(), got.c_str(), sc->trace.c_str());
		k.fresh = ended;
		if (k.kas > ka0 && sc->ticks > tick0) { ka = true; c.label("keep-alive during an operation on %s", pname[s.p]); }
		if (c.chance(1, 2)) { sc->finish(); check(); }
	}
	for (auto &k : v) if (k->open) {
		k->stopping = true;
		begin();
		if (k->l3) diag_l3_stop(k->l3);
		diag_l2_StopCommunications(k->s.d);
		end(c.chance(1, 2));
		PBT_CHECK(c, diag_l2_close(&k->s.dev) == 0, "close failed");
	}
	sc->finish();
	check();
	PBT_CHECK(c, lib_bytes() == base, "memory leaked: %ld; %s", (long)(lib_bytes() - base), sc->trace.c_str());
	for (auto &k : v) if (k->kas) c.label("keep-alive %s", pname[k->s.p]);
	for (auto &k : v) if (k->kas && sc->ticked_inside) c.nontrivial();
	c.note("%s", sc->trace.substr(0, 400).c_str());
	(void)ka;
}
