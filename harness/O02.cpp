// LINK: vtty_stub
// WRAP: clock_gettime clock_nanosleep timer_create timer_settime timer_delete select diag_l3_timer diag_l2_timer gettimeofday nanosleep setitimer
// The OS layer for unix on simulated kernel clocks and timers: clocks in any state of availability, interrupted
// sleeps, failing timers; timer expiries at any moment, also while one is still being served.
#include "pbt.hpp"
#include <atomic>
#include <cstring>
#include <errno.h>
#include <functional>
#include <map>
#include <semaphore.h>
#include <signal.h>
#include <sys/select.h>
#include <sys/time.h>
#include <thread>
#include <time.h>
#include <unistd.h>
#include <fcntl.h>
extern "C" {
#include "diag.h"
#include "diag_err.h"
#include "diag_os.h"
#include "diag_l2.h"
#include "diag_l3.h"
int __real_clock_gettime(clockid_t, struct timespec *);
int __real_clock_nanosleep(clockid_t, int, const struct timespec *, struct timespec *);
int __real_select(int, fd_set *, fd_set *, fd_set *, struct timeval *);
void __real_diag_l2_timer(void);
void __real_diag_l3_timer(void);
}
using namespace pbt;
const char *pbt::prop_id = "O02";
const char *pbt::prop_rule = "histories of library start and end, sleeps of 0 ms to an hour, clock readings, timer expiries (also during one another), console and input polls and mutex operations of two threads, over kernels with any of the usual clocks missing, "
	"failing timers, latencies and any number of interruptions; non-trivial = an interrupted sleep or a timer expiry was seen";
unsigned pbt::quick_cases = 40000, pbt::thorough_cases = 2000000;

namespace {
Ctx *C;
struct Sim {
	bool on = false;
	uint64_t now = 0;                       // ns since power on
	uint64_t real0 = 1700000000ull * 1000000000, mono0 = 0;
	bool have[12] = { };                    // clock exists
	int nserr[12] = { };                    // clock_nanosleep's answer for it
	unsigned eintr = 0, late = 0;           // interruptions (of 16); latencies up to this (us)
	uint64_t slack = 0;                     // latencies so far
	unsigned interrupted = 0, sleeps = 0;
	int create_fails = 0, settime_fails = 0;
	struct Tm { bool live = true, armed = false; clockid_t clk; uint64_t first = 0, period = 0; void (*fn)(union sigval); union sigval v; };
	std::map<uintptr_t, Tm> timers;
	uintptr_t nexttimer = 1;
	unsigned l3 = 0, l2 = 0;
	std::function<void()> in_l3, in_l2;
	int bad = 0;
	std::string err;
	bool sel_eintr = false;
	uint64_t of(clockid_t k) const { return now + (k == CLOCK_REALTIME ? real0 : k == CLOCK_BOOTTIME ? mono0 + 777 : mono0); }
	bool known(clockid_t k) const { return k >= 0 && k < 12 && have[k]; }
	void cost() { now += 200 + C->draw(1500); }
} s;
bool steady(clockid_t k) { return k == CLOCK_MONOTONIC || k == CLOCK_MONOTONIC_RAW || k == CLOCK_BOOTTIME; }
}
extern "C" {
int __wrap_clock_gettime(clockid_t k, struct timespec *t) {
	if (!s.on) return __real_clock_gettime(k, t);
	s.cost();
	if (!s.known(k)) { errno = EINVAL; return -1; }
	t->tv_sec = s.of(k) / 1000000000;
	t->tv_nsec = s.of(k) % 1000000000;
	return 0;
}
int __wrap_gettimeofday(struct timeval *tv, void *) {
	struct timespec t;
	s.cost();
	t.tv_sec = s.of(CLOCK_REALTIME) / 1000000000;
	t.tv_nsec = s.of(CLOCK_REALTIME) % 1000000000;
	tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000;
	return 0;
}
int __wrap_clock_nanosleep(clockid_t k, int flags, const struct timespec *t, struct timespec *rem) {
	if (!s.on) return __real_clock_nanosleep(k, flags, t, rem);
	s.cost();
	s.sleeps++;
	if (k < 0 || k >= 12) return EINVAL;
	if (s.nserr[k]) return s.nserr[k];
	if (t->tv_nsec < 0 || t->tv_nsec > 999999999 || t->tv_sec < 0) return EINVAL;
	uint64_t d = t->tv_sec * 1000000000ull + t->tv_nsec;
	if (flags & TIMER_ABSTIME) d = d > s.of(k) ? d - s.of(k) : 0;
	if (s.eintr && C->chance(s.eintr, 16)) {
		uint64_t part = d ? d / 1000 * C->draw(1001) : 0;
		s.now += part;
		s.interrupted++;
		if (!(flags & TIMER_ABSTIME) && rem) {
			rem->tv_sec = (d - part) / 1000000000;
			rem->tv_nsec = (d - part) % 1000000000;
		}
		return EINTR;
	}
	uint64_t l = s.late ? C->draw(s.late * 1000) : 0;
	s.slack += l;
	s.now += d + l;
	return 0;
}
int __wrap_nanosleep(const struct timespec *t, struct timespec *rem) {
	int r = __wrap_clock_nanosleep(CLOCK_MONOTONIC, 0, t, rem);
	if (r) { errno = r; return -1; }
	return 0;
}
int __wrap_setitimer(int, const struct itimerval *, struct itimerval *) { C->fail("harness: setitimer is not simulated"); return 0; }
int __wrap_timer_create(clockid_t k, struct sigevent *ev, timer_t *t) {
	if (!s.known(k) || k == CLOCK_MONOTONIC_RAW) { errno = k == CLOCK_MONOTONIC_RAW ? ENOTSUP : EINVAL; return -1; }
	if (s.create_fails) { errno = EAGAIN; return -1; }
	if (!ev || ev->sigev_notify != SIGEV_THREAD) C->fail("harness: timers of this kind are not simulated");
	Sim::Tm m;
	m.clk = k; m.fn = ev->sigev_notify_function; m.v = ev->sigev_value;
	s.timers[s.nexttimer] = m;
	*t = (timer_t)s.nexttimer++;
	return 0;
}
int __wrap_timer_settime(timer_t t, int flags, const struct itimerspec *n, struct itimerspec *) {
	auto i = s.timers.find((uintptr_t)t);
	if (i == s.timers.end() || !i->second.live) { s.err = "a timer that does not exist is set"; errno = EINVAL; return -1; }
	if (s.settime_fails) { errno = EINVAL; return -1; }
	auto ns = [](const struct timespec &x) { return x.tv_sec * 1000000000ull + x.tv_nsec; };
	if (n->it_value.tv_nsec > 999999999 || n->it_interval.tv_nsec > 999999999) { errno = EINVAL; return -1; }
	i->second.armed = ns(n->it_value) != 0;
	i->second.first = ns(n->it_value) - (flags & TIMER_ABSTIME ? s.of(i->second.clk) : 0);
	i->second.period = ns(n->it_interval);
	return 0;
}
int __wrap_timer_delete(timer_t t) {
	auto i = s.timers.find((uintptr_t)t);
	if (i == s.timers.end() || !i->second.live) { s.err = "a timer that does not exist is deleted"; errno = EINVAL; return -1; }
	i->second.live = i->second.armed = false;
	return 0;
}
int __wrap_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv) {
	if (!s.on) return __real_select(n, r, w, e, tv);
	if (s.sel_eintr) { s.sel_eintr = false; errno = EINTR; return -1; }
	if (!tv || tv->tv_sec || tv->tv_usec) C->fail("the poll of the keyboard would wait");
	return __real_select(n, r, w, e, tv);
}
void __wrap_diag_l3_timer(void) { s.l3++; if (s.in_l3) { auto f = s.in_l3; s.in_l3 = nullptr; f(); } __real_diag_l3_timer(); }
void __wrap_diag_l2_timer(void) { s.l2++; if (s.in_l2) { auto f = s.in_l2; s.in_l2 = nullptr; f(); } __real_diag_l2_timer(); }
}

namespace {
// a thread that does mutex operations on demand
struct Other {
	sem_t go, done;
	std::function<void()> f;
	std::thread t;
	Other() { sem_init(&go, 0, 0); sem_init(&done, 0, 0); t = std::thread([this] { for (;;) { sem_wait(&go); if (!f) return; f(); sem_post(&done); } }); }
	void run(std::function<void()> g) { f = g; sem_post(&go); sem_wait(&done); }
	void stop() { f = nullptr; sem_post(&go); t.join(); }
};
void mutexes(Ctx &c) {
	diag_mtx m;
	int kind = c.draw(3);
	if (kind == 0) diag_os_initmtx(&m); else if (kind == 1) diag_os_initstaticmtx(&m); else diag_os_initrecmtx(&m);
	Other o;
	unsigned held[2] = { 0, 0 };
	auto as = [&](int who, std::function<void()> f) { if (who) o.run(f); else f(); };
	unsigned n = c.range(1, 12);
	std::string tr;
	for (unsigned i = 0; i < n; i++) {
		int who = c.draw(2);
		unsigned what = c.draw(3);
		bool other = held[!who] != 0, mine = held[who] != 0;
		if (what == 0) {                // lock, where it cannot wait for ever
			if (other || (mine && kind != 2)) continue;
			as(who, [&] { diag_os_lock(&m); });
			held[who]++;
			tr += who ? 'L' : 'l';
		} else if (what == 1) {
			bool got = false;
			as(who, [&] { got = diag_os_trylock(&m); });
			bool want = !other && (!mine || kind == 2);
			tr += who ? 'T' : 't';
			PBT_CHECK(c, got == want, "trylock of a mutex of kind %d held %u times by its thread and %u by another returns %d; %s", kind, held[who], held[!who], got, tr.c_str());
			if (got) held[who]++;
		} else if (mine) {
			as(who, [&] { diag_os_unlock(&m); });
			held[who]--;
			tr += who ? 'U' : 'u';
		}
	}
	// a waiting thread gets it when it is free, not before
	if (!held[1] && held[0]) {
		std::atomic<bool> in { false };
		o.f = [&] { diag_os_lock(&m); in = true; diag_os_unlock(&m); };
		sem_post(&o.go);
		if (c.chance(1, 8)) usleep(300);
		PBT_CHECK(c, !in, "a mutex held by one thread was given to another; %s", tr.c_str());
		while (held[0]) { PBT_CHECK(c, !in, "a mutex of kind %d still held was given to another thread; %s", kind, tr.c_str()); diag_os_unlock(&m); held[0]--; }
		sem_wait(&o.done);
		PBT_CHECK(c, in, "lock returned without the mutex");
	}
	for (int w = 0; w < 2; w++) while (held[w]) { as(w, [&] { diag_os_unlock(&m); }); held[w]--; }
	diag_os_delmtx(&m);
	o.stop();
	c.label("mutexes");
}
}

void pbt::property(Ctx &c) {
	C = &c;
	// the kernel
	s.mono0 = c.pick<uint64_t>({ 1, 3600, 4294966, 4294968, 86400ull * 400 }) * 1000000000ull + c.draw(1000000000);
	s.have[CLOCK_REALTIME] = true;
	s.have[CLOCK_MONOTONIC] = true;
	s.have[CLOCK_MONOTONIC_RAW] = s.have[CLOCK_MONOTONIC] && c.chance(3, 4);
	s.have[CLOCK_BOOTTIME] = s.have[CLOCK_MONOTONIC] && c.chance(1, 2);
	for (int k = 0; k < 12; k++) s.nserr[k] = s.have[k] ? 0 : EINVAL;
	// never possible on Linux
	s.nserr[CLOCK_MONOTONIC_RAW] = s.have[CLOCK_MONOTONIC_RAW] ? ENOTSUP : EINVAL;
	s.late = c.pick({ 0, 0, 60, 900 });
	s.eintr = c.pick({ 0, 4, 13 });
	int in[2];
	if (pipe(in)) c.fail("harness: pipe");
	dup2(in[0], 0);
	s.on = true;
	bool up = false, atime = false;
	c.note("clocks: real%s%s%s; sleeps: raw %d mono %d", s.have[1] ? " mono" : "", s.have[4] ? " raw" : "", s.have[7] ? " boot" : "", s.nserr[4], s.nserr[1]);
	unsigned n = c.range(2, 14), pending = 0;
	uint64_t last_hrt = 0, last_true = 0;
	unsigned long last_ms = 0;
	auto live = [&] { unsigned k = 0; for (auto &x : s.timers) k += x.second.live; return k; };
	auto timer = [&]() -> Sim::Tm * { for (auto &x : s.timers) if (x.second.live) return &x.second; return nullptr; };
	for (unsigned st = 0; st < n; st++) {
		unsigned what = up || atime ? c.weighted({ 2, 5, 3, 4, 1, 1, 2 }) : 0;
		if (what == 0) {
			if (up && c.chance(1, 2)) {
				void (*fn)(union sigval) = timer()->fn;
				union sigval v = timer()->v;
				PBT_CHECK(c, diag_end() == 0, "diag_end() fails");
				PBT_CHECK(c, live() == 0, "the periodic timer survives the end of the library");
				up = false;
				c.label("end");
				if (c.chance(1, 3)) {           // an expiry that was under way
					unsigned l2 = s.l2, l3 = s.l3;
					fn(v);
					PBT_CHECK(c, s.l2 == l2 && s.l3 == l3, "keep-alives run after the end of the library");
				}
				c.note("end");
				continue;
			}
			s.create_fails = c.chance(1, 10); s.settime_fails = c.chance(1, 10);
			uint64_t t0 = s.now;
			int rv = diag_init();
			bool should = up || !(s.create_fails || s.settime_fails);
			c.note("init %s", should ? "" : "with a failing timer");
			PBT_CHECK(c, (rv == 0) == should, "diag_init() returns %d though timers %s", rv, should ? "work" : "fail");
			atime = true;
			if (!should) { PBT_CHECK(c, live() == 0, "a timer is left after a failed start"); up = false; c.label("failed start"); s.create_fails = s.settime_fails = 0; continue; }
			s.create_fails = s.settime_fails = 0;
			up = true;
			PBT_CHECK(c, live() == 1, "%u timers after the start", live());
			Sim::Tm *m = timer();
			PBT_CHECK(c, m->armed && m->period == ALARM_TIMEOUT * 1000000ull && m->first <= m->period, "the periodic timer is first due after %llu us, then every %llu us", (unsigned long long)m->first / 1000, (unsigned long long)m->period / 1000);
			PBT_CHECK(c, steady(m->clk) || !s.have[CLOCK_MONOTONIC], "the periodic timer runs by a clock that can be set");
			PBT_CHECK(c, s.now - t0 < 60000000000ull, "the start takes %llu s", (unsigned long long)(s.now - t0) / 1000000000);
			c.label("init");
		} else if (what == 1) {
			unsigned ms = c.weighted({ 1, 5, 3, 1 });
			ms = ms == 0 ? 0 : ms == 1 ? c.range(1, 60) : ms == 2 ? c.pick({ 999u, 1000u, 1001u, 2000u, 300u, 5000u, 2147u, 4294u, 4295u }) + c.draw(3) : c.range(1, 3600000);
			uint64_t t0 = s.now;
			unsigned i0 = s.interrupted, n0 = s.sleeps;
			s.slack = 0;
			fflush(stdout);
			c.reset_captured();
			diag_os_millisleep(ms);
			uint64_t d = s.now - t0;
			fflush(stdout);
			c.note("sleep %u: %llu us, %u interruptions", ms, (unsigned long long)d / 1000, s.interrupted - i0);
			PBT_CHECK(c, d >= ms * 1000000ull, "a sleep of %u ms ends after %llu us (%u interruptions)", ms, (unsigned long long)d / 1000, s.interrupted - i0);
			// all that may be added: the calls' own time, latencies
			uint64_t most = ms * 1000000ull + s.slack + (s.sleeps - n0 + 10) * 4000ull + 500000;
			PBT_CHECK(c, ms == 0 ? d < 500000 : d <= most, "a sleep of %u ms takes %llu us (%u interruptions, latency %llu us)", ms, (unsigned long long)d / 1000, s.interrupted - i0, (unsigned long long)s.slack / 1000);
			bool said = c.captured().find("off by") != std::string::npos;
			PBT_CHECK(c, !said || d > ms * 1000000ull + 1400000, "a sleep of %u ms that took %llu us is reported as off", ms, (unsigned long long)d / 1000);
			c.label("sleep%s", s.interrupted > i0 ? ", interrupted" : "");
			if (s.interrupted > i0) c.nontrivial();
		} else if (what == 2) {
			uint64_t a = c.chance(1, 2) ? c.draw(5000000) : c.draw(4000000000u) * 1000ull;
			s.now += a;
			uint64_t tb = s.now;
			unsigned long long h = diag_os_gethrt();
			unsigned long ms = diag_os_getms();
			uint64_t te = s.now;
			if (last_true) {
				PBT_CHECK(c, h >= last_hrt, "the clock runs backwards");
				uint64_t us = diag_os_hrtus(h - last_hrt);
				PBT_CHECK(c, us * 1000 + 20000 >= tb - last_true && us * 1000 <= te - last_true + 20000, "%llu us passed, the clock says %llu", (unsigned long long)(te - last_true) / 1000, (unsigned long long)us);
				uint64_t md = ms - last_ms;
				PBT_CHECK(c, md * 1000000 + 1020000 >= tb - last_true && md * 1000000 <= te - last_true + 1020000, "%llu ms passed, the clock says %llu", (unsigned long long)(te - last_true) / 1000000, (unsigned long long)md);
			}
			last_hrt = h; last_ms = ms; last_true = te;
			c.label("clock");
			// setting the wall clock changes nothing
			if (s.have[CLOCK_MONOTONIC] && c.chance(1, 4)) s.real0 += (int64_t)(c.draw(7200) - 3600) * 1000000000ll;
		} else if (what == 3) {
			Sim::Tm *m = timer();
			if (!m) continue;
			unsigned l2 = s.l2, l3 = s.l3;
			unsigned nested = 0;
			bool stuck = false;
			auto again = [&] {
				// expires again, in a thread of its own, while the first is being served
				unsigned a = s.l2, b = s.l3;
				std::atomic<bool> over { false };
				sem_t fin; sem_init(&fin, 0, 0);
				std::thread t([&] { m->fn(m->v); over = true; sem_post(&fin); });
				struct timespec ts; __real_clock_gettime(CLOCK_REALTIME, &ts); ts.tv_sec += 5;
				while (sem_timedwait(&fin, &ts) && errno == EINTR) {}
				stuck = !over;
				if (stuck) c.fail("an expiry of the timer waits for the one being served");
				t.join();
				nested++;
				if (s.l2 != a || s.l3 != b) s.err = "keep-alives run twice at the same time";
			};
			if (c.chance(1, 3)) s.in_l3 = again;
			if (c.chance(1, 3)) s.in_l2 = again;
			m->fn(m->v);
			PBT_CHECK(c, s.err.empty(), "%s", s.err.c_str());
			PBT_CHECK(c, s.l2 == l2 + 1 && s.l3 == l3 + 1, "the expiry of the timer runs L2's keep-alives %u times, L3's %u times", s.l2 - l2, s.l3 - l3);
			c.label("expiry%s", nested ? ", nested" : "");
			c.note("expiry, %u nested", nested);
			c.nontrivial();
		} else if (what == 4) {
			if (c.chance(1, 2) && pending < 100) { if (write(in[1], "\n", 1) == 1) pending++; }
			else if (pending) { char b; if (read(0, &b, 1) == 1) pending--; }
			if (c.chance(1, 4)) { s.sel_eintr = true; PBT_CHECK(c, !diag_os_ipending(), "an interrupted poll reports a key"); s.sel_eintr = false; }
			int rv = diag_os_ipending();
			PBT_CHECK(c, !rv == !pending, "%u bytes are waiting on stdin, diag_os_ipending() returns %d", pending, rv);
			c.label("key");
		} else if (what == 5) {
			fflush(stdout);
			c.reset_captured();
			unsigned k = c.pick({ 1u, 2u, 9u, 24u, 100u });
			bool up1 = c.chance(1, 2);
			if (up1) diag_os_cursor_up(k); else diag_os_clrtoeol();
			std::string g = c.captured(), want = up1 ? "\033[" + std::to_string(k) + "F" : "\033[K";
			std::string alt = up1 ? "\r\033[" + std::to_string(k) + "A" : "\033[0K", alt2 = up1 ? "\033[" + std::to_string(k) + "A\r" : "\033[K";
			PBT_CHECK(c, g == want || g == alt || g == alt2, "%s prints %s", up1 ? "cursor up" : "clear to end of line", hex((const uint8_t *)g.data(), g.size()).c_str());
			c.label("console");
		} else mutexes(c);
		PBT_CHECK(c, s.err.empty(), "%s", s.err.c_str());
	}
	if (up) {
		PBT_CHECK(c, diag_end() == 0, "diag_end() fails");
		PBT_CHECK(c, live() == 0, "the periodic timer survives the end of the library");
	}
	s.on = false;
}
