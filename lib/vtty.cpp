#include "vtty.hpp"
#include "vos.hpp"
#include <algorithm>
#include <deque>
extern "C" {
#include "diag.h"
#include "diag_err.h"
#include "diag_tty.h"
}
namespace tty {
std::vector<Rec> log;
int opens;
unsigned total_opens, speed, dtr, rts;
bool write_blocks = true;
uint64_t step_us;
std::string opened_name;
std::function<void(const std::vector<uint8_t> &)> on_write;
std::function<int(Op)> fault;
static std::deque<Byte> q;
static int handle;
void feed_at(uint64_t t, const std::vector<uint8_t> &b, uint64_t gap, int tag) {
	if (!q.empty() && t < q.back().t) t = q.back().t;     // one wire: bytes keep their order
	for (uint8_t x : b) {
		q.push_back({t, x, tag});
		t += gap;
	}
}
void feed_at(uint64_t t, const std::string &s, uint64_t gap, int tag) { feed_at(t, std::vector<uint8_t>(s.begin(), s.end()), gap, tag); }
const std::deque<Byte> &peek() { return q; }
size_t pending() { return q.size(); }
uint64_t next_arrival() { return q.empty() ? ~0ull : q.front().t; }
void drop_pending() { q.clear(); }
void reset() {
	log.clear();
	q.clear();
	opens = 0;
	total_opens = 0;
	speed = dtr = rts = 0;
	write_blocks = true;
	step_us = 0;
	on_write = nullptr;
	fault = nullptr;
}
static Rec rec(Op op) {
	Rec r{};
	r.op = op;
	r.t0 = r.t1 = vos::now_us;
	return r;
}
static bool bad(Op op) { return fault && fault(op); }
static void check(void *p) {
	if (p != &handle || !opens) {
		fprintf(stderr, "Assertion: serial port used while it is not open\n");
		_Exit(79);
	}
}
}
using namespace tty;
extern "C" {
char **diag_tty_getportlist(int *n) {
	*n = 1;
	return strlist_add(NULL, "/dev/ttyS0", 0);
}
ttyp *diag_tty_open(const char *name) {
	if (bad(OPEN)) return (ttyp *)diag_pseterr(DIAG_ERR_GENERAL);
	if (opens) {
		fprintf(stderr, "Assertion: serial port opened twice\n");
		_Exit(79);
	}
	opened_name = name ? name : "";
	opens++;
	total_opens++;
	log.push_back(rec(OPEN));
	return &handle;
}
void diag_tty_close(ttyp *p) {
	if (!p) return;
	check(p);
	opens--;
	log.push_back(rec(CLOSE));
}
int diag_tty_setup(ttyp *p, const struct diag_serial_settings *s) {
	check(p);
	if (bad(SETUP)) return diag_iseterr(DIAG_ERR_GENERAL);
	Rec r = rec(SETUP);
	r.speed = s->speed;
	r.databits = s->databits;
	r.stopbits = s->stopbits;
	r.par = s->parflag;
	speed = s->speed;
	log.push_back(r);
	return 0;
}
int diag_tty_control(ttyp *p, unsigned d, unsigned r_) {
	check(p);
	if (bad(CONTROL)) return diag_iseterr(DIAG_ERR_GENERAL);
	Rec r = rec(CONTROL);
	r.dtr = dtr = !!d;
	r.rts = rts = !!r_;
	log.push_back(r);
	return 0;
}
int diag_tty_iflush(ttyp *p) {
	check(p);
	Rec r = rec(IFLUSH);
	if (bad(IFLUSH)) return diag_iseterr(DIAG_ERR_GENERAL);
	vos::advance(IFLUSH_TIMEOUT * 1000);
	while (!q.empty() && q.front().t <= vos::now_us) q.pop_front();
	r.t1 = vos::now_us;
	log.push_back(r);
	return 0;
}
ssize_t diag_tty_read(ttyp *p, void *buf, size_t count, unsigned timeout) {
	check(p);
	if (count == 0 || timeout == 0 || timeout >= MAXTIMEOUT) {      // the real one insists
		fprintf(stderr, "Assertion: reading %zu bytes from the serial port with timeout %u\n", count, timeout);
		_Exit(79);
	}
	if (bad(READ)) return diag_iseterr(DIAG_ERR_GENERAL);
	if (++vos::calls > 3000000) {
		fprintf(stderr, "Assertion: runaway: more than 3 million OS calls in one case\n");
		_Exit(79);
	}
	uint64_t end = vos::now_us + (uint64_t)timeout * 1000;
	size_t n = 0;
	for (;;) {
		while (n < count && !q.empty() && q.front().t <= vos::now_us) {
			((uint8_t *)buf)[n++] = q.front().b;
			q.pop_front();
		}
		if (n == count || vos::now_us >= end) break;
		uint64_t to = q.empty() ? end : std::min(end, q.front().t);
		if (step_us) to = std::min(to, vos::now_us + step_us);
		vos::advance_to(to);
	}
	return n ? (ssize_t)n : DIAG_ERR_TIMEOUT;
}
ssize_t diag_tty_write(ttyp *p, const void *buf, const size_t count) {
	check(p);
	if (count == 0) {
		fprintf(stderr, "Assertion: writing nothing to the serial port\n");
		_Exit(79);
	}
	if (int f = fault ? fault(WRITE) : 0) return f == 2 ? (ssize_t)count - 1 : diag_iseterr(DIAG_ERR_GENERAL);
	Rec r = rec(WRITE);
	r.data.assign((const uint8_t *)buf, (const uint8_t *)buf + count);
	r.speed = speed;
	if (write_blocks && speed) vos::advance(count * 10 * 1000000ull / speed);
	r.t1 = vos::now_us;
	log.push_back(r);
	if (on_write) on_write(r.data);
	return (ssize_t)count;
}
int diag_tty_break(ttyp *p, const unsigned ms) {
	check(p);
	if (bad(BREAK)) return diag_iseterr(DIAG_ERR_GENERAL);
	Rec r = rec(BREAK);
	r.ms = ms;
	vos::advance((uint64_t)ms * 1000);
	r.t1 = vos::now_us;
	log.push_back(r);
	return 0;
}
int diag_tty_fastbreak(ttyp *p, const unsigned ms) {
	check(p);
	if (bad(FASTBREAK)) return diag_iseterr(DIAG_ERR_GENERAL);
	Rec r = rec(FASTBREAK);
	r.ms = ms;
	vos::advance((uint64_t)ms * 1000);
	r.t1 = vos::now_us;
	log.push_back(r);
	return 0;
}
}
