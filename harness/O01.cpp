// LINK: vos
// WRAP: open open64 close fcntl fcntl64 ioctl read write select poll opendir tcgetattr tcsetattr tcdrain tcflush __read_chk
// The serial port layer for unix, on a pseudo terminal (line discipline of the real kernel) dressed up as a
// serial port: modem lines, breaks, speeds, transmission times and failures are simulated, in virtual time.
#include "pbt.hpp"
#include "vos.hpp"
#include <algorithm>
#include <cstdarg>
#include <cstring>
#include <deque>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <functional>
#include <linux/serial.h>
#include <memory>
#include <poll.h>
#include <set>
#include <sys/select.h>
#include <sys/stat.h>
#include <unistd.h>
#include <asm/termbits.h>
#include <asm/ioctls.h>
extern "C" {
#include "diag.h"
#include "diag_err.h"
#include "diag_l0.h"
#include "diag_tty.h"
int __real_open(const char *, int, ...);
int __real_close(int);
int __real_fcntl(int, int, ...);
int __real_ioctl(int, unsigned long, ...);
ssize_t __real_read(int, void *, size_t);
ssize_t __real_write(int, const void *, size_t);
int __real_select(int, fd_set *, fd_set *, fd_set *, struct timeval *);
int __real_poll(struct pollfd *, nfds_t, int);
DIR *__real_opendir(const char *);
}
#ifndef TIOCM_DTR
#define TIOCM_DTR 2
#define TIOCM_RTS 4
#endif
#ifndef TIOCM_OUT1
#define TIOCM_OUT1 0x2000
#define TIOCM_OUT2 0x4000
#endif
using namespace pbt;
const char *pbt::prop_id = "O01";
const char *pbt::prop_rule = "histories of open / settings / modem lines / transmission / reception / flushing / breaks / close on a serial port in any initial state, with bytes of all values arriving at any time, "
	"partial transfers, interrupted and failing system calls, and lists of the ports of generated device directories; non-trivial = at least one byte was received or transmitted";
unsigned pbt::quick_cases = 30000, pbt::thorough_cases = 600000;

namespace {
typedef std::string S;
struct Ev { const char *what; uint64_t t; };
struct Sim {
	bool on = false;
	int master = -1, slave = -1;
	std::string name;
	std::set<int> fds;                 // the ones the code under test has open
	struct termios2 k;                 // as a real driver would hold them
	int modem;
	bool serial_works;
	struct serial_struct ss;
	bool brk;
	std::vector<Ev> brks;
	std::deque<std::pair<uint64_t, uint8_t>> due;    // to arrive
	size_t fed, taken;
	Bytes out, got;                    // transmitted, and taken off the other end
	uint64_t txdone;
	bool echo;                         // half duplex line
	bool blocked;                      // a read would have blocked for ever
	int fail;                          // counts down over calls that may fail
	unsigned failed;
	bool lasterr_eof, hangup;
	unsigned eintr;                    // chance in 16 that a call is interrupted
	unsigned interrupted;
	unsigned partial;                  // chance in 16 that a transfer is partial
	unsigned stall;
	std::string map;                   // where /dev is
	Ctx *c;
} s;
uint64_t bittime() { return 1000000ull / std::max(1u, s.k.c_ospeed); }
unsigned framebits() {
	static const unsigned n[] = { 5, 6, 7, 8 };
	return 1 + n[(s.k.c_cflag & CSIZE) >> 4] + (s.k.c_cflag & CSTOPB ? 2 : 1) + (s.k.c_cflag & PARENB ? 1 : 0);
}
void deliver() {
	while (!s.due.empty() && s.due.front().first <= vos::now_us) {
		uint8_t b[256];
		size_t n = 0;
		while (n < sizeof b && !s.due.empty() && s.due.front().first <= vos::now_us) {
			b[n++] = s.due.front().second;
			s.due.pop_front();
		}
		if (__real_write(s.master, b, n) == (ssize_t)n) s.fed += n;
	}
}
bool readable(int wait) {
	struct pollfd p = { s.slave, POLLIN, 0 };
	return __real_poll(&p, 1, wait) == 1 && (p.revents & (POLLIN | POLLHUP));
}
bool ready() {
	deliver();
	if (s.hangup) return true;
	return readable(0) || (s.fed > s.taken && readable(200));
}
bool may_fail() {
	if (s.fail < 0) return false;
	if (s.fail-- > 0) return false;
	s.fail = -1;
	s.failed++;
	return true;
}
bool interrupted() {
	if (!s.eintr || !s.c->chance(s.eintr, 16)) return false;
	s.interrupted++;
	return true;
}
void drain() {
	size_t want = s.out.size();
	for (int i = 0; i < 200; i++) {
		uint8_t b[4096];
		ssize_t n = __real_read(s.master, b, sizeof b);
		if (n > 0) { s.got.insert(s.got.end(), b, b + n); continue; }
		if (s.got.size() >= want) break;
		struct pollfd p = { s.master, POLLIN, 0 };
		if (__real_poll(&p, 1, 300) != 1) break;
	}
}
// a signal comes before data or timeout
void nap(uint64_t end) {
	if (!s.due.empty()) end = std::min(end, s.due.front().first);
	if (end > vos::now_us) vos::advance((end - vos::now_us) / s.c->range(1, 16));
}
bool ours(int fd) { return s.on && s.fds.count(fd); }
std::string mapped(const char *p) {
	if (s.on && !s.map.empty() && !strncmp(p, "/dev", 4) && (p[4] == '/' || !p[4])) return s.map + (p + 4);
	return p;
}
int opened(int fd, const char *name) {
	if (fd >= 0 && s.on && (name == s.name || !s.map.empty())) s.fds.insert(fd);
	return fd;
}
unsigned baud(unsigned cflag, unsigned other) {
	static const struct { unsigned c, b; } t[] = { { B50, 50 }, { B75, 75 }, { B110, 110 }, { B134, 134 }, { B150, 150 }, { B200, 200 }, { B300, 300 }, { B600, 600 }, { B1200, 1200 }, { B1800, 1800 },
		{ B2400, 2400 }, { B4800, 4800 }, { B9600, 9600 }, { B19200, 19200 }, { B38400, 38400 }, { B57600, 57600 }, { B115200, 115200 }, { B230400, 230400 }, { B460800, 460800 }, { B500000, 500000 } };
	unsigned c = cflag & CBAUD;
	if (c == BOTHER) return other;
	for (auto &x : t) if (x.c == c) return x.b;
	return 0;
}
int set_termios(const struct termios2 *n) {
	if (may_fail()) { errno = EIO; return -1; }
	s.k = *n;
	s.k.c_ospeed = baud(s.k.c_cflag, s.k.c_ospeed);
	s.k.c_ispeed = s.k.c_ospeed;
	struct termios2 r = s.k;
	__real_ioctl(s.slave, TCSETS2, &r);
	return 0;
}
int wait_sent() {
	if (interrupted()) { errno = EINTR; return -1; }
	if (may_fail()) { errno = EIO; return -1; }
	if (s.txdone > vos::now_us) vos::advance_to(s.txdone);
	return 0;
}
void flush_in() {
	deliver();
	for (int i = 0; i < 100 && s.fed > s.taken; i++) {
		int n = 0;
		__real_ioctl(s.slave, FIONREAD, &n);
		if ((size_t)n >= s.fed - s.taken) break;
		usleep(1000);
	}
	__real_ioctl(s.slave, TCFLSH, TCIFLUSH);
	s.taken = s.fed;
}
struct oldtermios { unsigned c_iflag, c_oflag, c_cflag, c_lflag; uint8_t c_line, c_cc[19]; };
struct libctermios { unsigned c_iflag, c_oflag, c_cflag, c_lflag; uint8_t c_line, c_cc[32]; unsigned c_ispeed, c_ospeed; };
}

extern "C" {
int __wrap_open(const char *p, int fl, ...) {
	va_list a;
	va_start(a, fl);
	int m = va_arg(a, int);
	va_end(a);
	return opened(__real_open(mapped(p).c_str(), fl, m), p);
}
int __wrap_open64(const char *p, int fl, ...) {
	va_list a;
	va_start(a, fl);
	int m = va_arg(a, int);
	va_end(a);
	return opened(__real_open(mapped(p).c_str(), fl, m), p);
}
DIR *__wrap_opendir(const char *p) { return __real_opendir(mapped(p).c_str()); }
int __wrap_close(int fd) {
	s.fds.erase(fd);
	return __real_close(fd);
}
static int dofcntl(int fd, int cmd, long a) {
	if (ours(fd) && may_fail()) { errno = EIO; return -1; }
	return __real_fcntl(fd, cmd, a);
}
int __wrap_fcntl(int fd, int cmd, ...) {
	va_list a;
	va_start(a, cmd);
	long x = va_arg(a, long);
	va_end(a);
	return dofcntl(fd, cmd, x);
}
int __wrap_fcntl64(int fd, int cmd, ...) {
	va_list a;
	va_start(a, cmd);
	long x = va_arg(a, long);
	va_end(a);
	return dofcntl(fd, cmd, x);
}
int __wrap_ioctl(int fd, unsigned long req, ...) {
	va_list va;
	va_start(va, req);
	void *a = va_arg(va, void *);
	va_end(va);
	if (!ours(fd) || !s.map.empty()) return __real_ioctl(fd, req, a);
	vos::advance(10);
	switch (req) {
	case TIOCMGET:
		if (may_fail()) { errno = EIO; return -1; }
		*(int *)a = s.modem;
		return 0;
	case TIOCMSET: case TIOCMBIS: case TIOCMBIC: {
		if (may_fail()) { errno = EIO; return -1; }
		int v = *(int *)a, m = TIOCM_DTR | TIOCM_RTS | TIOCM_OUT1 | TIOCM_OUT2;
		if (req == TIOCMSET) s.modem = (s.modem & ~m) | (v & m);
		else if (req == TIOCMBIS) s.modem |= v & m;
		else s.modem &= ~(v & m);
		return 0;
	}
	case TIOCSBRK:
		if (may_fail()) { errno = EIO; return -1; }
		s.brk = true;
		s.brks.push_back({ "on", vos::now_us });
		return 0;
	case TIOCCBRK:
		if (may_fail()) { errno = EIO; return -1; }
		s.brk = false;
		s.brks.push_back({ "off", vos::now_us });
		return 0;
	case TIOCGSERIAL:
		if (!s.serial_works) { errno = ENOTTY; return -1; }
		if (may_fail()) { errno = EIO; return -1; }
		*(struct serial_struct *)a = s.ss;
		return 0;
	case TIOCSSERIAL:
		if (!s.serial_works) { errno = ENOTTY; return -1; }
		if (may_fail()) { errno = EIO; return -1; }
		s.ss = *(struct serial_struct *)a;
		return 0;
	case TCSBRK:
	case TCSBRKP:
		if (req == TCSBRK && a) return wait_sent();
		s.brks.push_back({ "on", vos::now_us });
		vos::advance(250000);
		s.brks.push_back({ "off", vos::now_us });
		return 0;
	case TCGETS:
		if (may_fail()) { errno = EIO; return -1; }
		memcpy(a, &s.k, sizeof(oldtermios));
		return 0;
	case TCGETS2:
		if (may_fail()) { errno = EIO; return -1; }
		memcpy(a, &s.k, sizeof(struct termios2));
		return 0;
	case TCSETS: case TCSETSW: case TCSETSF: {
		struct termios2 n = s.k;
		memcpy(&n, a, sizeof(oldtermios));
		if (req == TCSETSF) flush_in();
		return set_termios(&n);
	}
	case TCSETS2: case TCSETSW2: case TCSETSF2:
		if (req == TCSETSF2) flush_in();
		return set_termios((struct termios2 *)a);
	case TCFLSH:
		if (may_fail()) { errno = EIO; return -1; }
		if ((long)a != TCOFLUSH) flush_in();
		return 0;
	case FIONREAD:
		ready();
		return __real_ioctl(fd, req, a);
	}
	return __real_ioctl(fd, req, a);
}
int __wrap_tcgetattr(int fd, void *p) {
	struct termios2 t;
	int rv = __wrap_ioctl(fd, TCGETS2, &t);
	if (rv) return rv;
	libctermios *l = (libctermios *)p;
	memset(l, 0, sizeof *l);
	memcpy(l, &t, sizeof(oldtermios));
	l->c_ispeed = t.c_ispeed;
	l->c_ospeed = t.c_ospeed;
	return 0;
}
int __wrap_tcsetattr(int fd, int how, const void *p) {
	const libctermios *l = (const libctermios *)p;
	struct termios2 t;
	memcpy(&t, l, sizeof(oldtermios));
	t.c_ispeed = l->c_ispeed;
	t.c_ospeed = l->c_ospeed;
	if (ours(fd) && how == 2) flush_in();
	return __wrap_ioctl(fd, (t.c_cflag & CBAUD) == BOTHER ? TCSETS2 : TCSETS, &t);
}
int __wrap_tcdrain(int fd) { return ours(fd) ? wait_sent() : __real_ioctl(fd, TCSBRK, 1); }
int __wrap_tcflush(int fd, int q) { return __wrap_ioctl(fd, TCFLSH, (void *)(long)q); }
ssize_t __wrap_read(int fd, void *b, size_t n) {
	if (!ours(fd) || !s.map.empty()) return __real_read(fd, b, n);
	if (++vos::calls > 3000000) {
		fprintf(stderr, "Assertion: runaway: more than 3 million OS calls in one case\n");
		_Exit(79);
	}
	vos::advance(10);
	if (interrupted()) { errno = EINTR; return -1; }
	if (may_fail()) { errno = EIO; return -1; }
	if (s.hangup) return 0;
	bool nb = __real_fcntl(fd, F_GETFL) & O_NONBLOCK;
	while (!ready()) {
		if (nb) { errno = EAGAIN; return -1; }
		if (s.due.empty()) {
			s.blocked = true;
			errno = EIO;
			return -1;
		}
		vos::advance_to(s.due.front().first);
	}
	if (n > 1 && s.partial && s.c->chance(s.partial, 16)) n = s.c->range(1, n);
	ssize_t r = __real_read(s.slave, b, n);
	if (r > 0) s.taken += r;
	return r;
}
ssize_t __wrap___read_chk(int fd, void *b, size_t n, size_t cap) {
	if (n > cap) {
		fprintf(stderr, "Assertion: read of %zu bytes into %zu\n", n, cap);
		_Exit(79);
	}
	return __wrap_read(fd, b, n);
}
ssize_t __wrap_write(int fd, const void *b, size_t n) {
	if (!ours(fd) || !s.map.empty()) return __real_write(fd, b, n);
	if (++vos::calls > 3000000) {
		fprintf(stderr, "Assertion: runaway: more than 3 million OS calls in one case\n");
		_Exit(79);
	}
	vos::advance(10);
	if (interrupted()) { errno = EINTR; return -1; }
	if (may_fail()) { errno = EIO; return -1; }
	if (s.stall) {
		vos::advance((uint64_t)s.stall * 1000);
		s.stall = 0;
	}
	if (n > 1 && s.partial && s.c->chance(s.partial, 16)) n = s.c->range(1, n);
	// the queue of the driver
	uint64_t byte = bittime() * framebits();
	bool nb = __real_fcntl(fd, F_GETFL) & O_NONBLOCK;
	size_t queued = s.txdone > vos::now_us ? (s.txdone - vos::now_us) / byte : 0;
	if (nb) {
		if (queued >= 4095) { errno = EAGAIN; return -1; }
		n = std::min(n, 4096 - queued);
	}
	uint64_t t = std::max(vos::now_us, s.txdone);
	const uint8_t *p = (const uint8_t *)b;
	for (size_t done = 0; done < n;) {
		size_t k = std::min<size_t>(n - done, 1000);
		ssize_t r = __real_write(s.slave, p + done, k);
		if (r <= 0) break;
		s.out.insert(s.out.end(), p + done, p + done + r);
		drain();
		done += r;
	}
	for (size_t i = 0; i < n; i++) {
		t += byte;
		if (s.echo && s.k.c_cflag & CREAD) s.due.push_back({ t, p[i] });
	}
	if (s.echo) std::stable_sort(s.due.begin(), s.due.end(), [](const std::pair<uint64_t, uint8_t> &x, const std::pair<uint64_t, uint8_t> &y) { return x.first < y.first; });
	s.txdone = t;
	if (!nb && t > vos::now_us + 4096 * byte) vos::advance_to(t - 4096 * byte);
	return (ssize_t)n;
}
int __wrap_poll(struct pollfd *f, nfds_t n, int ms) {
	if (!s.on || n != 1 || !ours(f->fd)) return __real_poll(f, n, ms);
	vos::advance(10);
	uint64_t end = vos::now_us + (ms < 0 ? 3600000000ull : ms * 1000ull);
	f->revents = 0;
	if (f->events & POLLOUT) { f->revents = POLLOUT; return 1; }
	if (may_fail()) { errno = ENOMEM; return -1; }
	if (!ready() && interrupted()) {
		nap(end);
		errno = EINTR;
		return -1;
	}
	for (;;) {
		if (ready()) { f->revents = POLLIN; return 1; }
		if (vos::now_us >= end) return 0;
		vos::advance_to(s.due.empty() ? end : std::min(end, std::max(s.due.front().first, vos::now_us + 1)));
	}
}
int __wrap_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv) {
	int fd = -1;
	if (s.on) for (int x : s.fds) if (x < n && ((r && FD_ISSET(x, r)) || (w && FD_ISSET(x, w)))) fd = x;
	if (fd < 0) return __real_select(n, r, w, e, tv);
	if (w && FD_ISSET(fd, w)) return 1;
	struct pollfd p = { fd, POLLIN, 0 };
	int ms = 0;
	vos::advance(10);
	uint64_t end = vos::now_us + (tv ? tv->tv_sec * 1000000ull + tv->tv_usec : 3600000000ull);
	(void)p; (void)ms;
	if (may_fail()) { errno = ENOMEM; return -1; }
	if (!ready() && interrupted()) {
		nap(end);
		errno = EINTR;
		return -1;
	}
	for (;;) {
		if (ready()) return 1;
		if (vos::now_us >= end) {
			FD_ZERO(r);
			return 0;
		}
		vos::advance_to(s.due.empty() ? end : std::min(end, std::max(s.due.front().first, vos::now_us + 1)));
	}
}
}

static struct termios2 initial_state(Ctx &c) {
	struct termios2 k;
	memset(&k, 0, sizeof k);
	if (c.chance(1, 2)) {           // like a terminal
		k.c_iflag = ICRNL | IXON | IMAXBEL | BRKINT;
		k.c_oflag = OPOST | ONLCR;
		k.c_lflag = ISIG | ICANON | ECHO | ECHOE | IEXTEN;
	} else {
		for (unsigned f : { IGNBRK, BRKINT, IGNPAR, PARMRK, INPCK, ISTRIP, INLCR, IGNCR, ICRNL, IXON, IXOFF, IXANY, IMAXBEL, IUCLC }) if (c.chance(1, 3)) k.c_iflag |= f;
		for (unsigned f : { OPOST, ONLCR, OCRNL, ONOCR, ONLRET, OLCUC }) if (c.chance(1, 3)) k.c_oflag |= f;
		for (unsigned f : { ISIG, ICANON, ECHO, ECHONL, IEXTEN, NOFLSH }) if (c.chance(1, 3)) k.c_lflag |= f;
	}
	k.c_cflag = c.pick({ CS5, CS6, CS7, CS8, CS8, CS8 });
	for (unsigned f : std::initializer_list<unsigned>{ CSTOPB, PARENB, PARODD, CRTSCTS, CLOCAL, CREAD, HUPCL }) if (c.chance(1, 2)) k.c_cflag |= f;
	if (c.chance(3, 4)) k.c_cflag |= c.pick({ B9600, B38400, B115200, B300 });
	else { k.c_cflag |= BOTHER; k.c_ospeed = c.range(300, 200000); }
	k.c_ospeed = k.c_ispeed = baud(k.c_cflag, k.c_ospeed);
	static const uint8_t cc[19] = { 3, 28, 127, 21, 4, 0, 1, 0, 17, 19, 26, 0, 18, 15, 23, 22, 0 };
	memcpy(k.c_cc, cc, 19);
	k.c_cc[VMIN] = c.pick<uint8_t>({ 1, 1, 0, 5, 255 });
	k.c_cc[VTIME] = 0;
	return k;
}
static S state(const struct termios2 &k) {
	char b[120];
	snprintf(b, sizeof b, "i=%o o=%o c=%o l=%o speed %u vmin %u", k.c_iflag, k.c_oflag, k.c_cflag, k.c_lflag, k.c_ospeed, k.c_cc[VMIN]);
	return b;
}
static bool same(const struct termios2 &a, const struct termios2 &b) {
	return a.c_iflag == b.c_iflag && a.c_oflag == b.c_oflag && a.c_lflag == b.c_lflag && (a.c_cflag & ~(CBAUD | CIBAUD)) == (b.c_cflag & ~(CBAUD | CIBAUD)) && a.c_ospeed == b.c_ospeed && !memcmp(a.c_cc, b.c_cc, 19);
}

static bool portlist(Ctx &c) {
	char dir[64];
	snprintf(dir, sizeof dir, "dev%d", (int)getpid());
	s.map = dir;
	S clean = S("/bin/rm -rf ") + dir;
	mkdir(dir, 0700);
	bool usb = c.chance(1, 2);
	if (usb) mkdir((S(dir) + "/usb").c_str(), 0700);
	std::vector<S> want, made;
	bool devs = !c.chance(1, 10);
	std::set<S> used;
	for (unsigned n = devs ? c.range(0, 8) : 0; n--;) {
		bool sub = usb && c.chance(1, 3);
		S base = c.pick<S>({ "ttyS", "ttyUSB", "ttyACM", "ttyS", "ttyUSB", "tty", "ttyAMA", "xttyS", "pts", "ttyUS", "ttyAC" });
		S name = base + (c.chance(1, 8) ? S("") : std::to_string(c.range(0, 12)));
		if (c.chance(1, 10)) name += S(c.range(1, 200), 'x');
		S rel = S(sub ? "/usb/" : "/") + name;
		if (!used.insert(rel).second) continue;
		S path = dir + rel;
		bool isatty = !c.chance(1, 4);
		if (isatty) { if (symlink(s.name.c_str(), path.c_str())) return false; }
		else if (c.chance(1, 2)) { int fd = __real_open(path.c_str(), O_CREAT | O_WRONLY, 0600); __real_close(fd); }
		else if (symlink("/nonexistent", path.c_str())) return false;
		bool match = sub ? name.compare(0, 6, "ttyUSB") == 0 : name.compare(0, 4, "ttyS") == 0 || name.compare(0, 6, "ttyUSB") == 0 || name.compare(0, 6, "ttyACM") == 0;
		if (match && isatty) want.push_back("/dev" + rel);
		made.push_back(rel + (isatty ? "" : " (not a terminal)"));
	}
	s.on = true;
	size_t heap = lib_bytes();
	auto lowest = []() { int fd = dup(1); __real_close(fd); return fd; };
	int low = lowest();
	int n = -1;
	char **l = diag_tty_getportlist(&n);
	std::vector<S> have;
	for (int i = 0; i < n; i++) have.push_back(l[i] ? l[i] : "(null)");
	if (l) strlist_free(l, n);
	s.on = false;
	size_t open = s.fds.size();
	if (system(clean.c_str())) return false;
	std::sort(have.begin(), have.end());
	std::sort(want.begin(), want.end());
	S m, h, w;
	for (auto &x : made) m += " " + x;
	for (auto &x : have) h += " " + x;
	for (auto &x : want) w += " " + x;
	PBT_CHECK(c, n >= 0 && have == want, "ports listed:%s, expected:%s; in /dev:%s", h.c_str(), w.c_str(), m.c_str());
	PBT_CHECK(c, lowest() == low, "a file is left open");
	PBT_CHECK(c, lib_bytes() == heap && open == 0, "%zu bytes, %zu files leaked", lib_bytes() - heap, open);
	c.label(want.empty() ? "empty port list" : "port list");
	if (want.size()) c.nontrivial();
	c.note("port list:%s", h.c_str());
	s.map.clear();
	return true;
}

void pbt::property(Ctx &c) {
	vos::now_us = 1000000;
	s = Sim();
	s.c = &c;
	s.fail = -1;
	size_t heap0 = lib_bytes();
	s.master = posix_openpt(O_RDWR | O_NOCTTY | O_NONBLOCK);
	if (s.master < 0 || grantpt(s.master) || unlockpt(s.master)) c.discard();
	char pn[64];
	if (ptsname_r(s.master, pn, sizeof pn)) c.discard();
	s.name = pn;
	s.slave = __real_open(pn, O_RDWR | O_NOCTTY);
	if (s.slave < 0) c.discard();
	diag_l0_debug = c.chance(1, 8) ? -1 : 0;
	if (c.chance(1, 8)) {
		if (!portlist(c)) c.discard();
		diag_l0_debug = 0;
		return;
	}
	struct termios2 k0 = initial_state(c);
	set_termios(&k0);
	k0 = s.k;
	s.modem = c.range(0, 3) << 1 | 0x20 | c.range(0, 3) << 13;
	s.serial_works = c.chance(2, 3);
	memset(&s.ss, 0, sizeof s.ss);
	s.ss.baud_base = c.pick({ 115200, 460800, 9600, 0, 24000000 });
	s.ss.flags = c.range(0, 0xffff) & ~0x1030;
	s.ss.custom_divisor = c.range(0, 20);
	struct serial_struct ss0 = s.ss;
	int modem0 = s.modem;
	S seq;
	char b[300];
	s.on = true;
	vos::on_advance = [&]() { deliver(); };
	bool fd0 = c.chance(1, 12);
	if (fd0) __real_close(0);
	s.fail = c.chance(1, 8) ? c.range(0, 9) : -1;
	bool badname = c.chance(1, 20);
	bool plainfile = badname && c.chance(1, 2);
	S nm = badname ? (plainfile ? "plain" + std::to_string(getpid()) : S("/nonexistent/tty")) : s.name;
	if (plainfile) {
		int fd = __real_open(nm.c_str(), O_CREAT | O_RDWR, 0600);
		__real_close(fd);
		s.name = nm;
	}
	errno = 0;
	auto lowest = []() { int fd = dup(1); __real_close(fd); return fd; };
	int low0 = lowest();
	ttyp *t = plainfile ? (s.on = false, diag_tty_open(nm.c_str())) : diag_tty_open(nm.c_str());
	s.fail = -1;
	if (plainfile) unlink(nm.c_str());
	snprintf(b, sizeof b, "open%s in state %s%s %s", badname ? " of something else" : "", state(k0).c_str(), s.failed ? " with a fault" : "", t ? "succeeds" : "fails");
	seq = b;
	if (!t) {
		PBT_CHECK(c, badname || s.failed, "%s", seq.c_str());
		PBT_CHECK(c, lowest() == low0, "file leaked; %s", seq.c_str());
		PBT_CHECK(c, s.fds.empty() && lib_bytes() == heap0, "%zu files, %zu bytes leaked; %s", s.fds.size(), lib_bytes() - heap0, seq.c_str());
		c.label("open failed");
		diag_l0_debug = 0;
		return;
	}
	PBT_CHECK(c, !badname, "%s", seq.c_str());
	PBT_CHECK(c, s.fds.size() == 1, "%zu files open; %s", s.fds.size(), seq.c_str());
	s.echo = c.chance(1, 3);
	bool dead = false, set = false;
	struct diag_serial_settings cur = {};
	bool io = false;
	std::deque<std::pair<uint64_t, uint8_t>> in;    // not read yet, for the oracle
	auto arrive = [&](uint64_t t0, const Bytes &d, uint64_t gap) {
		if (!s.due.empty()) t0 = std::max(t0, s.due.back().first);
		for (uint8_t x : d) {
			s.due.push_back({ t0, x });
			in.push_back({ t0, x });
			t0 += gap;
		}
	};
	bool openfault = s.failed;
	auto settings = [&](const char *when) {
		unsigned cs = (s.k.c_cflag & CSIZE) >> 4, want = (unsigned)cur.databits - 5;
		unsigned par = !(s.k.c_cflag & PARENB) ? diag_par_n : s.k.c_cflag & PARODD ? diag_par_o : diag_par_e;
		long err = labs((long)s.k.c_ospeed - (long)cur.speed);
		PBT_CHECK(c, cs == want && par == (unsigned)cur.parflag && (s.k.c_cflag & CSTOPB ? 2u : 1u) == (unsigned)cur.stopbits && err * 100 <= 3l * (long)cur.speed,
			"%s: %s, asked for %u bps, %u data bits, %u stop bits, parity %u; %s", when, state(s.k).c_str(), cur.speed, cur.databits, cur.stopbits, cur.parflag, seq.c_str());
	};
	auto allbytes = [&](size_t n) {
		Bytes d = c.bytes(n);
		if (c.chance(1, 2)) for (auto &x : d) if (c.chance(1, 2)) x = c.pick<uint8_t>({ 3, 4, 10, 13, 17, 19, 26, 28, 127, 255, 0, 'A', 'z', 0x80, 22, 9 });
		return d;
	};
	// what a pseudo terminal cannot show: breaks and parity errors, stopped flow, modem control
	auto raw = [&](const char *when) {
		unsigned i = s.k.c_iflag & (IGNBRK | BRKINT | PARMRK | INPCK | ISTRIP | INLCR | IGNCR | ICRNL | IUCLC | IXON | IXOFF), l = s.k.c_lflag & (ICANON | ISIG | ECHO | IEXTEN);
		PBT_CHECK(c, !i && !l && !(s.k.c_oflag & OPOST) && !(s.k.c_cflag & CRTSCTS) && (s.k.c_cflag & CLOCAL) && (s.k.c_cflag & CREAD),
			"%s the port is not transparent: %s; %s", when, state(s.k).c_str(), seq.c_str());
	};
	if (!openfault) raw("open:");
	unsigned nops = c.range(1, 7);
	for (unsigned op = 0; op < nops && !dead; op++) {
		unsigned what = c.weighted({ 3, 5, 5, 1, 2, 2, 2 });
		unsigned f0 = s.failed, i0 = s.interrupted;
		s.eintr = c.chance(1, 4) ? c.range(1, 6) : 0;
		s.partial = c.chance(1, 3) ? c.range(1, 12) : 0;
		bool tryfail = c.chance(1, 12);
		uint64_t t0 = vos::now_us;
		int rv;
		auto done = [&]() {
			s.fail = -1;
			s.eintr = s.partial = 0;
			PBT_CHECK(c, !s.blocked, "a read without anything to read would block for ever; %s", seq.c_str());
		};
		switch (what) {
		case 0: {
			struct diag_serial_settings n;
			n.speed = c.chance(1, 2) ? c.pick<unsigned>({ 10400, 5, 360, 300, 1200, 4800, 9600, 19200, 38400, 57600, 115200, 125000, 9615, 15000 }) : c.range(50, 250000);
			n.databits = c.pick({ diag_databits_8, diag_databits_8, diag_databits_7, diag_databits_6, diag_databits_5 });
			n.stopbits = c.pick({ diag_stopbits_1, diag_stopbits_1, diag_stopbits_2 });
			n.parflag = c.pick({ diag_par_n, diag_par_n, diag_par_e, diag_par_o });
			bool bad = c.chance(1, 20);
			if (bad) switch (c.range(0, 2)) {
			case 0: n.databits = (enum diag_databits)c.pick({ 0, 4, 9 }); break;
			case 1: n.stopbits = (enum diag_stopbits)c.pick({ 0, 3 }); break;
			case 2: n.parflag = (enum diag_parity)c.pick({ 0, 4 }); break;
			}
			if (tryfail) s.fail = c.range(0, 4);
			struct termios2 before = s.k;
			rv = diag_tty_setup(t, &n);
			done();
			snprintf(b, sizeof b, "; setup %u %u %u %u%s = %d", n.speed, n.databits, n.stopbits, n.parflag, s.failed != f0 ? " with a fault" : "", rv);
			seq += b;
			PBT_CHECK(c, rv <= 0, "%s", seq.c_str());
			if (bad) {
				PBT_CHECK(c, rv < 0 && same(before, s.k), "impossible settings; %s", seq.c_str());
				break;
			}
			if (rv) {
				PBT_CHECK(c, s.failed != f0, "%s", seq.c_str());
				dead = true;
				c.label("setup failed");
				break;
			}
			cur = n;
			set = true;
			settings("port");
			if (!openfault) raw("set up:");
			c.label("setup");
			break;
		}
		case 1: {           // ---- transmission ----
			size_t len = c.chance(1, 30) ? c.range(1000, 9000) : 1 + c.size(300);
			Bytes d = allbytes(len);
			std::unique_ptr<uint8_t[]> p(new uint8_t[len]);
			std::copy(d.begin(), d.end(), p.get());
			s.out.clear();
			s.got.clear();
			if (tryfail) s.fail = c.range(0, 4);
			s.stall = c.chance(1, 20) ? c.range(1, 3000) : 0;
			if (c.chance(1, 10)) {          // held up, but not for longer than the transmission takes
				s.stall = std::min<uint64_t>(len * bittime() * framebits() / 10000 * c.range(1, 9), 20000);
				s.partial = 12;
			}
			unsigned stall = s.stall;
			rv = (int)diag_tty_write(t, p.get(), len);
			s.stall = 0;
			done();
			bool flt = s.failed != f0, intr = s.interrupted != i0;
			snprintf(b, sizeof b, "; write %zu%s%s%s = %d after %.1f ms", len, flt ? " with a fault" : "", intr ? " interrupted" : "", stall ? " stalled" : "", rv, (double)(vos::now_us - t0) / 1000);
			seq += b;
			PBT_CHECK(c, rv <= (int)len, "%s", seq.c_str());
			PBT_CHECK(c, s.got == s.out, "the line shows %s instead of %s; %s", hex(s.got).substr(0, 200).c_str(), hex(s.out).substr(0, 200).c_str(), seq.c_str());
			PBT_CHECK(c, s.out.size() <= len && std::equal(s.out.begin(), s.out.end(), d.begin()), "%s was transmitted, asked for %s; %s", hex(s.out).substr(0, 200).c_str(), hex(d).substr(0, 200).c_str(), seq.c_str());
			if (rv >= 0) PBT_CHECK(c, (size_t)rv == s.out.size(), "%zu bytes were transmitted; %s", s.out.size(), seq.c_str());
			uint64_t need = len * bittime() * framebits();
			if (rv != (int)len) {
				PBT_CHECK(c, flt || vos::now_us - t0 >= std::min<uint64_t>(need / 2, 1000) , "incomplete; %s", seq.c_str());
				PBT_CHECK(c, flt || vos::now_us - t0 >= len * (set ? 10000000ull / cur.speed : 1000) * 7 / 10, "gave up too early; %s", seq.c_str());
				if (flt) dead = true;
				c.label("write incomplete");
			} else {
				if (!flt && !intr) PBT_CHECK(c, vos::now_us >= s.txdone, "returns %.1f ms before the last byte is out; %s", ((double)s.txdone - (double)vos::now_us) / 1000, seq.c_str());
				c.label("write");
			}
			io = io || !s.out.empty();
			// waiting for the transmission may have been interrupted
			if (s.echo || !intr || !c.chance(1, 2)) vos::advance_to(s.txdone);
			if (s.echo) { in.clear(); for (auto &x : s.due) in.push_back(x); dead = dead || s.fed != s.taken; }
			if (s.echo && !dead) {      // what is still in flight: start afresh
				diag_tty_iflush(t);
				vos::advance_to(std::max(vos::now_us, s.txdone) + 1000);
				deliver();
				flush_in();
				in.clear();
				s.due.clear();
			}
			break;
		}
		case 2: {           // ---- reception ----
			bool now = c.chance(1, 4);
			if (c.chance(4, 5)) arrive(t0 + (now ? 0 : c.range(0, 400) * 1000), allbytes(c.chance(1, 20) ? c.range(200, 1500) : c.size(80)), c.chance(1, 2) ? 960 : c.range(0, 40) * 1000);
			if (c.chance(1, 4)) vos::advance(c.range(0, 500) * 1000);
			t0 = vos::now_us;
			size_t len = c.chance(1, 2) ? c.range(1, 10) : c.range(1, 1100);
			unsigned timeout = c.chance(1, 20) ? c.range(1, 9999) : c.range(1, 600);
			std::unique_ptr<uint8_t[]> p(new uint8_t[len]);
			if (tryfail) s.fail = c.range(0, 4);
			bool hang = c.chance(1, 40);
			s.hangup = hang;
			rv = (int)diag_tty_read(t, p.get(), len, timeout);
			s.hangup = false;
			done();
			bool flt = s.failed != f0 || hang, intr = s.interrupted != i0;
			size_t sure = 0, most = 0;
			for (auto &x : in) {
				if (x.first <= t0 + timeout * 1000ull - 2000 || x.first <= t0) sure++;
				if (x.first <= t0 + timeout * 1000ull + 3000) most++;
			}
			sure = std::min(sure, len);
			most = std::min(most, len);
			Bytes want;
			for (size_t i = 0; i < most; i++) want.push_back(in[i].second);
			snprintf(b, sizeof b, "; read %zu within %u ms%s%s%s = %d after %.1f ms", len, timeout, s.failed != f0 ? " with a fault" : "", hang ? " port gone" : "", intr ? " interrupted" : "", rv, (double)(vos::now_us - t0) / 1000);
			seq += b;
			PBT_CHECK(c, rv != 0 && rv <= (int)len, "%s", seq.c_str());
			PBT_CHECK(c, vos::now_us - t0 <= timeout * 1000ull + 5000, "%s", seq.c_str());
			if (flt) {
				PBT_CHECK(c, rv != DIAG_ERR_TIMEOUT || (vos::now_us - t0 + 2000 >= timeout * 1000ull && !hang), "failure reported as timeout; %s", seq.c_str());
				if (hang) PBT_CHECK(c, rv < 0, "%s", seq.c_str());
				dead = true;
			}
			if (rv > 0) {
				PBT_CHECK(c, (size_t)rv <= most && !memcmp(p.get(), want.data(), rv), "%s received, %s came; %s", hex(p.get(), std::min(rv, 60)).c_str(), hex(want).substr(0, 180).c_str(), seq.c_str());
				if (!flt) PBT_CHECK(c, (size_t)rv >= sure, "%zu bytes came; %s", sure, seq.c_str());
				in.erase(in.begin(), in.begin() + rv);
				io = true;
				c.label("read%s", (size_t)rv == len ? " complete" : " partial");
			} else if (!flt) {
				PBT_CHECK(c, rv == DIAG_ERR_TIMEOUT, "%s", seq.c_str());
				PBT_CHECK(c, sure == 0, "%zu bytes came; %s", sure, seq.c_str());
				c.label("timeout");
			}
			if (intr) c.label("interrupted");
			break;
		}
		case 3: {           // ---- flush ----
			if (c.chance(2, 3)) arrive(t0, allbytes(c.range(1, 60)), 0);
			if (c.chance(1, 2)) arrive(t0 + c.range(50, 200) * 1000, allbytes(c.range(1, 20)), 1000);
			if (tryfail) s.fail = c.range(0, 2);
			rv = diag_tty_iflush(t);
			done();
			bool flt = s.failed != f0;
			snprintf(b, sizeof b, "; flush%s = %d after %.1f ms", flt ? " with a fault" : "", rv, (double)(vos::now_us - t0) / 1000);
			seq += b;
			PBT_CHECK(c, rv <= 0 && (rv == 0 || flt), "%s", seq.c_str());
			PBT_CHECK(c, vos::now_us - t0 <= (IFLUSH_TIMEOUT + 20) * 1000, "%s", seq.c_str());
			if (flt) { dead = true; break; }
			while (!in.empty() && in.front().first <= t0) in.pop_front();
			// the ones that came meanwhile may be gone or not: let them go
			bool unsure = !in.empty() && in.front().first <= vos::now_us;
			if (unsure) {
				flush_in();
				while (!in.empty() && in.front().first <= vos::now_us) in.pop_front();
			}
			c.label("flush");
			break;
		}
		case 4: {           // ---- modem lines ----
			unsigned dtr = c.range(0, 1), rts = c.range(0, 1);
			int m0 = s.modem;
			if (tryfail) s.fail = c.range(0, 1);
			rv = diag_tty_control(t, dtr * c.range(1, 4), rts * c.range(1, 4));
			done();
			bool flt = s.failed != f0;
			snprintf(b, sizeof b, "; DTR %u RTS %u (were %d %d)%s = %d", dtr, rts, !!(m0 & TIOCM_DTR), !!(m0 & TIOCM_RTS), flt ? " with a fault" : "", rv);
			seq += b;
			PBT_CHECK(c, flt ? rv < 0 : rv == 0, "%s", seq.c_str());
			if (rv == 0) PBT_CHECK(c, !!(s.modem & TIOCM_DTR) == dtr && !!(s.modem & TIOCM_RTS) == rts, "DTR is %d, RTS is %d; %s", !!(s.modem & TIOCM_DTR), !!(s.modem & TIOCM_RTS), seq.c_str());
			PBT_CHECK(c, !((s.modem ^ m0) & ~(TIOCM_DTR | TIOCM_RTS)), "other lines of %x changed: %x; %s", m0, s.modem, seq.c_str());
			c.label("modem lines");
			break;
		}
		case 5: {           // ---- break ----
			unsigned ms = c.chance(1, 2) ? 25 : c.range(1, 2000);
			s.brks.clear();
			if (tryfail) s.fail = c.range(0, 2);
			s.eintr = 0;
			rv = diag_tty_break(t, ms);
			done();
			bool flt = s.failed != f0;
			snprintf(b, sizeof b, "; break %u ms%s = %d", ms, flt ? " with a fault" : "", rv);
			seq += b;
			if (flt) {
				PBT_CHECK(c, rv <= 0, "%s", seq.c_str());
				if (rv == 0) PBT_CHECK(c, s.brks.size() == 2, "no break; %s", seq.c_str());
				dead = true;
				break;
			}
			PBT_CHECK(c, rv == 0, "%s", seq.c_str());
			PBT_CHECK(c, s.brks.size() == 2 && !s.brk, "break %s; %s", s.brk ? "still on" : "not sent", seq.c_str());
			uint64_t d = s.brks[1].t - s.brks[0].t;
			PBT_CHECK(c, d + 1000 >= ms * 1000ull && d <= ms * 1000ull + 1000, "break takes %.1f ms; %s", (double)d / 1000, seq.c_str());
			PBT_CHECK(c, s.brks[0].t >= s.txdone, "break in the middle of a transmission; %s", seq.c_str());
			PBT_CHECK(c, vos::now_us <= s.brks[1].t + 2000, "%s", seq.c_str());
			c.label("break");
			break;
		}
		case 6: {           // ---- fast break ----
			unsigned ms = c.pick<unsigned>({ 50, 40, 30, 26, 100, 24, 10, 500 });
			bool echo = s.echo;
			if (!in.empty() || s.fed != s.taken) break;
			vos::advance_to(s.txdone);
			t0 = vos::now_us;
			s.out.clear();
			s.got.clear();
			if (tryfail) s.fail = c.range(0, 8);
			s.echo = c.chance(5, 6);
			s.eintr = 0;
			uint64_t tx0 = s.txdone;
			rv = diag_tty_fastbreak(t, ms);
			bool echoed = s.echo;
			s.echo = echo;
			done();
			bool flt = s.failed != f0;
			snprintf(b, sizeof b, "; fast break %u ms%s%s = %d after %.1f ms", ms, flt ? " with a fault" : "", echoed ? "" : " no echo", rv, (double)(vos::now_us - t0) / 1000);
			seq += b;
			PBT_CHECK(c, rv <= 0, "%s", seq.c_str());
			if (ms < 25) PBT_CHECK(c, rv < 0 && s.out.empty(), "%s", seq.c_str());
			else if (flt) { dead = true; break; }
			else if (!echoed) {
				PBT_CHECK(c, rv < 0, "%s", seq.c_str());
				c.label("fast break without echo");
			} else {
				PBT_CHECK(c, rv == 0, "%s", seq.c_str());
				PBT_CHECK(c, s.out == Bytes(1, 0), "%s transmitted; %s", hex(s.out).c_str(), seq.c_str());
				uint64_t low = s.txdone - std::max(tx0, t0);
				PBT_CHECK(c, low * 9 / 10 >= 24000 && low * 9 / 10 <= 26000, "low for %.1f ms; %s", (double)low * 9 / 10000, seq.c_str());
				PBT_CHECK(c, vos::now_us - t0 + 1500 >= ms * 1000ull && vos::now_us - t0 <= std::max(ms, 28u) * 1000ull + 2500, "%s", seq.c_str());
				c.label("fast break");
			}
			if (set) settings("after a fast break the port");
			break;
		}
		}
		if (!dead) PBT_CHECK(c, s.fds.size() == 1 && !s.brk, "%s", seq.c_str());
	}
	bool clean = !openfault && !s.hangup;
	diag_tty_close(t);
	s.on = false;
	seq += "; close";
	PBT_CHECK(c, s.fds.empty(), "port still open; %s", seq.c_str());
	PBT_CHECK(c, lib_bytes() == heap0, "%zu bytes leaked; %s", lib_bytes() - heap0, seq.c_str());
	if (clean) {
		PBT_CHECK(c, same(s.k, k0), "state %s is left, not restored to %s; %s", state(s.k).c_str(), state(k0).c_str(), seq.c_str());
		PBT_CHECK(c, s.modem == modem0, "modem lines are left at %x, not restored to %x; %s", s.modem, modem0, seq.c_str());
		PBT_CHECK(c, !s.serial_works || !memcmp(&s.ss, &ss0, sizeof ss0), "serial parameters are not restored; %s", seq.c_str());
	}
	vos::on_advance = nullptr;
	diag_l0_debug = 0;
	if (io) {
		c.nontrivial();
		c.note("%s", seq.substr(0, 500).c_str());
	}
}
