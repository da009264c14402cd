#include "vos.hpp"
#include <cstdio>
#include <cstdlib>
extern "C" {
#include "diag_os.h"
}
namespace vos {
uint64_t now_us = 1000000;
uint64_t calls;
std::function<void()> on_advance;
int ipending_value;
std::function<int()> on_ipending;
std::function<void(unsigned)> on_cursor_up;
int lock_depth;
std::function<void()> on_call, on_blocked, on_unlock;
std::function<void(uint64_t)> on_sleep;
static void tick() {
	if (++calls > 3000000) {
		fprintf(stderr, "Assertion: runaway: more than 3 million OS calls in one case\n");
		_Exit(79);
	}
	if (on_call) on_call();
}
void advance(uint64_t us) {
	if (on_sleep) on_sleep(us); else now_us += us;
	if (on_advance) on_advance();
}
}
using namespace vos;
extern "C" {
int diag_os_init(void) { return 0; }
int diag_os_close(void) { return 0; }
void diag_os_calibrate(void) {}
void diag_os_millisleep(unsigned int ms) { tick(); advance((uint64_t)ms * 1000); }
int diag_os_ipending(void) { tick(); return on_ipending ? on_ipending() : ipending_value; }
const char *diag_os_geterr(OS_ERRTYPE e) { static char b[40]; snprintf(b, sizeof b, "os error %d", (int)e); return b; }
unsigned long diag_os_getms(void) { tick(); return (unsigned long)(now_us / 1000); }
unsigned long long diag_os_gethrt(void) { tick(); return now_us; }
unsigned long long diag_os_hrtus(unsigned long long d) { return d; }
void diag_os_initrecmtx(diag_mtx *m) {
	pthread_mutexattr_t a;
	pthread_mutexattr_init(&a);
	pthread_mutexattr_settype(&a, PTHREAD_MUTEX_RECURSIVE);
	pthread_mutex_init(m, &a);
	pthread_mutexattr_destroy(&a);
}
void diag_os_initmtx(diag_mtx *m) { pthread_mutex_init(m, NULL); }
void diag_os_initstaticmtx(diag_mtx *m) { pthread_mutex_init(m, NULL); }
void diag_os_delmtx(diag_mtx *m) { pthread_mutex_destroy(m); }
void diag_os_lock(diag_mtx *m) {
	tick();
	while (pthread_mutex_trylock(m)) {
		if (on_blocked) { on_blocked(); continue; }
		// one thread only: a busy mutex can only be a self-deadlock
		fprintf(stderr, "Assertion: deadlock: mutex locked twice\n");
		_Exit(79);
	}
	lock_depth++;
}
bool diag_os_trylock(diag_mtx *m) {
	tick();
	if (pthread_mutex_trylock(m)) return false;
	lock_depth++;
	return true;
}
void diag_os_unlock(diag_mtx *m) {
	pthread_mutex_unlock(m);
	lock_depth--;
	if (on_unlock) on_unlock();
	tick();
}
void diag_os_cursor_up(unsigned int n) { if (on_cursor_up) on_cursor_up(n); }
void diag_os_clrtoeol(void) {}
}
