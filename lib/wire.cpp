#include "wire.hpp"
#include <algorithm>
namespace wire {
Wire *W;
int Wire::recv(void *data, size_t len, unsigned timeout) {
	if (++recv_calls > 400000) { fprintf(stderr, "Assertion: runaway: endless receive\n"); _Exit(79); }
	log.push_back({ 'R', vos::now_us, {}, (unsigned)len });
	if (recv_err_after >= 0 && recv_err_after-- == 0) return recv_err;
	if (recv_dead) return recv_err;
	if (len == 0) return DIAG_ERR_BADLEN;
	uint64_t dl = vos::now_us + (uint64_t)timeout * 1000;
	if (smart()) {
		if (frames.empty() || frames.front().t > dl) { vos::advance_to(dl); return DIAG_ERR_TIMEOUT; }
		Fr f = frames.front();
		frames.pop_front();
		vos::advance_to(f.t);
		arrived = std::max(arrived, f.t);
		last_seen = vos::now_us;
		if (f.err) return f.err;
		size_t n = std::min(len, f.d.size());
		if (n) memcpy(data, f.d.data(), n);
		seen.insert(seen.end(), f.d.begin(), f.d.begin() + n);
		seen_frames.push_back(Bytes(f.d.begin(), f.d.begin() + n));
		return (int)n;
	}
	size_t n = 0;
	uint64_t t = vos::now_us;
	while (n < len && !rx.empty() && rx.front().t <= dl) {
		seen.push_back(rx.front().b);
		last_seen = std::max(last_seen, rx.front().t);
		arrived = std::max(arrived, rx.front().t);
		((uint8_t *)data)[n++] = rx.front().b;
		t = std::max(t, rx.front().t);
		rx.pop_front();
	}
	vos::advance_to(n == len ? t : dl);
	return n ? (int)n : DIAG_ERR_TIMEOUT;
}
int Wire::send(const void *data, size_t len) {
	Bytes b((const uint8_t *)data, (const uint8_t *)data + len);
	tx.push_back({ vos::now_us, b });
	log.push_back({ 'S', vos::now_us, b, 0 });
	if (byte_us) vos::advance(byte_us * len);
	if (echo) {
		Bytes e = echo_mangle ? echo_mangle(b) : b;
		// echo arrives before anything later
		for (size_t i = 0; i < e.size(); i++) put(vos::now_us, e[i]);
	}
	return on_send ? on_send(b) : 0;
}
int Wire::ioctl(unsigned cmd, void *data) {
	Ioctl i = { vos::now_us, cmd, {} };
	if (data) {
		size_t n = 0;
		if (cmd == DIAG_IOCTL_INITBUS) n = sizeof(struct diag_l1_initbus_args);
		else if (cmd == DIAG_IOCTL_SETSPEED) n = sizeof(struct diag_serial_settings);
		else if (cmd == DIAG_IOCTL_SETWM) {
			struct diag_msg *m = (struct diag_msg *)data;
			i.arg.assign(m->data, m->data + m->len);
		}
		if (n) i.arg.assign((uint8_t *)data, (uint8_t *)data + n);
	}
	ioctls.push_back(i);
	log.push_back({ 'I', vos::now_us, i.arg, cmd });
	if (on_ioctl) return on_ioctl(cmd, data);
	return 0;
}
extern "C" {
static Wire *of(struct diag_l0_device *d) { return d->l0_int ? (Wire *)d->l0_int : W; }
static int f_init(void) { return 0; }
static int f_new(struct diag_l0_device *) { return 0; }
static struct cfgi *f_getcfg(struct diag_l0_device *) { return NULL; }
static void f_del(struct diag_l0_device *d) { of(d)->dels++; }
static int f_open(struct diag_l0_device *d, int p) {
	Wire *w = of(d);
	w->log.push_back({ 'O', vos::now_us, {}, (unsigned)p });
	w->open_calls++;
	if (w->open_rv) return w->open_rv;
	if (w->on_open) { int rv = w->on_open(p); if (rv) return rv; }
	w->opens++; w->is_open = true; w->opened_proto = p; d->opened = 1; return 0;
}
static void f_close(struct diag_l0_device *d) {
	Wire *w = of(d);
	w->log.push_back({ 'C', vos::now_us, {}, 0 });
	w->closes++; w->is_open = false; d->opened = 0;
}
static uint32_t f_getflags(struct diag_l0_device *d) { return of(d)->flags; }
// like the real drivers: errors other than a timeout are reported
static int rep(int rv) { return rv < 0 && rv != DIAG_ERR_TIMEOUT ? diag_iseterr(rv) : rv; }
static int f_recv(struct diag_l0_device *d, void *data, size_t len, unsigned timeout) { return rep(of(d)->recv(data, len, timeout)); }
static int f_send(struct diag_l0_device *d, const void *data, size_t len) { return rep(of(d)->send(data, len)); }
static int f_ioctl(struct diag_l0_device *d, unsigned cmd, void *data) { return rep(of(d)->ioctl(cmd, data)); }
}
const struct diag_l0 l0drv = { "simulated interface", "FAKE", 0xff, f_init, f_new, f_getcfg, f_del, f_open, f_close,
	f_getflags, f_recv, f_send, f_ioctl };
struct diag_l0_device make_dev(Wire *w) {
	struct diag_l0_device d;
	memset(&d, 0, sizeof d);
	d.dl0 = &l0drv;
	d.l0_int = w;
	return d;
}
void init_lib() { diag_init(); }
}
