/* a tiny scripted interface for the demonstrations */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdbool.h>
#include <stdint.h>
#include "diag.h"
#include "diag_err.h"
#include "diag_os.h"
#include "diag_tty.h"
#include "diag_l0.h"
#include "diag_l1.h"
#include "diag_l2.h"
static uint32_t l0_flags;
static uint8_t l0_q[65536]; static int l0_h, l0_t;       /* byte queue */
static uint8_t l0_fr[256][2048]; static int l0_fl[256], l0_fh, l0_ft; /* frame queue */
static uint8_t l0_tx[65536]; static int l0_ntx, l0_sends;
static void (*l0_onsend)(const uint8_t *d, int n);
static int (*l0_onioctl)(unsigned cmd, void *data);
static int l0_echo;
static void put(const void *d, int n) { memcpy(l0_q + l0_t, d, n); l0_t += n; }
static void putf(const void *d, int n) { memcpy(l0_fr[l0_ft], d, n); l0_fl[l0_ft++] = n; }
static int x_init(void) { return 0; }
static int x_new(struct diag_l0_device *d) { return 0; }
static void x_del(struct diag_l0_device *d) {}
static struct cfgi *x_cfg(struct diag_l0_device *d) { return NULL; }
static int x_open(struct diag_l0_device *d, int p) { d->opened = 1; return 0; }
static void x_close(struct diag_l0_device *d) { d->opened = 0; }
static uint32_t x_flags(struct diag_l0_device *d) { return l0_flags; }
static int x_recv(struct diag_l0_device *d, void *p, size_t len, unsigned t) {
	if (l0_flags & DIAG_L1_DOESL2FRAME) {
		if (l0_fh == l0_ft) { diag_os_millisleep(t > 20 ? 20 : t); return DIAG_ERR_TIMEOUT; }
		int n = l0_fl[l0_fh];
		if (n > (int)len) n = len;
		memcpy(p, l0_fr[l0_fh++], n);
		return n;
	}
	if (l0_h == l0_t) { diag_os_millisleep(t > 20 ? 20 : t); return DIAG_ERR_TIMEOUT; }
	int n = l0_t - l0_h;
	if (n > (int)len) n = len;
	memcpy(p, l0_q + l0_h, n);
	l0_h += n;
	return n;
}
static int x_send(struct diag_l0_device *d, const void *p, size_t len) {
	memcpy(l0_tx + l0_ntx, p, len); l0_ntx += len; l0_sends++;
	if (l0_echo) put(p, len);
	if (l0_onsend) l0_onsend(p, len);
	return 0;
}
static int x_ioctl(struct diag_l0_device *d, unsigned cmd, void *data) { return l0_onioctl ? l0_onioctl(cmd, data) : 0; }
static const struct diag_l0 l0_drv = { .longname = "demo", .shortname = "demo", .l1proto_mask = 0xffffffff,
	.init = x_init, ._new = x_new, ._getcfg = x_cfg, ._del = x_del, ._open = x_open, ._close = x_close,
	._getflags = x_flags, ._recv = x_recv, ._send = x_send, ._ioctl = x_ioctl };
static struct diag_l0_device l0_dev = { .dl0 = &l0_drv };
static struct diag_msg mk(uint8_t *d, int n) { struct diag_msg m; memset(&m, 0, sizeof m); m.data = d; m.len = n; return m; }
#define MUST(c) do { if (!(c)) { printf("demo: failed: %s (line %d)\n", #c, __LINE__); exit(1); } } while (0)
