// A simulated interface (L0 driver) in virtual time, with a scripted bus.
#pragma once
#include "pbt.hpp"
#include "vos.hpp"
#include <deque>
#include <functional>
#include <cstring>
extern "C" {
#include "diag.h"
#include "diag_err.h"
#include "diag_l0.h"
#include "diag_l1.h"
#include "diag_l2.h"
#include "diag_tty.h"
}
namespace wire {
using pbt::Bytes;
struct Tx { uint64_t t; Bytes data; };
struct Ioctl { uint64_t t; unsigned cmd; Bytes arg; };
struct Ev { char kind; uint64_t t; Bytes data; unsigned x; }; // S send, R recv, I ioctl, O open, C close
struct Wire {
	uint32_t flags = 0;
	int open_rv = 0;
	std::vector<Tx> tx;
	std::vector<Ioctl> ioctls;
	std::vector<Ev> log;
	int opens = 0, closes = 0, dels = 0, open_calls = 0;
	int opened_proto = 0;
	bool is_open = false;
	uint64_t byte_us = 0;            // time a transmitted byte takes
	bool echo = false;               // bus echoes what we transmit
	struct Rx { uint64_t t; uint8_t b; };
	std::deque<Rx> rx;               // byte stream
	struct Fr { uint64_t t; Bytes d; int err; };
	std::deque<Fr> frames;           // for smart (framing) interfaces
	std::function<int(const Bytes &)> on_send;                    // return 0 or error
	std::function<int(unsigned, void *)> on_ioctl;
	std::function<int(int)> on_open;         // L1 protocol asked for; return 0 or error
	std::function<Bytes(const Bytes &)> echo_mangle;
	int recv_err_after = -1;         // inject: Nth recv call from now fails
	int recv_err = 0;
	bool recv_dead = false;          // every recv call fails with recv_err
	Bytes seen;                      // every byte handed up so far
	std::vector<Bytes> seen_frames;
	uint64_t last_seen = 0;          // when the last byte or error was handed up
	uint64_t arrived = 0;            // when the last byte handed up arrived
	uint64_t recv_calls = 0;

	uint64_t lastrx() const { return rx.empty() ? vos::now_us : std::max(vos::now_us, rx.back().t); }
	// bytes arrive starting delay_us from now, gap_us apart
	void ecu_bytes(uint64_t delay_us, const Bytes &b, uint64_t gap_us = 1000) {
		uint64_t t = vos::now_us + delay_us;
		for (uint8_t x : b) { put(t, x); t += gap_us; }
	}
	void put(uint64_t t, uint8_t x) {
		auto it = rx.end();
		while (it != rx.begin() && (it - 1)->t > t) --it;
		rx.insert(it, { t, x });
	}
	void ecu_frame(uint64_t delay_us, const Bytes &b, int err = 0) {
		Fr f = { vos::now_us + delay_us, b, err };
		auto it = frames.end();
		while (it != frames.begin() && (it - 1)->t > f.t) --it;
		frames.insert(it, f);
	}
	bool smart() const { return (flags & DIAG_L1_DOESL2FRAME) != 0; }
	int recv(void *data, size_t len, unsigned timeout);
	int send(const void *data, size_t len);
	int ioctl(unsigned cmd, void *data);
	Bytes sent() const { Bytes b; for (auto &t : tx) b.insert(b.end(), t.data.begin(), t.data.end()); return b; }
};
extern Wire *W;
extern const struct diag_l0 l0drv;          // l1proto_mask: everything
struct diag_l0_device make_dev(Wire *w = nullptr);
void init_lib();                            // diag_init once per case
inline struct diag_msg *mkmsg(struct diag_msg *m, Bytes &b) {
	memset(m, 0, sizeof *m);
	m->len = b.size();
	m->data = b.data();
	return m;
}
}
