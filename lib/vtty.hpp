// Virtual serial port behind the interface declared in diag_tty.h, in virtual time (lib/vos).
// A harness models the device on the other end of the cable.
#pragma once
#include <cstdint>
#include <deque>
#include <functional>
#include <string>
#include <vector>
namespace tty {
enum Op { OPEN, CLOSE, SETUP, CONTROL, IFLUSH, READ, WRITE, BREAK, FASTBREAK };
struct Rec {
	Op op;
	uint64_t t0, t1;                 // start and end, us
	unsigned speed, databits, stopbits, par;
	unsigned dtr, rts;
	unsigned ms;
	std::vector<uint8_t> data;
};
extern std::vector<Rec> log;             // everything but reads
extern int opens;                        // currently open ports
extern unsigned total_opens;
extern unsigned speed;                   // current setting of the host
extern unsigned dtr, rts;
extern bool write_blocks;                // writes take their time on the line before returning
extern uint64_t step_us;                 // waits of a read are cut into steps of this size, 0: not cut
extern std::string opened_name;
extern std::function<void(const std::vector<uint8_t> &)> on_write;   // bytes are on the line
extern std::function<int(Op)> fault;     // nonzero: that operation fails; 2: a write takes less than it was given (and all of it is lost)
struct Byte { uint64_t t; uint8_t b; int tag; };
void feed_at(uint64_t t, const std::vector<uint8_t> &b, uint64_t gap_us = 0, int tag = 0);   // bytes towards the host
void feed_at(uint64_t t, const std::string &s, uint64_t gap_us = 0, int tag = 0);
const std::deque<Byte> &peek();          // bytes not read yet
size_t pending();                        // bytes not read yet (arrived or not)
uint64_t next_arrival();                 // time of the next pending byte, ~0 if none
void drop_pending();
void reset();
}
