// Small choice-sequence property-based testing engine.
//
// Every random decision of a case is one "choice": draw(n) in [0,n).  A case is
// a pure function of its choice sequence, so a failing case is replayed and
// shrunk by editing the sequence.  Each case runs in a forked child: no state of
// the tested code leaks from one case into the next, and a crash, sanitizer
// report or runaway loop is an ordinary outcome that can be shrunk too.
#pragma once
#include <cstdint>
#include <cstdarg>
#include <string>
#include <vector>
#include <initializer_list>

namespace pbt {

typedef std::vector<uint8_t> Bytes;

struct Ctx {
	uint64_t draw(uint64_t n);                     // uniform in [0,n)
	long range(long lo, long hi);                  // inclusive, simplest = lo
	bool chance(unsigned num, unsigned den);       // simplest = false
	size_t weighted(std::initializer_list<unsigned> w);  // index; simplest = 0
	uint8_t byte() { return (uint8_t)draw(256); }
	Bytes bytes(size_t n);
	size_t size(size_t max);                       // skewed to small, all of 0..max reachable
	template <class T> T pick(std::initializer_list<T> l) {
		return *(l.begin() + draw(l.size()));
	}
	template <class T> const T &pick(const std::vector<T> &l) { return l[draw(l.size())]; }
	void shuffle(std::vector<int> &v);

	void label(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
	void nontrivial();                             // this case counts as non-trivial
	void note(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
	[[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
	// a property-neutral end of the case (counted, never a pass)
	[[noreturn]] void discard();
	// case hits an already listed finding: end the case, count it under id
	[[noreturn]] void excluded(const char *id);
	bool check_known;                              // true: do not exclude known findings
	std::string captured();                        // stdout+stderr so far
	void reset_captured();
	bool thorough() const;
};

// provided by each harness
extern const char *prop_id;
extern const char *prop_rule;
extern unsigned quick_cases, thorough_cases;
void property(Ctx &c);

std::string hex(const void *p, size_t n);
inline std::string hex(const Bytes &b) { return hex(b.data(), b.size()); }
size_t heap_bytes(void);                           // live heap of this process (ASan)
size_t lib_bytes(void);                            // live bytes from C malloc & co (not C++ new): the tested code's
size_t lib_blocks(void);
}
#define PBT_CHECK(c, cond, ...) do { if (!(cond)) (c).fail(__VA_ARGS__); } while (0)
