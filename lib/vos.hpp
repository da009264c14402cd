// Virtual-time replacement of the OS layer declared in diag_os.h.
#pragma once
#include <cstdint>
#include <functional>
namespace vos {
extern uint64_t now_us;
extern uint64_t calls;             // OS calls so far (runaway detection)
extern std::function<void()> on_advance;   // called after the clock moved
extern int ipending_value;
extern std::function<int()> on_ipending;               // overrides the value
extern std::function<void(unsigned)> on_cursor_up;
extern int lock_depth;
extern std::function<void()> on_call;      // before every OS call (scheduling point)
extern std::function<void(uint64_t)> on_sleep;   // replaces the passing of time
extern std::function<void()> on_blocked;   // a mutex is held by another thread: let it run; else that is a deadlock
extern std::function<void()> on_unlock;
void advance(uint64_t us);
inline void advance_to(uint64_t t) { if (t > now_us) advance(t - now_us); }
}
