// Run-time for the library compiled with memory-access instrumentation (-fsanitize=thread, but linked with these
// hooks instead of libtsan): every access is seen, shared accesses are logged, and threads are scheduled by hand.
#pragma once
#include "core.hpp"
#include <map>
#include <pthread.h>
#include <semaphore.h>
namespace mt {
struct Acc { uint8_t r = 0, w = 0; uint32_t rlocks = ~0u, wlocks = ~0u; };
struct Thread {
    int id = 0; bool on = false; int depth = 0, once = 0; uint32_t locks = 0; uint64_t accesses = 0, points = 0; bool sync = false, wrote_input = false;
    uintptr_t stk_lo = 0, stk_hi = 0, prv_lo = 0, prv_hi = 0, len_lo = 0, len_hi = 0, in_lo = 0, in_hi = 0, ar_lo = 0, ar_hi = 0; uint8_t *bump = nullptr;
    std::map<uintptr_t, Acc> shared; bool logging = false; std::vector<uint64_t> per_depth;  // entries seen at each call depth
    int maxdepth = 0; long preempt_at = -1; sem_t go; bool finished = false; Thread *other = nullptr; sem_t *ctl = nullptr;  // ctl: a controller decides who runs next
};
extern thread_local Thread *self;
void yield_now();                       // hand the baton to the other thread and wait for it to come back
void point();                           // a scheduling point was reached
extern bool all_points;                 // every access outside a thread's own memory and every synchronisation operation is a scheduling point
void add_conflict(uintptr_t a);         // accesses to this address become scheduling points
}
