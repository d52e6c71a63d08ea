// The simulated world: allocator, disk, threads.
#ifndef SIM_WORLD_HPP
#define SIM_WORLD_HPP

#include "core.hpp"

namespace sim::mem {
// >0 while library code runs on this thread: only then allocations are simulated
extern thread_local int g_in_lib;

struct Lib {
    Lib() { g_in_lib++; }
    ~Lib() { g_in_lib--; }
};
struct Host {
    Host() : m_saved(g_in_lib) { g_in_lib = 0; }
    ~Host() { g_in_lib = m_saved; }
    int m_saved;
};

struct Stats {
    u64 allocs;       // library allocations asked for
    u64 failed;       // of which made to fail
    u64 live_blocks;
    u64 live_bytes;
    u64 peak_bytes;
    u64 bytes;
};
Stats stats();
void reset_peak();
// the byte that fills newly allocated library memory
void set_fill(u8 b);
// Fail the allocations number n1 < n2 < ... counted from now (0 = the next one).
// `burst_from` != ~0: all from that one on.
void plan_failures(vector<u64> nths, u64 burst_from = ~0ULL);
// Calls the hook at the allocations with these numbers (ascending, counted from now); one for which
// it gives true fails, and the rest of the numbers are then forgotten.
void plan_forks(vector<u64> points, std::function<bool(u64)> hook);
void fail_from_now_on();
void no_failures();
u64 failures_fired();
u64 allocs_since_plan();
// The place in the code (a hash of the innermost stack frames) of every library allocation made
// while recording, as small numbers in the order in which the places were met first.
void record_sites(bool on);
vector<u32> take_sites();
// An allocation for a failure: a place chosen evenly among all places, then one of its occurrences
u64 pick_alloc(vector<u32> const& sites, u64 selector);
// `count` allocations of as many different places (ascending)
vector<u64> pick_allocs(vector<u32> const& sites, u64 seed, size_t count);
// Layout of the arena (fast variant): 0 ascending, 1 descending, 2 scattered, 3 scattered with
// immediate reuse. Only before the first library allocation of the process or after reset_layout.
void set_layout(int mode, u64 seed);
// memory errors found by the arena (writes outside a block, double frees); empty when none
char const* corruption();
bool is_lib_ptr(void const* p);
// called at every library allocation when set
extern void (*g_yield_hook)();
void init();
}  // namespace sim::mem

namespace sim::disk {
struct Plan {
    string content;
    vector<Delivery> sched;  // 'd' n bytes per read, 'e' errno n
    int open_errno{0};
    std::shared_ptr<Plan> then;  // what the disk does at the next open of the path
};
struct Stats {
    u64 opens, open_failures, reads, errors, short_reads, closes;
    u64 open_now;
    u64 getdelim_failures;
};
void clear();
void put(string const& path, Plan plan);
Stats stats();
// make the n-th getdelim call from now fail with ENOMEM
void fail_getdelim(u64 nth);
extern void (*g_yield_hook)();
}  // namespace sim::disk

namespace sim::sched {
struct Switch {
    u64 gap;   // yield points passed before this switch
    u32 to;    // index into the runnable threads
};
struct Stats {
    u64 yields, switches, forced;
};
// Runs the bodies on real threads of which exactly one is released at any time.
Stats run(vector<std::function<void()>> bodies, vector<Switch> plan);
void yield();
u64 trace_hash();
}  // namespace sim::sched
#endif
