// Simulated disk (behind fopen/getdelim) and simulated threads.
#include "world.hpp"

#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/syscall.h>
#include <unistd.h>

#include <map>
#include <thread>

namespace sim::disk {
void (*g_yield_hook)() = nullptr;
namespace {
std::map<string, Plan>& files() {
    static std::map<string, Plan> m;
    return m;
}
Stats g_stats{};
u64 g_getdelim_nth = ~0ULL;
u64 g_getdelim_k = 0;

struct Cookie {
    string content;
    vector<Delivery> sched;
    size_t pos{0};
    size_t i{0};
};

ssize_t cookie_read(void* c, char* buf, size_t size) {
    mem::Host host;
    auto* k = static_cast<Cookie*>(c);
    g_stats.reads++;
    if (g_yield_hook != nullptr) {
        g_yield_hook();
    }
    size_t n = size;
    if (k->i < k->sched.size()) {
        auto const& d = k->sched[k->i++];
        if (d.kind == 'e') {
            g_stats.errors++;
            errno = static_cast<int>(d.n);
            return -1;
        }
        n = std::min<size_t>(n, std::max<u32>(1, d.n));
    }
    size_t left = k->content.size() - k->pos;
    if (n < size && n < left) {
        g_stats.short_reads++;
    }
    n = std::min(n, left);
    memcpy(buf, k->content.data() + k->pos, n);
    k->pos += n;
    return static_cast<ssize_t>(n);
}

int cookie_seek(void* c, off64_t* off, int whence) {
    auto* k = static_cast<Cookie*>(c);
    off64_t base = whence == SEEK_SET ? 0
                   : whence == SEEK_CUR
                           ? static_cast<off64_t>(k->pos)
                           : static_cast<off64_t>(k->content.size());
    off64_t p = base + *off;
    if (p < 0) {
        errno = EINVAL;
        return -1;
    }
    k->pos = std::min<size_t>(static_cast<size_t>(p), k->content.size());
    *off = static_cast<off64_t>(k->pos);
    return 0;
}

int cookie_close(void* c) {
    mem::Host host;
    g_stats.closes++;
    g_stats.open_now--;
    delete static_cast<Cookie*>(c);
    return 0;
}
}  // namespace

void clear() {
    files().clear();
    g_stats = Stats{};
    g_getdelim_nth = ~0ULL;
    g_getdelim_k = 0;
}
void put(string const& path, Plan plan) {
    files()[path] = std::move(plan);
}
Stats stats() {
    return g_stats;
}
void fail_getdelim(u64 nth) {
    g_getdelim_nth = nth;
    g_getdelim_k = 0;
}

FILE* open(char const* path, char const* mode, bool& handled) {
    mem::Host host;
    auto it = files().find(path);
    handled = it != files().end();
    if (!handled) {
        return nullptr;
    }
    g_stats.opens++;
    Plan const plan = it->second;
    if (plan.then != nullptr) {
        it->second = *plan.then;
    }
    if (plan.open_errno != 0) {
        g_stats.open_failures++;
        errno = plan.open_errno;
        return nullptr;
    }
    auto* c = new Cookie{plan.content, plan.sched, 0, 0};
    g_stats.open_now++;
    cookie_io_functions_t fn{};
    fn.read = cookie_read;
    fn.seek = cookie_seek;
    fn.close = cookie_close;
    return fopencookie(c, mode, fn);
}
bool getdelim_fails() {
    if (g_getdelim_k++ == g_getdelim_nth) {
        g_stats.getdelim_failures++;
        return true;
    }
    return false;
}
}  // namespace sim::disk

extern "C" {
FILE* __real_fopen(char const*, char const*);
FILE* __real_fopen64(char const*, char const*);
ssize_t __real_getdelim(char**, size_t*, int, FILE*);

FILE* __wrap_fopen(char const* p, char const* m) {
    bool handled = false;
    FILE* f = sim::disk::open(p, m, handled);
    return handled ? f : __real_fopen(p, m);
}
FILE* __wrap_fopen64(char const* p, char const* m) {
    bool handled = false;
    FILE* f = sim::disk::open(p, m, handled);
    return handled ? f : __real_fopen64(p, m);
}
ssize_t __wrap_getdelim(char** l, size_t* n, int d, FILE* f) {
    if (sim::disk::getdelim_fails()) {
        errno = ENOMEM;
        return -1;
    }
    return __real_getdelim(l, n, d, f);
}
}

namespace sim::sched {
namespace {
int g_turn = -1;  // thread released; written and read around futex calls only
vector<Switch>* g_plan = nullptr;
size_t g_plan_i = 0;
u64 g_left = 0;
Stats g_stats{};
u64 g_hash = 0;
int g_n = 0;
bool g_done[64];
thread_local int g_self = -1;
thread_local int g_no_yield = 0;

void futex_wait(int* addr, int val) {
    syscall(SYS_futex, addr, FUTEX_WAIT_PRIVATE, val, nullptr, nullptr, 0);
}
void futex_wake(int* addr) {
    syscall(SYS_futex, addr, FUTEX_WAKE_PRIVATE, 64, nullptr, nullptr, 0);
}

// thread sanitizer must not learn an ordering from the baton: this file is never instrumented and
// the baton is handed over with plain volatile accesses and raw system calls
void wait_turn(int me) {
    auto* t = const_cast<int volatile*>(&g_turn);
    while (true) {
        int v = *t;
        __asm__ __volatile__("mfence" ::: "memory");
        if (v == me) {
            return;
        }
        futex_wait(&g_turn, v);
    }
}
void give_turn(int to) {
    auto* t = const_cast<int volatile*>(&g_turn);
    __asm__ __volatile__("mfence" ::: "memory");
    *t = to;
    __asm__ __volatile__("mfence" ::: "memory");
    futex_wake(&g_turn);
}

int pick(u32 which, int exclude) {
    int cand[64];
    int n = 0;
    for (int i = 0; i < g_n; i++) {
        if (!g_done[i] && i != exclude) {
            cand[n++] = i;
        }
    }
    if (n == 0) {
        return -1;
    }
    return cand[which % static_cast<u32>(n)];
}

void load_gap() {
    g_left = g_plan_i < g_plan->size() ? (*g_plan)[g_plan_i].gap : ~0ULL;
}

void switch_to(int to) {
    int me = g_self;
    if (to < 0 || to == me) {
        return;
    }
    g_stats.switches++;
    g_hash = mix(g_hash, g_stats.yields * 64 + static_cast<u64>(to));
    give_turn(to);
    wait_turn(me);
}
}  // namespace

void yield() {
    if (g_self < 0 || g_no_yield > 0) {
        return;
    }
    g_stats.yields++;
    if (g_left == ~0ULL) {
        return;
    }
    if (g_left > 0) {
        g_left--;
        return;
    }
    u32 to = (*g_plan)[g_plan_i++].to;
    load_gap();
    switch_to(pick(to, g_self));
}

// the current thread cannot go on (a lock is taken): somebody else must run
static void forced() {
    g_stats.forced++;
    if (g_stats.forced > 1000000) {
        fprintf(stderr, "simcheck: deadlock\n");
        abort();
    }
    switch_to(pick(static_cast<u32>(g_stats.forced), g_self));
}

Stats run(vector<std::function<void()>> bodies, vector<Switch> plan) {
    g_n = static_cast<int>(bodies.size());
    for (int i = 0; i < 64; i++) {
        g_done[i] = i >= g_n;
    }
    g_plan = &plan;
    g_plan_i = 0;
    g_stats = Stats{};
    g_hash = 0;
    load_gap();
    *const_cast<int volatile*>(&g_turn) = -1;
    mem::g_yield_hook = &yield;
    disk::g_yield_hook = &yield;
    vector<std::thread> ts;
    for (int i = 0; i < g_n; i++) {
        ts.emplace_back([i, &bodies] {
            g_self = i;
            wait_turn(i);
            bodies[i]();
            g_done[i] = true;
            int to = pick(0, i);
            g_self = -1;
            give_turn(to >= 0 ? to : -2);
        });
    }
    give_turn(0);
    for (auto& t : ts) {
        t.join();
    }
    mem::g_yield_hook = nullptr;
    disk::g_yield_hook = nullptr;
    return g_stats;
}

u64 trace_hash() {
    return g_hash;
}
}  // namespace sim::sched

// Locks the library may take one day: never block while holding the baton
extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
    if (sim::sched::g_self < 0) {
        return __real_pthread_mutex_lock(m);
    }
    while (true) {
        int r = pthread_mutex_trylock(m);
        if (r != EBUSY) {
            return r;
        }
        sim::sched::forced();
    }
}
int __real_pthread_rwlock_rdlock(pthread_rwlock_t*);
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m) {
    if (sim::sched::g_self < 0) {
        return __real_pthread_rwlock_rdlock(m);
    }
    while (true) {
        int r = pthread_rwlock_tryrdlock(m);
        if (r != EBUSY) {
            return r;
        }
        sim::sched::forced();
    }
}
int __real_pthread_rwlock_wrlock(pthread_rwlock_t*);
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m) {
    if (sim::sched::g_self < 0) {
        return __real_pthread_rwlock_wrlock(m);
    }
    while (true) {
        int r = pthread_rwlock_trywrlock(m);
        if (r != EBUSY) {
            return r;
        }
        sim::sched::forced();
    }
}
int __real_pthread_once(pthread_once_t*, void (*)(void));
int __wrap_pthread_once(pthread_once_t* o, void (*f)(void)) {
    sim::sched::g_no_yield++;
    int r = __real_pthread_once(o, f);
    sim::sched::g_no_yield--;
    return r;
}
int __real___cxa_guard_acquire(void*);
int __wrap___cxa_guard_acquire(void* g) {
    int r = __real___cxa_guard_acquire(g);
    if (r) {
        sim::sched::g_no_yield++;
    }
    return r;
}
void __real___cxa_guard_release(void*);
void __wrap___cxa_guard_release(void* g) {
    sim::sched::g_no_yield--;
    __real___cxa_guard_release(g);
}
void __real___cxa_guard_abort(void*);
void __wrap___cxa_guard_abort(void* g) {
    sim::sched::g_no_yield--;
    __real___cxa_guard_abort(g);
}
}

// "fine" variant: library functions call this when they start and end
extern "C" {
void __cyg_profile_func_enter(void*, void*) __attribute__((no_instrument_function));
void __cyg_profile_func_exit(void*, void*) __attribute__((no_instrument_function));
void __cyg_profile_func_enter(void*, void*) {
    if (sim::mem::g_in_lib > 0) {
        sim::sched::yield();
    }
}
void __cyg_profile_func_exit(void*, void*) {
    if (sim::mem::g_in_lib > 0) {
        sim::sched::yield();
    }
}
}
