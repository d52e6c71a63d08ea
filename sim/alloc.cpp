// Simulated allocator behind operator new/delete.
#include <sys/mman.h>
#include <unistd.h>

#include <cstdio>
#include <cstdlib>
#include <new>

#include "world.hpp"

#if defined(__SANITIZE_ADDRESS__) || defined(SIM_PLAIN_MALLOC)
    #define SIM_ARENA 0
#else
    #define SIM_ARENA 1
#endif
#if defined(__SANITIZE_ADDRESS__)
    #include <sanitizer/asan_interface.h>
#else
    #define ASAN_POISON_MEMORY_REGION(a, b) ((void)(a), (void)(b))
    #define ASAN_UNPOISON_MEMORY_REGION(a, b) ((void)(a), (void)(b))
#endif

namespace sim::mem {
thread_local int g_in_lib = 0;
void (*g_yield_hook)() = nullptr;

namespace {
Stats g_stats{};
u8 g_fill = 0xA5;
u64 g_plan[4096];
u32 g_plan_n = 0;
u32 g_plan_i = 0;
u64 g_burst = ~0ULL;
u64 g_count = 0;
u64 g_fired = 0;
bool g_plan_on = false;
char g_corruption[256];

void corrupt(char const* what, void* p, u64 size) {
    if (g_corruption[0] == 0) {
        snprintf(g_corruption, sizeof g_corruption, "%s (block of %llu bytes)", what,
                 static_cast<unsigned long long>(size));
    }
    (void)p;
}

// ---- allocation places
extern "C" char __executable_start;
extern "C" char etext;
extern "C" void* __libc_stack_end;
bool g_rec = false;
constexpr u32 cMaxRec = 1 << 21;
constexpr u32 cSiteTable = 1 << 16;
u32* g_rec_ids = nullptr;
u32 g_rec_n = 0;
u64* g_site_hash = nullptr;
u32* g_site_id = nullptr;
u32 g_sites = 0;

__attribute__((noinline, no_sanitize("address", "thread"))) void record_site() {
    u64 h = 1469598103934665603ULL;
    auto const* fp = static_cast<u64 const*>(__builtin_frame_address(0));
    u64 lo = reinterpret_cast<u64>(fp);
    u64 const hi = reinterpret_cast<u64>(__libc_stack_end);
    int used = 0;
    for (int i = 0; i < 40 && used < 8; i++) {
        u64 ret = fp[1];
        if (ret >= reinterpret_cast<u64>(&__executable_start) && ret < reinterpret_cast<u64>(&etext)) {
            h = (h ^ (ret - reinterpret_cast<u64>(&__executable_start))) * 1099511628211ULL;
            h ^= h >> 29;
            used++;
        }
        u64 next = fp[0];
        if (next <= lo || next >= hi || (next & 7) != 0) {
            break;
        }
        lo = next;
        fp = reinterpret_cast<u64 const*>(next);
    }
    if (h == 0) {
        h = 1;
    }
    if (g_rec_n >= cMaxRec) {
        return;
    }
    u32 slot = static_cast<u32>(h % cSiteTable);
    while (g_site_hash[slot] != 0 && g_site_hash[slot] != h) {
        slot = (slot + 1) % cSiteTable;
    }
    if (g_site_hash[slot] == 0) {
        if (g_sites >= cSiteTable / 2) {
            return;
        }
        g_site_hash[slot] = h;
        g_site_id[slot] = g_sites++;
    }
    g_rec_ids[g_rec_n++] = g_site_id[slot];
}

vector<u64> g_fork_points;
size_t g_fork_i = 0;
std::function<bool(u64)> g_fork_hook;

bool should_fail() {
    u64 k = g_count++;
    if (g_rec) {
        record_site();
    }
    if (!g_plan_on) {
        return false;
    }
    if (g_fork_i < g_fork_points.size() && g_fork_points[g_fork_i] == k) {
        g_fork_i++;
        Host h;
        if (g_fork_hook(k)) {
            g_fork_i = g_fork_points.size();
            g_fired++;
            return true;
        }
        return false;
    }
    if (k >= g_burst) {
        g_fired++;
        return true;
    }
    if (g_plan_i < g_plan_n && g_plan[g_plan_i] == k) {
        g_plan_i++;
        g_fired++;
        return true;
    }
    return false;
}

constexpr u64 cLiveLimit = 3ULL << 30;
constexpr u64 cMagicLive = 0x5117A11C0DE00001ULL;
constexpr u64 cMagicFree = 0x5117A11C0DE0DEADULL;
constexpr u64 cCanary = 0xC0FFEE1234ABCDEFULL;

struct Header {
    u64 magic;
    u64 size;
};

#if SIM_ARENA
u8* g_base = nullptr;
constexpr u64 cArenaSize = 64ULL << 30;
constexpr int cStripes = 64;
constexpr u64 cStripe = cArenaSize / cStripes;
u64 g_up[cStripes];
int g_mode = 0;
u64 g_layout_seed = 0;
u64 g_layout_k = 0;

struct FreeNode {
    Header h;
    FreeNode* next;
};
constexpr int cClasses = 256;
struct Queue {
    FreeNode* head;
    FreeNode* tail;
    u32 n;
};
Queue g_free[cClasses][4];

// class and rounded size
int size_class(u64 n, u64& rounded) {
    if (n < 16) {
        n = 16;
    }
    if (n <= 1024) {
        rounded = (n + 15) & ~15ULL;
        return static_cast<int>(rounded / 16);
    }
    u64 step = 256;
    u64 lim = 2048;
    int c = 65;
    while (true) {
        if (n <= lim) {
            u64 lo = lim / 2;
            u64 k = (n - lo + step - 1) / step;
            rounded = lo + k * step;
            return c + static_cast<int>(k);
        }
        lim *= 2;
        step *= 2;
        c += 4;
        if (c > 240) {
            abort();
        }
    }
}

void* arena_new(u64 n) {
    u64 r = 0;
    int c = size_class(n, r);
    int bucket = 0;
    u32 quarantine = 32;
    if (g_mode >= 2) {
        bucket = static_cast<int>(mix(g_layout_seed, g_layout_k++) & 3);
        quarantine = g_mode == 3 ? 0 : 8;
    }
    Queue& q = g_free[c][bucket];
    Header* h = nullptr;
    if (q.n > quarantine) {
        FreeNode* f = q.head;
        q.head = f->next;
        if (q.head == nullptr) {
            q.tail = nullptr;
        }
        q.n--;
        h = &f->h;
        if (h->magic != cMagicFree) {
            corrupt("write to freed memory", h, h->size);
        }
        // the rest of a freed block must still carry its pattern
        u8* p = reinterpret_cast<u8*>(f + 1);
        u64 lim = std::min<u64>(r, 512);
        u64 bad = 0;
        for (u64 i = sizeof(FreeNode) - sizeof(Header); i < lim; i += 8) {
            u64 word = 0;
            memcpy(&word, p + i - (sizeof(FreeNode) - sizeof(Header)), 8);
            bad |= word ^ 0xDDDDDDDDDDDDDDDDULL;
        }
        if (bad != 0) {
            corrupt("write to freed memory", h, h->size);
        }
    } else {
        u64 total = sizeof(Header) + r + 16;
        int s = 0;
        if (g_mode == 1) {
            s = cStripes - 1;
        } else if (g_mode >= 2) {
            s = static_cast<int>(mix(g_layout_seed, g_layout_k++) % cStripes);
        }
        g_up[s] += total;
        if (g_up[s] > cStripe) {
            abort();
        }
        if (g_mode == 1) {
            h = reinterpret_cast<Header*>(g_base + cArenaSize - g_up[s]);
        } else {
            h = reinterpret_cast<Header*>(g_base + cStripe * s + g_up[s] - total);
        }
    }
    h->magic = cMagicLive;
    h->size = n;
    u8* p = reinterpret_cast<u8*>(h + 1);
    memset(p, g_fill, n);
    memcpy(p + n, &cCanary, 8);
    return p;
}

void arena_free(void* ptr) {
    Header* h = static_cast<Header*>(ptr) - 1;
    if (h->magic != cMagicLive) {
        corrupt(h->magic == cMagicFree ? "double free" : "free of a bad pointer", ptr, 0);
        return;
    }
    u64 n = h->size;
    if (memcmp(static_cast<u8*>(ptr) + n, &cCanary, 8) != 0) {
        corrupt("write past the end of a block", ptr, n);
    }
    g_stats.live_blocks--;
    g_stats.live_bytes -= n;
    u64 r = 0;
    int c = size_class(n, r);
    h->magic = cMagicFree;
    memset(ptr, 0xDD, std::min<u64>(r, 1 << 16));
    int bucket = 0;
    if (g_mode >= 2) {
        bucket = static_cast<int>(mix(g_layout_seed, g_layout_k++) & 3);
    }
    auto* f = reinterpret_cast<FreeNode*>(h);
    f->next = nullptr;
    Queue& q = g_free[c][bucket];
    if (q.tail) {
        q.tail->next = f;
    } else {
        q.head = f;
    }
    q.tail = f;
    q.n++;
}
#endif

void* allocate(size_t n, bool nothrow) {
    if (g_in_lib > 0) {
        g_stats.allocs++;
        if (should_fail()) {
            g_stats.failed++;
            if (nothrow) {
                return nullptr;
            }
            throw std::bad_alloc();
        }
        if (g_yield_hook != nullptr) {
            g_yield_hook();
        }
        if (g_stats.live_bytes + n > cLiveLimit) {
            if (n > cLiveLimit) {
                throw std::bad_alloc();
            }
            static char const msg[] = "simcheck: the library holds more than 3 GB\n";
            (void)!write(2, msg, sizeof msg - 1);
            _exit(71);
        }
        g_stats.live_blocks++;
        g_stats.live_bytes += n;
        g_stats.bytes += n;
        if (g_stats.live_bytes > g_stats.peak_bytes) {
            g_stats.peak_bytes = g_stats.live_bytes;
        }
#if SIM_ARENA
        return arena_new(n);
#else
        auto* h = static_cast<Header*>(malloc(n + sizeof(Header)));
        if (h == nullptr) {
            abort();
        }
        h->magic = cMagicLive;
        h->size = n;
        ASAN_POISON_MEMORY_REGION(h, sizeof(Header));
        memset(static_cast<void*>(h + 1), g_fill, n);
        return h + 1;
#endif
    }
#if SIM_ARENA
    void* p = malloc(n ? n : 1);
    if (p == nullptr) {
        abort();
    }
    return p;
#else
    auto* h = static_cast<Header*>(malloc(n + sizeof(Header)));
    if (h == nullptr) {
        abort();
    }
    h->magic = 0;
    h->size = n;
    ASAN_POISON_MEMORY_REGION(h, sizeof(Header));
    return h + 1;
#endif
}

void release(void* p) {
    if (p == nullptr) {
        return;
    }
#if SIM_ARENA
    if (is_lib_ptr(p)) {
        arena_free(p);
    } else {
        free(p);
    }
#else
    Header* h = static_cast<Header*>(p) - 1;
    ASAN_UNPOISON_MEMORY_REGION(h, sizeof(Header));
    if (h->magic == cMagicLive) {
        g_stats.live_blocks--;
        g_stats.live_bytes -= h->size;
    }
    free(h);
#endif
}
}  // namespace

bool is_lib_ptr(void const* p) {
#if SIM_ARENA
    auto const* b = static_cast<u8 const*>(p);
    return b >= g_base && b < g_base + cArenaSize;
#else
    (void)p;
    return false;
#endif
}

void init() {
#if SIM_ARENA
    if (g_base == nullptr) {
        void* want = reinterpret_cast<void*>(0x100000000000ULL);
        void* p = mmap(want, cArenaSize, PROT_READ | PROT_WRITE,
                       MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        if (p == MAP_FAILED) {
            perror("simcheck: mmap of the arena");
            _exit(70);
        }
        g_base = static_cast<u8*>(p);
    }
#endif
}

void set_layout(int mode, u64 seed) {
#if SIM_ARENA
    g_mode = mode;
    g_layout_seed = seed;
    g_layout_k = 0;
#else
    (void)mode;
    (void)seed;
#endif
}

void set_fill(u8 b) { g_fill = b; }
Stats stats() { return g_stats; }
void reset_peak() { g_stats.peak_bytes = g_stats.live_bytes; }
void plan_failures(vector<u64> nths, u64 burst_from) {
    g_plan_n = 0;
    for (u64 v : nths) {
        if (g_plan_n < 4096) {
            g_plan[g_plan_n++] = v;
        }
    }
    g_plan_i = 0;
    g_burst = burst_from;
    g_count = 0;
    g_fired = 0;
    g_plan_on = true;
    g_fork_i = g_fork_points.size();
}
void plan_forks(vector<u64> points, std::function<bool(u64)> hook) {
    plan_failures({});
    g_fork_points = std::move(points);
    g_fork_hook = std::move(hook);
    g_fork_i = 0;
}
void fail_from_now_on() { g_burst = 0; }
void no_failures() { g_plan_on = false; }
u64 failures_fired() { return g_fired; }
u64 allocs_since_plan() { return g_count; }
void record_sites(bool on) {
    if (on) {
        if (g_rec_ids == nullptr) {
            g_rec_ids = static_cast<u32*>(malloc(cMaxRec * sizeof(u32)));
            g_site_hash = static_cast<u64*>(malloc(cSiteTable * sizeof(u64)));
            g_site_id = static_cast<u32*>(malloc(cSiteTable * sizeof(u32)));
        }
        memset(g_site_hash, 0, cSiteTable * sizeof(u64));
        g_rec_n = 0;
        g_sites = 0;
    }
    g_rec = on;
}
vector<u32> take_sites() {
    g_rec = false;
    return {g_rec_ids, g_rec_ids + g_rec_n};
}
vector<u64> pick_allocs(vector<u32> const& sites, u64 seed, size_t count) {
    vector<vector<u32>> of;
    for (size_t i = 0; i < sites.size(); i++) {
        if (sites[i] >= of.size()) {
            of.resize(sites[i] + 1);
        }
        of[sites[i]].push_back(static_cast<u32>(i));
    }
    vector<u64> out;
    u64 n = of.size();
    u64 start = n ? mix(seed, 0) % n : 0;
    for (u64 j = 0; j < n && j < count; j++) {
        auto const& at = of[(start + j) % n];
        u64 k = mix(seed, j + 1);
        out.push_back(at[k % 2 == 0 ? 0 : (k >> 1) % at.size()]);
    }
    std::sort(out.begin(), out.end());
    return out;
}
u64 pick_alloc(vector<u32> const& sites, u64 selector) {
    if (sites.empty()) {
        return 0;
    }
    u32 n = 0;
    for (u32 v : sites) {
        if (v >= n) {
            n = v + 1;
        }
    }
    u32 site = static_cast<u32>(selector % 65536 % n);
    u64 count = 0;
    for (u32 v : sites) {
        count += v == site ? 1 : 0;
    }
    u64 k = selector / 65536 % count;
    for (u64 i = 0; i < sites.size(); i++) {
        if (sites[i] == site && k-- == 0) {
            return i;
        }
    }
    return 0;
}
char const* corruption() { return g_corruption; }
}  // namespace sim::mem

void* operator new(size_t n) { return sim::mem::allocate(n, false); }
void* operator new[](size_t n) { return sim::mem::allocate(n, false); }
void* operator new(size_t n, std::nothrow_t const&) noexcept { return sim::mem::allocate(n, true); }
void* operator new[](size_t n, std::nothrow_t const&) noexcept {
    return sim::mem::allocate(n, true);
}
void operator delete(void* p) noexcept { sim::mem::release(p); }
void operator delete[](void* p) noexcept { sim::mem::release(p); }
void operator delete(void* p, size_t) noexcept { sim::mem::release(p); }
void operator delete[](void* p, size_t) noexcept { sim::mem::release(p); }
void operator delete(void* p, std::nothrow_t const&) noexcept { sim::mem::release(p); }
void operator delete[](void* p, std::nothrow_t const&) noexcept { sim::mem::release(p); }
