// Core types of the simulator: PRNG, case files, run context.
#ifndef SIM_CORE_HPP
#define SIM_CORE_HPP

#include <cstdint>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>

namespace sim {
using u8 = uint8_t;
using u32 = uint32_t;
using u64 = uint64_t;
using i64 = int64_t;
using std::string;
using std::vector;

u64 mix(u64 a, u64 b);

// Every random choice of the generators comes from one of these. The executor has none.
class Rng {
public:
    explicit Rng(u64 seed) { reseed(seed); }
    void reseed(u64 seed);
    u64 next();
    // [0, n)
    u64 below(u64 n) { return n == 0 ? 0 : next() % n; }
    // [a, b]
    i64 range(i64 a, i64 b) { return a + static_cast<i64>(below(static_cast<u64>(b - a + 1))); }
    bool chance(double p) { return static_cast<double>(next() >> 11) * 0x1.0p-53 < p; }
    template <class T>
    T const& pick(vector<T> const& v) {
        return v[below(v.size())];
    }
    // small numbers most of the time, sometimes large ones
    i64 skewed(i64 max);

private:
    u64 m_s[2]{};
};

struct Rule {
    string name;
    string pattern;
};

struct Schema {
    string delims;         // the delimiter bytes
    vector<Rule> rules;    // in order; name "timestamp" is a timestamp rule
    int delims_at{0};      // number of rules that precede the delimiters line
    bool has_delims{true};
};

// One answer of the simulated reader (or one refill of the simulated buffer feeder)
struct Delivery {
    char kind{'d'};  // 'd' deliver up to n bytes; 'e' return error code n
    u32 n{0};
    u32 arg{0};      // 'e': bit 0: leave the count untouched, bit 1: scribble over dst
};

struct Stream {
    string data;
    vector<Delivery> sched;  // when used up: deliver everything asked for
    u32 eof_form{0};         // 0: EndOfFile/0 bytes, 1: Success/0 bytes
    u64 dirty{0};            // != 0: fill the unused rest of dst with bytes derived from this
};

struct Op {
    string kind;
    vector<i64> a;
    string s;
};

struct Case {
    string prop;
    string variant{"fast"};
    u64 seed{0};
    u64 index{0};
    std::map<string, i64> knobs;
    vector<Schema> schemas;
    vector<Stream> streams;
    vector<Op> ops;

    i64 knob(string const& k, i64 def = 0) const {
        auto it = knobs.find(k);
        return it == knobs.end() ? def : it->second;
    }
};

string esc(string const& s);
string unesc(string const& s);
string to_text(Case const& c);
bool from_text(string const& text, Case& c, string& err);
// schema file text
string schema_text(Schema const& s);
string delims_line(string const& delims);

// Shared between a run and the process that supervises it
constexpr int cMaxCounters = 160;
struct Shared {
    volatile u32 finished;
    volatile u32 failed;
    volatile u64 hash;
    volatile u64 steps;
    volatile u32 skipped;
    volatile u32 nontrivial;
    char klass[96];
    char detail[6000];
    char phase[64];
    u64 counters[cMaxCounters];
};

// A property violation. Thrown out of the executor.
struct Violation {
    string klass;
    string detail;
};

// Run context: the recorded history is hashed as it grows
class Ctx {
public:
    explicit Ctx(Shared* sh) : m_sh(sh) {}
    void log(u64 v) { m_hash = mix(m_hash, v); }
    void log(string const& s);
    u64 hash() const { return m_hash; }
    void count(string const& name, u64 n = 1);
    void step(u64 n = 1) { m_sh->steps = m_sh->steps + n; }
    void phase(char const* p);
    void nontrivial() { m_sh->nontrivial = 1; }
    Shared* shared() { return m_sh; }
    [[noreturn]] void fail(string const& klass, string const& detail);
    // verbose tracing for replays
    bool trace{false};
    // of a simulated thread: counts nothing
    bool quiet{false};
    void tracef(char const* fmt, ...) __attribute__((format(printf, 2, 3)));

private:
    Shared* m_sh;
    u64 m_hash{1469598103934665603ULL};
};

// names of counters, shared by all processes (fixed at start up)
int counter_id(string const& name);
vector<string> counter_names();
void init_shared_names();

string hexdump(string const& s, size_t max = 200);
string show(string const& s, size_t max = 160);
}  // namespace sim
#endif
