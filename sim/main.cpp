// The simulator's command line: search (worker), replay, shrink, case.
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <sstream>
#include <unordered_map>
#include <unordered_set>

#include "props.hpp"

extern "C" char const* __asan_default_options() {
    return "detect_leaks=0:exitcode=99:symbolize=0:allocator_may_return_null=1:"
           "detect_stack_use_after_return=0:print_summary=1:handle_abort=0:"
           "quarantine_size_mb=64:max_malloc_fill_size=0";
}
extern "C" char const* __tsan_default_options() {
    return "exitcode=66:halt_on_error=1:report_signal_unsafe=0:symbolize=0:die_after_fork=0:"
           "report_atomic_races=1:second_deadlock_stack=0:detect_deadlocks=0";
}

namespace sim {
namespace {
double now() {
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch())
            .count();
}

#if defined(SIM_VARIANT)
char const* const cVariant = SIM_VARIANT;
#else
char const* const cVariant = "fast";
#endif

Shared* new_shared() {
    void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS,
                   -1, 0);
    if (p == MAP_FAILED) {
        perror("simcheck: mmap");
        _exit(70);
    }
    return static_cast<Shared*>(p);
}

void clear_run(Shared* s) {
    s->finished = s->failed = s->skipped = s->nontrivial = 0;
    s->hash = s->steps = 0;
    s->klass[0] = s->detail[0] = s->phase[0] = 0;
    memset(s->counters, 0, sizeof s->counters);
}

void put_str(char* dst, size_t cap, string const& s) {
    size_t n = std::min(cap - 1, s.size());
    memcpy(dst, s.data(), n);
    dst[n] = 0;
}

int g_err_fd = -1;  // where runs write stderr

string read_err() {
    string out;
    if (g_err_fd < 0) {
        return out;
    }
    char buf[8192];
    ssize_t n = pread(g_err_fd, buf, sizeof buf, 0);
    if (n > 0) {
        out.assign(buf, static_cast<size_t>(n));
    }
    return out;
}
void clear_err() {
    if (g_err_fd >= 0) {
        struct stat st{};
        if (fstat(g_err_fd, &st) == 0 && st.st_size > 0) {
            (void)!ftruncate(g_err_fd, 0);
        }
    }
}

constexpr int cCpuLimit = 12;
int g_cpu_limit = cCpuLimit;

void limits(int cpu) {
    struct itimerval it{};
    it.it_value.tv_sec = cpu;
    signal(SIGPROF, SIG_DFL);
    setitimer(ITIMER_PROF, &it, nullptr);
    it.it_value.tv_sec = cpu * 8;
    signal(SIGALRM, SIG_DFL);
    setitimer(ITIMER_REAL, &it, nullptr);
}

// Body of a run. Never returns.
[[noreturn]] void body(Shared* sh, std::function<void(Ctx&)> const& f, bool trace) {
    Ctx c(sh);
    c.trace = trace;
    try {
        f(c);
    } catch (Violation const& v) {
        mem::no_failures();
        sh->failed = 1;
        put_str(sh->klass, sizeof sh->klass, v.klass);
        put_str(sh->detail, sizeof sh->detail, v.detail);
    } catch (std::exception const& e) {
        mem::no_failures();
        sh->failed = 1;
        put_str(sh->klass, sizeof sh->klass, "exception");
        put_str(sh->detail, sizeof sh->detail, string("exception out of the library: ") + e.what());
    }
    sh->hash = c.hash();
    sh->finished = 1;
    fflush(stdout);
    _exit(0);
}

// What a finished child means. True: property violated.
bool judge(int status, Shared* sh) {
    if (WIFEXITED(status) && WEXITSTATUS(status) == 0 && sh->finished) {
        return sh->failed != 0;
    }
    string err = read_err();
    string klass;
    if (WIFSIGNALED(status)) {
        int s = WTERMSIG(status);
        klass = s == SIGPROF ? "hang" : s == SIGALRM ? "stall" : string("crash:") + strsignal(s);
        if (s == SIGABRT && err.find("Assertion") != string::npos) {
            klass = "crash:assertion";
        }
    } else {
        int e = WEXITSTATUS(status);
        klass = "exit:" + std::to_string(e);
        if (e == 71) {
            klass = "memory-exhausted";
        } else if (e == 99) {
            klass = "asan";
            size_t p = err.find("AddressSanitizer: ");
            if (p != string::npos) {
                p += 18;
                size_t q = err.find_first_of(" \n:", p);
                klass += ":" + err.substr(p, q - p);
            }
        } else if (e == 66) {
            klass = "tsan";
            size_t p = err.find("ThreadSanitizer: ");
            if (p != string::npos) {
                p += 17;
                size_t q = err.find_first_of("\n(", p);
                klass += ":" + err.substr(p, q - p);
                while (klass.back() == ' ') {
                    klass.pop_back();
                }
            }
        }
    }
    for (char& ch : klass) {
        if (ch == ' ') {
            ch = '-';
        }
    }
    sh->failed = 1;
    put_str(sh->klass, sizeof sh->klass, klass);
    put_str(sh->detail, sizeof sh->detail,
            string("while: ") + (sh->phase[0] ? sh->phase : "running") + "; " + err.substr(0, 4000));
    return true;
}

struct Outcome {
    bool failed{false};
    bool skipped{false};
    string klass;
    string detail;
    u64 hash{0};
};

Outcome outcome(Shared* sh, bool failed) {
    Outcome o;
    o.failed = failed;
    o.skipped = sh->skipped != 0;
    o.hash = sh->hash;
    if (failed) {
        o.klass = sh->klass;
        o.detail = sh->detail;
    }
    return o;
}

void to_err_fd() {
    if (g_err_fd >= 0) {
        dup2(g_err_fd, 2);
    }
}

// A failure while preparing a world is saved without a run
bool runs(Prop const& p, Case const& c) {
    return c.knob("prepare_only") == 0 && (!p.shrink_streams || !c.streams.empty());
}

// Runs exec in a fresh process on the prepared world
bool run_prepared(Prop const& p, World& w, Case const& c, Shared* sh, bool trace = false) {
    clear_run(sh);
    clear_err();
    fflush(stdout);
    pid_t pid = fork();
    if (pid < 0) {
        perror("simcheck: fork");
        _exit(70);
    }
    if (pid == 0) {
        to_err_fd();
        limits(g_cpu_limit);
        body(sh, [&](Ctx& x) {
        if (runs(p, c)) {
            p.exec(w, c, x);
        }
    }, trace);
    }
    int status = 0;
    waitpid(pid, &status, 0);
    return judge(status, sh);
}

void prepare(Prop const& p, World& w, Case const& c, Ctx& x) {
    x.phase("prepare");
    try {
        p.prepare(w, c);
    } catch (std::exception const& e) {
        // this schema is not accepted: not what these properties are about
        x.shared()->skipped = 1;
        put_str(x.shared()->detail, sizeof x.shared()->detail, e.what());
    }
    x.phase("");
}

// prepare and exec in one fresh process
Outcome run_fresh(Prop const& p, Case const& c, Shared* sh, bool trace = false) {
    clear_run(sh);
    clear_err();
    fflush(stdout);
    pid_t pid = fork();
    if (pid < 0) {
        perror("simcheck: fork");
        _exit(70);
    }
    if (pid == 0) {
        if (!trace) {
            to_err_fd();
        }
        limits(g_cpu_limit + g_cpu_limit / 3);
        body(
                sh,
                [&](Ctx& x) {
                    auto* w = new World;  // never destroyed, as in a search
                    prepare(p, *w, c, x);
                    if (!sh->skipped) {
                        if (runs(p, c)) {
                            p.exec(*w, c, x);
                        }
                    }
                },
                trace);
    }
    int status = 0;
    waitpid(pid, &status, 0);
    return outcome(sh, judge(status, sh));
}

string json(string const& s) {
    string o = "\"";
    char b[8];
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') {
            o += '\\';
            o += static_cast<char>(ch);
        } else if (ch < 32 || ch >= 127) {
            snprintf(b, sizeof b, "\\u%04x", ch);
            o += b;
        } else {
            o += static_cast<char>(ch);
        }
    }
    return o + "\"";
}

Case episode_case(Prop const& p, u64 seed, u64 g, u64 k, Case const& base) {
    Rng r(mix(mix(seed, 0xE9150DEULL + g), k + 1));
    Case c = base;
    c.seed = seed;
    c.index = g * 1000000 + k;
    p.gen_episode(r, c);
    return c;
}
u64 prop_seed(Prop const& p, u64 seed) {
    u64 h = seed;
    for (char ch : p.id) {
        h = mix(h, static_cast<u8>(ch));
    }
    return h;
}
Case group_case(Prop const& p, u64 seed, u64 g) {
    Rng r(mix(seed, 0x6209ULL + g * 7919));
    Case c = p.gen_base(r);
    c.prop = p.id;
    c.variant = cVariant;
    c.seed = seed;
    c.index = g * 1000000;
    return c;
}

struct Totals {
    u64 groups, skipped_groups, runs, nontrivial, steps, failures, double_runs, double_mismatch;
    u64 counters[cMaxCounters];
    u64 n_hashes;
};
constexpr u64 cMaxHashes = 4000000;

int worker(Prop const& p, u64 seed0, u64 from, u64 step, u64 groups, double deadline, int max_fail,
           string const& out) {
    u64 seed = prop_seed(p, seed0);
    auto* T = static_cast<Totals*>(mmap(nullptr, sizeof(Totals), PROT_READ | PROT_WRITE,
                                        MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    auto* H = static_cast<u64*>(mmap(nullptr, cMaxHashes * 8, PROT_READ | PROT_WRITE,
                                     MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    Shared* sh = new_shared();
    double t0 = now();
    string tag = std::to_string(from);
    string err_path = out + "/err." + tag;
    g_err_fd = open(err_path.c_str(), O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0644);
    auto save_failure = [&](Case const& c) {
        u64 n = T->failures++;
        string path = out + "/fail." + tag + "." + std::to_string(n) + ".replay";
        std::ofstream f(path, std::ios::binary);
        string d(sh->detail);
        for (char& ch : d) {
            if (ch == '\n') {
                ch = '|';
            }
        }
        f << "# klass " << sh->klass << "\n# detail " << d << "\n" << to_text(c);
    };
    u64 g = from;
    for (u64 n = 0; n < groups; n++, g += step) {
        if (now() - t0 > deadline || T->failures >= static_cast<u64>(max_fail)) {
            break;
        }
        Case base = group_case(p, seed, g);
        clear_run(sh);
        clear_err();
        // one process per group: prepares the parsers, forks the runs
        pid_t pid = fork();
        if (pid < 0) {
            perror("simcheck: fork");
            return 70;
        }
        if (pid == 0) {
            to_err_fd();
            limits(cCpuLimit * 2);
            Ctx pc(sh);
            World w;
            try {
                prepare(p, w, base, pc);
            } catch (Violation const& v) {
                sh->failed = 1;
                put_str(sh->klass, sizeof sh->klass, v.klass);
                put_str(sh->detail, sizeof sh->detail, v.detail);
                base.knobs["prepare_only"] = 1;
                save_failure(base);
                _exit(0);
            }
            if (sh->skipped) {
                T->skipped_groups++;
                sh->finished = 1;
                _exit(0);
            }
            struct itimerval off{};
            setitimer(ITIMER_PROF, &off, nullptr);
            setitimer(ITIMER_REAL, &off, nullptr);
            for (int k = 0; k < p.episodes; k++) {
                if (now() - t0 > deadline) {
                    break;
                }
                Case c = episode_case(p, seed, g, static_cast<u64>(k), base);
                bool bad = run_prepared(p, w, c, sh);
                T->runs++;
                T->steps += sh->steps;
                for (int i = 0; i < cMaxCounters; i++) {
                    T->counters[i] += sh->counters[i];
                }
                if (bad) {
                    save_failure(c);
                    if (T->failures >= static_cast<u64>(max_fail)) {
                        break;
                    }
                    continue;
                }
                if (sh->nontrivial) {
                    T->nontrivial++;
                    if (T->n_hashes < cMaxHashes) {
                        H[T->n_hashes++] = sh->hash;
                    }
                }
                if (T->runs % 97 == 1) {
                    u64 h = sh->hash;
                    u32 f = sh->finished;
                    run_prepared(p, w, c, sh);
                    T->double_runs++;
                    if (sh->hash != h || sh->finished != f) {
                        T->double_mismatch++;
                        std::ofstream(out + "/nondet." + tag + ".replay") << to_text(c);
                    }
                }
            }
            clear_run(sh);
            sh->finished = 1;
            _exit(0);
        }
        int status = 0;
        waitpid(pid, &status, 0);
        T->groups++;
        if (!(WIFEXITED(status) && WEXITSTATUS(status) == 0)) {
            judge(status, sh);
            base.knobs["prepare_only"] = 1;
            save_failure(base);
        }
    }
    close(g_err_fd);
    unlink(err_path.c_str());
    {
        std::ofstream hf(out + "/hashes." + tag, std::ios::binary);
        std::unordered_set<u64> uniq(H, H + T->n_hashes);
        vector<u64> v(uniq.begin(), uniq.end());
        hf.write(reinterpret_cast<char const*>(v.data()), static_cast<long>(v.size() * 8));
    }
    std::ofstream f(out + "/result." + tag + ".json");
    f << "{\"groups\":" << T->groups << ",\"skipped_groups\":" << T->skipped_groups
      << ",\"runs\":" << T->runs << ",\"nontrivial\":" << T->nontrivial << ",\"steps\":" << T->steps
      << ",\"failures\":" << T->failures << ",\"double_runs\":" << T->double_runs
      << ",\"double_mismatch\":" << T->double_mismatch << ",\"wall\":" << now() - t0
      << ",\"counters\":{";
    auto names = counter_names();
    for (size_t i = 0; i < names.size(); i++) {
        f << (i ? "," : "") << json(names[i]) << ":" << T->counters[i];
    }
    f << "}}\n";
    return 0;
}

bool load_case(char const* path, Case& c) {
    std::ifstream in(path, std::ios::binary);
    if (!in) {
        fprintf(stderr, "simcheck: cannot read %s\n", path);
        return false;
    }
    std::stringstream ss;
    ss << in.rdbuf();
    string err;
    if (!from_text(ss.str(), c, err)) {
        fprintf(stderr, "simcheck: %s: %s\n", path, err.c_str());
        return false;
    }
    return true;
}

string temp_err() {
    char path[] = "/tmp/simcheck.err.XXXXXX";
    g_err_fd = mkstemp(path);
    fcntl(g_err_fd, F_SETFL, O_APPEND);
    unlink(path);
    return path;
}

int replay(char const* path, bool trace) {
    Case c;
    if (!load_case(path, c)) {
        return 2;
    }
    Prop const* p = find_prop(c.prop);
    if (p == nullptr) {
        fprintf(stderr, "simcheck: unknown property %s\n", c.prop.c_str());
        return 2;
    }
    Shared* sh = new_shared();
    if (!trace) {
        temp_err();
    }
    Outcome o = run_fresh(*p, c, sh, trace);
    if (o.skipped && !o.failed) {
        printf("RESULT skipped detail=%s\n", sh->detail);
        return 0;
    }
    if (!o.failed) {
        printf("RESULT ok hash=%016llx steps=%llu nontrivial=%u\n",
               static_cast<unsigned long long>(o.hash), static_cast<unsigned long long>(sh->steps),
               sh->nontrivial);
        return 0;
    }
    printf("RESULT violation klass=%s hash=%016llx\n%s\n", o.klass.c_str(),
           static_cast<unsigned long long>(o.hash), o.detail.c_str());
    return 1;
}

// ---- minimising
struct Shrinker {
    Prop const& p;
    string klass;
    double deadline;
    Shared* sh;
    u64 tried{0};

    using Test = std::function<bool(Case const&)>;

    bool late() const { return now() > deadline; }

    template <class V, class Get>
    bool ddmin(Case& c, Get get, Test const& test) {
        bool progress = false;
        size_t n = get(c).size();
        size_t chunk = std::max<size_t>(1, n / 2);
        if (n == 0) {
            return false;
        }
        while (true) {
            bool any = false;
            for (size_t at = 0; at < get(c).size() && !late();) {
                Case t = c;
                V& v = get(t);
                size_t k = std::min(chunk, v.size() - at);
                v.erase(v.begin() + static_cast<long>(at), v.begin() + static_cast<long>(at + k));
                if (test(t)) {
                    c = std::move(t);
                    any = progress = true;
                } else {
                    at += chunk;
                }
            }
            if (late()) {
                break;
            }
            if (chunk == 1) {
                if (!any) {
                    break;
                }
            } else {
                chunk = std::max<size_t>(1, chunk / 2);
            }
        }
        return progress;
    }

    bool try_set(Case& c, Test const& test, std::function<bool(Case&)> const& change) {
        if (late()) {
            return false;
        }
        Case t = c;
        if (!change(t)) {
            return false;
        }
        if (test(t)) {
            c = std::move(t);
            return true;
        }
        return false;
    }

    // everything that keeps the prepared world valid
    bool inner(Case& c, Test const& test) {
        bool progress = false;
        progress |= ddmin<vector<Op>>(c, [](Case& k) -> vector<Op>& { return k.ops; }, test);
        if (p.shrink_streams) {
            for (size_t i = c.streams.size(); i-- > 0;) {
                progress |= try_set(c, test, [&](Case& t) {
                    if (t.streams[i].data.empty() && t.streams[i].sched.empty()) {
                        return false;
                    }
                    t.streams[i] = Stream{};
                    return true;
                });
            }
        }
        for (size_t i = 0; i < c.streams.size(); i++) {
            progress |= try_set(c, test, [&](Case& t) {
                bool ch = !t.streams[i].sched.empty();
                t.streams[i].sched.clear();
                return ch;
            });
            progress |= try_set(c, test, [&](Case& t) {
                bool ch = t.streams[i].dirty != 0;
                t.streams[i].dirty = 0;
                return ch;
            });
            progress |= try_set(c, test, [&](Case& t) {
                bool ch = t.streams[i].eof_form != 0;
                t.streams[i].eof_form = 0;
                return ch;
            });
            progress |= ddmin<string>(
                    c, [i](Case& k) -> string& { return k.streams[i].data; }, test);
            progress |= ddmin<vector<Delivery>>(
                    c, [i](Case& k) -> vector<Delivery>& { return k.streams[i].sched; }, test);
            // simpler bytes
            if (c.streams[i].data.size() < 300) {
                for (size_t k = 0; k < c.streams[i].data.size(); k++) {
                    progress |= try_set(c, test, [&](Case& t) {
                        char& ch = t.streams[i].data[k];
                        if (ch == 'x' || ch == '\n') {
                            return false;
                        }
                        ch = 'x';
                        return true;
                    });
                }
            }
            for (size_t k = 0; k < c.streams[i].sched.size() && k < 100; k++) {
                progress |= try_set(c, test, [&](Case& t) {
                    auto& d = t.streams[i].sched[k];
                    bool ch = d.arg != 0;
                    d.arg = 0;
                    return ch;
                });
            }
        }
        for (size_t i = 0; i < c.ops.size(); i++) {
            progress |= ddmin<string>(c, [i](Case& k) -> string& { return k.ops[i].s; }, test);
            for (size_t k = 0; k < c.ops[i].a.size(); k++) {
                for (i64 v : {0, 1, 2}) {
                    if (c.ops[i].a[k] > v
                        && try_set(c, test, [&](Case& t) {
                               t.ops[i].a[k] = v;
                               return true;
                           }))
                    {
                        progress = true;
                        break;
                    }
                }
            }
        }
        return progress;
    }

    bool outer(Case& c, Test const& test) {
        bool progress = false;
        for (auto const& [k, vals] : p.shrink_knobs) {
            for (i64 v : vals) {
                if (c.knob(k) == v) {
                    break;
                }
                if (try_set(c, test, [&](Case& t) {
                        t.knobs[k] = v;
                        return true;
                    }))
                {
                    progress = true;
                    break;
                }
            }
        }
        if (p.shrink_rules) {
            for (size_t s = 0; s < c.schemas.size(); s++) {
                progress |= ddmin<vector<Rule>>(
                        c, [s](Case& k) -> vector<Rule>& { return k.schemas[s].rules; }, test);
                if (c.schemas[s].delims_at != 0) {
                    progress |= try_set(c, test, [&](Case& t) {
                        t.schemas[s].delims_at = 0;
                        return true;
                    });
                }
                for (size_t d = 0; d < c.schemas[s].delims.size(); d++) {
                    if (c.schemas[s].delims[d] != '\n') {
                        if (try_set(c, test, [&](Case& t) {
                                t.schemas[s].delims.erase(d, 1);
                                return true;
                            }))
                        {
                            progress = true;
                            d--;
                        }
                    }
                }
            }
        }
        return progress;
    }
};

int shrink(char const* path, char const* out, double secs) {
    Case c;
    if (!load_case(path, c)) {
        return 2;
    }
    Prop const* p = find_prop(c.prop);
    if (p == nullptr) {
        return 2;
    }
    temp_err();
    Shared* sh = new_shared();
    Outcome o = run_fresh(*p, c, sh);
    if (!o.failed) {
        printf("RESULT ok: nothing to shrink\n");
        return 2;
    }
    string klass = o.klass;
    if (klass == "hang" || klass == "stall") {
        g_cpu_limit = 3;
    }
    double deadline = now() + secs;
    auto* tried = static_cast<u64*>(mmap(nullptr, 4096, PROT_READ | PROT_WRITE,
                                         MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    Shrinker s{*p, klass, deadline, sh};
    string tmp = string(out) + ".tmp";
    auto size_of = [](Case const& k) { return to_text(k).size(); };
    for (int round = 0; round < 6 && !s.late(); round++) {
        size_t before = size_of(c);
        // parsers prepared once, candidates run in forked children
        fflush(stdout);
        pid_t pid = fork();
        if (pid == 0) {
            to_err_fd();
            World w;
            Ctx pc(sh);
            try {
                prepare(*p, w, c, pc);
            } catch (Violation const&) {
                _exit(3);
            }
            if (sh->skipped) {
                _exit(3);
            }
            auto test = [&](Case const& t) {
                if (p->plausible && !p->plausible(t)) {
                    return false;
                }
                (*tried)++;
                return run_prepared(*p, w, t, sh) && klass == sh->klass;
            };
            if (test(c)) {
                s.inner(c, test);
                std::ofstream(tmp, std::ios::binary) << to_text(c);
                _exit(0);
            }
            _exit(3);
        }
        int status = 0;
        waitpid(pid, &status, 0);
        if (WIFEXITED(status) && WEXITSTATUS(status) == 0) {
            Case t;
            if (load_case(tmp.c_str(), t)) {
                c = t;
            }
        }
        unlink(tmp.c_str());
        s.outer(c, [&](Case const& t) {
            if (p->plausible && !p->plausible(t)) {
                return false;
            }
            (*tried)++;
            Outcome q = run_fresh(*p, t, sh);
            return q.failed && q.klass == klass;
        });
        if (size_of(c) == before) {
            break;
        }
    }
    g_cpu_limit = cCpuLimit;
    o = run_fresh(*p, c, sh);
    string d = o.detail;
    for (char& ch : d) {
        if (ch == '\n') {
            ch = '|';
        }
    }
    std::ofstream f(out, std::ios::binary);
    f << "# klass " << o.klass << "\n# detail " << d << "\n# minimised in " << *tried
      << " simulated runs\n"
      << to_text(c);
    f.close();
    printf("RESULT shrunk klass=%s hash=%016llx tried=%llu\n%s\n", o.klass.c_str(),
           static_cast<unsigned long long>(o.hash), static_cast<unsigned long long>(*tried),
           o.detail.c_str());
    return o.failed && o.klass == klass ? 0 : 2;
}
}  // namespace
}  // namespace sim

int main(int argc, char** argv) {
    using namespace sim;
    // the same addresses in every execution
    int pers = personality(0xffffffff);
    if (pers != -1 && (pers & ADDR_NO_RANDOMIZE) == 0 && getenv("SIMCHECK_REEXEC") == nullptr) {
        if (personality(static_cast<unsigned long>(pers) | ADDR_NO_RANDOMIZE) != -1) {
            setenv("SIMCHECK_REEXEC", "1", 1);
            execv("/proc/self/exe", argv);
        }
    }
    mem::init();
    init_shared_names();
    register_parse();
    register_event();
    register_schema();
    register_env();
    register_misc();
    register_query();
    vector<string> a(argv + 1, argv + argc);
    auto opt = [&](string const& k, string const& def) {
        for (size_t i = 0; i + 1 < a.size(); i++) {
            if (a[i] == "--" + k) {
                return a[i + 1];
            }
        }
        return def;
    };
    auto num = [&](string const& k, u64 def) {
        string v = opt(k, "");
        return v.empty() ? def : strtoull(v.c_str(), nullptr, 10);
    };
    if (a.empty()) {
        fprintf(stderr, "usage: simcheck worker|replay|shrink|case ...\n");
        return 2;
    }
    if (a[0] == "list") {
        for (auto const& p : registry()) {
            printf("%s\n", p.id.c_str());
        }
        return 0;
    }
    if (a[0] == "worker") {
        Prop const* p = find_prop(opt("prop", ""));
        if (p == nullptr) {
            fprintf(stderr, "simcheck: unknown property\n");
            return 2;
        }
        return worker(*p, num("seed", 1), num("from", 0), num("step", 1), num("groups", 1),
                      atof(opt("deadline", "60").c_str()), static_cast<int>(num("max-fail", 3)),
                      opt("out", "."));
    }
    if (a[0] == "case") {
        Prop const* p = find_prop(opt("prop", ""));
        if (p == nullptr) {
            return 2;
        }
        u64 seed = prop_seed(*p, num("seed", 1));
        u64 g = num("group", 0);
        Case c = episode_case(*p, seed, g, num("episode", 0), group_case(*p, seed, g));
        printf("%s", to_text(c).c_str());
        return 0;
    }
    if (a[0] == "replay" && a.size() >= 2) {
        return replay(a[1].c_str(), a.size() > 2 && a[2] == "--trace");
    }
    if (a[0] == "shrink" && a.size() >= 3) {
        return shrink(a[1].c_str(), a[2].c_str(), atof(opt("secs", "45").c_str()));
    }
    fprintf(stderr, "simcheck: bad arguments\n");
    return 2;
}
