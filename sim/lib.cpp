#include "lib.hpp"

#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <signal.h>
#include <unistd.h>

#include <algorithm>
#include <cerrno>

namespace sim {
using mem::Host;
using mem::Lib;

namespace {
bool is_ts_name(string const& n) {
    return n == "firstTimestamp" || n == "newLineTimestamp";
}

struct Names {
    vector<std::pair<u32, string>> list;
};

template <class F>
auto in_lib(F&& f) {
    Lib l;
    return f();
}

vector<string> type_names(ls::Token const& t, ls::LogParser const& p) {
    vector<string> out;
    if (t.m_type_ids_ptr == nullptr) {
        out.push_back("(null)");
        return out;
    }
    for (u32 id : *t.m_type_ids_ptr) {
        string n;
        try {
            n = in_lib([&] { return p.get_id_symbol(id); });
        } catch (std::out_of_range const&) {
            n = "(bad id " + std::to_string(id) + ")";
        }
        // the same name may appear once per rule of that name
        if (std::find(out.begin(), out.end(), n) == out.end()) {
            out.push_back(n);
        }
    }
    if (out.empty()) {
        out.push_back("(none)");
    }
    return out;
}
string own(string const& s) {
    return string(s.data(), s.size());
}
}  // namespace

bool g_capture_lines = false;

EvRec capture(ls::LogEventView const& v, ls::LogParser const& p) {
    EvRec e;
    e.text = own(in_lib([&] { return v.to_string(); }));
    auto const& ob = v.get_log_output_buffer();
    e.has_ts = ob->has_timestamp();
    e.has_delims = ob->has_delimiters();
    ls::Token* ts = in_lib([&] { return v.get_timestamp(); });
    if (ts != nullptr) {
        e.ts = own(in_lib([&] { return ts->to_string(); }));
    }
    if ((ts != nullptr) != e.has_ts) {
        e.ts += "(timestamp token inconsistent)";
    }
    e.multiline = v.is_multiline();
    e.logtype = own(in_lib([&] { return v.get_logtype(); }));
    for (u32 i = e.has_ts ? 0 : 1; i < ob->pos(); i++) {
        ls::Token& t = ob->get_mutable_token(i);
        TokRec r;
        r.text = own(in_lib([&] { return t.to_string(); }));
        r.types = type_names(t, p);
        r.line = g_capture_lines ? t.m_line : 0;
        e.toks.push_back(std::move(r));
    }
    for (auto const& [id, name] : p.m_lexer.m_id_symbol) {
        auto const& list = in_lib([&]() -> auto const& { return v.get_variables(id); });
        if (list.empty()) {
            continue;
        }
        auto& dst = e.vars[name];
        for (ls::Token* t : list) {
            dst.push_back(own(in_lib([&] { return t->to_string(); })));
        }
    }
    return e;
}

string describe(EvRec const& e) {
    string o = "{text=" + show(e.text) + " ts=" + (e.has_ts ? show(e.ts) : "-") + " multiline="
               + (e.multiline ? "1" : "0")
               + (e.has_delims ? "" : " (no delimiters)") + " logtype=" + show(e.logtype) + " tokens=[";
    size_t k = 0;
    for (auto const& t : e.toks) {
        if (k++ > 20) {
            o += "...";
            break;
        }
        o += show(t.text, 60) + ":" + (t.line ? "line" + std::to_string(t.line) + ":" : "");
        for (auto const& n : t.types) {
            o += n + ",";
        }
        o += " ";
    }
    return o + "]}";
}

string diff(vector<EvRec> const& want, vector<EvRec> const& got, char const* wn, char const* gn) {
    size_t n = std::max(want.size(), got.size());
    for (size_t i = 0; i < n; i++) {
        if (i < want.size() && i < got.size() && want[i] == got[i]) {
            continue;
        }
        string what = "number of events";
        if (i < want.size() && i < got.size()) {
            auto const& a = want[i];
            auto const& b = got[i];
            what = a.text != b.text             ? "text"
                   : a.has_ts != b.has_ts || a.ts != b.ts ? "timestamp"
                   : a.toks != b.toks           ? "tokens"
                   : a.multiline != b.multiline ? "multi-line flag"
                   : a.logtype != b.logtype     ? "log type"
                                                : "variable lists";
        }
        return "event " + std::to_string(i) + " differs in " + what + ": " + wn + " "
               + (i < want.size() ? describe(want[i]) : "(none)") + " " + gn + " "
               + (i < got.size() ? describe(got[i]) : "(none)");
    }
    return "";
}

MEvent canon(EvRec const& e) {
    MEvent m;
    m.text = e.text;
    m.has_ts = e.has_ts;
    m.ts = e.ts;
    m.multiline = e.multiline;
    m.logtype = canon_newline(e.logtype);
    size_t i = 0;
    for (auto const& t : e.toks) {
        bool lead = i++ == 0 && e.has_ts;
        string const& n = t.types[0];
        if (lead && is_ts_name(n)) {
            continue;
        }
        if (n == "$UncaughtString" || n == "newLine") {
            continue;
        }
        MVar v;
        v.text = t.text;
        for (auto const& k : t.types) {
            if (k == n || !is_ts_name(k)) {
                v.types.push_back(k);
            }
        }
        m.vars.push_back(std::move(v));
    }
    return m;
}

vector<MEvent> canon(vector<EvRec> const& v) {
    vector<MEvent> o;
    for (auto const& e : v) {
        o.push_back(canon(e));
    }
    return o;
}

void check_view(ls::LogEventView const& v, ls::LogParser const& p, Ctx& c) {
    auto const& ob = v.get_log_output_buffer();
    bool has_ts = ob->has_timestamp();
    u32 start = has_ts ? 0 : 1;
    string text = own(in_lib([&] { return v.to_string(); }));
    string cat;
    string want_lt;
    std::map<u32, vector<ls::Token*>> lists;
    size_t ts_len = 0;
    if (ob->pos() < start) {
        c.fail("view", "event without a token position");
    }
    for (u32 i = start; i < ob->pos(); i++) {
        ls::Token& t = ob->get_mutable_token(i);
        string s = own(in_lib([&] { return t.to_string(); }));
        std::string_view sv = in_lib([&] { return t.to_string_view(); });
        if (s != sv) {
            c.fail("token", "to_string " + show(s) + " but to_string_view " + show(string(sv)));
        }
        // asking twice gives the same
        if (s != own(in_lib([&] { return t.to_string(); }))) {
            c.fail("token", "to_string differs when repeated: " + show(s));
        }
        u32 len = in_lib([&] { return t.get_length(); });
        if (len != s.size()) {
            c.fail("token", "get_length " + std::to_string(len) + " but text " + show(s));
        }
        for (u32 k = 0; k < s.size() && k < 256; k++) {
            if (in_lib([&] { return t.get_char(static_cast<u8>(k)); }) != s[k]) {
                c.fail("token", "get_char(" + std::to_string(k) + ") disagrees with " + show(s));
            }
        }
        if (!s.empty() && own(in_lib([&] { return t.get_delimiter(); })) != s.substr(0, 1)) {
            c.fail("token", "get_delimiter disagrees with " + show(s));
        }
        // a copy of the token reads the same
        {
            ls::Token copy = in_lib([&] { return t; });
            if (own(in_lib([&] { return copy.to_string(); })) != s) {
                c.fail("token", "a copied token reads differently from " + show(s));
            }
            Lib l;
            copy.m_wrap_around_string = {};
        }
        if (t.m_start_pos > t.m_end_pos) {
            c.count("probe.token_wraps_buffer");
        }
        cat += s;
        auto names = type_names(t, p);
        u32 id = t.m_type_ids_ptr->at(0);
        lists[id].push_back(&t);
        if (i == 0) {
            ts_len = s.size();
            if (!is_ts_name(names[0])) {
                c.fail("view", "the event has a timestamp but its first token is " + names[0]);
            }
            continue;
        }
        if (is_ts_name(names[0])) {
            c.fail("view", "timestamp token inside an event");
        }
        if (names[0] == "$UncaughtString") {
            want_lt += s;
        } else if (names[0] == "newLine") {
            want_lt += "\n";
        } else {
            if (!s.empty() && p.m_lexer.is_delimiter(static_cast<u8>(s[0]))) {
                want_lt += s[0];
            }
            want_lt += "<" + names[0] + ">";
        }
    }
    if (cat != text) {
        c.fail("view", "tokens concatenate to " + show(cat) + " but the text is " + show(text));
    }
    ls::Token* ts = in_lib([&] { return v.get_timestamp(); });
    if ((ts != nullptr) != has_ts) {
        c.fail("view", "get_timestamp and has_timestamp disagree");
    }
    if (ts != nullptr) {
        string s = own(in_lib([&] { return ts->to_string(); }));
        if (text.compare(0, s.size(), s) != 0 || s.empty()) {
            c.fail("view", "timestamp " + show(s) + " is not how the event starts: " + show(text));
        }
    }
    bool ml = false;
    if (has_ts) {
        size_t nl = text.find('\n', ts_len);
        ml = nl != string::npos && nl + 1 < text.size();
    }
    if (v.is_multiline() != ml) {
        c.fail("multiline", string("is_multiline is ") + (v.is_multiline() ? "true" : "false")
                                    + " for " + show(text));
    }
    string lt = own(in_lib([&] { return v.get_logtype(); }));
    if (canon_newline(lt) != canon_newline(want_lt)) {
        c.fail("logtype", "log type " + show(lt) + " expected " + show(want_lt));
    }
    for (auto const& [id, name] : p.m_lexer.m_id_symbol) {
        auto const& got = in_lib([&]() -> auto const& { return v.get_variables(id); });
        auto const& want = lists[id];
        if (got.size() != want.size()) {
            c.fail("lists", "get_variables(" + name + ") has " + std::to_string(got.size())
                                    + " entries, the event has " + std::to_string(want.size())
                                    + " such tokens: " + show(text));
        }
        for (size_t k = 0; k < got.size(); k++) {
            string a = own(in_lib([&] { return got[k]->to_string(); }));
            string b = own(in_lib([&] { return want[k]->to_string(); }));
            if (a != b || got[k]->m_type_ids_ptr->at(0) != id) {
                c.fail("lists", "get_variables(" + name + ")[" + std::to_string(k) + "] is "
                                        + show(a) + " instead of " + show(b));
            }
        }
        auto sid = in_lib([&] { return p.get_symbol_id(name); });
        if (!sid.has_value() || *sid != id) {
            c.fail("lists", "get_symbol_id(" + name + ") does not give back its id");
        }
    }
}

ls::ErrorCode Source::operator()(char* dst, size_t n, size_t& got) {
    Host host;
    calls++;
    m_c.step();
    if (yield != nullptr) {
        yield();
    }
    if (n == 0) {
        zero_requests++;
    }
    if (end_signalled) {
        reads_after_end++;
    }
    auto scribble = [&](size_t from) {
        static char const soup[] = "\n0 1a:2\n,5-\t x\n";
        u64 h = m_s.dirty;
        for (size_t k = from; k < n; k++) {
            if ((k & 7) == 0) {
                h = mix(h, k + calls);
            }
            dst[k] = soup[(h >> ((k & 7) * 8)) % (sizeof soup - 1)];
        }
    };
    Delivery d{'d', 0xFFFFFFFFu, 0};
    if (i < m_s.sched.size()) {
        d = m_s.sched[i++];
    }
    if (d.kind == 'e') {
        errors++;
        last_error = static_cast<int>(d.n);
        if ((d.arg & 1) == 0) {
            got = 0;
        }
        if ((d.arg & 2) != 0 && m_s.dirty != 0) {
            scribble(0);
        }
        m_c.log(0xE0 + d.n);
        m_c.tracef("  reader: asked %zu -> error %u", n, d.n);
        m_c.count("fault.reader_error");
        requests.emplace_back(n, 0);
        return static_cast<ls::ErrorCode>(d.n);
    }
    size_t left = m_s.data.size() - pos;
    size_t k = std::min<size_t>({n, std::max<u32>(1, d.n), left});
    if (k < n && left > k) {
        short_reads++;
        m_c.count("fault.short_read");
    }
    memcpy(dst, m_s.data.data() + pos, k);
    pos += k;
    if (m_s.dirty != 0 && k < n) {
        scribble(k);
        m_c.count("fault.dirty_tail");
    }
    got = k;
    m_c.log(k * 131 + n);
    m_c.tracef("  reader: asked %zu -> %zu bytes (%zu left)", n, k, left - k);
    requests.emplace_back(n, k);
    if (k == 0 && n > 0) {
        end_signalled = true;
        m_c.log(m_s.eof_form + 77);
        if (m_s.eof_form == 0) {
            return ls::ErrorCode::EndOfFile;
        }
        m_c.count("fault.eof_as_empty_success");
    }
    return ls::ErrorCode::Success;
}

ls::Reader reader_for(Source& s) {
    return ls::Reader{[&s](char* b, size_t n, size_t& g) -> ls::ErrorCode { return s(b, n, g); }};
}

std::unique_ptr<ls::SchemaAST> load_schema_string(string const& text) {
    Lib l;
    return ls::SchemaParser::try_schema_string(text);
}

SizeGuard::SizeGuard(Sizes z) {
    if (z.bytes) {
        ls::Buffer<char>::sim_static_size = z.bytes;
    }
    if (z.tokens) {
        ls::Buffer<ls::Token>::sim_static_size = z.tokens;
    }
}
SizeGuard::~SizeGuard() {
    ls::Buffer<char>::sim_static_size = ls::cStaticByteBuffSize;
    ls::Buffer<ls::Token>::sim_static_size = ls::cStaticByteBuffSize;
}

std::unique_ptr<ls::ReaderParser> make_reader_parser(Schema const& s, Sizes z) {
    string text = schema_text(s);
    auto ast = load_schema_string(text);
    SizeGuard g(z);
    Lib l;
    return std::make_unique<ls::ReaderParser>(std::move(ast));
}

std::unique_ptr<ls::BufferParser> make_buffer_parser(Schema const& s, Sizes z) {
    string text = schema_text(s);
    auto ast = load_schema_string(text);
    SizeGuard g(z);
    Lib l;
    return std::make_unique<ls::BufferParser>(std::move(ast));
}

void set_reader(ls::ReaderParser& p, Source& src) {
    ls::Reader rd = reader_for(src);
    Lib l;
    p.reset_and_set_reader(rd);
}

ls::ErrorCode parse_next(ls::ReaderParser& p) {
    Lib l;
    return p.parse_next_event();
}

ls::ErrorCode
parse_next(ls::BufferParser& p, char* buf, size_t size, size_t& off, bool fin) {
    Lib l;
    return p.parse_next_event(buf, size, off, fin);
}

Drain drain(ls::ReaderParser& p, Source& src, Stream const& s, Ctx& c, DrainOpts const& o) {
    Drain d;
    u64 nerr = 0;
    for (auto const& x : s.sched) {
        nerr += x.kind == 'e' ? 1 : 0;
    }
    u64 max_calls = o.max_calls ? o.max_calls : s.data.size() + 2 + nerr;
    u64 seen_errors = src.errors;
    while (!p.done() && d.ev.size() < o.max_events) {
        if (d.calls >= max_calls) {
            c.fail("no-progress", "not done after " + std::to_string(d.calls) + " calls on "
                                          + std::to_string(s.data.size()) + " bytes");
        }
        d.calls++;
        c.step();
        ls::ErrorCode e = parse_next(p);
        if (ls::ErrorCode::Success != e) {
            int code = static_cast<int>(e);
            c.log(0x1000 + code);
            c.tracef("parse -> error %d", code);
            if (src.errors == seen_errors) {
                c.fail("invented-error", "parse_next_event returned " + std::to_string(code)
                                                 + " although the reader did not fail");
            }
            if (code != src.last_error) {
                c.fail("wrong-error", "the reader failed with " + std::to_string(src.last_error)
                                              + " but parse_next_event returned "
                                              + std::to_string(code));
            }
            if (p.done()) {
                c.fail("done-after-error", "done() after a reader error");
            }
            if (src.errors != seen_errors + 1) {
                c.fail("swallowed-error", "a reader error was not returned");
            }
            seen_errors = src.errors;
            d.errors.push_back(code);
            continue;
        }
        if (src.errors != seen_errors) {
            c.fail("swallowed-error", "the reader failed with " + std::to_string(src.last_error)
                                              + " but parse_next_event returned success");
        }
        auto const& view = p.get_log_parser().get_log_event_view();
        if (o.check_views) {
            check_view(view, p.get_log_parser(), c);
        }
        if (o.capture) {
            EvRec e2 = capture(view, p.get_log_parser());
            c.log(e2.text);
            c.log(e2.logtype);
            c.tracef("parse -> %s%s", describe(e2).c_str(), p.done() ? " done" : "");
            d.ev.push_back(std::move(e2));
        } else {
            d.ev.emplace_back();
        }
        if (d.ev.back().text.empty() && o.capture) {
            if (!p.done()) {
                c.fail("empty-event", "an empty event that is not the last");
            }
            if (!o.keep_empty_last) {
                d.ev.pop_back();
            }
        }
    }
    d.done = p.done();
    return d;
}

EdgeBuf::EdgeBuf(string const& content, size_t slack, u64 slack_seed) {
    m_n = content.size();
    m_slack = slack;
    size_t total = m_n + slack;
    m_copy = content;
    static char const soup[] = "\n0 1a:2\n,5-\t x\n";
    u64 h = slack_seed;
    for (size_t k = 0; k < slack; k++) {
        h = mix(h, k);
        m_copy += soup[h % (sizeof soup - 1)];
    }
#if defined(__SANITIZE_ADDRESS__)
    m_p = static_cast<char*>(malloc(total ? total : 1));
    m_map = m_p;
#else
    size_t page = 4096;
    size_t body = (total + page - 1) / page * page + page;
    m_map_len = body + page;
    m_map = static_cast<char*>(
            mmap(nullptr, m_map_len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    if (m_map == MAP_FAILED) {
        abort();
    }
    mprotect(m_map + body, page, PROT_NONE);
    m_p = m_map + body - total;
#endif
    memcpy(m_p, m_copy.data(), total);
}

EdgeBuf::~EdgeBuf() {
#if defined(__SANITIZE_ADDRESS__)
    free(m_map);
#else
    munmap(m_map, m_map_len);
#endif
}

bool EdgeBuf::unchanged() const {
    return memcmp(m_p, m_copy.data(), m_copy.size()) == 0;
}

void check_memory(Ctx& c) {
    if (mem::corruption()[0] != 0) {
        c.fail("memory", mem::corruption());
    }
}

void sweep_failures(Ctx& x, char const* what, vector<u64> points, bool burst,
                    std::function<void(bool const&)> const& f) {
    bool child = false;
    string klass;
    string detail;
    u64 n = 0;
    fflush(stdout);
    mem::plan_forks(std::move(points), [&](u64 k) {
        if (!klass.empty()) {
            return false;
        }
        x.shared()->klass[0] = 0;
        pid_t pid = fork();
        if (pid < 0) {
            abort();
        }
        if (pid == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            struct itimerval it{};
            it.it_value.tv_sec = 10;
            setitimer(ITIMER_PROF, &it, nullptr);
            child = true;
            x.trace = false;
            if (burst) {
                mem::fail_from_now_on();
            }
            return true;
        }
        n++;
        int st = 0;
        while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
        }
        x.tracef("  %s with allocation %llu%s failing: %s", what,
                 static_cast<unsigned long long>(k), burst ? " and all after it" : "",
                 st == 0 ? "good" : "NOT GOOD");
        if (st != 0) {
            detail = string(what) + " with allocation " + std::to_string(k)
                     + (burst ? " and all after it" : "") + " failing: ";
            if (WIFEXITED(st) && WEXITSTATUS(st) == 98) {
                klass = x.shared()->klass;
                detail += x.shared()->detail;
            } else if (WIFSIGNALED(st)) {
                klass = WTERMSIG(st) == SIGPROF ? "hang" : "crash";
                detail += string("killed by signal ") + strsignal(WTERMSIG(st));
            } else {
                klass = "exit:" + std::to_string(WEXITSTATUS(st));
                detail += "ended with status " + std::to_string(WEXITSTATUS(st));
            }
        }
        return false;
    });
    try {
        f(child);
    } catch (Violation const& v) {
        if (!child) {
            throw;
        }
        strncpy(x.shared()->klass, v.klass.c_str(), sizeof x.shared()->klass - 1);
        strncpy(x.shared()->detail, v.detail.c_str(), sizeof x.shared()->detail - 1);
        _exit(98);
    }
    if (child) {
        _exit(0);
    }
    mem::no_failures();
    x.count("fault.alloc", n);
    x.count("probe.alloc_by_place", n);
    x.step(n);
    if (!klass.empty()) {
        x.fail(klass, detail);
    }
}
}  // namespace sim
