// C12, C13, C14: loading schemas from strings and (failing) files, over histories
#include <errno.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>

#include "schema_tools.hpp"

namespace sim {
using mem::Host;
using mem::Lib;


// Everything a caller can see of a loaded schema
string dump(ls::SchemaAST const& ast) {
    Lib l;
    std::string o;
    for (auto const& v : ast.m_schema_vars) {
        auto* var = dynamic_cast<ls::SchemaVarAST*>(v.get());
        if (var == nullptr) {
            o += "(not a variable)\n";
            continue;
        }
        o += std::to_string(var->m_line_num) + " " + var->m_name + ":";
        auto u = var->m_regex_ptr->serialize();
        for (char32_t ch : u) {
            if (ch >= 32 && ch < 127) {
                o += static_cast<char>(ch);
            } else {
                char b[16];
                snprintf(b, sizeof b, "\\u{%x}", static_cast<unsigned>(ch));
                o += b;
            }
        }
        o += "\n";
    }
    for (auto const& d : ast.m_delimiters) {
        auto* ds = dynamic_cast<ls::DelimiterStringAST*>(d.get());
        o += "delimiters";
        if (ds != nullptr) {
            for (auto ch : ds->m_delimiters) {
                o += " " + std::to_string(ch);
            }
        }
        o += "\n";
    }
    Host h;
    return own(o);
}

string dump_or_null(std::unique_ptr<ls::SchemaAST>& ast) {
    string o = ast ? dump(*ast) : "(no schema)";
    Lib l;
    ast.reset();
    return o;
}

string load_string(string const& text) {
    return attempt([&] {
        auto ast = load_schema_string(text);
        return dump_or_null(ast);
    });
}

// Runs f in a child that has seen nothing of what this process does
string pristine(std::function<string()> const& f) {
    int fd[2];
    if (pipe(fd) != 0) {
        abort();
    }
    fflush(stdout);
    pid_t pid = fork();
    if (pid < 0) {
        abort();
    }
    if (pid == 0) {
        close(fd[0]);
        string s = f();
        size_t at = 0;
        while (at < s.size()) {
            ssize_t n = write(fd[1], s.data() + at, s.size() - at);
            if (n <= 0) {
                _exit(9);
            }
            at += static_cast<size_t>(n);
        }
        _exit(0);
    }
    close(fd[1]);
    string out;
    char buf[65536];
    ssize_t n = 0;
    while ((n = read(fd[0], buf, sizeof buf)) > 0) {
        out.append(buf, static_cast<size_t>(n));
    }
    close(fd[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) {
        // the same will happen in this process, where it is reported
        out = "CRASHED";
    }
    return out;
}

namespace {
char const* const cPath = "/simdisk/schema.txt";

// ---- text
struct Render {
    bool crlf{false};
    double p_comment{0.2};
    double p_blank{0.2};
    double p_indent{0.1};
    double p_long_comment{0.02};
    double p_extra_delims{0.05};
    size_t long_comment{60000};
};

string comment(Rng& r, size_t n) {
    static char const chars[] = " abcdelimiters:timestamp\\d+()[]{}*?<>|!\"#$%&',;=@_`~/-.^09Z\t";
    string o = "//";
    if (r.chance(0.2)) {
        o += r.chance(0.5) ? "delimiters" : " delimiters: x";
    }
    while (o.size() < n + 2) {
        o += chars[r.below(sizeof chars - 1)];
    }
    if (o.size() == 2) {
        o += "c";
    }
    return o;
}

// A rendering of a schema that means the same
string render(Rng& r, Schema const& s, Render const& o) {
    string eol = o.crlf ? "\r\n" : "\n";
    vector<string> lines;
    auto extras = [&] {
        while (r.chance(o.p_comment)) {
            size_t n = r.chance(o.p_long_comment) ? o.long_comment + r.below(2000)
                                                  : static_cast<size_t>(r.skewed(60));
            lines.push_back(comment(r, n));
        }
        if (!lines.empty()) {
            while (r.chance(o.p_blank)) {
                lines.push_back("");
            }
        }
    };
    auto indent = [&] { return r.chance(o.p_indent) ? string(r.below(5), ' ') : string(); };
    auto delims = [&] {
        lines.push_back(delims_line(s.delims));
    };
    int i = 0;
    for (auto const& rule : s.rules) {
        extras();
        if (s.has_delims && i == s.delims_at) {
            delims();
            extras();
        } else if (s.has_delims && i < s.delims_at && r.chance(o.p_extra_delims)) {
            // superseded by the later one
            lines.push_back("delimiters:\\nq#");
            extras();
        }
        if (rule.name.empty()) {
            lines.push_back(rule.pattern);  // a mistake (C22)
        } else {
            lines.push_back(indent() + rule.name + ":" + rule.pattern);
        }
        i++;
    }
    extras();
    if (s.has_delims && s.delims_at >= i) {
        delims();
        extras();
    }
    string t;
    for (size_t k = 0; k < lines.size(); k++) {
        if (k > 0) {
            t += eol;
        }
        t += lines[k];
    }
    if (r.chance(0.5)) {
        t += eol;
        while (r.chance(0.3)) {
            t += eol;
        }
    }
    return t;
}

// Whether a text is such a rendering
bool renders(string const& text, Schema const& s) {
    vector<string> rules;
    string delims;
    size_t at = 0;
    if (text.empty() || text[0] == '\n' || text[0] == '\r') {
        return false;
    }
    while (at < text.size()) {
        size_t e = text.find('\n', at);
        size_t next = e == string::npos ? text.size() : e + 1;
        string line = text.substr(at, (e == string::npos ? text.size() : e) - at);
        at = next;
        if (!line.empty() && line.back() == '\r' && e != string::npos) {
            line.pop_back();
        }
        if (line.empty() || (line.size() > 2 && line.compare(0, 2, "//") == 0)) {
            continue;
        }
        if (line.compare(0, 11, "delimiters:") == 0) {
            if (line != "delimiters:\\nq#" && line != delims_line(s.delims)) {
                return false;
            }
            delims = line;
            continue;
        }
        rules.push_back(line.substr(std::min(line.size(), line.find_first_not_of(' '))));
    }
    if (s.has_delims ? delims != delims_line(s.delims) : !delims.empty()) {
        return false;
    }
    if (rules.size() != s.rules.size()) {
        return false;
    }
    for (size_t i = 0; i < rules.size(); i++) {
        if (rules[i] != s.rules[i].name + ":" + s.rules[i].pattern) {
            return false;
        }
    }
    return true;
}

Render gen_render(Rng& r) {
    Render o;
    o.crlf = r.chance(0.25);
    o.p_comment = r.chance(0.3) ? 0.0 : r.chance(0.3) ? 0.6 : 0.2;
    o.p_blank = r.chance(0.3) ? 0.0 : 0.25;
    o.p_indent = r.chance(0.5) ? 0.0 : 0.3;
    o.p_long_comment = r.chance(0.15) ? 0.3 : 0.0;
    o.p_extra_delims = r.chance(0.3) ? 0.3 : 0.0;
    // around and beyond the size of the parser's buffer
    o.long_comment = r.pick(vector<size_t>{200, 2000, 23000, 47000, 60000, 120000});
    return o;
}

vector<Delivery> gen_file_sched(Rng& r, size_t len, bool errors) {
    vector<Delivery> v;
    switch (r.below(5)) {
        case 0:
            break;
        case 1: {
            u32 n = static_cast<u32>(1 + r.below(64));
            for (size_t k = 0; k < len + 1 && v.size() < 600; k += n) {
                v.push_back({'d', n, 0});
            }
            break;
        }
        case 2: {
            for (size_t k = 0; k < len + 1 && v.size() < 600;) {
                u32 n = static_cast<u32>(1 + r.below(len + 1));
                v.push_back({'d', n, 0});
                k += n;
            }
            break;
        }
        default: {
            for (size_t k = 0; k < len + 1 && v.size() < 600;) {
                u32 n = static_cast<u32>(1 + r.skewed(500));
                v.push_back({'d', n, 0});
                k += n;
            }
        }
    }
    if (errors) {
        static u32 const codes[]{EIO, EINTR, EAGAIN, ENOMEM, EISDIR, EBADF, ESTALE};
        int n = r.chance(0.8) ? 1 : static_cast<int>(r.range(2, 4));
        for (int k = 0; k < n; k++) {
            // at every place alike, the first and the last ones more often
            size_t at = r.chance(0.2) ? 0 : r.chance(0.2) ? v.size() : r.below(v.size() + 1);
            v.insert(v.begin() + static_cast<long>(at), {'e', codes[r.below(7)], 0});
        }
    }
    return v;
}

u32 gen_schema_buffer(Rng& r, size_t len) {
    if (r.chance(0.3)) {
        return 0;
    }
    if (r.chance(0.4)) {
        return static_cast<u32>(2 * r.range(2, 40));
    }
    return static_cast<u32>(2 * (1 + r.below(len / 2 + 2)));
}

// Small schemas: loading is what costs here
SchemaOpts small_schema() {
    SchemaOpts o;
    o.max_vars = 5;
    return o;
}

// the text of a schema that a parser can be built from, and a log
Case gen_schema_base(Rng& r, char const* prop, Render const& o) {
    Case c;
    c.prop = prop;
    c.schemas.push_back(gen_schema(r, small_schema()));
    Stream t;
    t.data = render(r, c.schemas[0], o);
    c.streams.push_back(t);
    Sampler s(c.schemas[0]);
    Stream log;
    InputOpts io;
    io.max_len = 300;
    log.data = gen_input(r, s, io);
    c.streams.push_back(log);
    return c;
}

// the events of a log, and the names the parser knows
template <class P>
string parse_all(P& p, string const& log, Ctx& x) {
    string o;
    std::map<u32, string> names;
    for (auto const& [id, n] : p.get_log_parser().m_lexer.m_id_symbol) {
        names[id] = own(n);
    }
    for (auto const& [id, n] : names) {
        o += std::to_string(id) + "=" + n + " ";
    }
    o += "\n";
    Stream st;
    st.data = log;
    vector<EvRec> ev;
    if constexpr (std::is_same_v<P, ls::ReaderParser>) {
        Source src(st, x);
        set_reader(p, src);
        Drain d = drain(p, src, st, x, {});
        ev = d.ev;
    } else {
        EdgeBuf b(log, 0, 0);
        size_t off = 0;
        for (size_t k = 0; k < log.size() + 3 && !p.done(); k++) {
            auto e = parse_next(p, b.data(), b.size(), off, true);
            if (e != ls::ErrorCode::Success) {
                o += "error " + std::to_string(static_cast<int>(e)) + "\n";
                break;
            }
            ev.push_back(capture(p.get_log_parser().get_log_event_view(), p.get_log_parser()));
            if (ev.back().text.empty()) {
                ev.pop_back();
            }
        }
        Lib l;
        p.reset();
    }
    for (auto const& e : ev) {
        o += describe(e) + "\n";
    }
    return o;
}

string first_difference(string const& a, string const& b) {
    size_t k = 0;
    while (k < a.size() && k < b.size() && a[k] == b[k]) {
        k++;
    }
    size_t from = k > 40 ? k - 40 : 0;
    return "...at " + std::to_string(k) + ": " + show(a.substr(from, 160), 200) + " and "
           + show(b.substr(from, 160), 200);
}

// what the schema in text means, known from loading it from a string and parsing the log.
// Two entries: the dump, the events
void references(World& w, string const& text, string const& log, bool parser, Ctx& x) {
    string key = text + '\0' + log + (parser ? "p" : "");
    if (!w.texts.empty() && w.texts[0] == key) {
        return;
    }
    w.texts.clear();
    w.texts.push_back(key);
    w.texts.push_back(load_string(text));
    w.texts.push_back("");
    if (parser && w.texts[1].compare(0, 2, "OK") == 0) {
        w.texts[2] = attempt([&] {
            auto ast = load_schema_string(text);
            std::unique_ptr<ls::ReaderParser> p;
            {
                Lib l;
                p = std::make_unique<ls::ReaderParser>(std::move(ast));
            }
            string o = parse_all(*p, log, x);
            Lib l;
            p.reset();
            return o;
        });
    }
}

// Entry points: 0 try_schema_file, 1 Schema, 2 ReaderParser, 3 BufferParser
string load_file(int entry, string const& log, Ctx& x) {
    return attempt([&]() -> string {
        switch (entry) {
            case 0: {
                std::unique_ptr<ls::SchemaAST> ast;
                {
                    Lib l;
                    ast = ls::SchemaParser::try_schema_file(cPath);
                }
                mem::no_failures();
                return dump_or_null(ast);
            }
            case 1: {
                std::unique_ptr<ls::SchemaAST> ast;
                {
                    Lib l;
                    ls::Schema s{std::string(cPath)};
                    ast = s.release_schema_ast_ptr();
                }
                mem::no_failures();
                return dump_or_null(ast);
            }
            case 2: {
                std::unique_ptr<ls::ReaderParser> p;
                {
                    Lib l;
                    p = std::make_unique<ls::ReaderParser>(std::string(cPath));
                }
                mem::no_failures();
                SizeGuard sg({64, 64});
                string o = parse_all(*p, log, x);
                Lib l;
                p.reset();
                return o;
            }
            default: {
                std::unique_ptr<ls::BufferParser> p;
                {
                    Lib l;
                    p = std::make_unique<ls::BufferParser>(std::string(cPath));
                }
                mem::no_failures();
                string o = parse_all(*p, log, x);
                Lib l;
                p.reset();
                return o;
            }
        }
    });
}

// ---- C12
// streams[0]: the file (schedule: what the disk does), streams[1]: a log
void exec_c12(World& w, Case const& c, Ctx& x) {
    auto const& text = c.streams[0].data;
    auto const& log = c.streams[1].data;
    int entry = static_cast<int>(c.knob("entry"));
    references(w, text, log, entry >= 2, x);
    string want = entry >= 2 ? w.texts[2] : w.texts[1];
    if (w.texts[1].compare(0, 2, "OK") != 0 || want.compare(0, 2, "OK") != 0) {
        x.shared()->skipped = 1;
        return;
    }
    disk::clear();
    disk::Plan plan;
    plan.content = text;
    plan.sched = c.streams[0].sched;
    plan.open_errno = static_cast<int>(c.knob("open_errno"));
    disk::put(cPath, plan);
    SizeGuard sg({static_cast<u32>(c.knob("bytes")), 0});
    i64 nth = c.knob("alloc", -1);
    if (nth >= 0) {
        mem::plan_failures({static_cast<u64>(nth)});
    }
    string got = load_file(entry, log, x);
    u64 alloc_faults = mem::failures_fired();
    mem::no_failures();
    auto st = disk::stats();
    x.count("fault.disk_read_error", st.errors);
    x.count("fault.disk_open_error", st.open_failures);
    x.count("fault.disk_short_read", st.short_reads);
    x.count("fault.alloc", alloc_faults);
    x.step(st.reads + 1);
    x.log(got);
    x.tracef("entry %d -> %s", entry, got.c_str());
    bool fault = st.errors + st.open_failures + alloc_faults > 0;
    if (got == want) {
        x.count(fault ? "probe.loaded_despite_fault" : "probe.loaded");
    } else if (got.compare(0, 2, "OK") == 0) {
        x.fail(fault ? "partial-schema" : "different-schema",
               string(fault ? "after a fault the file" : "the file") + " loads as another schema than its text: "
                       + first_difference(want, got));
    } else if (!fault) {
        x.fail("rejected", "nothing failed, but loading the file gives " + show(got));
    } else if (got == "BAD_ALLOC" && alloc_faults == 0) {
        x.fail("wrong-error", "bad_alloc although no allocation failed");
    } else {
        x.count("probe.rejected");
    }
    check_memory(x);
    if (fault || st.short_reads > 0) {
        x.nontrivial();
    }
}

// ---- C13
// streams[0]: the rendered text; streams[1..]: logs. knob entry: 0..3 as above, 4 string,
// 5 assembled through Schema
void exec_c13(World& w, Case const& c, Ctx& x) {
    Schema const& truth = c.schemas[0];
    auto const& text = c.streams[0].data;
    auto const& log = c.streams[1].data;
    int entry = static_cast<int>(c.knob("entry"));
    if (!w.model) {
        w.model = std::make_unique<Model>(truth);
    }
    disk::clear();
    disk::Plan plan;
    plan.content = text;
    plan.sched = c.streams[0].sched;
    disk::put(cPath, plan);
    SizeGuard sg({static_cast<u32>(c.knob("bytes")), 0});
    std::unique_ptr<ls::SchemaAST> ast;
    string what;
    std::unique_ptr<ls::ReaderParser> rp;
    std::unique_ptr<ls::BufferParser> bp;
    vector<string> base_names;
    x.phase("loading the schema");
    try {
        switch (entry) {
            case 0: {
                Lib l;
                ast = ls::SchemaParser::try_schema_file(cPath);
                break;
            }
            case 1: {
                Lib l;
                ls::Schema s{std::string(cPath)};
                ast = s.release_schema_ast_ptr();
                break;
            }
            case 2: {
                Lib l;
                rp = std::make_unique<ls::ReaderParser>(std::string(cPath));
                break;
            }
            case 3: {
                Lib l;
                bp = std::make_unique<ls::BufferParser>(std::string(cPath));
                break;
            }
            case 4: {
                ast = load_schema_string(text);
                break;
            }
            default: {
                // op "base": the rules the file has; op "add": rule, position (-1: at the end)
                vector<size_t> have;
                Schema b = truth;
                b.rules.clear();
                b.delims_at = 0;
                auto const& base = c.ops.at(0);
                for (i64 k : base.a) {
                    if (static_cast<size_t>(k) < truth.rules.size()) {
                        b.rules.push_back(truth.rules[static_cast<size_t>(k)]);
                        have.push_back(static_cast<size_t>(k));
                    }
                }
                plan.content = schema_text(b);
                disk::put(cPath, plan);
                Lib l;
                ls::Schema s{std::string(cPath)};
                for (size_t k = 1; k < c.ops.size(); k++) {
                    auto const& op = c.ops[k];
                    if (op.kind != "add" || op.a.size() < 2
                        || static_cast<size_t>(op.a[0]) >= truth.rules.size())
                    {
                        continue;
                    }
                    auto const& rule = truth.rules[static_cast<size_t>(op.a[0])];
                    int pos = static_cast<int>(op.a[1]);
                    if (pos > static_cast<int>(have.size())) {
                        pos = -1;
                    }
                    s.add_variable(rule.name + ":" + rule.pattern, pos);
                    Host h;
                    have.insert(pos < 0 ? have.end() : have.begin() + pos,
                                static_cast<size_t>(op.a[0]));
                    x.count("probe.add_variable");
                }
                ast = s.release_schema_ast_ptr();
                // a schema object that was emptied starts again
                auto again = s.release_schema_ast_ptr();
                if (!again || !again->m_schema_vars.empty() || !again->m_delimiters.empty()) {
                    Host h;
                    x.fail("schema-object", "release_schema_ast_ptr left rules behind");
                }
                Host h;
                // what was assembled, in its order
                Schema t = truth;
                t.rules.clear();
                for (size_t k : have) {
                    t.rules.push_back(truth.rules[k]);
                }
                w.model = std::make_unique<Model>(t);
                for (auto const& rule : t.rules) {
                    base_names.push_back(rule.name);
                }
            }
        }
        x.phase("");
        if (ast) {
            // names in order
            if (base_names.empty() && entry != 5) {
                for (auto const& rule : truth.rules) {
                    base_names.push_back(rule.name);
                }
            }
            vector<string> names;
            for (auto const& v : ast->m_schema_vars) {
                auto* var = dynamic_cast<ls::SchemaVarAST*>(v.get());
                names.push_back(var != nullptr ? own(var->m_name) : "?");
            }
            if (names != base_names) {
                string a;
                string b;
                for (auto const& n : base_names) {
                    a += n + " ";
                }
                for (auto const& n : names) {
                    b += n + " ";
                }
                x.fail("names", "the rules are " + a + "but were loaded as " + b);
            }
            string d = dump(*ast);
            x.log(d);
            if (entry < 4) {
                // text against text: the patterns, the lines
                auto other = load_schema_string(text);
                string e = other ? dump(*other) : "(no schema)";
                if (d != e) {
                    x.fail("file-and-string", "the file and the string with the same text differ "
                                                      + first_difference(d, e));
                }
                Lib l;
                other.reset();
            }
            Lib l;
            if (c.knob("class") == 0) {
                rp = std::make_unique<ls::ReaderParser>(std::move(ast));
            } else {
                bp = std::make_unique<ls::BufferParser>(std::move(ast));
            }
        }
    } catch (Violation const&) {
        throw;
    } catch (std::exception const& e) {
        x.fail("rejected", string("a valid schema is rejected: ") + e.what());
    }
    auto st = disk::stats();
    x.step(st.reads + 1);
    x.count("fault.disk_short_read", st.short_reads);
    // how it parses
    x.phase("parsing");
    vector<EvRec> ev;
    if (rp) {
        Stream s;
        s.data = log;
        Source src(s, x);
        set_reader(*rp, src);
        ev = drain(*rp, src, s, x, {}).ev;
    } else {
        EdgeBuf b(log, 0, 0);
        size_t off = 0;
        u64 calls = 0;
        while (!bp->done()) {
            if (++calls > log.size() + 2) {
                x.fail("no-progress", "the buffer parser does not end");
            }
            auto e = parse_next(*bp, b.data(), b.size(), off, true);
            if (e != ls::ErrorCode::Success) {
                x.fail("buffer-error", "buffer parser: error " + std::to_string(static_cast<int>(e)));
            }
            ev.push_back(capture(bp->get_log_parser().get_log_event_view(), bp->get_log_parser()));
            x.log(ev.back().text);
            x.log(ev.back().logtype);
            if (ev.back().text.empty()) {
                ev.pop_back();
            }
        }
        Lib l;
        bp->reset();
    }
    x.phase("");
    string df = diff(w.model->parse(log), canon(ev), "documented", "returned");
    if (!df.empty()) {
        x.fail("parses-differently", df);
    }
    check_memory(x);
    if (ev.size() > 0 && !truth.rules.empty()) {
        x.nontrivial();
    }
    if (text.size() > 48000) {
        x.count("probe.text_beyond_buffer");
    }
    if (c.knob("bytes") != 0 && text.size() > static_cast<size_t>(c.knob("bytes"))) {
        x.count("probe.text_beyond_small_buffer");
    }
}

// ---- C14
// streams: schema texts (schedules: what the disk does). ops:
//  "str i"  "file i open_errno"  "fail n" (the next load's n-th allocation)  "burst n"
//  "obj i.." (Schema object: file i, then add_variable of the others)  "parser i"  "many i n"
string observe(string const& text) {
    return load_string(text);
}

void exec_c14(World& w, Case const& c, Ctx& x) {
    SizeGuard sg({static_cast<u32>(c.knob("bytes")), 0});
    // results in a process that did nothing else
    std::map<string, string> alone;
    auto get_alone = [&](string const& text) -> string const& {
        auto it = alone.find(text);
        if (it == alone.end()) {
            it = alone.emplace(text, pristine([&] { return observe(text); })).first;
        }
        return it->second;
    };
    auto get_alone_obj = [&](vector<string> const& texts, std::function<string()> const& f)
            -> string const& {
        string key = "obj";
        for (auto const& t : texts) {
            key += '\0' + t;
        }
        auto it = alone.find(key);
        if (it == alone.end()) {
            it = alone.emplace(key, pristine(f)).first;
        }
        return it->second;
    };
    auto obj = [&](vector<string> const& texts) {
        return attempt([&] {
            disk::Plan plan;
            plan.content = texts[0];
            disk::put(cPath, plan);
            std::unique_ptr<ls::SchemaAST> ast;
            {
                Lib l;
                ls::Schema s{std::string(cPath)};
                for (size_t k = 1; k < texts.size(); k++) {
                    s.add_variable(texts[k], static_cast<int>(k % 2) - 1);
                }
                ast = s.release_schema_ast_ptr();
            }
            return dump_or_null(ast);
        });
    };
    auto stream = [&](i64 i) -> Stream const& {
        return c.streams[static_cast<size_t>(i) % c.streams.size()];
    };
    // the first is the file's, the others are added
    auto texts_of = [&](Op const& op) {
        vector<string> t;
        for (i64 i : op.a) {
            auto const& text = stream(i).data;
            // add_variable expects a variable: texts that are valid but have none are left out
            auto const& res = get_alone(text);
            if (t.empty() || res.compare(0, 3, "OK\n") != 0
                || (res.size() > 3 && isdigit(static_cast<u8>(res[3]))))
            {
                t.push_back(text);
            }
        }
        return t;
    };
    // all of them first: this process is still pristine
    for (auto const& op : c.ops) {
        if (op.kind == "str" || op.kind == "file" || op.kind == "many") {
            get_alone(stream(op.a[0]).data);
        } else if (op.kind == "obj" && !op.a.empty()) {
            auto t = texts_of(op);
            get_alone_obj(t, [&] { return obj(t); });
        }
    }
    (void)w;
    // the allocation places of a load, found in a process of its own
    std::map<string, vector<u32>> sites;
    auto by_place = [&](Op const& op, i64 selector) -> i64 {
        bool file = op.kind == "file";
        auto const& text = stream(op.a[0]).data;
        auto it = sites.find(text + (file ? "f" : "s"));
        if (it == sites.end()) {
            string v = pristine([&] {
                disk::clear();
                disk::Plan plan;
                plan.content = text;
                disk::put(cPath, plan);
                mem::record_sites(true);
                attempt([&] {
                    Lib l;
                    auto ast = file ? ls::SchemaParser::try_schema_file(cPath)
                                    : ls::SchemaParser::try_schema_string(text);
                    return string();
                });
                auto s = mem::take_sites();
                return string(reinterpret_cast<char const*>(s.data()), s.size() * sizeof(u32));
            });
            vector<u32> s(v.size() / sizeof(u32));
            memcpy(s.data(), v.data(), s.size() * sizeof(u32));
            it = sites.emplace(text + (file ? "f" : "s"), std::move(s)).first;
        }
        x.count("probe.alloc_by_place");
        return static_cast<i64>(mem::pick_alloc(it->second, static_cast<u64>(selector)));
    };
    u64 loads = 0;
    u64 compared = 0;
    bool bad_before = false;
    i64 fail = -1;
    i64 burst = -1;
    auto arm = [&] {
        if (fail >= 0 || burst >= 0) {
            mem::plan_failures(fail >= 0 ? vector<u64>{static_cast<u64>(fail)} : vector<u64>{},
                               burst >= 0 ? static_cast<u64>(burst) : ~0ULL);
        }
    };
    auto disarm = [&]() -> bool {
        u64 f = fail >= 0 || burst >= 0 ? mem::failures_fired() : 0;
        mem::no_failures();
        fail = burst = -1;
        x.count("fault.alloc", f);
        return f > 0;
    };
    auto judge = [&](string const& what, string const& got, string const& want, bool fault) {
        loads++;
        x.step();
        x.log(got);
        x.tracef("%s -> %s%s", what.c_str(), got.c_str(), fault ? " (fault)" : "");
        if (got.compare(0, 2, "OK") != 0) {
            bad_before = true;
        }
        if (fault && got != want) {
            if (got.compare(0, 2, "OK") == 0) {
                x.fail("partial-schema", what + " failed half way but gives another schema: "
                                                 + first_difference(want, got));
            }
            x.count("probe.load_failed");
            return;
        }
        compared++;
        if (bad_before) {
            x.count("probe.load_after_failed_load");
        }
        if (got != want) {
            x.fail("history", what + " after " + std::to_string(loads - 1)
                                      + " other loads gives another result than in a new process: "
                                      + first_difference(want, got));
        }
    };
    for (auto const& op : c.ops) {
        if (fail < -1) {
            fail = op.kind == "str" || op.kind == "file" ? by_place(op, -2 - fail) : -1;
        }
        if (op.kind == "fail" && !op.a.empty()) {
            fail = op.a[0];
        } else if (op.kind == "burst" && !op.a.empty()) {
            burst = op.a[0];
        } else if (op.kind == "str") {
            auto const& text = stream(op.a[0]).data;
            arm();
            string got = load_string(text);
            bool f = disarm();
            judge("the string " + show(text, 60), got, get_alone(text), f);
        } else if (op.kind == "file") {
            auto const& s = stream(op.a[0]);
            disk::clear();
            disk::Plan plan;
            plan.content = s.data;
            plan.sched = s.sched;
            plan.open_errno = op.a.size() > 1 ? static_cast<int>(op.a[1]) : 0;
            disk::put(cPath, plan);
            arm();
            string got = attempt([&] {
                std::unique_ptr<ls::SchemaAST> ast;
                {
                    Lib l;
                    ast = ls::SchemaParser::try_schema_file(cPath);
                }
                mem::no_failures();
                return dump_or_null(ast);
            });
            bool f = disarm();
            auto st = disk::stats();
            x.count("fault.disk_read_error", st.errors);
            x.count("fault.disk_open_error", st.open_failures);
            f = f || st.errors + st.open_failures > 0;
            judge("the file " + show(s.data, 60), got, get_alone(s.data), f);
            if (st.open_now != 0) {
                x.fail("handle-leak", std::to_string(st.open_now)
                                              + " file handles are open after loading a schema");
            }
        } else if (op.kind == "obj" && !op.a.empty()) {
            auto t = texts_of(op);
            disk::clear();
            arm();
            string got = obj(t);
            bool f = disarm();
            judge("a schema object", got, get_alone_obj(t, [&] { return obj(t); }), f);
        } else if (op.kind == "parser") {
            auto const& text = stream(op.a[0]).data;
            arm();
            try {
                auto ast = load_schema_string(text);
                Lib l;
                auto p = std::make_unique<ls::ReaderParser>(std::move(ast));
            } catch (std::exception const&) {
                bad_before = true;
            }
            disarm();
            loads++;
        } else if (op.kind == "many" && op.a.size() > 1) {
            auto const& text = stream(op.a[0]).data;
            for (i64 k = 0; k < op.a[1]; k++) {
                judge("load number " + std::to_string(k) + " of the string " + show(text, 60),
                      load_string(text), get_alone(text), false);
            }
            x.count("probe.long_history");
        }
        check_memory(x);
    }
    if (loads > 1 && compared > 0) {
        x.nontrivial();
    }
}

// A rule with very many symbols, in most cases with a mistake near its end: what a parser keeps of it
// adds up over a history.
string gen_long_text(Rng& r) {
    string t = "x:";
    size_t n = static_cast<size_t>(r.chance(0.3) ? r.range(4500, 7000) : r.range(300, 2500));
    int style = static_cast<int>(r.below(3));
    while (t.size() < n) {
        switch (style) {
            case 0:
                t += static_cast<char>('a' + r.below(26));
                break;
            case 1:
                t += "(a)";
                break;
            default:
                t += "[ab]b{1}";
        }
    }
    if (r.chance(0.65)) {
        t += r.chance(0.5) ? "(" : "*+)";
    }
    return t;
}

// ---- C22
// schemas[0]: what is loaded; a rule without a name is a line that is no rule. streams[0]: how the
// disk delivers the file; streams[1]: what the disk does when the file is opened again to show the
// offending line (knob "reopen": 0 the same content, 1 the stream's, 2 cannot be opened).
// knob entry: 0 ReaderParser(path), 1 BufferParser(path), 2 try_schema_file, 3 Schema(path),
// 4 try_schema_string, 5 the last rule through add_variable
char const* const cEntries[]{"ReaderParser(path)", "BufferParser(path)", "try_schema_file",
                             "Schema(path)", "try_schema_string", "add_variable"};

// rules of the right form that mean nothing
char const* const cMeaningless[]{"name:[b-a]", "name:x[0-9z-b]", "name:a{3,2}", "name:(a|b){2,0}c",
                                 "name:[^9-0]+"};

string c22_text(Case const& c, Schema const& s) {
    i64 seed = c.knob("render");
    if (seed == 0) {
        Rng r(0);
        Render plain{false, 0, 0, 0, 0, 0, 0};
        return render(r, s, plain);
    }
    Rng r(static_cast<u64>(seed));
    Render o = gen_render(r);
    if (c.knob("long") == 0) {
        o.p_long_comment = 0;
    }
    return render(r, s, o);
}

void exec_c22(World&, Case const& c, Ctx& x) {
    Schema s = c.schemas[0];
    int entry = static_cast<int>(c.knob("entry"));
    bool mistake = false;
    for (auto const& rule : s.rules) {
        mistake = mistake || rule.name.empty();
    }
    vector<Rule> added;
    if (entry == 5) {
        if (mistake || s.rules.size() < 2 || s.rules.back().name == "timestamp") {
            entry = 3;
        } else {
            added.push_back(s.rules.back());
            s.rules.pop_back();
        }
    }
    string text = c22_text(c, s);
    // what must happen
    std::bitset<256> d;
    for (char ch : s.delims) {
        d.set(static_cast<u8>(ch));
    }
    struct Offender {
        string name;
        string delims;
        size_t rule;
    };
    vector<Offender> offenders;
    vector<Rule> all = s.rules;
    all.insert(all.end(), added.begin(), added.end());
    if (!mistake) {
        for (size_t k = 0; k < all.size(); k++) {
            if (all[k].name == "timestamp") {
                continue;
            }
            Matcher m(all[k].pattern, d);
            Offender o{all[k].name, "", k};
            for (int b = 0; b < 256; b++) {
                if (d[static_cast<size_t>(b)] && m.uses(static_cast<u8>(b))) {
                    o.delims += static_cast<char>(b);
                }
            }
            if (!o.delims.empty()) {
                offenders.push_back(o);
            }
        }
    }
    bool reject = mistake || !s.has_delims || !offenders.empty();
    // lines of the rules, from 1
    vector<size_t> line_of;
    vector<string> lines;
    {
        size_t at = 0;
        while (at <= text.size()) {
            size_t e = text.find('\n', at);
            e = e == string::npos ? text.size() : e;
            string l = text.substr(at, e - at);
            if (!l.empty() && l.back() == '\r') {
                l.pop_back();
            }
            lines.push_back(l);
            size_t b = l.find_first_not_of(' ');
            if (b != string::npos && l.compare(0, 2, "//") != 0
                && l.compare(b, 11, "delimiters:") != 0)
            {
                line_of.push_back(lines.size());
            }
            at = e + 1;
        }
    }
    if (line_of.size() != s.rules.size()) {
        x.shared()->skipped = 1;
        return;
    }
    disk::clear();
    disk::Plan plan;
    plan.content = text;
    plan.sched = c.streams[0].sched;
    auto again = std::make_shared<disk::Plan>();
    i64 reopen = c.knob("reopen");
    again->content = reopen == 1 ? c.streams[1].data : text;
    again->sched = c.streams[1].sched;
    bool disturbed = reopen != 0;
    for (auto const& q : again->sched) {
        disturbed = disturbed || q.kind == 'e';
    }
    if (reopen == 2) {
        again->open_errno = static_cast<int>(c.knob("errno", ENOENT));
    }
    plan.then = again;
    disk::put(cPath, plan);
    SizeGuard sg({static_cast<u32>(c.knob("bytes")), 0});
    auto build = [&]() -> string {
        return attempt([&]() -> string {
            Lib l;
            std::unique_ptr<ls::SchemaAST> ast;
            switch (entry) {
                case 0: {
                    auto p = std::make_unique<ls::ReaderParser>(std::string(cPath));
                    return "";
                }
                case 1: {
                    auto p = std::make_unique<ls::BufferParser>(std::string(cPath));
                    return "";
                }
                case 2:
                    ast = ls::SchemaParser::try_schema_file(cPath);
                    break;
                case 4:
                    ast = ls::SchemaParser::try_schema_string(text);
                    break;
                default: {
                    ls::Schema sc{std::string(cPath)};
                    for (auto const& a : added) {
                        sc.add_variable(std::string(a.name + ":" + a.pattern), -1);
                    }
                    ast = sc.release_schema_ast_ptr();
                }
            }
            if (c.knob("class") == 1) {
                auto p = std::make_unique<ls::BufferParser>(std::move(ast));
            } else {
                auto p = std::make_unique<ls::ReaderParser>(std::move(ast));
            }
            return "";
        });
    };
    auto live = mem::stats();
    string got = build();
    auto st = disk::stats();
    x.count("fault.disk_read_error", st.errors);
    x.count("fault.disk_open_error", st.open_failures);
    x.count("fault.disk_short_read", st.short_reads);
    if (st.opens > 1) {
        x.count("fault.schema_file_changed", reopen == 1);
        x.count("probe.reopened");
    }
    x.step(st.reads + 1);
    x.log(got);
    x.tracef("%s -> %s", cEntries[entry], got.c_str());
    string what = string(cEntries[entry]) + ": ";
    if (st.open_now != 0) {
        x.fail("handle", what + std::to_string(st.open_now) + " file handles left open; " + show(got));
    }
    if (!reject) {
        x.count("probe.accepted");
        if (got != "OK\n") {
            x.fail("rejected", what + "nothing is wrong with the schema, but: " + show(got, 300));
        }
    } else if (got.compare(0, 2, "OK") == 0) {
        x.fail("accepted",
               what + (mistake ? "a parser was built from a schema with a line that is no rule"
                       : !s.has_delims
                               ? "a parser was built from a schema without delimiters"
                               : "a parser was built although variable '" + offenders[0].name
                                         + "' can match the delimiter " + show(offenders[0].delims)));
    } else if (got == "BAD_ALLOC") {
        x.fail("wrong-error", what + "bad_alloc although no allocation failed");
    } else if (mistake) {
        size_t line = 0;
        for (size_t k = 0; k < s.rules.size() && line == 0; k++) {
            if (s.rules[k].name.empty()) {
                line = line_of[k];
            }
        }
        x.count("probe.syntax_error");
        // a rule of the right form that means nothing
        auto const* rule = &s.rules[0];
        for (auto const& q : s.rules) {
            rule = q.name.empty() ? &q : rule;
        }
        bool form = true;
        for (auto m : cMeaningless) {
            form = form && rule->pattern != m;
        }
        x.count("probe.meaningless_rule", !form);
        if (got.find(":" + std::to_string(line) + ":") == string::npos
            && (form || got.find("Line " + std::to_string(line) + ":") == string::npos))
        {
            x.fail("wrong-place", what + "the mistake is in line " + std::to_string(line)
                                          + ", but the error is: " + show(got, 300));
        }
        // a line that the schema parser's buffer still holds is quoted
        if (form && c.knob("bytes") == 0 && text.size() < 20000) {
            string q = lines[line - 1];
            size_t at = got.find("\n          " + q);
            size_t end = at == string::npos ? at : got.find_first_not_of("\r\n", at + 11 + q.size());
            if (at == string::npos || (end != string::npos && got[end] != ' ' && got[end] != '^')) {
                x.fail("wrong-quote", what + "the error does not quote the line " + show(q) + ": "
                                              + show(got, 300));
            }
        }
    } else if (!s.has_delims) {
        x.count("probe.no_delimiters");
        if (got.find("delimiters") == string::npos) {
            x.fail("wrong-error", what + "no delimiters, but the error is: " + show(got, 300));
        }
    } else {
        x.count("probe.delimiter_in_pattern");
        bool named = false;
        bool placed = false;
        bool shown = false;
        for (auto const& o : offenders) {
            if (got.find("'" + o.name + "'") == string::npos) {
                continue;
            }
            bool ch = false;
            for (char b : o.delims) {
                ch = ch || got.find(string("'") + b + "'") != string::npos;
            }
            named = named || ch;
            if (ch && o.rule < line_of.size()) {
                size_t n = line_of[o.rule];
                placed = placed || got.find(":" + std::to_string(n) + ":") != string::npos;
                shown = shown || got.find(lines[n - 1]) != string::npos;
            } else if (ch) {
                placed = shown = true;  // an added rule: its place is not specified
            }
        }
        if (!named) {
            x.fail("wrong-rule", what + "no variable that can match a delimiter is named with it: "
                                         + show(got, 300));
        }
        if (!placed) {
            x.fail("wrong-place", what + "the error does not name the line of the rule: "
                                          + show(got, 300));
        }
        if (entry != 4 && added.empty()) {
            if (got.find(cPath) == string::npos) {
                x.fail("wrong-place",
                       what + "the error does not name the schema file: " + show(got, 300));
            }
            if (!disturbed && !shown) {
                x.fail("wrong-place", what + "the error does not show the line of the rule, although "
                                              "the file can be read: " + show(got, 300));
            }
        }
    }
    check_memory(x);
    if (reject && mem::stats().live_blocks > live.live_blocks) {
        // what is kept for ever is kept once
        disk::put(cPath, plan);
        u64 before = mem::stats().live_blocks;
        string second = build();
        if (mem::stats().live_blocks > before) {
            x.fail("leak", what + std::to_string(mem::stats().live_blocks - before)
                                   + " blocks are not released after the error: " + show(second));
        }
    }
    if (reject) {
        x.nontrivial();
    }
}

// A text with a mistake, or none
string gen_text(Rng& r) {
    Schema s = gen_schema(r, small_schema());
    Render o = gen_render(r);
    o.p_long_comment = 0;
    string t = render(r, s, o);
    if (r.chance(0.45)) {
        return t;
    }
    // mistakes
    switch (r.below(8)) {
        case 0:
            return "";
        case 1:
            t.resize(r.below(t.size() + 1));
            return t;
        case 2: {
            size_t n = t.find(':');
            if (n != string::npos) {
                t.erase(n, 1);
            }
            return t;
        }
        case 3:
            return t + "\nbad_name:abc";
        case 4:
            return t + "\nx:(abc";
        case 5: {
            static char const junk[] = "()[]{}*+|\\^:?<>\n\r/_\x80\x01 ";
            for (int k = 0; k < 2; k++) {
                t.insert(t.begin() + static_cast<long>(r.below(t.size() + 1)),
                         junk[r.below(sizeof junk - 1)]);
            }
            return t;
        }
        case 6:
            return "\n" + t;
        default:
            if (!t.empty()) {
                t.erase(r.below(t.size()), 1 + r.below(3));
            }
            return t;
    }
}
}  // namespace

void register_schema() {
    auto& R = registry();
    {
        Prop p;
        p.id = "C12";
        p.episodes = 16;
        p.gen_base = [](Rng& r) {
            Render o = gen_render(r);
            if (r.chance(0.6)) {
                o.p_long_comment = 0;
            }
            return gen_schema_base(r, "C12", o);
        };
        p.gen_episode = [](Rng& r, Case& c) {
            size_t len = c.streams[0].data.size();
            c.knobs["entry"] = r.chance(0.5) ? 0 : r.range(1, 3);
            c.knobs["bytes"] = gen_schema_buffer(r, len);
            int kind = static_cast<int>(r.below(10));
            c.streams[0].sched = gen_file_sched(r, len, kind >= 3 && kind < 9);
            if (kind == 0) {
                static i64 const codes[]{ENOENT, EACCES, EMFILE, EIO, ENOMEM};
                c.knobs["open_errno"] = codes[r.below(5)];
            }
            if (kind == 9 || r.chance(0.03)) {
                c.knobs["alloc"] = r.chance(0.5) ? r.range(0, 60000) : r.skewed(60000);
            }
        };
        p.prepare = [](World&, Case const&) {};
        p.exec = exec_c12;
        p.shrink_knobs = {{"bytes", {0}}, {"alloc", {-1}}, {"entry", {0}}};
        p.shrink_rules = false;
        R.push_back(p);
    }
    {
        Prop p;
        p.id = "C13";
        p.episodes = 6;
        p.gen_base = [](Rng& r) {
            Case c = gen_schema_base(r, "C13", gen_render(r));
            if (r.chance(0.06)) {
                // many rules
                Schema& s = c.schemas[0];
                int n = static_cast<int>(r.range(20, 120));
                for (int k = 0; k < n; k++) {
                    s.rules.push_back({"r" + std::to_string(k), "k" + std::to_string(k) + "z"});
                }
                for (char ch : s.delims) {
                    if (isalnum(static_cast<u8>(ch))) {
                        s.rules.clear();
                        break;
                    }
                }
                c.streams[0].data = render(r, s, gen_render(r));
            }
            return c;
        };
        p.gen_episode = [](Rng& r, Case& c) {
            auto const& s = c.schemas[0];
            c.knobs["entry"] = r.range(0, 5);
            c.knobs["class"] = r.range(0, 1);
            if (r.chance(0.6)) {
                c.streams[0].data = render(r, s, gen_render(r));
            }
            size_t len = c.streams[0].data.size();
            c.knobs["bytes"] = gen_schema_buffer(r, len);
            c.streams[0].sched = gen_file_sched(r, len, false);
            if (c.knobs["entry"] == 5) {
                // some rules from the file, the others one by one, in any order
                size_t n = s.rules.size();
                if (n > 12) {
                    c.knobs["entry"] = 0;
                    return;
                }
                // ties between timestamps and variables: timestamps stay in front
                vector<i64> perm;
                for (size_t k = 0; k < n; k++) {
                    perm.push_back(static_cast<i64>(k));
                }
                for (size_t k = n; k > 1; k--) {
                    std::swap(perm[k - 1], perm[r.below(k)]);
                }
                size_t nb = r.below(n + 1);
                Op base{"base", {}, ""};
                vector<i64> have(perm.begin(), perm.begin() + static_cast<long>(nb));
                std::sort(have.begin(), have.end());
                base.a = have;
                c.ops.push_back(base);
                for (size_t k = nb; k < n; k++) {
                    // to its place among those that are there, or, variables only, anywhere
                    i64 rule = perm[k];
                    i64 pos = 0;
                    while (pos < static_cast<i64>(have.size())
                           && have[static_cast<size_t>(pos)] < rule)
                    {
                        pos++;
                    }
                    if (pos == static_cast<i64>(have.size()) && r.chance(0.5)) {
                        pos = -1;
                    }
                    c.ops.push_back({"add", {rule, pos}, ""});
                    have.insert(pos < 0 ? have.end() : have.begin() + pos, rule);
                }
            }
        };
        p.prepare = [](World&, Case const&) {};
        p.plausible = [](Case const& c) {
            return c.streams.empty() || renders(c.streams[0].data, c.schemas[0]);
        };
        p.exec = exec_c13;
        p.shrink_knobs = {{"bytes", {0}}, {"class", {0}}};
        p.shrink_rules = false;
        R.push_back(p);
    }
    {
        Prop p;
        p.id = "C14";
        p.episodes = 10;
        p.gen_base = [](Rng& r) {
            Case c;
            c.prop = "C14";
            int n = static_cast<int>(r.range(1, 4));
            for (int k = 0; k < n; k++) {
                Stream s;
                s.data = gen_text(r);
                c.streams.push_back(s);
            }
            if (r.chance(0.25)) {
                Stream s;
                s.data = gen_long_text(r);
                c.streams.insert(c.streams.begin() + r.range(0, n), s);
                c.knobs["long"] = 1;
            }
            return c;
        };
        p.gen_episode = [](Rng& r, Case& c) {
            for (auto& s : c.streams) {
                s.sched = gen_file_sched(r, s.data.size(), r.chance(0.5));
            }
            // the size of the schema parser's buffer
            c.knobs["bytes"] = gen_schema_buffer(r, c.streams[0].data.size());
            i64 ns = static_cast<i64>(c.streams.size());
            int n = static_cast<int>(r.range(2, 12));
            bool faults = r.chance(0.6);
            auto pick = [&] { return r.range(0, ns - 1); };
            for (int k = 0; k < n; k++) {
                if (faults && r.chance(0.4)) {
                    if (r.chance(0.5)) {
                        // at a place in the code
                        i64 sel = r.range(0, 65535)
                                  + 65536 * (r.chance(0.5) ? 0 : r.range(0, 4000));
                        c.ops.push_back({"fail", {-2 - sel}, ""});
                    } else {
                        i64 at = r.chance(0.5) ? r.range(0, 40000) : r.skewed(40000);
                        c.ops.push_back({r.chance(0.8) ? "fail" : "burst", {at}, ""});
                    }
                }
                switch (r.below(10)) {
                    case 0:
                    case 1:
                    case 2:
                    case 3:
                        c.ops.push_back({"str", {pick()}, ""});
                        break;
                    case 4:
                    case 5:
                    case 6:
                        c.ops.push_back({"file", {pick(), r.chance(0.15) ? EACCES : 0}, ""});
                        break;
                    case 7: {
                        Op op{"obj", {pick()}, ""};
                        while (r.chance(0.5)) {
                            op.a.push_back(pick());
                        }
                        c.ops.push_back(op);
                        break;
                    }
                    case 8:
                        c.ops.push_back({"parser", {pick()}, ""});
                        break;
                    default:
                        if (c.knob("long") != 0) {
                            c.ops.push_back({"many", {pick(), r.range(3, 20)}, ""});
                        } else if (r.chance(0.08)) {
                            c.ops.push_back({"many", {pick(), r.range(20, 150)}, ""});
                        }
                }
            }
        };
        p.prepare = [](World&, Case const&) {};
        p.exec = exec_c14;
        p.shrink_knobs = {{"bytes", {0, 64, 16}}};
        p.shrink_rules = false;
        R.push_back(p);
    }
    {
        Prop p;
        p.id = "C22";
        p.episodes = 12;
        p.gen_base = [](Rng& r) {
            Case c;
            c.prop = "C22";
            c.streams.resize(2);
            SchemaOpts so = small_schema();
            so.min_vars = 1;
            Schema s = gen_schema(r, so);
            c.schemas.push_back(s);
            return c;
        };
        p.gen_episode = [](Rng& r, Case& c) {
            Schema& s = c.schemas[0];
            int kind = static_cast<int>(r.below(20));
            if (kind < 11) {
                // more delimiters, some of which a pattern uses
                string chars;
                for (auto const& rule : s.rules) {
                    if (rule.name != "timestamp") {
                        for (char ch : rule.pattern) {
                            if (ch >= ' ' && ch <= '~') {
                                chars += ch;
                            }
                        }
                    }
                }
                int n = static_cast<int>(r.range(1, 3));
                for (int k = 0; k < n; k++) {
                    char ch = !chars.empty() && r.chance(0.6)
                                      ? chars[r.below(chars.size())]
                                      : static_cast<char>(r.range(' ', '~'));
                    if (s.delims.find(ch) == string::npos) {
                        s.delims += ch;
                    }
                }
                if (r.chance(0.1) && s.delims.size() > 1) {
                    // without the newline
                    s.delims.erase(std::remove(s.delims.begin(), s.delims.end(), '\n'),
                                   s.delims.end());
                }
            } else if (kind == 11) {
                s.has_delims = false;
            } else if (kind < 15) {
                static vector<string> const bad{"name",      ":abc",      "name:(ab", "name:a{2",
                                                "name:[ab",  "name:*a",   "n-me:abc", "name:",
                                                "name:a)",   "name:a{b}", "name:a|",  "name:a\\",
                                                "name:[]",   "/ comment", "na me:ab", "name:a{,2}",
                                                "name:ab**", "name:(?<a", "name:a]",  "name=abc",
                                                "bad_name:a", "name:(?<a>b"};
                s.rules.insert(s.rules.begin() + static_cast<long>(r.below(s.rules.size() + 1)),
                               Rule{"", r.pick(bad)});
            } else if (kind == 15) {
                s.rules.insert(s.rules.begin() + static_cast<long>(r.below(s.rules.size() + 1)),
                               Rule{"", cMeaningless[r.below(std::size(cMeaningless))]});
            }
            s.delims_at = r.chance(0.6) ? 0 : static_cast<int>(r.below(s.rules.size() + 1));
            c.knobs["render"] = r.chance(0.2) ? 0 : static_cast<i64>(1 + r.below(1000000000));
            c.knobs["long"] = r.chance(0.1);
            c.knobs["entry"] = r.range(0, 5);
            c.knobs["class"] = r.range(0, 1);
            string text = c22_text(c, s);
            c.knobs["bytes"] = gen_schema_buffer(r, text.size());
            c.streams[0].sched = gen_file_sched(r, text.size(), false);
            i64 how = r.range(0, 9);
            c.knobs["reopen"] = how < 5 ? 0 : how < 8 ? 1 : 2;
            c.streams[1].sched = gen_file_sched(r, text.size(), how >= 3 && how < 7);
            if (how >= 8) {
                static i64 const codes[]{ENOENT, EACCES, EMFILE, EIO, ENOMEM};
                c.knobs["errno"] = codes[r.below(5)];
            } else if (how >= 5) {
                // shorter, other lines, empty, no newline, ...
                switch (r.below(4)) {
                    case 0:
                        text.resize(r.below(text.size() + 1));
                        break;
                    case 1:
                        text = string(r.below(60), '\n');
                        break;
                    case 2:
                        text = "";
                        break;
                    default:
                        for (size_t k = 0; k < text.size(); k++) {
                            if (r.chance(0.2)) {
                                text[k] = static_cast<char>(r.range(1, 255));
                            }
                        }
                }
                c.streams[1].data = text;
            }
        };
        p.prepare = [](World&, Case const&) {};
        p.plausible = [](Case const& c) { return !c.schemas[0].rules.empty(); };
        p.exec = exec_c22;
        p.shrink_knobs = {{"bytes", {0}}, {"render", {0}}, {"reopen", {0}}, {"entry", {0, 4}},
                          {"class", {0}}, {"long", {0}}};
        p.shrink_streams = true;
        p.shrink_rules = true;
        R.push_back(p);
    }
}
}  // namespace sim
