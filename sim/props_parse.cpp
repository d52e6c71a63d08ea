// C01-C09, C20: parsing under every delivery of the input
#include <algorithm>

#include "props.hpp"

namespace sim {
vector<Prop>& registry() {
    static vector<Prop> v;
    return v;
}
Prop const* find_prop(string const& id) {
    for (auto const& p : registry()) {
        if (p.id == id) {
            return &p;
        }
    }
    return nullptr;
}

Case base_case(Rng& r, string const& prop, SchemaOpts const& so, double p_shipped) {
    Case c;
    c.prop = prop;
    c.schemas.push_back(gen_schema(r, so));
    if (r.chance(p_shipped)) {
        c.knobs["bytes"] = 0;
        c.knobs["tokens"] = 0;
    } else {
        c.knobs["bytes"] = gen_static_size(r);
        c.knobs["tokens"] = r.chance(0.2) ? 0 : 2 * r.range(2, 40);
    }
    return c;
}

Sizes sizes(Case const& c) {
    return {static_cast<u32>(c.knob("bytes")), static_cast<u32>(c.knob("tokens"))};
}

InputOpts input_opts(Case const& c) {
    InputOpts o;
    u32 b = static_cast<u32>(c.knob("bytes"));
    if (b == 0) {
        o.half = ls::cStaticByteBuffSize / 2;
        o.max_len = 150000;
    } else {
        o.half = b / 2;
        o.max_len = std::min<size_t>(6000, 40 + 14 * static_cast<size_t>(b));
    }
    return o;
}

// with the shipped sizes inputs are long: most of an input is filler, so that the interesting
// bytes fall around the boundaries
Stream stream_for(Rng& r, Case const& c, Sampler& s) {
    InputOpts o = input_opts(c);
    if (c.knob("bytes") != 0) {
        return gen_stream(r, s, o);
    }
    Stream st;
    InputOpts small;
    small.max_len = 400;
    small.half = 0;
    small.huge_events = false;
    size_t blocks = r.range(1, 5);
    for (size_t k = 1; k <= blocks; k++) {
        size_t at = k * o.half;
        i64 want = static_cast<i64>(at) - static_cast<i64>(st.data.size()) - r.range(-3, 200);
        if (want > 0) {
            size_t n = static_cast<size_t>(want);
            string f;
            switch (r.below(4)) {
                case 0:
                    f = s.word(r, 40);
                    while (f.size() < n) {
                        f += f.substr(0, std::min(f.size(), n - f.size()));
                    }
                    break;
                case 1: {
                    string unit = s.word(r, 30) + "\n";
                    while (f.size() < n) {
                        f += unit.substr(0, std::min(unit.size(), n - f.size()));
                    }
                    break;
                }
                default: {
                    string unit = gen_input(r, s, small);
                    if (unit.empty()) {
                        unit = "x\n";
                    }
                    while (f.size() < n) {
                        f += unit.substr(0, std::min(unit.size(), n - f.size()));
                    }
                }
            }
            st.data += f;
        }
        st.data += gen_input(r, s, small);
    }
    for (char& ch : st.data) {
        if (static_cast<u8>(ch) >= 0xFD) {
            ch = 'z';
        }
    }
    st.sched = gen_sched(r, st.data.size(), o.half);
    st.eof_form = r.chance(0.3) ? 1 : 0;
    st.dirty = r.chance(0.5) ? r.next() % 1000000 + 1 : 0;
    return st;
}

namespace {
void note_input(Ctx& c, Stream const& st, Drain const& d, Sizes z) {
    u32 b = z.bytes ? z.bytes : ls::cStaticByteBuffSize;
    for (auto const& e : d.ev) {
        if (e.text.size() > b) {
            c.count("probe.event_longer_than_buffer");
        } else if (e.text.size() > b / 2) {
            c.count("probe.event_longer_than_half_buffer");
        }
        if (e.has_ts) {
            c.count("probe.timestamped_event");
        }
        if (e.multiline) {
            c.count("probe.multiline_event");
        }
    }
    if (st.data.size() > b) {
        c.count("probe.input_wraps_buffer");
    }
    if (d.ev.size() > 1) {
        c.nontrivial();
    }
}

void gen_one_stream(Rng& r, Case& c) {
    Sampler s(c.schemas[0]);
    c.streams.push_back(stream_for(r, c, s));
}

void prep_n(World& w, Case const& c, int readers, int buffers) {
    w.model = std::make_unique<Model>(c.schemas[0]);
    for (int i = 0; i < readers; i++) {
        w.rp.push_back(make_reader_parser(c.schemas[0], sizes(c)));
    }
    for (int i = 0; i < buffers; i++) {
        w.bp.push_back(make_buffer_parser(c.schemas[0], sizes(c)));
    }
}

Drain run_stream(ls::ReaderParser& p, Stream const& st, Ctx& c, DrainOpts const& o = {}) {
    Source src(st, c);
    set_reader(p, src);
    Drain d = drain(p, src, st, c, o);
    check_memory(c);
    return d;
}

// ---- C01
void exec_c01(World& w, Case const& c, Ctx& x) {
    auto const& st = c.streams[0];
    DrainOpts o;
    Drain d = run_stream(*w.rp[0], st, x, o);
    string all;
    for (auto const& e : d.ev) {
        all += e.text;
    }
    if (all != st.data) {
        size_t k = 0;
        while (k < all.size() && k < st.data.size() && all[k] == st.data[k]) {
            k++;
        }
        x.fail("bytes", "the events give " + std::to_string(all.size()) + " bytes of "
                                + std::to_string(st.data.size()) + ", first difference at "
                                + std::to_string(k) + ": input " + show(st.data.substr(k, 80))
                                + " events " + show(all.substr(k, 80)));
    }
    note_input(x, st, d, sizes(c));
}

// ---- C03
void exec_c03(World& w, Case const& c, Ctx& x) {
    auto const& st = c.streams[0];
    Drain d = run_stream(*w.rp[0], st, x);
    auto want = w.model->parse(st.data);
    size_t n = std::max(want.size(), d.ev.size());
    for (size_t i = 0; i < n; i++) {
        bool same = i < want.size() && i < d.ev.size() && want[i].text == d.ev[i].text
                    && want[i].has_ts == d.ev[i].has_ts && want[i].ts == d.ev[i].ts;
        if (!same) {
            x.fail("boundary",
                   "event " + std::to_string(i) + ": documented "
                           + (i < want.size() ? describe(want[i]) : "(none)") + " returned "
                           + (i < d.ev.size() ? describe(canon(d.ev[i])) : "(none)"));
        }
    }
    x.count("probe.failed_timestamp_candidate", w.model->m_failed_ts);
    note_input(x, st, d, sizes(c));
}

// ---- C04
struct VarAt {
    size_t pos;
    string run;
    vector<string> types;
    bool operator==(VarAt const&) const = default;
};

vector<VarAt> vars_of(vector<EvRec> const& ev, Model const& m) {
    vector<VarAt> out;
    size_t pos = 0;
    for (auto const& e : ev) {
        size_t i = 0;
        for (auto const& t : e.toks) {
            string const& n = t.types[0];
            bool lead = i++ == 0 && e.has_ts;
            bool stat = n == "$UncaughtString" || n == "newLine"
                        || (lead && (n == "firstTimestamp" || n == "newLineTimestamp"));
            if (!stat) {
                VarAt v;
                v.pos = pos;
                v.run = t.text;
                if (!v.run.empty() && m.is_delim(v.run[0])) {
                    v.pos++;
                    v.run.erase(0, 1);
                }
                for (auto const& k : t.types) {
                    if (k != "firstTimestamp" && k != "newLineTimestamp") {
                        v.types.push_back(k);
                    }
                }
                out.push_back(std::move(v));
            }
            pos += t.text.size();
        }
    }
    return out;
}

void exec_c04(World& w, Case const& c, Ctx& x) {
    auto const& st = c.streams[0];
    Drain d = run_stream(*w.rp[0], st, x);
    auto want_ev = w.model->parse(st.data);
    vector<VarAt> want;
    for (auto const& e : want_ev) {
        for (auto const& v : e.vars) {
            VarAt a;
            a.pos = v.pos;
            size_t j = v.pos;
            while (j < st.data.size() && !w.model->is_delim(st.data[j])) {
                j++;
            }
            a.run = st.data.substr(v.pos, j - v.pos);
            a.types = v.types;
            want.push_back(a);
        }
    }
    auto got = vars_of(d.ev, *w.model);
    size_t n = std::max(want.size(), got.size());
    auto text = [](VarAt const& v) {
        string o = show(v.run) + " at " + std::to_string(v.pos) + " as";
        for (auto const& t : v.types) {
            o += " " + t;
        }
        return o;
    };
    for (size_t i = 0; i < n; i++) {
        if (i < want.size() && i < got.size() && want[i] == got[i]) {
            continue;
        }
        x.fail("variable", "variable " + std::to_string(i) + ": documented "
                                   + (i < want.size() ? text(want[i]) : "(none)") + ", returned "
                                   + (i < got.size() ? text(got[i]) : "(none)"));
    }
    // the lists: every variable under its first name, in order
    std::map<string, vector<string>> lists;
    for (auto const& e : d.ev) {
        lists.clear();
        size_t i = 0;
        for (auto const& t : e.toks) {
            bool lead = i++ == 0 && e.has_ts;
            if (!lead && t.types[0] != "$UncaughtString" && t.types[0] != "newLine") {
                lists[t.types[0]].push_back(t.text);
            }
        }
        for (auto const& [name, v] : lists) {
            auto it = e.vars.find(name);
            if (it == e.vars.end() || it->second != v) {
                x.fail("list", "the list of " + name + " does not hold exactly its tokens in "
                                       + describe(e));
            }
        }
    }
    x.count("probe.variables", want.size());
    x.count("probe.token_of_several_rules", w.model->m_multi_type);
    x.count("probe.failed_timestamp_candidate", w.model->m_failed_ts);
    note_input(x, st, d, sizes(c));
    if (want.empty()) {
        x.shared()->nontrivial = 0;
    }
}

// ---- C20
void exec_c20(World& w, Case const& c, Ctx& x) {
    auto const& st = c.streams[0];
    DrainOpts o;
    o.check_views = true;
    Drain d = run_stream(*w.rp[0], st, x, o);
    note_input(x, st, d, sizes(c));
    // the same events as copies
    (void)c;
}

// ---- C02
void prep_c02(World& w, Case const& c) {
    w.rp.push_back(make_reader_parser(c.schemas[0], {0, 0}));
    w.rp.push_back(make_reader_parser(c.schemas[0], sizes(c)));
}
void exec_c02(World& w, Case const& c, Ctx& x) {
    g_capture_lines = true;
    auto const& st = c.streams[0];
    Stream plain;
    plain.data = st.data;
    DrainOpts o;
    o.keep_empty_last = true;
    x.tracef("--- delivered as asked, shipped buffer size");
    Drain a = run_stream(*w.rp[0], plain, x, o);
    x.tracef("--- delivered as scheduled, buffer size %lld",
             static_cast<long long>(c.knob("bytes")));
    Drain b = run_stream(*w.rp[1], st, x, o);
    string df = diff(a.ev, b.ev, "delivered in full:", "delivered as scheduled:");
    if (!df.empty()) {
        x.fail("differs", df);
    }
    note_input(x, st, b, sizes(c));
}

// ---- C05
void exec_c05(World& w, Case const& c, Ctx& x) {
    g_capture_lines = true;
    auto const& st = c.streams[0];
    Stream clean = st;
    clean.sched.clear();
    u64 nerr = 0;
    for (auto const& d : st.sched) {
        if (d.kind == 'd') {
            clean.sched.push_back(d);
        } else {
            nerr++;
        }
    }
    x.tracef("--- without errors");
    DrainOpts o;
    o.keep_empty_last = true;
    Drain a = run_stream(*w.rp[0], clean, x, o);
    x.tracef("--- with errors");
    Source src(st, x);
    set_reader(*w.rp[1], src);
    Drain b = drain(*w.rp[1], src, st, x, o);
    check_memory(x);
    if (b.errors.size() != src.errors) {
        x.fail("swallowed-error", std::to_string(src.errors) + " errors, "
                                          + std::to_string(b.errors.size()) + " returned");
    }
    string df = diff(a.ev, b.ev, "without errors:", "with errors:");
    if (!df.empty()) {
        x.fail("differs", df);
    }
    note_input(x, st, b, sizes(c));
    if (src.errors == 0) {
        x.shared()->nontrivial = 0;
    }
    (void)nerr;
}

// ---- C06
void exec_c06(World& w, Case const& c, Ctx& x) {
    auto const& st = c.streams[0];
    Source src(st, x);
    set_reader(*w.rp[0], src);
    u64 live0 = mem::stats().live_bytes;
    mem::reset_peak();
    DrainOpts o;
    Drain d = drain(*w.rp[0], src, st, x, o);
    u64 peak = mem::stats().peak_bytes;
    check_memory(x);
    if (src.zero_requests != 0) {
        x.fail("zero-read", "the reader was asked for zero bytes");
    }
    if (src.reads_after_end != 0) {
        x.fail("read-after-end", "the reader was called again after it signalled the end");
    }
    u64 longest = 0;
    u64 total = 0;
    for (auto const& e : d.ev) {
        longest = std::max<u64>(longest, e.text.size());
        total += e.text.size();
    }
    u64 sb = c.knob("bytes") ? static_cast<u64>(c.knob("bytes")) : ls::cStaticByteBuffSize;
    // doubled buffers are kept until reset: a constant factor of the longest event, tokens included
    u64 bound = 32 * (longest + 2 * sb) + 2 * sizeof(ls::Token) * 8 * (longest + 16) + 16384;
    u64 used = peak > live0 ? peak - live0 : 0;
    x.log(used <= bound);
    if (used > bound) {
        x.fail("memory-bound", "used " + std::to_string(used) + " bytes for an input of "
                                       + std::to_string(st.data.size())
                                       + " bytes whose longest event has " + std::to_string(longest)
                                       + " bytes (buffer " + std::to_string(sb) + ", bound "
                                       + std::to_string(bound) + ")");
    }
    if (total > 4 * bound) {
        x.count("probe.input_much_larger_than_bound");
    }
    // what a parser keeps does not grow from input to input
    u64 kept = 0;
    for (i64 k = 0; k < c.knob("again"); k++) {
        Source again(st, x);
        set_reader(*w.rp[0], again);
        u64 now = mem::stats().live_bytes;
        if (k > 0 && now > kept) {
            x.fail("memory-kept", "after reset number " + std::to_string(k + 2) + " with the same input "
                                          + std::to_string(now - kept) + " bytes more are in use");
        }
        kept = now;
        o.capture = false;
        drain(*w.rp[0], again, st, x, o);
        x.count("probe.inputs_again");
    }
    // the buffer parser
    if (c.knob("buffer")) {
        EdgeBuf b(st.data, 0, 0);
        size_t off = 0;
        u64 calls = 0;
        {
            mem::Lib l;
            w.bp[0]->reset();
        }
        while (!w.bp[0]->done()) {
            if (calls++ > st.data.size() + 2) {
                x.fail("no-progress", "buffer parser not done after " + std::to_string(calls)
                                              + " calls on " + std::to_string(st.data.size())
                                              + " bytes");
            }
            size_t before = off;
            auto e = parse_next(*w.bp[0], b.data(), b.size(), off, true);
            if (ls::ErrorCode::Success != e) {
                x.fail("error", "buffer parser returned " + std::to_string(static_cast<int>(e))
                                        + " for finished input");
            }
            EvRec rec = capture(w.bp[0]->get_log_parser().get_log_event_view(),
                                w.bp[0]->get_log_parser());
            if (rec.text.empty() && !w.bp[0]->done()) {
                x.fail("empty-event", "an empty event that is not the last");
            }
            if (off < before || off > b.size()) {
                x.fail("offset", "the offset went from " + std::to_string(before) + " to "
                                         + std::to_string(off));
            }
        }
        check_memory(x);
    }
    note_input(x, st, d, sizes(c));
}

// ---- C07
// ops: "set i"  new input i;  "next k"  k calls;  "drain"
//      "bset i n" buffer parser: reset, buffer = first n bytes of input i (n<0: all, finished)
//      "bnext k"
void gen_c07(Rng& r, Case& c) {
    Sampler s(c.schemas[0]);
    int ns = static_cast<int>(r.range(2, 4));
    for (int i = 0; i < ns; i++) {
        Stream st = stream_for(r, c, s);
        if (r.chance(0.3)) {
            add_errors(r, st.sched, 3);
        }
        c.streams.push_back(st);
    }
    bool buffers = r.chance(0.4);
    for (int i = 0; i < ns; i++) {
        if (buffers) {
            i64 len = static_cast<i64>(c.streams[static_cast<size_t>(i)].data.size());
            i64 n = r.chance(0.5) ? -1 : r.range(0, len);
            c.ops.push_back({"bset", {i, n, r.chance(0.3) ? 1 : 0}, ""});
            bool last = i == ns - 1;
            c.ops.push_back({"bnext", {last || r.chance(0.2) ? 100000 : r.range(0, 4)}, ""});
            if (r.chance(0.2)) {
                c.ops.push_back({"breset", {}, ""});
            }
        } else {
            c.ops.push_back({"set", {i}, ""});
            bool last = i == ns - 1;
            c.ops.push_back({"next", {last || r.chance(0.2) ? 100000 : r.range(0, 4)}, ""});
            if (r.chance(0.1)) {
                c.ops.push_back({"set", {i}, ""});
            }
        }
    }
}

struct Step {
    int code;
    EvRec ev;
    bool done;
    size_t off{0};
    u32 token_room{0};
    bool operator==(Step const&) const = default;
};

// before the first parse call (there is no view then)
Step first_step(bool done) {
    return {0, {}, done, 0};
}

string step_text(Step const& s) {
    return s.code == 0 ? describe(s.ev) + (s.done ? " done" : "") + " offset "
                                 + std::to_string(s.off)
                       : "error " + std::to_string(s.code) + " offset " + std::to_string(s.off);
}

vector<Step> steps_reader(ls::ReaderParser& p, i64 k, Ctx& x) {
    vector<Step> out{first_step(p.done())};
    for (i64 i = 0; i < k && !p.done(); i++) {
        x.step();
        auto e = parse_next(p);
        Step s{static_cast<int>(e), {}, p.done(), 0};
        if (e == ls::ErrorCode::Success) {
            s.ev = capture(p.get_log_parser().get_log_event_view(), p.get_log_parser());
            s.token_room = p.get_log_parser().get_log_event_view().get_log_output_buffer()->size();
        }
        x.log(s.ev.text);
        x.log(static_cast<u64>(s.code));
        x.tracef("  step %s", step_text(s).c_str());
        out.push_back(std::move(s));
        if (i > 40000) {
            x.fail("no-progress", "more than 40000 calls");
        }
    }
    return out;
}

vector<Step> steps_buffer(ls::BufferParser& p, EdgeBuf& b, bool fin, i64 k, Ctx& x) {
    vector<Step> out{first_step(p.done())};
    size_t off = 0;
    for (i64 i = 0; i < k && !p.done(); i++) {
        x.step();
        auto e = parse_next(p, b.data(), b.size(), off, fin);
        Step s{static_cast<int>(e), {}, p.done(), off};
        if (e == ls::ErrorCode::Success) {
            s.ev = capture(p.get_log_parser().get_log_event_view(), p.get_log_parser());
            s.token_room = p.get_log_parser().get_log_event_view().get_log_output_buffer()->size();
        }
        x.log(s.ev.text);
        x.log(static_cast<u64>(s.code));
        x.tracef("  step %s", step_text(s).c_str());
        bool failed = s.code != 0;
        out.push_back(std::move(s));
        if (failed) {
            break;
        }
        if (i > 40000) {
            x.fail("no-progress", "more than 40000 calls");
        }
    }
    return out;
}

void compare_steps(vector<Step> const& fresh, vector<Step> const& used, Ctx& x) {
    size_t n = std::max(fresh.size(), used.size());
    for (size_t i = 0; i < n; i++) {
        if (i < fresh.size() && i < used.size() && fresh[i] == used[i]) {
            continue;
        }
        x.fail("differs", "call " + std::to_string(i) + ": new parser "
                                  + (i < fresh.size() ? step_text(fresh[i]) : "(none)")
                                  + ", reset parser "
                                  + (i < used.size() ? step_text(used[i]) : "(none)"));
    }
}

void exec_c07(World& w, Case const& c, Ctx& x) {
    g_capture_lines = true;
    size_t fresh_r = 1;
    size_t fresh_b = 1;
    u64 sets = 0;
    for (size_t i = 0; i < c.ops.size(); i++) {
        auto const& op = c.ops[i];
        if (op.kind == "set") {
            if (static_cast<size_t>(op.a[0]) >= c.streams.size() || fresh_r >= w.rp.size()) {
                continue;
            }
            auto const& st = c.streams[static_cast<size_t>(op.a[0])];
            i64 k = 0;
            if (i + 1 < c.ops.size() && c.ops[i + 1].kind == "next") {
                k = c.ops[i + 1].a[0];
            }
            x.tracef("--- new parser");
            Source s1(st, x);
            set_reader(*w.rp[fresh_r], s1);
            auto a = steps_reader(*w.rp[fresh_r], k, x);
            fresh_r++;
            x.tracef("--- reset parser");
            auto* s2 = new Source(st, x);  // outlives the use by the parser
            set_reader(*w.rp[0], *s2);
            auto b = steps_reader(*w.rp[0], k, x);
            compare_steps(a, b, x);
            if (s1.requests != s2->requests) {
                x.fail("requests-differ", "a reset parser asks the reader for other amounts than a "
                                          "new one (" + std::to_string(s1.requests.size()) + " and "
                                                  + std::to_string(s2->requests.size())
                                                  + " requests)");
            }
            sets++;
            if (s2->errors) {
                x.count("probe.reset_after_reader_error");
            }
        } else if (op.kind == "bset") {
            if (static_cast<size_t>(op.a[0]) >= c.streams.size() || fresh_b >= w.bp.size()) {
                continue;
            }
            auto const& st = c.streams[static_cast<size_t>(op.a[0])];
            i64 k = 0;
            if (i + 1 < c.ops.size() && c.ops[i + 1].kind == "bnext") {
                k = c.ops[i + 1].a[0];
            }
            bool fin = op.a[1] < 0;
            size_t n = fin ? st.data.size()
                           : std::min<size_t>(static_cast<size_t>(op.a[1]), st.data.size());
            EdgeBuf b1(st.data.substr(0, n), 0, 0);
            x.tracef("--- new parser");
            if (op.a.size() > 2 && op.a[2] != 0) {
                // makes no difference to a new one
                mem::Lib l;
                w.bp[fresh_b]->reset();
            }
            auto a = steps_buffer(*w.bp[fresh_b], b1, fin, k, x);
            fresh_b++;
            x.tracef("--- reset parser");
            auto* b2 = new EdgeBuf(st.data.substr(0, n), 0, 0);
            {
                mem::Lib l;
                w.bp[0]->reset();
            }
            auto b = steps_buffer(*w.bp[0], *b2, fin, k, x);
            compare_steps(a, b, x);
            sets++;
        } else if (op.kind == "breset") {
            mem::Lib l;
            w.bp[0]->reset();
        }
    }
    check_memory(x);
    if (sets > 1) {
        x.nontrivial();
    }
    x.count("probe.resets", sets);
}

// ---- C08
void c08_round(World& w, Case const& c, Stream const& st, Ctx& x) {
    // all at once
    vector<EvRec> whole;
    {
        EdgeBuf b(st.data, 0, 0);
        if (c.knob("reset_first")) {
            mem::Lib l;
            w.bp[1]->reset();
        }
        size_t off = 0;
        u64 calls = 0;
        while (!w.bp[1]->done()) {
            auto e = parse_next(*w.bp[1], b.data(), b.size(), off, true);
            if (e != ls::ErrorCode::Success) {
                x.fail("error", "error " + std::to_string(static_cast<int>(e))
                                        + " for a complete input");
            }
            whole.push_back(capture(w.bp[1]->get_log_parser().get_log_event_view(),
                                    w.bp[1]->get_log_parser()));
            x.tracef("whole -> %s offset %zu", describe(whole.back()).c_str(), off);
            if (calls++ > st.data.size() + 2) {
                x.fail("no-progress", "whole input not done");
            }
        }
        if (!b.unchanged()) {
            x.fail("buffer-changed", "the parser changed the caller's buffer");
        }
    }
    if (!whole.empty() && whole.back().text.empty()) {
        whole.pop_back();
    }
    // as a feeder would
    auto& p = *w.bp[0];
    size_t fed = 0;       // bytes of the input seen so far
    size_t base = 0;      // position in the input of the start of the buffer
    size_t event_at = 0;  // start of the next unparsed event
    size_t i = 0;
    vector<EvRec> got;
    std::unique_ptr<EdgeBuf> buf;
    bool fin = false;
    bool fin_late = c.knob("late_finish") != 0;
    size_t off = 0;
    bool eager = false;
    auto refill = [&](size_t keep_from) {
        // keep the bytes from the offset on, append more
        size_t n = st.data.size() - fed;
        eager = false;
        if (i < st.sched.size()) {
            n = std::min<size_t>(n, st.sched[i].n);
            eager = (st.sched[i].arg & 1) != 0;
            i++;
        }
        bool grow = c.knob("grow") != 0;
        if (!grow) {
            base = base + keep_from;
            off = 0;
        } else {
            off = keep_from;
        }
        bool had = fed == st.data.size();
        fed += n;
        buf = std::make_unique<EdgeBuf>(st.data.substr(base, fed - base),
                                        static_cast<size_t>(c.knob("slack")), st.dirty);
        // `finished` may be known with the last bytes, or only afterwards
        fin = fed == st.data.size() && (!fin_late || had);
        x.count("probe.refills");
        x.tracef("feeder: buffer is input[%zu,%zu) offset %zu%s", base, fed, off,
                 fin ? " finished" : "");
    };
    if (c.knob("reset_first")) {
        mem::Lib l;
        p.reset();
    }
    refill(0);
    u64 calls = 0;
    u64 oob = 0;
    while (!p.done()) {
        if (calls++ > 2 * st.data.size() + 2 * st.sched.size() + 10) {
            x.fail("no-progress", "not done after " + std::to_string(calls) + " calls");
        }
        x.step();
        auto e = parse_next(p, buf->data(), buf->size(), off, fin);
        x.log(static_cast<u64>(static_cast<int>(e)) * 1000003 + off);
        if (!buf->unchanged()) {
            x.fail("buffer-changed", "the parser changed the caller's buffer");
        }
        if (off > buf->size()) {
            x.fail("offset", "offset " + std::to_string(off) + " beyond the buffer of "
                                     + std::to_string(buf->size()) + " bytes");
        }
        if (e == ls::ErrorCode::Success) {
            EvRec rec = capture(p.get_log_parser().get_log_event_view(), p.get_log_parser());
            x.log(rec.text);
            x.tracef("parse -> %s offset %zu%s", describe(rec).c_str(), off,
                     p.done() ? " done" : "");
            event_at += rec.text.size();
            if (base + off != event_at) {
                x.fail("offset-success", "offset is position " + std::to_string(base + off)
                                                 + " of the input, the next unparsed event "
                                                   "starts at "
                                                 + std::to_string(event_at) + ", after event "
                                                 + describe(rec));
            }
            if (rec.text.empty() && !p.done()) {
                x.fail("empty-event", "an empty event that is not the last");
            }
            if (!rec.text.empty()) {
                got.push_back(std::move(rec));
            }
            if (p.done() && !fin) {
                x.fail("done-early", "done() although more input was announced");
            }
            if (eager && !p.done() && fed < st.data.size()) {
                // the caller moves the buffer although it could go on parsing
                {
                    mem::Lib l;
                    p.reset();
                }
                refill(off);
                x.count("probe.eager_refill");
            }
            continue;
        }
        if (e != ls::ErrorCode::BufferOutOfBounds) {
            x.fail("error", "unexpected error " + std::to_string(static_cast<int>(e)));
        }
        x.tracef("parse -> out of bounds, offset %zu", off);
        if (fin) {
            x.fail("oob-finished", "out of bounds although the input is finished");
        }
        if (base + off != event_at) {
            x.fail("offset-oob", "out of bounds with offset at position "
                                         + std::to_string(base + off)
                                         + " of the input, the incomplete event starts at "
                                         + std::to_string(event_at));
        }
        oob++;
        refill(off);
    }
    check_memory(x);
    string df = diff(canon(whole), canon(got), "all at once:", "fed:");
    if (!df.empty()) {
        x.fail("differs", df);
    }
    string all;
    for (auto const& e : got) {
        all += e.text;
    }
    if (all != st.data) {
        x.fail("bytes", "events give " + show(all) + " input " + show(st.data));
    }
    x.count("probe.out_of_bounds", oob);
    if (oob > 0 && got.size() > 1) {
        x.nontrivial();
    }
}

void exec_c08(World& w, Case const& c, Ctx& x) {
    g_capture_lines = true;
    for (size_t r = 0; r < c.streams.size(); r++) {
        if (r > 0) {
            // the parsers are used for another input
            x.tracef("--- reset for input %zu", r);
            mem::Lib l;
            w.bp[0]->reset();
            w.bp[1]->reset();
        }
        c08_round(w, c, c.streams[r], x);
    }
    x.count("probe.inputs", c.streams.size());
}

// ---- C09
void exec_c09(World& w, Case const& c, Ctx& x) {
    g_capture_lines = true;
    auto const& st = c.streams[0];
    Drain a = run_stream(*w.rp[0], st, x);
    vector<EvRec> b;
    EdgeBuf buf(st.data, static_cast<size_t>(c.knob("slack")), st.dirty);
    if (c.knob("reset_first")) {
        mem::Lib l;
        w.bp[0]->reset();
    }
    size_t off = 0;
    u64 calls = 0;
    while (!w.bp[0]->done()) {
        auto e = parse_next(*w.bp[0], buf.data(), buf.size(), off, true);
        if (e != ls::ErrorCode::Success) {
            x.fail("error", "buffer parser: error " + std::to_string(static_cast<int>(e)));
        }
        b.push_back(capture(w.bp[0]->get_log_parser().get_log_event_view(),
                            w.bp[0]->get_log_parser()));
        if (calls++ > st.data.size() + 2) {
            x.fail("no-progress", "buffer parser not done");
        }
    }
    check_memory(x);
    if (!b.empty() && b.back().text.empty()) {
        b.pop_back();
    }
    string df = diff(a.ev, b, "reader parser:", "buffer parser:");
    if (!df.empty()) {
        x.fail("differs", df);
    }
    // the names by which variables are asked for
    vector<string> names{"timestamp", "", "newLine", "int:", "no such variable"};
    for (auto const& rule : c.schemas[0].rules) {
        names.push_back(rule.name);
    }
    auto const& syms = w.rp[0]->get_log_parser().m_lexer.m_id_symbol;
    for (auto const& name : names) {
        auto i = w.rp[0]->get_variable_id(name);
        auto j = w.bp[0]->get_variable_id(name);
        bool known = false;
        for (auto const& [id, sym] : syms) {
            known = known || sym == name;
        }
        if (i != j || i.has_value() != known || (known && syms.at(*i) != name)) {
            x.fail("variable-id", "get_variable_id(" + name + "): reader parser "
                                          + (i ? std::to_string(*i) : "none") + ", buffer parser "
                                          + (j ? std::to_string(*j) : "none"));
        }
    }
    note_input(x, st, a, sizes(c));
}
}  // namespace

void register_parse() {
    auto& R = registry();
    auto simple = [&](string id, double p_shipped, void (*exec)(World&, Case const&, Ctx&),
                      int min_vars) {
        Prop p;
        p.id = id;
        p.gen_base = [=](Rng& r) {
            SchemaOpts o;
            o.min_vars = min_vars;
            return base_case(r, id, o, p_shipped);
        };
        p.gen_episode = gen_one_stream;
        p.prepare = [](World& w, Case const& c) { prep_n(w, c, 1, 0); };
        p.exec = exec;
        p.shrink_knobs = {{"bytes", {0, 64, 16, 4}}, {"tokens", {0, 16, 4}}};
        R.push_back(p);
        return &R.back();
    };
    simple("C01", 0.06, exec_c01, 0);
    simple("C03", 0.04, exec_c03, 0);
    simple("C04", 0.04, exec_c04, 1);
    simple("C20", 0.04, exec_c20, 0);
    {
        Prop p = R[0];
        p.id = "C02";
        p.gen_base = [](Rng& r) { return base_case(r, "C02", {}, 0.08); };
        p.prepare = prep_c02;
        p.exec = exec_c02;
        R.push_back(p);
    }
    {
        Prop p = R[0];
        p.id = "C05";
        p.gen_base = [](Rng& r) { return base_case(r, "C05", {}, 0.03); };
        p.gen_episode = [](Rng& r, Case& c) {
            gen_one_stream(r, c);
            if (c.streams[0].sched.empty() && r.chance(0.7)) {
                // faults need deliveries to fall between
                size_t half = input_opts(c).half;
                for (size_t n = 0; n < c.streams[0].data.size() + half && c.streams[0].sched.size() < 300; n += half) {
                    c.streams[0].sched.push_back({'d', static_cast<u32>(half), 0});
                }
            }
            add_errors(r, c.streams[0].sched, 6);
        };
        p.prepare = [](World& w, Case const& c) { prep_n(w, c, 2, 0); };
        p.exec = exec_c05;
        R.push_back(p);
    }
    {
        Prop p = R[0];
        p.id = "C06";
        p.gen_base = [](Rng& r) {
            Case c = base_case(r, "C06", {}, 0.05);
            return c;
        };
        p.gen_episode = [](Rng& r, Case& c) {
            gen_one_stream(r, c);
            c.knobs["buffer"] = r.chance(0.3) ? 1 : 0;
            c.knobs["again"] = r.chance(0.3) ? r.range(2, 4) : 0;
            if (c.knob("bytes") != 0 && r.chance(0.12)) {
                // a long input of short events: memory must not grow with it
                Sampler s(c.schemas[0]);
                InputOpts o = input_opts(c);
                o.max_len = 300;
                o.huge_events = false;
                string unit;
                for (int k = 0; k < 5; k++) {
                    unit += gen_input(r, s, o);
                    unit += "\n";
                    if (s.has_ts()) {
                        unit += s.ts(r) + " ";
                    }
                }
                string big;
                size_t n = static_cast<size_t>(r.range(30000, 400000));
                while (big.size() < n) {
                    big += unit;
                }
                c.streams[0].data = big;
                c.streams[0].sched.clear();
                size_t half = input_opts(c).half;
                if (r.chance(0.5)) {
                    for (int k = 0; k < 300; k++) {
                        c.streams[0].sched.push_back(
                                {'d', static_cast<u32>(r.range(1, static_cast<i64>(half) + 1)), 0});
                    }
                }
                c.knobs["buffer"] = 0;
            }
            if (r.chance(0.3)) {
                add_errors(r, c.streams[0].sched, 4);
            }
        };
        p.prepare = [](World& w, Case const& c) { prep_n(w, c, 1, 1); };
        p.exec = exec_c06;
        R.push_back(p);
    }
    {
        Prop p = R[0];
        p.id = "C07";
        p.gen_base = [](Rng& r) { return base_case(r, "C07", {}, 0.03); };
        p.gen_episode = gen_c07;
        p.prepare = [](World& w, Case const& c) { prep_n(w, c, 7, 6); };
        p.exec = exec_c07;
        p.episodes = 60;
        R.push_back(p);
    }
    {
        Prop p = R[0];
        p.id = "C08";
        p.gen_base = [](Rng& r) { return base_case(r, "C08", {}, 0.0); };
        p.gen_episode = [](Rng& r, Case& c) {
            Sampler s(c.schemas[0]);
            InputOpts o;
            o.half = static_cast<size_t>(r.range(1, 60));
            o.max_len = 20 + static_cast<size_t>(r.below(600));
            size_t const inputs = r.chance(0.3) ? static_cast<size_t>(r.range(2, 3)) : 1;
            for (size_t k = 0; k < inputs; k++) {
                Stream st = gen_stream(r, s, o);
                for (auto& d : st.sched) {
                    if (r.chance(0.1)) {
                        d.arg = 1;
                    }
                    if (r.chance(0.03)) {
                        d.n = 0;
                    }
                }
                st.dirty = r.next() % 100000;
                c.streams.push_back(st);
            }
            c.knobs["grow"] = r.chance(0.4) ? 1 : 0;
            c.knobs["late_finish"] = r.chance(0.4) ? 1 : 0;
            c.knobs["slack"] = r.chance(0.4) ? r.range(1, 40) : 0;
            c.knobs["reset_first"] = r.chance(0.4) ? 1 : 0;
        };
        p.prepare = [](World& w, Case const& c) { prep_n(w, c, 0, 2); };
        p.exec = exec_c08;
        p.shrink_knobs = {{"tokens", {0, 16, 4}}, {"grow", {0}}, {"late_finish", {0}},
                          {"slack", {0}}, {"reset_first", {1}}};
        R.push_back(p);
    }
    {
        Prop p = R[0];
        p.id = "C09";
        p.gen_base = [](Rng& r) { return base_case(r, "C09", {}, 0.04); };
        p.gen_episode = [](Rng& r, Case& c) {
            gen_one_stream(r, c);
            c.knobs["slack"] = r.chance(0.4) ? r.range(1, 40) : 0;
            c.knobs["reset_first"] = r.chance(0.5) ? 1 : 0;
        };
        p.prepare = [](World& w, Case const& c) { prep_n(w, c, 1, 1); };
        p.exec = exec_c09;
        p.shrink_knobs = {{"bytes", {0, 64, 16, 4}}, {"tokens", {0, 16, 4}}, {"slack", {0}},
                          {"reset_first", {1}}};
        R.push_back(p);
    }
}
}  // namespace sim
