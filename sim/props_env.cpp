// C15, C16, C17: the environment of the parsers: addresses, failing allocations, threads
#include <algorithm>

#include "schema_tools.hpp"

namespace sim {
using mem::Host;
using mem::Lib;

namespace {
string describe_all(vector<EvRec> const& v) {
    string o;
    for (auto const& e : v) {
        o += describe(e) + "\n";
    }
    return o;
}

string id_names(ls::LogParser const& p) {
    std::map<u32, string> names;
    for (auto const& [id, n] : p.m_lexer.m_id_symbol) {
        names[id] = own(n);
    }
    string o;
    for (auto const& [id, n] : names) {
        o += std::to_string(id) + "=" + n + " ";
    }
    return o;
}

// whatever the library keeps for good, it keeps from now on
void warm_up() {
    Schema tiny;
    tiny.delims = "\n ";
    tiny.rules.push_back({"timestamp", "\\d+"});
    tiny.rules.push_back({"a", "[ab]+"});
    tiny.delims_at = 0;
    auto p = make_reader_parser(tiny, {64, 16});
    auto b = make_buffer_parser(tiny, {64, 16});
    Lib l;
    p.reset();
    b.reset();
}

// ---- C15
struct Layout {
    int mode;
    u64 seed;
};
vector<Layout> layouts(Case const& c) {
    u64 s = static_cast<u64>(c.knob("layout"));
    // like an ordinary heap, downwards, and scattered in different ways
    return {{0, 0}, {1, 0}, {2, s}, {2, mix(s, 1)}, {3, mix(s, 2)}};
}

void prep_c15(World& w, Case const& c) {
    w.model = std::make_unique<Model>(c.schemas[0]);
    string text = schema_text(c.schemas[0]);
    for (auto const& l : layouts(c)) {
        mem::set_layout(l.mode, l.seed);
        w.texts.push_back(load_string(text));
        w.rp.push_back(make_reader_parser(c.schemas[0], sizes(c)));
        w.bp.push_back(make_buffer_parser(c.schemas[0], sizes(c)));
    }
    mem::set_layout(0, 0);
}

void exec_c15(World& w, Case const& c, Ctx& x) {
    SizeGuard sg(sizes(c));
    auto const& st = c.streams[0];
    auto ls = layouts(c);
    vector<EvRec> first;
    string first_names;
    bool ambiguous = false;
    for (size_t i = 0; i < ls.size(); i++) {
        mem::set_layout(ls[i].mode, mix(ls[i].seed, static_cast<u64>(c.knob("run"))));
        if (w.texts[i] != w.texts[0]) {
            x.fail("schema", "under heap layout " + std::to_string(i)
                                     + " the schema is loaded differently: " + show(w.texts[i], 300)
                                     + " instead of " + show(w.texts[0], 300));
        }
        string names = id_names(w.rp[i]->get_log_parser());
        vector<EvRec> ev;
        if (c.knob("class") == 0) {
            Source src(st, x);
            set_reader(*w.rp[i], src);
            ev = drain(*w.rp[i], src, st, x, {}).ev;
        } else {
            names = id_names(w.bp[i]->get_log_parser());
            auto& p = *w.bp[i];
            EdgeBuf b(st.data, 0, 0);
            size_t off = 0;
            for (size_t k = 0; k < st.data.size() + 3 && !p.done(); k++) {
                auto e = parse_next(p, b.data(), b.size(), off, true);
                if (e != ls::ErrorCode::Success) {
                    x.fail("buffer-error", "error " + std::to_string(static_cast<int>(e)));
                }
                ev.push_back(capture(p.get_log_parser().get_log_event_view(), p.get_log_parser()));
                x.log(ev.back().text);
            }
            Lib l;
            p.reset();
        }
        for (auto const& e : ev) {
            for (auto const& t : e.toks) {
                string o;
                for (auto const& n : t.types) {
                    o += n + ",";
                }
                x.log(o);
                ambiguous = ambiguous || t.types.size() > 1;
            }
        }
        check_memory(x);
        if (i == 0) {
            first = ev;
            first_names = names;
            continue;
        }
        if (names != first_names) {
            x.fail("names", "under heap layout " + std::to_string(i) + " the symbols are "
                                    + names + "instead of " + first_names);
        }
        string name = "heap layout " + std::to_string(i) + ":";
        string df = diff(first, ev, "heap layout 0:", name.c_str());
        if (!df.empty()) {
            x.fail("layout", df);
        }
    }
    mem::set_layout(0, 0);
    // and the order of the types is the order of the rules
    std::map<string, size_t> place;
    for (size_t i = 0; i < c.schemas[0].rules.size(); i++) {
        // a name that is used twice has no one place
        auto [it, fresh] = place.emplace(c.schemas[0].rules[i].name, i);
        if (!fresh) {
            it->second = ~size_t{0};
        }
    }
    for (auto const& e : first) {
        for (auto const& t : e.toks) {
            size_t last = 0;
            for (auto const& n : t.types) {
                auto it = place.find(n);
                if (it == place.end() || it->second == ~size_t{0}) {
                    continue;
                }
                if (it->second < last) {
                    x.fail("order", "the types of " + show(t.text) + " are not in the order of "
                                    "the schema: " + describe(e));
                }
                last = it->second;
            }
        }
    }
    if (ambiguous) {
        x.count("probe.token_of_several_types");
    }
    x.count("fault.heap_layouts", ls.size() - 1);
    if (!first.empty() && !c.schemas[0].rules.empty()) {
        x.nontrivial();
    }
}

// ---- C16
//  "set i"  "next k"  "fset n"  "fnext n burst"      reader parser
//  "bset i" "bnext k" "fbnext n burst"               buffer parser
//  "fcopy n"                                         copy of the current view
//  "other k"                                         bystander
//  "fload route n burst"  "fmake class n burst"      schema loading, construction
void exec_c16(World& w, Case const& c, Ctx& x) {
    SizeGuard sg(sizes(c));
    string text = schema_text(c.schemas[0]);
    // what every stream should give
    vector<vector<EvRec>> want;
    x.phase("reference");
    for (auto const& st : c.streams) {
        Source src(st, x);
        set_reader(*w.rp[2], src);
        want.push_back(drain(*w.rp[2], src, st, x, {}).ev);
    }
    x.phase("");
    if (w.nums.count("leak_when_loading")) {
        x.fail("leak", "loading a schema and constructing a parser leaves "
                               + std::to_string(w.nums["leak_when_loading"]) + " blocks allocated");
    }
    vector<std::unique_ptr<Source>> sources;
    struct State {
        size_t stream{0};
        size_t k{0};
        bool ready{false};
        bool view{false};
    };
    State r;
    State b;
    State o;
    std::unique_ptr<EdgeBuf> buf;
    size_t off = 0;
    u64 fired = 0;
    u64 survived = 0;
    auto expect = [&](State& s, EvRec const& got, bool done, char const* who) {
        x.log(got.text);
        x.log(got.logtype);
        x.tracef("%s: event %zu %s", who, s.k, describe(got).c_str());
        auto const& ev = want[s.stream];
        if (got.text.empty() && done) {
            if (s.k != ev.size()) {
                x.fail("wrong-result", string(who) + " ended after " + std::to_string(s.k)
                                               + " of " + std::to_string(ev.size()) + " events");
            }
            return;
        }
        if (s.k >= ev.size() || !(got == ev[s.k])) {
            x.fail("wrong-result",
                   string(who) + (fired ? " after a failed allocation" : "") + ": event "
                           + std::to_string(s.k) + " is " + describe(got) + " but alone "
                           + (s.k < ev.size() ? describe(ev[s.k]) : "there is none"));
        }
        s.k++;
        if (done && s.k != ev.size()) {
            x.fail("wrong-result", string(who) + " ended after " + std::to_string(s.k) + " of "
                                           + std::to_string(ev.size()) + " events");
        }
    };
    auto arm = [&](i64 n, i64 burst) {
        mem::plan_failures(burst ? vector<u64>{} : vector<u64>{static_cast<u64>(n)},
                           burst ? static_cast<u64>(n) : ~0ULL);
    };
    auto disarm = [&] {
        u64 f = mem::failures_fired();
        mem::no_failures();
        fired += f;
        x.count("fault.alloc", f);
        return f;
    };
    char const* sites_of = "";
    auto do_load = [&](bool file) {
        std::unique_ptr<ls::SchemaAST> ast;
        if (!file) {
            ast = load_schema_string(text);
        } else {
            disk::clear();
            disk::Plan plan;
            plan.content = text;
            disk::put("/simdisk/schema.txt", plan);
            Lib l;
            ast = ls::SchemaParser::try_schema_file("/simdisk/schema.txt");
        }
        mem::no_failures();
        string got = "OK\n" + dump_or_null(ast);
        Lib l;
        ast.reset();
        return got;
    };
    // f must give true, or bad_alloc if an allocation failed
    auto guarded = [&](char const* what, i64 n, i64 burst, std::function<void()> const& f) {
        x.phase(what);
        if (n < 0) {
            n = static_cast<i64>(mem::pick_alloc(w.sites[what + string(sites_of)],
                                                 static_cast<u64>(-1 - n)));
            x.count("probe.alloc_by_place");
        }
        arm(n, burst);
        bool ok = false;
        string other;
        try {
            f();
            ok = true;
        } catch (std::bad_alloc const&) {
        } catch (std::exception const& e) {
            mem::no_failures();
            other = string("threw ") + e.what();
        }
        u64 k = disarm();
        x.phase("");
        x.step();
        x.log(ok ? 1 : 2);
        x.tracef("%s (fail %lld%s): %s, %llu failed", what, static_cast<long long>(n),
                 burst ? " and all after it" : "", ok ? "ok" : "threw",
                 static_cast<unsigned long long>(k));
        if (!other.empty()) {
            x.fail("wrong-exception", string(what) + " " + other
                                              + (k ? " when an allocation failed" : ""));
        }
        if (!ok && k == 0) {
            x.fail("invented-bad-alloc", string(what)
                                                 + " threw bad_alloc but no allocation failed");
        }
        check_memory(x);
        if (ok && k > 0) {
            x.count("probe.succeeded_despite_failure");
        }
        if (!ok) {
            survived++;
            x.count(string("probe.bad_alloc_in_") + what);
        }
        return ok;
    };
    auto set = [&](State& s, ls::ReaderParser& p, size_t i) {
        sources.push_back(std::make_unique<Source>(c.streams[i], x));
        s = State{};
        s.stream = i;
        set_reader(p, *sources.back());
        s.ready = true;
    };
    auto next = [&](State& s, ls::ReaderParser& p, i64 k, char const* who) {
        for (i64 n = 0; n < k && s.ready && !p.done(); n++) {
            s.view = false;
            if (parse_next(p) != ls::ErrorCode::Success) {
                continue;
            }
            x.step();
            s.view = true;
            expect(s, capture(p.get_log_parser().get_log_event_view(), p.get_log_parser()),
                   p.done(), who);
        }
    };
    auto bset = [&](size_t i) {
        {
            Lib l;
            w.bp[0]->reset();
        }
        buf = std::make_unique<EdgeBuf>(c.streams[i].data, 0, 0);
        off = 0;
        b = State{};
        b.stream = i;
        b.ready = true;
    };
    auto bnext = [&](i64 k) {
        for (i64 n = 0; n < k && b.ready && !w.bp[0]->done(); n++) {
            b.view = false;
            auto e = parse_next(*w.bp[0], buf->data(), buf->size(), off, true);
            if (e != ls::ErrorCode::Success) {
                x.fail("wrong-result", "the buffer parser returned error "
                                               + std::to_string(static_cast<int>(e)));
            }
            b.view = true;
            expect(b, capture(w.bp[0]->get_log_parser().get_log_event_view(),
                              w.bp[0]->get_log_parser()),
                   w.bp[0]->done(), "buffer parser");
        }
    };
    for (auto const& op : c.ops) {
        auto arg = [&](size_t i, i64 def = 0) { return i < op.a.size() ? op.a[i] : def; };
        auto stream = [&](i64 i) { return static_cast<size_t>(i) % c.streams.size(); };
        x.tracef("op %s %lld %lld", op.kind.c_str(), static_cast<long long>(arg(0)),
                 static_cast<long long>(arg(1)));
        if (op.kind == "set") {
            set(r, *w.rp[0], stream(arg(0)));
        } else if (op.kind == "next") {
            next(r, *w.rp[0], arg(0), "parser");
        } else if (op.kind == "bset") {
            bset(stream(arg(0)));
        } else if (op.kind == "bnext") {
            bnext(arg(0));
        } else if (op.kind == "other") {
            if (!o.ready || w.rp[1]->done()) {
                set(o, *w.rp[1], c.streams.size() - 1);
            }
            next(o, *w.rp[1], arg(0), "bystander");
        } else if (op.kind == "fset") {
            size_t i = stream(arg(1));
            sources.push_back(std::make_unique<Source>(c.streams[i], x));
            ls::Reader rd = reader_for(*sources.back());
            r = State{};
            r.stream = i;
            r.ready = guarded("reset", arg(0), 0, [&] {
                Lib l;
                w.rp[0]->reset_and_set_reader(rd);
            });
        } else if (op.kind == "fnext") {
            if (!r.ready || w.rp[0]->done()) {
                continue;
            }
            r.view = false;
            ls::ErrorCode e{};
            if (!guarded("parse", arg(0), arg(1), [&] { e = parse_next(*w.rp[0]); })) {
                // it may only be reset or destroyed
                r.ready = false;
                continue;
            }
            if (e == ls::ErrorCode::Success) {
                r.view = true;
                expect(r, capture(w.rp[0]->get_log_parser().get_log_event_view(),
                                  w.rp[0]->get_log_parser()),
                       w.rp[0]->done(), "parser");
            }
        } else if (op.kind == "fbnext") {
            if (!b.ready || w.bp[0]->done()) {
                continue;
            }
            b.view = false;
            ls::ErrorCode e{};
            if (!guarded("buffer_parse", arg(0), arg(1), [&] {
                    e = parse_next(*w.bp[0], buf->data(), buf->size(), off, true);
                }))
            {
                b.ready = false;
                Lib l;
                w.bp[0]->reset();
                continue;
            }
            if (e != ls::ErrorCode::Success) {
                x.fail("wrong-result", "the buffer parser returned error "
                                               + std::to_string(static_cast<int>(e)));
            }
            b.view = true;
            expect(b, capture(w.bp[0]->get_log_parser().get_log_event_view(),
                              w.bp[0]->get_log_parser()),
                   w.bp[0]->done(), "buffer parser");
        } else if (op.kind == "fcopy") {
            bool of_buffer = !r.view && b.view;
            if (!r.view && !b.view) {
                continue;
            }
            auto const& p = of_buffer ? w.bp[0]->get_log_parser() : w.rp[0]->get_log_parser();
            auto const& v = p.get_log_event_view();
            EvRec before = capture(v, p);
            if (before.text.empty()) {
                continue;
            }
            std::unique_ptr<ls::LogEvent> copy;
            guarded("copy", arg(0), arg(1), [&] {
                Lib l;
                copy = std::make_unique<ls::LogEvent>(v.deep_copy());
            });
            if (!(capture(v, p) == before)) {
                x.fail("view-changed", "copying the event " + describe(before)
                                               + " changed it to " + describe(capture(v, p)));
            }
            if (copy && !(capture(*copy, p) == before)) {
                x.fail("wrong-result", "the copy is " + describe(capture(*copy, p)) + " of "
                                               + describe(before));
            }
            Lib l;
            copy.reset();
        } else if (op.kind == "fload") {
            string got;
            sites_of = arg(0) == 0 ? "" : "file";
            if (guarded("load", arg(1), arg(2), [&] {
                    got = do_load(arg(0) != 0);
                }))
            {
                if (got != w.texts[0]) {
                    x.fail("wrong-schema", "a load in which an allocation failed gives "
                                                   + show(got, 300) + " instead of "
                                                   + show(w.texts[0], 300));
                }
            }
            if (arg(0) != 0 && disk::stats().open_now != 0) {
                x.fail("handle-leak", "the schema file is still open");
            }
        } else if (op.kind == "sweep") {
            // an allocation failure at each of many places of a load or construction
            bool file = arg(0) == 1;
            bool load = arg(0) < 2;
            auto salt = static_cast<u64>(arg(1));
            auto points = mem::pick_allocs(
                    w.sites[load ? (file ? "loadfile" : "load") : "construct"], salt,
                    static_cast<size_t>(arg(2)));
            x.tracef("%zu allocations of %zu places", w.sites[load ? (file ? "loadfile" : "load") : "construct"].size(), mem::pick_allocs(w.sites[load ? (file ? "loadfile" : "load") : "construct"], salt, 1 << 20).size());
            auto live = mem::stats().live_blocks;
            std::unique_ptr<ls::SchemaAST> ast;
            if (!load) {
                ast = load_schema_string(text);
            }
            char const* what = load ? "load" : "construct";
            sweep_failures(x, what, points, arg(3) != 0, [&](bool const& child) {
                std::unique_ptr<ls::ReaderParser> p;
                std::unique_ptr<ls::BufferParser> q;
                string got;
                bool ok = false;
                try {
                    if (load) {
                        got = do_load(file);
                    } else {
                        Lib l;
                        if (arg(0) == 2) {
                            p = std::make_unique<ls::ReaderParser>(std::move(ast));
                        } else {
                            q = std::make_unique<ls::BufferParser>(std::move(ast));
                        }
                    }
                    ok = true;
                } catch (std::bad_alloc const&) {
                } catch (std::exception const& e) {
                    mem::no_failures();
                    x.fail("wrong-exception", string(what) + " threw " + e.what());
                }
                mem::no_failures();
                if (!ok && !child) {
                    x.fail("invented-bad-alloc", string(what)
                                                         + " threw bad_alloc but no allocation failed");
                }
                check_memory(x);
                if (load && ok && got != w.texts[0]) {
                    x.fail("wrong-schema", "gives " + show(got, 300) + " instead of "
                                                   + show(w.texts[0], 300));
                }
                {
                    Lib l;
                    ast.reset();
                    p.reset();
                    q.reset();
                }
                auto now = mem::stats().live_blocks;
                if (now != live) {
                    x.fail("leak", std::to_string(static_cast<i64>(now - live))
                                           + " blocks are still allocated afterwards");
                }
                if (load && disk::stats().open_now != 0) {
                    x.fail("handle-leak", "the schema file is still open");
                }
                if (child && !ok) {
                    x.count(string("probe.bad_alloc_in_") + what);
                    if (load && mem::allocs_since_plan() % 16 == salt % 16
                        && load_string(text) != w.texts[0])
                    {
                        x.fail("wrong-schema", "the next load gives something else");
                    }
                }
            });
            survived++;
        } else if (op.kind == "fmake") {
            auto ast = load_schema_string(text);
            std::unique_ptr<ls::ReaderParser> p;
            std::unique_ptr<ls::BufferParser> q;
            sites_of = "";
            bool ok = guarded("construct", arg(1), arg(2), [&] {
                Lib l;
                if (arg(0) == 0) {
                    p = std::make_unique<ls::ReaderParser>(std::move(ast));
                } else {
                    q = std::make_unique<ls::BufferParser>(std::move(ast));
                }
            });
            if (ok && p && mem::failures_fired() > 0) {
                State s;
                set(s, *p, 0);
                next(s, *p, 1 << 20, "new parser");
            }
            Lib l;
            ast.reset();
            p.reset();
            q.reset();
        }
        check_memory(x);
    }
    x.phase("destroying");
    {
        Lib l;
        w.rp.clear();
        w.bp.clear();
    }
    check_memory(x);
    auto s = mem::stats();
    if (s.live_blocks != w.nums["live_blocks"] || s.live_bytes != w.nums["live_bytes"]) {
        x.fail("leak", std::to_string(s.live_blocks - w.nums["live_blocks"]) + " blocks of "
                               + std::to_string(s.live_bytes - w.nums["live_bytes"])
                               + " bytes are still allocated after everything was destroyed");
    }
    x.phase("");
    if (survived > 0) {
        x.nontrivial();
    }
}

void gen_c16(Rng& r, Case& c) {
    Sampler s(c.schemas[0]);
    int ns = static_cast<int>(r.range(1, 3));
    for (int i = 0; i < ns; i++) {
        Stream st = stream_for(r, c, s);
        if (st.data.size() > 3000 && c.knob("bytes") != 0) {
            st.data.resize(3000);
        }
        if (r.chance(0.1)) {
            add_errors(r, st.sched, 3);
        }
        c.streams.push_back(st);
    }
    auto stream = [&] { return r.range(0, ns - 1); };
    auto small = [&] { return r.chance(0.5) ? r.range(0, 12) : r.skewed(300); };
    auto big = [&]() -> i64 {
        if (r.chance(0.75)) {
            // a place in the code
            return -1 - (r.range(0, 65535) + 65536 * (r.chance(0.5) ? 0 : r.range(0, 4000)));
        }
        return r.chance(0.7) ? r.range(0, 40000) : r.skewed(200000);
    };
    auto burst = [&] { return r.chance(0.25) ? 1 : 0; };
    // loading costs much more than parsing
    if (r.chance(0.06)) {
        i64 kind = r.range(0, 3);
        c.ops.push_back({"sweep",
                         {kind, r.range(0, 1 << 30), kind < 2 ? r.range(40, 200) : r.range(20, 60),
                          r.chance(0.3) ? 1 : 0},
                         ""});
    }
    bool loads = r.chance(0.1);
    bool buffers = r.chance(0.35);
    auto set = [&] { c.ops.push_back({buffers ? "bset" : "set", {stream()}, ""}); };
    set();
    int n = static_cast<int>(r.range(3, 30));
    for (int k = 0; k < n; k++) {
        switch (r.below(12)) {
            case 0:
            case 1:
            case 2:
            case 3:
                c.ops.push_back({buffers ? "fbnext" : "fnext", {small(), burst()}, ""});
                if (r.chance(0.6)) {
                    set();
                    if (r.chance(0.4)) {
                        c.ops.push_back({buffers ? "bnext" : "next", {10000}, ""});
                        set();
                    }
                }
                break;
            case 4:
            case 5:
                c.ops.push_back({buffers ? "bnext" : "next", {r.skewed(8) + 1}, ""});
                break;
            case 6:
            case 7:
                c.ops.push_back({buffers ? "bnext" : "next", {1}, ""});
                c.ops.push_back({"fcopy", {small(), burst()}, ""});
                break;
            case 8:
                c.ops.push_back({"other", {r.range(1, 5)}, ""});
                break;
            case 9:
                c.ops.push_back({"fset", {r.range(0, 6), stream()}, ""});
                break;
            case 10:
                if (loads) {
                    c.ops.push_back({"fload", {r.range(0, 1), big(), burst()}, ""});
                }
                break;
            default:
                if (loads) {
                    c.ops.push_back({"fmake", {r.range(0, 1), big(), burst()}, ""});
                }
        }
    }
    set();
    c.ops.push_back({buffers ? "bnext" : "next", {100000}, ""});
    c.ops.push_back({"other", {100000}, ""});
}

// ---- C17
//  a[0] of an op is its thread
//  "parse t i"        with the thread's own parser: all of stream i
//  "step t k"         some events of it
//  "start t i"        begins stream i
//  "bparse t i"       with the thread's buffer parser
//  "copy t"           keeps a copy of the current event
//  "load t s route"   schema s: what it is, and a parser for it from now on
//  "bad t k"          a schema that is rejected
//  "swap t"           back to the parser it had first
char const* const cBad[]{"a:(b\n", "delimiters: \\n\nx:[a\n", "", "x\n", "delimiters:\\n\n\\",
                         "delimiters: \\n\nx:a b|c\n", "x:abc\n"};

string schema_path(size_t i) {
    return "/simdisk/schema" + std::to_string(i) + ".txt";
}

struct ThreadRun {
    string out;
    Shared sh{};
    std::unique_ptr<Ctx> x;
    vector<std::unique_ptr<Source>> sources;
    std::unique_ptr<EdgeBuf> buf;
    std::unique_ptr<ls::ReaderParser> loaded;
    vector<std::unique_ptr<ls::LogEvent>> copies;
    vector<EvRec> copied;
};

void thread_body(World& w, Case const& c, size_t t, ThreadRun& T, bool buffer_edges) {
    SizeGuard sg(sizes(c));
    T.x = std::make_unique<Ctx>(&T.sh);
    T.x->quiet = true;
    Ctx& x = *T.x;
    string& out = T.out;
    // in a cold world the process has loaded no schema, and a thread has the parsers it loads
    ls::ReaderParser* first = t < w.rp.size() ? w.rp[t].get() : nullptr;
    ls::ReaderParser* p = first;
    size_t cur = 0;
    bool started = false;
    bool view = false;
    auto start = [&](size_t i) {
        T.sources.push_back(std::make_unique<Source>(c.streams[i], x));
        T.sources.back()->yield = &sched::yield;
        set_reader(*p, *T.sources.back());
        cur = i;
        started = true;
        view = false;
    };
    auto forget_copies = [&] {
        // they need their parser
        for (size_t i = 0; i < T.copies.size(); i++) {
            EvRec e = capture(*T.copies[i], T.copies[i]->get_log_parser());
            if (!(e == T.copied[i])) {
                out += "a copy changed: " + describe(e) + "\n";
            }
        }
        Lib l;
        T.copies.clear();
        Host h;
        T.copied.clear();
    };
    try {
        for (auto const& op : c.ops) {
            if (op.a.empty() || static_cast<size_t>(op.a[0]) != t) {
                continue;
            }
            auto arg = [&](size_t i) { return i < op.a.size() ? op.a[i] : 0; };
            auto stream = [&](i64 i) { return static_cast<size_t>(i) % c.streams.size(); };
            out += op.kind + ": ";
            if ((p == nullptr && (op.kind == "parse" || op.kind == "start" || op.kind == "step"
                                  || op.kind == "copy"))
                || (t >= w.bp.size() && op.kind == "bparse"))
            {
                out += "no parser\n";
                continue;
            }
            if (op.kind == "parse" || op.kind == "start") {
                start(stream(arg(1)));
            }
            if (op.kind == "parse") {
                auto const& st = c.streams[cur];
                DrainOpts o;
                out += describe_all(drain(*p, *T.sources.back(), st, x, o).ev);
                view = false;
            } else if (op.kind == "step") {
                for (i64 k = 0; k < arg(1) && started && !p->done(); k++) {
                    auto e = parse_next(*p);
                    view = e == ls::ErrorCode::Success;
                    if (!view) {
                        out += "error " + std::to_string(static_cast<int>(e)) + "\n";
                        continue;
                    }
                    out += describe(capture(p->get_log_parser().get_log_event_view(),
                                            p->get_log_parser()))
                           + "\n";
                }
            } else if (op.kind == "copy") {
                if (view && T.copies.size() < 6) {
                    auto const& v = p->get_log_parser().get_log_event_view();
                    EvRec e = capture(v, p->get_log_parser());
                    if (!e.text.empty()) {
                        Lib l;
                        T.copies.push_back(std::make_unique<ls::LogEvent>(v.deep_copy()));
                        Host h;
                        T.copied.push_back(e);
                    }
                }
            } else if (op.kind == "bparse") {
                auto& b = *w.bp[t];
                auto const& d = c.streams[stream(arg(1))].data;
                {
                    Lib l;
                    b.reset();
                }
                T.buf = std::make_unique<EdgeBuf>(d, 0, 0);
                size_t off = 0;
                for (size_t k = 0; k < d.size() + 3 && !b.done(); k++) {
                    auto e = parse_next(b, T.buf->data(), T.buf->size(), off, true);
                    if (e != ls::ErrorCode::Success) {
                        out += "error " + std::to_string(static_cast<int>(e)) + "\n";
                        break;
                    }
                    out += describe(capture(b.get_log_parser().get_log_event_view(),
                                            b.get_log_parser()))
                           + "\n";
                }
                Lib l;
                b.reset();
            } else if (op.kind == "load") {
                size_t i = static_cast<size_t>(arg(1)) % c.schemas.size();
                forget_copies();
                started = view = false;
                p = first;
                {
                    Lib l;
                    T.loaded.reset();
                }
                string text = schema_text(c.schemas[i]);
                if (arg(2) == 0) {
                    auto ast = load_schema_string(text);
                    out += dump(*ast);
                    Lib l;
                    T.loaded = std::make_unique<ls::ReaderParser>(std::move(ast));
                } else {
                    std::string path = schema_path(i);
                    Lib l;
                    T.loaded = std::make_unique<ls::ReaderParser>(path);
                }
                p = T.loaded.get();
                out += id_names(p->get_log_parser());
            } else if (op.kind == "swap") {
                started = view = false;
                forget_copies();
                p = first;
            } else if (op.kind == "bad") {
                string text = cBad[static_cast<size_t>(arg(1)) % (sizeof cBad / sizeof *cBad)];
                out += attempt([&] {
                    auto ast = load_schema_string(text);
                    string o = ast ? dump(*ast) : "(no schema)";
                    Lib l;
                    ls::ReaderParser q(std::move(ast));
                    return o;
                });
            }
            out += "\n";
        }
        forget_copies();
    } catch (Violation const& v) {
        out += "VIOLATION " + v.klass + " " + v.detail;
    } catch (std::exception const& e) {
        out += string("EXCEPTION ") + own(e.what());
    }
    (void)buffer_edges;
    Lib l;
    T.copies.clear();
    T.loaded.reset();
}

void exec_c17(World& w, Case const& c, Ctx& x) {
    size_t n = static_cast<size_t>(c.knob("threads", 2));
    disk::clear();
    for (size_t i = 0; i < c.schemas.size(); i++) {
        disk::Plan plan;
        plan.content = schema_text(c.schemas[i]);
        plan.sched = {{'d', 50, 0}, {'d', 7, 0}};
        disk::put(schema_path(i), plan);
    }
    // alone
    vector<string> want;
    x.phase("alone");
    for (size_t t = 0; t < n; t++) {
        want.push_back(pristine([&] {
            ThreadRun T;
            thread_body(w, c, t, T, true);
            return T.out;
        }));
    }
    x.phase("threads");
    vector<sched::Switch> plan;
    for (auto const& op : c.ops) {
        if (op.kind == "switch" && op.a.size() > 2) {
            plan.push_back({static_cast<u64>(op.a[1]), static_cast<u32>(op.a[2])});
        }
    }
    vector<std::unique_ptr<ThreadRun>> runs;
    vector<std::function<void()>> bodies;
    for (size_t t = 0; t < n; t++) {
        runs.push_back(std::make_unique<ThreadRun>());
        bodies.emplace_back([&w, &c, t, &runs] { thread_body(w, c, t, *runs[t], true); });
    }
    auto st = sched::run(bodies, plan);
    x.phase("");
    x.log(sched::trace_hash());
    x.step(st.switches + 1);
    x.count("fault.thread_switch", st.switches);
    x.count("fault.forced_switch", st.forced);
    x.count("probe.yield_points", st.yields);
    u64 load_threads = 0;
    for (size_t t = 0; t < n; t++) {
        x.log(runs[t]->out);
        x.tracef("thread %zu:\n%s", t, runs[t]->out.c_str());
        if (runs[t]->out != want[t]) {
            size_t k = 0;
            while (k < want[t].size() && k < runs[t]->out.size() && want[t][k] == runs[t]->out[k])
            {
                k++;
            }
            size_t from = k > 60 ? k - 60 : 0;
            x.fail("influence", "thread " + std::to_string(t) + " of " + std::to_string(n)
                                        + ": " + show(runs[t]->out.substr(from, 300), 300)
                                        + " but alone " + show(want[t].substr(from, 300), 300));
        }
        load_threads += want[t].find("load: ") != string::npos ? 1 : 0;
    }
    check_memory(x);
    if (load_threads > 1 && c.knob("cold") != 0) {
        x.count("probe.overlapping_first_loads");
    }
    if (load_threads > 1) {
        x.count("probe.overlapping_loads");
    }
    if (st.switches > 1) {
        x.nontrivial();
    }
}

void gen_c17(Rng& r, Case& c) {
    i64 n = c.knob("threads", 2);
    Sampler s(c.schemas[0]);
    int ns = static_cast<int>(r.range(1, 3));
    for (int i = 0; i < ns; i++) {
        Stream st = stream_for(r, c, s);
        if (st.data.size() > 800 && c.knob("bytes") != 0) {
            st.data.resize(800);
        }
        if (r.chance(0.15)) {
            add_errors(r, st.sched, 3);
        }
        c.streams.push_back(st);
    }
    i64 nschemas = static_cast<i64>(c.schemas.size());
    // loading costs much more than parsing
    bool cold = c.knob("cold") != 0;
    bool loads = cold || r.chance(0.25);
    for (i64 t = 0; t < n; t++) {
        int k = static_cast<int>(r.range(1, cold ? 3 : 6));
        if (loads && r.chance(cold ? 0.95 : 0.8)) {
            c.ops.push_back({"load", {t, r.range(0, nschemas - 1), r.range(0, 1)}, ""});
        }
        for (int i = 0; i < k; i++) {
            switch (r.below(9)) {
                case 0:
                case 1:
                    c.ops.push_back({"parse", {t, r.range(0, ns - 1)}, ""});
                    break;
                case 2:
                case 3:
                    c.ops.push_back({"start", {t, r.range(0, ns - 1)}, ""});
                    c.ops.push_back({"step", {t, r.range(1, 6)}, ""});
                    c.ops.push_back({"copy", {t}, ""});
                    break;
                case 4:
                    c.ops.push_back({"step", {t, r.range(1, 20)}, ""});
                    c.ops.push_back({"copy", {t}, ""});
                    break;
                case 5:
                    c.ops.push_back({"bparse", {t, r.range(0, ns - 1)}, ""});
                    break;
                case 6:
                    if (loads && r.chance(0.4)) {
                        c.ops.push_back({"load", {t, r.range(0, nschemas - 1), r.range(0, 1)}, ""});
                    }
                    break;
                case 7:
                    if (loads) {
                        c.ops.push_back({"bad", {t, r.range(0, 6)}, ""});
                    }
                    break;
                default:
                    c.ops.push_back({"swap", {t}, ""});
            }
        }
    }
    // the schedule: gaps of all sizes
    int sw = static_cast<int>(r.range(2, r.chance(0.2) ? 200 : 40));
    i64 scale = i64{1} << r.range(0, 20);
    for (int i = 0; i < sw; i++) {
        c.ops.push_back({"switch", {-1, r.skewed(scale), static_cast<i64>(r.below(4))}, ""});
    }
}
}  // namespace

void register_env() {
    auto& R = registry();
    {
        Prop p;
        p.id = "C15";
        p.gen_base = [](Rng& r) {
            SchemaOpts so;
            so.min_vars = 2;
            so.max_vars = 7;
            Case c = base_case(r, "C15", so, 0.02);
            c.knobs["layout"] = static_cast<i64>(r.below(1000000));
            return c;
        };
        p.gen_episode = [](Rng& r, Case& c) {
            Sampler s(c.schemas[0]);
            c.streams.push_back(stream_for(r, c, s));
            c.knobs["class"] = r.chance(0.2) ? 1 : 0;
            c.knobs["run"] = static_cast<i64>(r.below(1000));
        };
        p.prepare = prep_c15;
        p.exec = exec_c15;
        p.shrink_knobs = {{"bytes", {0, 64, 16, 4}}, {"tokens", {0, 16, 4}}};
        R.push_back(p);
    }
    {
        Prop p;
        p.id = "C16";
        p.gen_base = [](Rng& r) {
            Case c = base_case(r, "C16", {}, 0.02);
            if (c.knob("tokens") == 0 && r.chance(0.9)) {
                c.knobs["tokens"] = 2 * r.range(2, 40);
            }
            return c;
        };
        p.gen_episode = gen_c16;
        p.prepare = [](World& w, Case const& c) {
            warm_up();
            w.texts.push_back(load_string(schema_text(c.schemas[0])));
            auto s = mem::stats();
            w.nums["live_blocks"] = s.live_blocks;
            w.nums["live_bytes"] = s.live_bytes;
            string text = schema_text(c.schemas[0]);
            {
                SizeGuard sg(sizes(c));
                mem::record_sites(true);
                auto ast = load_schema_string(text);
                w.sites["load"] = mem::take_sites();
                disk::clear();
                disk::Plan plan;
                plan.content = text;
                disk::put("/simdisk/schema.txt", plan);
                mem::record_sites(true);
                {
                    Lib l;
                    auto other = ls::SchemaParser::try_schema_file("/simdisk/schema.txt");
                }
                w.sites["loadfile"] = mem::take_sites();
                mem::record_sites(true);
                {
                    Lib l;
                    auto p = std::make_unique<ls::ReaderParser>(std::move(ast));
                }
                w.sites["construct"] = mem::take_sites();
            }
            auto t = mem::stats();
            if (t.live_blocks != s.live_blocks) {
                w.nums["leak_when_loading"] = t.live_blocks - s.live_blocks;
            }
            for (int i = 0; i < 3; i++) {
                w.rp.push_back(make_reader_parser(c.schemas[0], sizes(c)));
            }
            w.bp.push_back(make_buffer_parser(c.schemas[0], sizes(c)));
        };
        p.exec = exec_c16;
        p.shrink_knobs = {{"bytes", {0, 64, 16, 4}}, {"tokens", {0, 16, 4}}};
        p.shrink_streams = true;
        R.push_back(p);
    }
    {
        Prop p;
        p.id = "C17";
        p.episodes = 14;
        p.gen_base = [](Rng& r) {
            Case c = base_case(r, "C17", {}, 0.02);
            if (c.knob("tokens") == 0 && r.chance(0.95)) {
                c.knobs["tokens"] = 2 * r.range(2, 40);
            }
            c.knobs["threads"] = r.chance(0.6) ? 2 : r.range(3, 4);
            // the first loads of the process are the threads'
            if (r.chance(0.25)) {
                c.knobs["cold"] = 1;
            }
            int n = static_cast<int>(r.range(0, 2));
            SchemaOpts small;
            small.max_vars = 3;
            for (int i = 0; i < n; i++) {
                c.schemas.push_back(gen_schema(r, small));
            }
            return c;
        };
        p.gen_episode = gen_c17;
        p.prepare = [](World& w, Case const& c) {
            for (i64 i = 0; i < (c.knob("cold") != 0 ? 0 : c.knob("threads", 2)); i++) {
                w.rp.push_back(make_reader_parser(c.schemas[0], sizes(c)));
                w.bp.push_back(make_buffer_parser(c.schemas[0], sizes(c)));
            }
        };
        p.exec = exec_c17;
        p.shrink_knobs = {{"bytes", {0, 64, 16, 4}}, {"tokens", {0, 16, 4}}};
        p.shrink_streams = true;
        R.push_back(p);
    }
}
}  // namespace sim
