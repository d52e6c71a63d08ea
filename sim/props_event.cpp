// C10, C11: what a caller holds on to: event views, copies of events, memory
#include <algorithm>

#include "props.hpp"

namespace sim {
using mem::Host;
using mem::Lib;

namespace {
// ops
//   reader parser 0:  "set i"  "next k"  "next_all"
//   buffer parser 0:  "bset i n"  "bnext k"  "scramble"  "bfree"
//   "copy"            deep copy of the current view
//   "copyof j"        deep copy of copy j
//   "move j"          moves copy j out of its container and back
//   "shuffle"         rebuilds the container
//   "drop j"
//   "other k"         parse calls on another parser
//   "churn n"         library-side heap traffic
struct Rig {
    World& w;
    Case const& c;
    Ctx& x;
    vector<std::unique_ptr<Source>> sources;
    std::unique_ptr<EdgeBuf> buf;
    size_t off{0};
    bool fin{false};
    bool started{false};
    std::unique_ptr<Source> other;
    // what the view last showed; valid until the next parse or reset
    bool have_view{false};
    bool view_is_buffer{false};
    EvRec view;
    vector<std::string_view> sviews;
    u64 copies{0};
    u64 views_checked{0};
    u64 parses_with_copies{0};

    ls::LogEventView const& cur() {
        return view_is_buffer ? w.bp[0]->get_log_parser().get_log_event_view()
                              : w.rp[0]->get_log_parser().get_log_event_view();
    }
    ls::LogParser const& parser() {
        return view_is_buffer ? w.bp[0]->get_log_parser() : w.rp[0]->get_log_parser();
    }
    void take_view(bool b) {
        view_is_buffer = b;
        have_view = true;
        view = capture(cur(), parser());
        x.log(view.text);
        x.log(view.logtype);
        x.tracef("parse -> %s", describe(view).c_str());
        sviews.clear();
        auto const& ob = cur().get_log_output_buffer();
        for (u32 i = ob->has_timestamp() ? 0 : 1; i < ob->pos(); i++) {
            Lib l;
            sviews.push_back(ob->get_mutable_token(i).to_string_view());
        }
    }
    // the view must not have changed
    void recheck() {
        if (!have_view) {
            return;
        }
        views_checked++;
        EvRec again = capture(cur(), parser());
        if (!(again == view)) {
            x.fail("view-changed", "the current event reads " + describe(again)
                                           + " but read " + describe(view) + " before");
        }
        for (size_t i = 0; i < sviews.size(); i++) {
            if (sviews[i] != view.toks[i].text) {
                x.fail("view-changed", "a string view of token " + std::to_string(i)
                                               + " changed from " + show(view.toks[i].text)
                                               + " to " + show(string(sviews[i])));
            }
        }
    }
    void set(size_t i) {
        sources.push_back(std::make_unique<Source>(c.streams[i], x));
        set_reader(*w.rp[0], *sources.back());
        started = true;
        have_view = false;
    }
    void next(i64 k) {
        for (i64 n = 0; n < k && started && !w.rp[0]->done(); n++) {
            x.step();
            have_view = false;
            auto e = parse_next(*w.rp[0]);
            if (e != ls::ErrorCode::Success) {
                x.log(static_cast<u64>(static_cast<int>(e)));
                x.tracef("parse -> error %d", static_cast<int>(e));
                x.count("probe.failed_parse");
                continue;
            }
            take_view(false);
        }
    }
    void bset(size_t i, i64 n) {
        auto const& d = c.streams[i].data;
        fin = n < 0 || static_cast<size_t>(n) >= d.size();
        have_view = false;
        // Order matters: the parser must forget the old buffer before it goes away
        {
            Lib l;
            w.bp[0]->reset();
        }
        buf = std::make_unique<EdgeBuf>(fin ? d : d.substr(0, static_cast<size_t>(n)), 0, 0);
        off = 0;
    }
    void bnext(i64 k) {
        for (i64 n = 0; n < k && buf && !w.bp[0]->done(); n++) {
            x.step();
            have_view = false;
            auto e = parse_next(*w.bp[0], buf->data(), buf->size(), off, fin);
            if (e != ls::ErrorCode::Success) {
                x.log(static_cast<u64>(static_cast<int>(e)));
                x.count("probe.failed_parse");
                break;
            }
            take_view(true);
        }
    }
    void run_other(i64 k) {
        if (!other) {
            other = std::make_unique<Source>(c.streams.back(), x);
            set_reader(*w.rp[1], *other);
        }
        for (i64 n = 0; n < k; n++) {
            if (w.rp[1]->done()) {
                other = std::make_unique<Source>(c.streams.back(), x);
                set_reader(*w.rp[1], *other);
            }
            (void)parse_next(*w.rp[1]);
        }
    }
    void churn(i64 n) {
        Lib l;
        vector<std::unique_ptr<char[]>> v;
        for (i64 i = 0; i < n; i++) {
            size_t sz = static_cast<size_t>(8 << (i % 12));
            v.emplace_back(new char[sz]);
            memset(v.back().get(), '7', sz);
        }
    }
    bool common(Op const& op) {
        auto stream = [&](i64 i) { return static_cast<size_t>(i) % c.streams.size(); };
        x.tracef("op %s %lld", op.kind.c_str(), op.a.empty() ? 0LL : static_cast<long long>(op.a[0]));
        if (op.kind == "set") {
            set(stream(op.a[0]));
        } else if (op.kind == "next") {
            next(op.a[0]);
        } else if (op.kind == "bset") {
            bset(stream(op.a[0]), op.a[1]);
        } else if (op.kind == "bnext") {
            bnext(op.a[0]);
        } else if (op.kind == "other") {
            run_other(op.a[0]);
        } else if (op.kind == "churn") {
            churn(op.a[0]);
        } else {
            return false;
        }
        return true;
    }
};

void gen_history(Rng& r, Case& c, bool copies) {
    Sampler s(c.schemas[0]);
    int ns = static_cast<int>(r.range(1, 3));
    for (int i = 0; i < ns; i++) {
        Stream st = stream_for(r, c, s);
        if (st.data.size() > 3000 && c.knob("bytes") != 0) {
            st.data.resize(3000);
        }
        if (r.chance(0.3)) {
            add_errors(r, st.sched, 4);
        }
        c.streams.push_back(st);
    }
    bool buffers = r.chance(0.35);
    int n = static_cast<int>(r.range(4, 40));
    auto set = [&] {
        i64 i = r.range(0, ns - 1);
        if (buffers) {
            i64 len = static_cast<i64>(c.streams[static_cast<size_t>(i)].data.size());
            c.ops.push_back({"bset", {i, r.chance(0.6) ? -1 : r.range(0, len)}, ""});
        } else {
            c.ops.push_back({"set", {i}, ""});
        }
    };
    set();
    for (int k = 0; k < n; k++) {
        switch (r.below(copies ? 14 : 8)) {
            case 0:
            case 1:
            case 2:
            case 3:
                c.ops.push_back({buffers ? "bnext" : "next", {r.skewed(6) + 1}, ""});
                if (copies && r.chance(0.6)) {
                    c.ops.push_back({"copy", {0}, ""});
                }
                break;
            case 4:
                if (r.chance(0.4)) {
                    set();
                }
                break;
            case 5:
                c.ops.push_back({"churn", {r.range(1, 60)}, ""});
                break;
            case 6:
                c.ops.push_back({"other", {r.range(1, 5)}, ""});
                break;
            case 7:
                if (buffers && r.chance(0.5)) {
                    c.ops.push_back({r.chance(0.5) ? "scramble" : "bfree", {0}, ""});
                    set();
                } else {
                    c.ops.push_back({buffers ? "bnext" : "next", {r.range(1, 200)}, ""});
                }
                break;
            case 8:
                c.ops.push_back({"copyof", {r.range(0, 9)}, ""});
                break;
            case 9:
                c.ops.push_back({"move", {r.range(0, 9)}, ""});
                break;
            case 10:
                c.ops.push_back({"shuffle", {r.range(0, 9)}, ""});
                break;
            case 11:
                if (r.chance(0.5)) {
                    c.ops.push_back({"drop", {r.range(0, 9)}, ""});
                }
                break;
            default:
                c.ops.push_back({"copy", {0}, ""});
        }
    }
}

// ---- C10
void exec_c10(World& w, Case const& c, Ctx& x) {
    SizeGuard sg(sizes(c));
    Rig g{w, c, x};
    struct Held {
        EvRec rec;
        ls::LogParser const* p;
    };
    vector<Held> held;
    vector<ls::LogEvent> pool;  // grows by moving
    auto add = [&](ls::LogEventView const& v, EvRec const& rec, ls::LogParser const& p) {
        try {
            {
                Lib l;
                ls::LogEvent e = v.deep_copy();
                Host h;
                pool.push_back(std::move(e));
            }
        } catch (std::runtime_error const& e) {
            // the empty event at the end of an input has nothing to copy
            if (rec.text.empty()) {
                x.count("probe.copy_of_empty_event");
                return;
            }
            throw;
        }
        held.push_back({rec, &p});
        g.copies++;
        x.count("probe.copies");
        if (rec.has_ts) {
            x.count("probe.copy_with_timestamp");
        }
    };
    auto verify = [&](char const* after) {
        for (size_t i = 0; i < pool.size(); i++) {
            EvRec now = capture(pool[i], *held[i].p);
            if (!(now == held[i].rec)) {
                x.fail("copy-differs", string("after ") + after + ": copy "
                                               + describe(now) + " of event "
                                               + describe(held[i].rec));
            }
            if (&pool[i].get_log_parser() != held[i].p) {
                x.fail("copy-differs", "the copy belongs to another parser");
            }
        }
    };
    for (auto const& op : c.ops) {
        size_t live = pool.size();
        size_t j = live ? static_cast<size_t>(op.a.empty() ? 0 : op.a[0]) % live : 0;
        if (op.kind == "copy") {
            if (g.have_view && live < 10) {
                add(g.cur(), g.view, g.parser());
            }
        } else if (op.kind == "copyof") {
            if (live > 0 && live < 10) {
                EvRec rec = held[j].rec;
                auto* p = held[j].p;
                add(pool[j], rec, *p);
                x.count("probe.copy_of_copy");
            }
        } else if (op.kind == "move") {
            if (live > 0) {
                Lib l;
                auto tmp = std::make_unique<ls::LogEvent>(std::move(pool[j]));
                {
                    Host h;
                    vector<ls::LogEvent> fresh;
                    for (size_t i = 0; i < live; i++) {
                        if (i == j) {
                            fresh.push_back(std::move(*tmp));
                        } else {
                            fresh.push_back(std::move(pool[i]));
                        }
                    }
                    pool = std::move(fresh);
                }
                x.count("probe.moves");
            }
        } else if (op.kind == "shuffle") {
            vector<ls::LogEvent> fresh;
            vector<Held> h2;
            for (size_t i = live; i-- > 0;) {
                fresh.push_back(std::move(pool[i]));
                h2.push_back(held[i]);
            }
            pool = std::move(fresh);
            held = std::move(h2);
            x.count("probe.moves", live);
        } else if (op.kind == "drop") {
            if (live > 0) {
                vector<ls::LogEvent> fresh;
                for (size_t i = 0; i < live; i++) {
                    if (i != j) {
                        fresh.push_back(std::move(pool[i]));
                    }
                }
                pool = std::move(fresh);
                held.erase(held.begin() + static_cast<long>(j));
            }
        } else if (op.kind == "scramble") {
            if (g.buf) {
                g.have_view = false;
                memset(g.buf->data(), '5', g.buf->size());
                Lib l;
                w.bp[0]->reset();
            }
        } else if (op.kind == "bfree") {
            if (g.buf) {
                g.have_view = false;
                {
                    Lib l;
                    w.bp[0]->reset();
                }
                g.buf.reset();
            }
        } else {
            if (!pool.empty()) {
                g.parses_with_copies++;
            }
            g.common(op);
        }
        verify(op.kind.c_str());
    }
    check_memory(x);
    pool.clear();
    check_memory(x);
    if (g.copies > 0 && g.parses_with_copies > 0) {
        x.nontrivial();
    }
}

// ---- C11
// The same history on a second parser whose memory was filled differently gives the same events
void exec_c11(World& w, Case const& c, Ctx& x) {
    SizeGuard sg(sizes(c));
    {
        Rig g{w, c, x};
        for (auto const& op : c.ops) {
            if (op.kind == "scramble" || op.kind == "bfree") {
                if (g.buf) {
                    g.have_view = false;
                    {
                        Lib l;
                        w.bp[0]->reset();
                    }
                    g.buf.reset();
                }
                continue;
            }
            bool parse = op.kind != "churn" && op.kind != "other";
            g.common(op);
            if (!parse || g.have_view) {
                // anything but parsing on that parser leaves the view alone
                g.churn(3);
                if (g.have_view && !g.view.text.empty()) {
                    Lib l;
                    auto copy = std::make_unique<ls::LogEvent>(g.cur().deep_copy());
                }
                g.recheck();
            }
        }
        check_memory(x);
        x.count("probe.views_checked", g.views_checked);
        if (g.views_checked > 1) {
            x.nontrivial();
        }
        {
            Lib l;
            w.bp[0]->reset();
        }
    }
    // uninitialised memory: the same input on parsers whose fresh memory held other bytes
    auto const& st = c.streams[0];
    Stream clean = st;
    clean.sched.clear();
    for (auto const& d : st.sched) {
        if (d.kind == 'd') {
            clean.sched.push_back(d);
        }
    }
    auto run = [&](ls::ReaderParser& p) {
        Source s(clean, x);
        set_reader(p, s);
        Drain d = drain(p, s, clean, x, {});
        // stop using the source
        return d;
    };
    mem::set_fill(0xA5);
    Drain a = run(*w.rp[0]);
    mem::set_fill('\n');
    Drain b = run(*w.rp[2]);
    mem::set_fill(0xA5);
    string df = diff(a.ev, b.ev, "memory filled with 0xA5:", "memory filled with newlines:");
    if (!df.empty()) {
        x.fail("uninitialised", df);
    }
    check_memory(x);
    // everything is released
    x.phase("destroying");
    {
        Lib l;
        w.rp.clear();
        w.bp.clear();
    }
    check_memory(x);
    auto s = mem::stats();
    if (s.live_blocks != w.nums["live_blocks"] || s.live_bytes != w.nums["live_bytes"]) {
        x.fail("leak", std::to_string(s.live_blocks - w.nums["live_blocks"]) + " blocks of "
                               + std::to_string(s.live_bytes - w.nums["live_bytes"])
                               + " bytes are still allocated after everything was destroyed");
    }
    x.phase("");
}

void prep_c11(World& w, Case const& c) {
    // whatever the library keeps for good, it keeps now
    Schema tiny;
    tiny.delims = "\n ";
    tiny.rules.push_back({"timestamp", "\\d+"});
    tiny.rules.push_back({"a", "[ab]+"});
    tiny.delims_at = 0;
    {
        auto p = make_reader_parser(tiny, {64, 16});
        auto b = make_buffer_parser(tiny, {64, 16});
        Lib l;
        p.reset();
        b.reset();
    }
    auto s = mem::stats();
    w.nums["live_blocks"] = s.live_blocks;
    w.nums["live_bytes"] = s.live_bytes;
    w.rp.push_back(make_reader_parser(c.schemas[0], sizes(c)));
    w.rp.push_back(make_reader_parser(c.schemas[0], sizes(c)));
    mem::set_fill('\n');
    w.rp.push_back(make_reader_parser(c.schemas[0], sizes(c)));
    mem::set_fill(0xA5);
    w.bp.push_back(make_buffer_parser(c.schemas[0], sizes(c)));
}
}  // namespace

void register_event() {
    auto& R = registry();
    {
        Prop p;
        p.id = "C10";
        p.gen_base = [](Rng& r) {
            Case c = base_case(r, "C10", {}, 0.03);
            if (c.knob("tokens") == 0 && r.chance(0.9)) {
                c.knobs["tokens"] = 2 * r.range(2, 40);
            }
            return c;
        };
        p.gen_episode = [](Rng& r, Case& c) { gen_history(r, c, true); };
        p.prepare = [](World& w, Case const& c) {
            for (int i = 0; i < 2; i++) {
                w.rp.push_back(make_reader_parser(c.schemas[0], sizes(c)));
            }
            w.bp.push_back(make_buffer_parser(c.schemas[0], sizes(c)));
        };
        p.exec = exec_c10;
        p.shrink_knobs = {{"bytes", {0, 64, 16, 4}}, {"tokens", {0, 16, 4}}};
        p.shrink_streams = true;
        R.push_back(p);
        p.id = "C11";
        p.gen_base = [](Rng& r) {
            Case c = base_case(r, "C11", {}, 0.03);
            if (c.knob("tokens") == 0 && r.chance(0.9)) {
                c.knobs["tokens"] = 2 * r.range(2, 40);
            }
            return c;
        };
        p.gen_episode = [](Rng& r, Case& c) { gen_history(r, c, false); };
        p.prepare = prep_c11;
        p.exec = exec_c11;
        R.push_back(p);
    }
}
}  // namespace sim
