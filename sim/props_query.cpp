// C21: queries on a shared automaton
#include <algorithm>
#include <map>
#include <set>

#include <log_surgeon/Lexer.hpp>
#include <log_surgeon/finite_automata/RegexDFA.hpp>
#include <log_surgeon/finite_automata/RegexNFA.hpp>

#include "schema_tools.hpp"

namespace sim {
using mem::Host;
using mem::Lib;
namespace fa = ls::finite_automata;

// schemas[0] has the rules, schemas[1] the queries. Knobs:
//  "threads"   1: one history; more: that many at once, on one automaton
//  "route"     0: all rules from one schema string, 1: each through Schema::add_variable
//  "strip"     1: '.' of the rules does not match the schema's delimiters
//  "ids"       0: places, 1: some rules share an id, 2: large
//  "release"   1: syntax trees are destroyed once they have been cloned
// Ops; a[0] is the thread, a[1] a query:
//  "ask t q fresh"   the rules that intersect the query, whose automaton is built anew or kept
//  "turned t q"      the other way round
//  "both t q1 q2"    a query of two rules
//  "self t"          the rules with themselves
//  "build t"         another automaton of the rules, compared with the model state by state
//  "fail t q sel k"  "ask" with k failing allocations, each in its own copy of the process
//  "rebuild t sel k" "build" with failing allocations
namespace {
using Dfa = fa::RegexDFA<fa::RegexDFAByteState>;
using Nfa = fa::RegexNFA<fa::RegexNFAByteState>;
using Ast = fa::RegexAST<fa::RegexNFAByteState>;
using Rules = std::vector<ls::LexicalRule<fa::RegexNFAByteState>>;

struct Extra {
    // model
    vector<std::unique_ptr<Matcher>> rules, queries;
    vector<vector<bool>> meets;  // [query][rule]
    // real
    std::unique_ptr<ls::SchemaAST> rule_ast, query_ast;
    vector<std::unique_ptr<ls::SchemaAST>> single;
    vector<Ast*> rule_re, query_re;
    vector<string> rule_text;
    vector<u32> ids;
};

bool intersect(Matcher& a, Matcher& b) {
    std::set<std::pair<int, int>> seen{{a.start(), b.start()}};
    vector<std::pair<int, int>> todo(seen.begin(), seen.end());
    while (!todo.empty()) {
        auto [s, t] = todo.back();
        todo.pop_back();
        if (a.accepting(s) && b.accepting(t)) {
            return true;
        }
        for (int c = 0; c < 256; c++) {
            int u = a.step(s, static_cast<u8>(c));
            int v = b.step(t, static_cast<u8>(c));
            if (u >= 0 && v >= 0 && seen.insert({u, v}).second) {
                todo.emplace_back(u, v);
            }
        }
    }
    return false;
}

vector<u32> rule_ids(Case const& c) {
    vector<u32> v;
    for (size_t i = 0; i < c.schemas[0].rules.size(); i++) {
        switch (c.knob("ids")) {
            case 1:
                v.push_back(static_cast<u32>(i / 2));
                break;
            case 2:
                v.push_back(static_cast<u32>(4294967295U - 7 * i));
                break;
            default:
                v.push_back(static_cast<u32>(i));
        }
    }
    return v;
}

string text_of(Ast const& re) {
    Lib l;
    auto u = re.serialize();
    Host h;
    string o;
    for (char32_t ch : u) {
        if (ch >= 32 && ch < 127) {
            o += static_cast<char>(ch);
        } else {
            o += "\\u{" + std::to_string(static_cast<unsigned>(ch)) + "}";
        }
    }
    return o;
}

void prep_c21(World& w, Case const& c) {
    auto e = std::make_shared<Extra>();
    w.extra = e;
    std::bitset<256> none;
    std::bitset<256> delims;
    for (char ch : c.schemas[0].delims) {
        delims.set(static_cast<u8>(ch));
    }
    for (auto const& r : c.schemas[0].rules) {
        e->rules.push_back(
                std::make_unique<Matcher>(r.pattern, c.knob("strip") != 0 ? delims : none));
    }
    for (auto const& q : c.schemas[1].rules) {
        e->queries.push_back(std::make_unique<Matcher>(q.pattern, none));
        e->meets.emplace_back();
        for (auto& m : e->rules) {
            e->meets.back().push_back(intersect(*m, *e->queries.back()));
        }
    }
    e->ids = rule_ids(c);
    auto load = [&](Schema const& s, std::unique_ptr<ls::SchemaAST>& ast, vector<Ast*>& re) {
        auto take = [&](ls::SchemaAST& a) {
            for (auto const& v : a.m_schema_vars) {
                auto* var = dynamic_cast<ls::SchemaVarAST*>(v.get());
                if (var == nullptr) {
                    throw Violation{"load", "a schema has something that is no variable"};
                }
                re.push_back(var->m_regex_ptr.get());
            }
        };
        if (c.knob("route") == 0) {
            ast = load_schema_string(schema_text(s));
            take(*ast);
        } else {
            for (auto const& r : s.rules) {
                Lib l;
                ls::Schema schema;
                schema.add_variable(std::string_view(r.name + ":" + r.pattern), -1);
                auto a = schema.release_schema_ast_ptr();
                Host h;
                take(*a);
                e->single.push_back(std::move(a));
            }
        }
        if (re.size() != s.rules.size()) {
            throw Violation{"load", std::to_string(s.rules.size()) + " rules were loaded as "
                                            + std::to_string(re.size())};
        }
    };
    load(c.schemas[0], e->rule_ast, e->rule_re);
    load(c.schemas[1], e->query_ast, e->query_re);
    if (c.knob("strip") != 0) {
        Lib l;
        std::vector<uint32_t> d;
        for (char ch : c.schemas[0].delims) {
            d.push_back(static_cast<u8>(ch));
        }
        for (auto* re : e->rule_re) {
            re->remove_delimiters_from_wildcard(d);
        }
    }
    for (auto* re : e->rule_re) {
        e->rule_text.push_back(text_of(*re));
    }
}

// In the library; gives back its memory
Rules cloned(vector<Ast*> const& re, vector<u32> const& ids) {
    Rules rules;
    for (size_t i = 0; i < re.size(); i++) {
        rules.emplace_back(ids[i], std::unique_ptr<Ast>(re[i]->clone()));
    }
    return rules;
}

std::unique_ptr<Dfa> build(vector<Ast*> const& re, vector<u32> const& ids, string* text = nullptr) {
    Lib l;
    Nfa nfa(cloned(re, ids));
    if (text != nullptr) {
        auto s = nfa.serialize();
        Host h;
        text->assign(s.data(), s.size());
    }
    return ls::lexers::ByteLexer::nfa_to_dfa(nfa);
}

vector<u32> query(std::unique_ptr<Dfa> const& a, std::unique_ptr<Dfa> const& b) {
    Lib l;
    auto s = a->get_intersect(b);
    Host h;
    return {s.begin(), s.end()};
}

string ids_text(vector<u32> const& v) {
    string o = "{";
    for (u32 i : v) {
        o += (o.size() > 1 ? ", " : "") + std::to_string(i);
    }
    return o + "}";
}

// Empty when the automaton accepts what the model does, for every string
string compare(Extra& e, Dfa const& dfa) {
    using At = std::pair<fa::RegexDFAByteState const*, vector<int>>;
    std::map<At, string> seen;
    At first{dfa.get_root(), vector<int>(e.rules.size(), 0)};
    seen.emplace(first, "");
    vector<At> todo{first};
    for (size_t k = 0; k < todo.size(); k++) {
        At at = todo[k];
        string path = seen[at];
        vector<u32> want;
        for (size_t i = 0; i < e.rules.size(); i++) {
            if (at.second[i] >= 0 && e.rules[i]->accepting(at.second[i])
                && std::find(want.begin(), want.end(), e.ids[i]) == want.end())
            {
                want.push_back(e.ids[i]);
            }
        }
        vector<u32> got;
        if (at.first != nullptr) {
            for (u32 id : at.first->get_matching_variable_ids()) {
                if (std::find(got.begin(), got.end(), id) == got.end()) {
                    got.push_back(id);
                }
            }
            if (at.first->is_accepting() == got.empty()) {
                return "is_accepting of the state after \"" + show(path) + "\" contradicts its ids";
            }
        }
        if (want != got) {
            return "\"" + show(path) + "\" is matched by " + ids_text(got) + " instead of "
                   + ids_text(want);
        }
        if (at.first == nullptr) {
            bool dead = true;
            for (int s : at.second) {
                dead = dead && s < 0;
            }
            if (dead) {
                continue;
            }
        }
        for (int ch = 0; ch < 256; ch++) {
            At next{at.first == nullptr ? nullptr : at.first->next(static_cast<u32>(ch)),
                    vector<int>(e.rules.size(), -1)};
            for (size_t i = 0; i < e.rules.size(); i++) {
                if (at.second[i] >= 0) {
                    next.second[i] = e.rules[i]->step(at.second[i], static_cast<u8>(ch));
                }
            }
            if (seen.emplace(next, path + static_cast<char>(ch)).second) {
                todo.push_back(next);
            }
        }
        if (todo.size() > 20000) {
            return "too many states";
        }
    }
    return "";
}

struct Shared21 {
    std::unique_ptr<Dfa> rules;
    vector<std::unique_ptr<Dfa>> queries;  // kept ones; null: not asked yet
    string nfa_text;
};

vector<u32> expected(Extra& e, vector<size_t> const& qs) {
    std::set<u32> s;
    for (size_t q : qs) {
        for (size_t i = 0; i < e.rules.size(); i++) {
            if (e.meets[q][i]) {
                s.insert(e.ids[i]);
            }
        }
    }
    return {s.begin(), s.end()};
}

void require(char const* klass, Case const& c, string const& what, vector<u32> const& got,
             vector<u32> const& want) {
    if (got != want) {
        string rules;
        for (auto const& r : c.schemas[0].rules) {
            rules += (rules.empty() ? "" : "  ") + r.pattern;
        }
        throw Violation{klass, what + " gave " + ids_text(got) + " instead of " + ids_text(want)
                                       + "; the rules are " + rules};
    }
}

void one_op(World& w, Case const& c, Shared21& sh, Op const& op, Ctx& x, bool threads) {
    auto& e = *static_cast<Extra*>(w.extra.get());
    size_t nq = e.queries.size();
    auto arg = [&](size_t i, i64 def = 0) { return i < op.a.size() ? op.a[i] : def; };
    auto q_of = [&](size_t i) { return static_cast<size_t>(arg(i)) % nq; };
    auto name = [&](size_t q) { return "query " + c.schemas[1].rules[q].pattern; };
    auto one = [&](size_t q, u32 id) { return build({e.query_re[q]}, {id}); };
    auto drop = [](std::unique_ptr<Dfa>& d) {
        Lib l;
        d.reset();
    };
    if (!threads) {
        x.step();
    }
    if (op.kind == "ask") {
        size_t q = q_of(1);
        std::unique_ptr<Dfa> fresh;
        if (arg(2) != 0) {
            fresh = one(q, 0);
        }
        auto got = query(sh.rules, fresh ? fresh : sh.queries[q]);
        drop(fresh);
        x.log(ids_text(got));
        x.tracef("%s: %s", name(q).c_str(), ids_text(got).c_str());
        require("answer", c, name(q), got, expected(e, {q}));
        if (!threads && !got.empty() && got.size() < e.rules.size()) {
            x.nontrivial();
        }
    } else if (op.kind == "turned") {
        size_t q = q_of(1);
        auto d = one(q, 77);
        auto got = query(d, sh.rules);
        drop(d);
        x.log(ids_text(got));
        vector<u32> want;
        if (!expected(e, {q}).empty()) {
            want.push_back(77);
        }
        require("turned", c, "turned " + name(q), got, want);
    } else if (op.kind == "both") {
        size_t q = q_of(1);
        size_t p = q_of(2);
        auto d = build({e.query_re[q], e.query_re[p]}, {5, 5000});
        auto got = query(sh.rules, d);
        x.log(ids_text(got));
        require("both", c, name(q) + " or " + name(p), got, expected(e, {q, p}));
        vector<u32> want;
        if (!expected(e, {q}).empty()) {
            want.push_back(5);
        }
        if (!expected(e, {p}).empty()) {
            want.push_back(5000);
        }
        got = query(d, sh.rules);
        drop(d);
        require("both", c, "turned " + name(q) + " or " + name(p), got, want);
    } else if (op.kind == "self") {
        auto got = query(sh.rules, sh.rules);
        x.log(ids_text(got));
        std::set<u32> all(e.ids.begin(), e.ids.end());
        require("self", c, "the rules with themselves", got, {all.begin(), all.end()});
    } else if (op.kind == "build") {
        string text;
        auto d = build(e.rule_re, e.ids, &text);
        string diff;
        if (!threads) {
            diff = compare(e, *d);
            x.count("probe.automata_compared");
        }
        drop(d);
        x.log(text);
        if (text != sh.nfa_text) {
            throw Violation{"nfa", "the automaton of the rules was first " + show(sh.nfa_text, 600)
                                           + " and is now " + show(text, 600)};
        }
        if (!diff.empty()) {
            throw Violation{"language", diff};
        }
    } else if ((op.kind == "fail" || op.kind == "rebuild") && !threads) {
        bool ask = op.kind == "fail";
        size_t q = ask ? q_of(1) : 0;
        u64 sel = static_cast<u64>(arg(2));
        auto work = [&](vector<u32>& got) {
            if (ask) {
                auto d = one(q, 0);
                got = query(sh.rules, d);
                drop(d);
            } else {
                auto d = build(e.rule_re, e.ids);
                got = query(d, sh.queries[q]);
                drop(d);
            }
        };
        {
            vector<u32> got;
            work(got);
        }
        auto before = mem::stats();
        mem::record_sites(true);
        {
            vector<u32> got;
            work(got);
            require("answer", c, name(q), got, expected(e, {q}));
        }
        auto sites = mem::take_sites();
        if (mem::stats().live_blocks != before.live_blocks) {
            throw Violation{"leak", name(q) + " left memory allocated"};
        }
        auto points = mem::pick_allocs(sites, sel, static_cast<size_t>(arg(3, 4)));
        bool burst = (sel & 1) != 0;
        sweep_failures(x, name(q).c_str(), points, burst, [&](bool const& child) {
            vector<u32> got;
            bool threw = false;
            try {
                work(got);
            } catch (std::bad_alloc const&) {
                threw = true;
            }
            if (child) {
                mem::no_failures();
            }
            if (threw && !child) {
                throw Violation{"exception", "bad_alloc but no allocation failed"};
            }
            if (!threw) {
                require("answer", c, name(q), got, expected(e, {q}));
            }
            if (mem::stats().live_blocks != before.live_blocks) {
                throw Violation{"leak", name(q) + " failed and left "
                                                + std::to_string(mem::stats().live_blocks
                                                                 - before.live_blocks)
                                                + " blocks allocated"};
            }
            if (child) {
                // all goes on as if nothing had happened
                work(got);
                require("after-fault", c, name(q), got, expected(e, {q}));
                for (size_t k = 0; k < nq; k++) {
                    require("after-fault", c, "after a failure " + name(k),
                            query(sh.rules, sh.queries[k]), expected(e, {k}));
                }
            }
        });
    }
}

void exec_c21(World& w, Case const& c, Ctx& x) {
    auto& e = *static_cast<Extra*>(w.extra.get());
    auto n = static_cast<size_t>(c.knob("threads", 1));
    u64 seed = static_cast<u64>(c.knob("layout"));
    mem::set_layout(static_cast<int>(seed % 4), seed / 4);
    auto base = mem::stats();
    // a second generation of syntax trees: clones of which the originals may be gone
    Rules keep;
    Rules keep_q;
    vector<Ast*> old_rules = e.rule_re;
    if (c.knob("release") != 0) {
        {
            Lib l;
            keep = cloned(e.rule_re, e.ids);
            keep_q = cloned(e.query_re, vector<u32>(e.query_re.size(), 0));
            e.rule_ast.reset();
            e.query_ast.reset();
            e.single.clear();
        }
        for (size_t i = 0; i < keep.size(); i++) {
            e.rule_re[i] = keep[i].get_regex();
            string t = text_of(*e.rule_re[i]);
            if (t != e.rule_text[i]) {
                x.fail("clone", "the clone of " + show(e.rule_text[i], 300) + " is " + show(t, 300));
            }
        }
        for (size_t i = 0; i < keep_q.size(); i++) {
            e.query_re[i] = keep_q[i].get_regex();
        }
    }
    Shared21 sh;
    sh.rules = build(e.rule_re, e.ids, &sh.nfa_text);
    x.log(sh.nfa_text);
    string diff = compare(e, *sh.rules);
    if (!diff.empty()) {
        x.fail("language", diff);
    }
    x.count("probe.automata_compared");
    for (auto* re : e.query_re) {
        sh.queries.push_back(build({re}, {3}));
    }
    check_memory(x);
    if (n <= 1) {
        u64 k = 0;
        for (auto const& op : c.ops) {
            if (op.kind == "switch") {
                continue;
            }
            // what is allocated from now on comes from somewhere else
            k++;
            mem::set_layout(static_cast<int>((seed + k) % 4), mix(seed, k));
            one_op(w, c, sh, op, x, false);
            check_memory(x);
        }
    } else {
        vector<sched::Switch> plan;
        for (auto const& op : c.ops) {
            if (op.kind == "switch" && op.a.size() > 2) {
                plan.push_back({static_cast<u64>(op.a[1]), static_cast<u32>(op.a[2])});
            }
        }
        vector<string> klass(n);
        vector<string> detail(n);
        vector<u64> hash(n);
        vector<std::function<void()>> bodies;
        for (size_t t = 0; t < n; t++) {
            bodies.emplace_back([&, t] {
                Ctx own(x.shared());
                own.quiet = true;
                try {
                    for (auto const& op : c.ops) {
                        if (op.kind != "switch" && static_cast<size_t>(op.a[0]) % n == t) {
                            one_op(w, c, sh, op, own, true);
                        }
                    }
                } catch (Violation const& v) {
                    klass[t] = v.klass;
                    detail[t] = v.detail;
                } catch (std::exception const& ex) {
                    klass[t] = "exception";
                    detail[t] = ex.what();
                }
                hash[t] = own.hash();
            });
        }
        x.phase("threads");
        auto st = sched::run(bodies, plan);
        x.phase("");
        x.log(sched::trace_hash());
        x.count("fault.thread_switch", st.switches);
        x.count("fault.forced_switch", st.forced);
        x.count("probe.yield_points", st.yields);
        x.step(st.switches + 1);
        for (size_t t = 0; t < n; t++) {
            x.log(hash[t]);
            if (!klass[t].empty()) {
                x.fail(klass[t], "thread " + std::to_string(t) + " of " + std::to_string(n) + ": "
                                         + detail[t]);
            }
        }
        if (st.switches > 1) {
            x.nontrivial();
        }
        check_memory(x);
    }
    // the automaton is what it was
    diff = compare(e, *sh.rules);
    if (!diff.empty()) {
        x.fail("changed", "after the queries " + diff);
    }
    {
        Lib l;
        sh.rules.reset();
        sh.queries.clear();
        sh.queries.shrink_to_fit();
        Host h;
    }
    check_memory(x);
    if (c.knob("release") == 0) {
        auto now = mem::stats();
        if (now.live_blocks > base.live_blocks) {
            x.fail("leak", std::to_string(now.live_blocks - base.live_blocks)
                                   + " blocks are still allocated when the automata are gone");
        }
    }
    Lib l;
    keep.clear();
    keep_q.clear();
}

Case base_c21(Rng& r) {
    Case c;
    c.prop = "C21";
    c.knobs["route"] = r.chance(0.15) ? 1 : 0;
    c.knobs["ids"] = r.chance(0.7) ? 0 : r.range(1, 2);
    Schema rules;
    rules.has_delims = false;
    if (r.chance(0.3)) {
        c.knobs["strip"] = 1;
        rules.delims = r.pick(vector<string>{" \n", " \t\r\n:,!;%", "\n:", " \n=/"});
    }
    std::bitset<256> none;
    std::bitset<256> delims;
    for (char ch : rules.delims) {
        delims.set(static_cast<u8>(ch));
    }
    static vector<string> const docs{
            "\\d+",       "[0-9]+",  "[a-fA-F0-9]+",       ".*\\d.*",  ".*=.*[a-zA-Z0-9].*",
            "[a-c]+",     ".+",      "user\\d{1,3}",       "\\-{0,1}[0-9]+\\.[0-9]+",
            "\\-{0,1}[0-9]+", "(INFO)|(DEBUG)|(WARN)|(ERROR)|(TRACE)|(FATAL)", ".*", "abc12", "23def",
            "123",        "1",       "[^a-z]+x",           "a*"};
    auto good = [&](string const& p, std::bitset<256> const& d) {
        try {
            Matcher m(p, d);
            return true;
        } catch (std::exception const&) {
            return false;
        }
    };
    int n = static_cast<int>(r.range(1, r.chance(0.15) ? 12 : 6));
    for (int tries = 0; tries < 40 && static_cast<int>(rules.rules.size()) < n; tries++) {
        Rule rule;
        rule.name = "r" + std::to_string(rules.rules.size());
        rule.pattern = r.chance(0.35) ? r.pick(docs) : gen_pattern(r, true);
        if (good(rule.pattern, delims)) {
            rules.rules.push_back(rule);
        }
    }
    while (rules.rules.size() > 1 && too_large(rules.rules, delims, 150)) {
        rules.rules.pop_back();
    }
    if (rules.rules.empty() || too_large(rules.rules, delims, 150)) {
        rules.rules = {{"r0", "[0-9]+"}};
    }
    Schema queries;
    queries.has_delims = false;
    Sampler s(rules);
    int m = static_cast<int>(r.range(1, 8));
    for (int tries = 0; tries < 60 && static_cast<int>(queries.rules.size()) < m; tries++) {
        string p;
        switch (r.below(8)) {
            case 0:
                p = r.pick(docs);
                break;
            case 1:
                p = gen_pattern(r, true);
                break;
            case 2:
                p = rules.rules[r.below(rules.rules.size())].pattern;
                break;
            default: {
                // a search string: text with wildcards
                string t = r.chance(0.7) ? s.var(r) : s.word(r, static_cast<size_t>(r.range(1, 5)));
                for (char& ch : t) {
                    if (ch < 32 || ch > 126) {
                        ch = 'a';
                    }
                }
                if (t.size() > 20) {
                    t.resize(20);
                }
                if (r.chance(0.3) && !t.empty()) {
                    t[r.below(t.size())] = r.pick(vector<char>{'0', 'a', '-', '=', 'z'});
                }
                int stars = static_cast<int>(r.range(0, 3));
                std::set<size_t> at;
                for (int k = 0; k < stars; k++) {
                    at.insert(r.chance(0.4) ? 0 : r.chance(0.4) ? t.size() : r.below(t.size() + 1));
                }
                size_t skip = r.below(3);
                for (size_t i = 0; i <= t.size(); i++) {
                    if (at.count(i) != 0) {
                        p += ".*";
                        i += skip;
                    }
                    if (i < t.size()) {
                        p += escape_literal(t.substr(i, 1));
                    }
                }
            }
        }
        if (p.empty() || !good(p, none)) {
            continue;
        }
        Rule q{"q" + std::to_string(queries.rules.size()), p};
        auto all = rules.rules;
        all.push_back(q);
        if (too_large(all, none, 1500)) {
            continue;
        }
        queries.rules.push_back(q);
    }
    if (queries.rules.empty()) {
        queries.rules = {{"q0", ".*"}};
    }
    c.schemas = {rules, queries};
    return c;
}

void gen_c21(Rng& r, Case& c) {
    c.knobs["layout"] = static_cast<i64>(r.below(1000000));
    i64 n = r.chance(0.5) ? r.range(2, 3) : 1;
    c.knobs["threads"] = n;
    c.knobs["release"] = r.chance(0.3) ? 1 : 0;
    auto nq = static_cast<i64>(c.schemas[1].rules.size());
    int k = static_cast<int>(r.range(2, n > 1 ? 10 : 8));
    for (int i = 0; i < k; i++) {
        i64 t = r.range(0, n - 1);
        i64 q = r.range(0, nq - 1);
        switch (r.below(n > 1 ? 10 : 13)) {
            case 0:
                c.ops.push_back({"turned", {t, q}, ""});
                break;
            case 1:
                c.ops.push_back({"both", {t, q, r.range(0, nq - 1)}, ""});
                break;
            case 2:
                c.ops.push_back({"self", {t}, ""});
                break;
            case 3:
                c.ops.push_back({"build", {t}, ""});
                break;
            case 10:
            case 11:
                c.ops.push_back({"fail",
                                 {t, q, static_cast<i64>(r.below(1000000)), r.range(2, 8)}, ""});
                break;
            case 12:
                c.ops.push_back({"rebuild",
                                 {t, 0, static_cast<i64>(r.below(1000000)), r.range(2, 8)}, ""});
                break;
            default:
                c.ops.push_back({"ask", {t, q, r.chance(0.5) ? 1 : 0}, ""});
        }
    }
    if (n > 1) {
        int sw = static_cast<int>(r.range(2, r.chance(0.2) ? 200 : 40));
        i64 scale = i64{1} << r.range(0, 16);
        for (int i = 0; i < sw; i++) {
            c.ops.push_back({"switch", {-1, r.skewed(scale), static_cast<i64>(r.below(3))}, ""});
        }
    }
}
}  // namespace

void register_query() {
    Prop p;
    p.id = "C21";
    p.episodes = 30;
    p.gen_base = base_c21;
    p.gen_episode = gen_c21;
    p.prepare = prep_c21;
    p.exec = exec_c21;
    p.shrink_knobs = {{"threads", {1, 2}}, {"release", {0}}, {"route", {0}}, {"strip", {0}},
                      {"ids", {0}}, {"layout", {0}}};
    p.shrink_rules = true;
    registry().push_back(p);
}
}  // namespace sim
