#include "model.hpp"

#include <algorithm>
#include <array>
#include <stdexcept>

namespace sim {
struct Matcher::Node {
    enum Kind { Set, Cat, Alt, Rep } kind{Cat};
    std::bitset<256> set;
    vector<Node> kids;
    int min{1};
    int max{1};  // -1: unbounded
};


namespace {
struct P {
    string const& s;
    std::bitset<256> const& delims;
    size_t i{0};

    [[noreturn]] void bad(string const& m) const {
        throw std::runtime_error("model: bad pattern '" + s + "': " + m);
    }
    char peek() const { return i < s.size() ? s[i] : '\0'; }
    bool more() const { return i < s.size(); }
};

bool class_escape(char c, std::bitset<256>& out) {
    switch (c) {
        case 'd':
            for (int k = '0'; k <= '9'; k++) {
                out.set(k);
            }
            return true;
        case 's':
            for (char k : string(" \t\r\n\v\f")) {
                out.set(static_cast<u8>(k));
            }
            return true;
        case 'n':
            out.set('\n');
            return true;
        case 't':
            out.set('\t');
            return true;
        case 'r':
            out.set('\r');
            return true;
        case 'v':
            out.set('\v');
            return true;
        case 'f':
            out.set('\f');
            return true;
        default:
            return false;
    }
}
}  // namespace

template <class N>
static N parse_cat(P& p);

template <class N>
static N parse_atom(P& p) {
    N n;
    char c = p.peek();
    if (c == '(') {
        p.i++;
        // a named capture matches what its body matches
        if (p.peek() == '?') {
            p.i++;
            if (p.peek() != '<') {
                p.bad("capture");
            }
            while (p.more() && p.peek() != '>') {
                p.i++;
            }
            if (!p.more()) {
                p.bad("capture");
            }
            p.i++;
        }
        n = parse_cat<N>(p);
        if (p.peek() != ')') {
            p.bad(") expected");
        }
        p.i++;
        return n;
    }
    n.kind = N::Set;
    if (c == '[') {
        p.i++;
        bool neg = false;
        if (p.peek() == '^') {
            neg = true;
            p.i++;
        }
        auto one = [&]() -> int {
            char d = p.peek();
            if (d == '\\') {
                p.i++;
                char e = p.peek();
                p.i++;
                std::bitset<256> cs;
                if (e == 'd') {
                    return -1;
                }
                if (e == 's') {
                    return -2;
                }
                if (class_escape(e, cs)) {
                    for (int k = 0; k < 256; k++) {
                        if (cs[k]) {
                            return k;
                        }
                    }
                }
                return static_cast<u8>(e);
            }
            p.i++;
            return static_cast<u8>(d);
        };
        while (p.more() && p.peek() != ']') {
            int a = one();
            if (a < 0) {
                class_escape(a == -1 ? 'd' : 's', n.set);
                continue;
            }
            if (p.peek() == '-' && p.i + 1 < p.s.size() && p.s[p.i + 1] != ']') {
                p.i++;
                int b = one();
                if (b < 0) {
                    p.bad("range");
                }
                for (int k = a; k <= b; k++) {
                    n.set.set(k);
                }
            } else {
                n.set.set(a);
            }
        }
        if (p.peek() != ']') {
            p.bad("] expected");
        }
        p.i++;
        if (neg) {
            n.set = ~n.set;
        }
        return n;
    }
    if (c == '\\') {
        p.i++;
        char e = p.peek();
        p.i++;
        if (!class_escape(e, n.set)) {
            n.set.set(static_cast<u8>(e));
        }
        return n;
    }
    if (c == '.') {
        p.i++;
        n.set = ~p.delims;
        return n;
    }
    if (c == '*' || c == '+' || c == '{' || c == '|' || c == ')' || c == '\0') {
        p.bad("unexpected character");
    }
    p.i++;
    n.set.set(static_cast<u8>(c));
    return n;
}

template <class N>
static N parse_rep(P& p) {
    N n = parse_atom<N>(p);
    while (true) {
        char c = p.peek();
        int lo = 0, hi = 0;
        if (c == '*') {
            lo = 0;
            hi = -1;
            p.i++;
        } else if (c == '+') {
            lo = 1;
            hi = -1;
            p.i++;
        } else if (c == '{') {
            p.i++;
            auto num = [&]() {
                int v = 0;
                if (!isdigit(static_cast<u8>(p.peek()))) {
                    p.bad("number");
                }
                while (isdigit(static_cast<u8>(p.peek()))) {
                    v = v * 10 + (p.peek() - '0');
                    p.i++;
                }
                return v;
            };
            lo = hi = num();
            if (p.peek() == ',') {
                p.i++;
                hi = num();
            }
            if (p.peek() != '}') {
                p.bad("}");
            }
            p.i++;
        } else {
            return n;
        }
        N r;
        r.kind = N::Rep;
        r.min = lo;
        r.max = hi;
        r.kids.push_back(std::move(n));
        n = std::move(r);
    }
}

// | binds tighter than concatenation
template <class N>
static N parse_alt(P& p) {
    N n = parse_rep<N>(p);
    if (p.peek() != '|') {
        return n;
    }
    N a;
    a.kind = N::Alt;
    a.kids.push_back(std::move(n));
    while (p.peek() == '|') {
        p.i++;
        a.kids.push_back(parse_rep<N>(p));
    }
    return a;
}

template <class N>
static N parse_cat(P& p) {
    N n;
    n.kind = N::Cat;
    while (p.more() && p.peek() != ')') {
        n.kids.push_back(parse_alt<N>(p));
    }
    return n;
}

int Matcher::new_state() {
    m_n.emplace_back();
    return static_cast<int>(m_n.size()) - 1;
}

Matcher::Frag Matcher::build(Node const& n) {
    int s = new_state();
    int e = new_state();
    switch (n.kind) {
        case Node::Set: {
            m_sets.push_back(n.set);
            m_n[s].edges.emplace_back(static_cast<int>(m_sets.size()) - 1, e);
            break;
        }
        case Node::Cat: {
            int cur = s;
            for (auto const& k : n.kids) {
                Frag f = build(k);
                m_n[cur].eps.push_back(f.s);
                cur = f.e;
            }
            m_n[cur].eps.push_back(e);
            break;
        }
        case Node::Alt: {
            for (auto const& k : n.kids) {
                Frag f = build(k);
                m_n[s].eps.push_back(f.s);
                m_n[f.e].eps.push_back(e);
            }
            break;
        }
        case Node::Rep: {
            int cur = s;
            for (int i = 0; i < n.min; i++) {
                Frag f = build(n.kids[0]);
                m_n[cur].eps.push_back(f.s);
                cur = f.e;
            }
            if (n.max < 0) {
                Frag f = build(n.kids[0]);
                int hub = new_state();
                m_n[cur].eps.push_back(hub);
                m_n[hub].eps.push_back(f.s);
                m_n[f.e].eps.push_back(hub);
                m_n[hub].eps.push_back(e);
            } else {
                m_n[cur].eps.push_back(e);
                for (int i = n.min; i < n.max; i++) {
                    Frag f = build(n.kids[0]);
                    m_n[cur].eps.push_back(f.s);
                    cur = f.e;
                    m_n[cur].eps.push_back(e);
                }
            }
            break;
        }
    }
    return {s, e};
}

int Matcher::intern(vector<int> set) {
    // closure
    vector<char> seen(m_n.size(), 0);
    vector<int> stack = set;
    vector<int> out;
    while (!stack.empty()) {
        int x = stack.back();
        stack.pop_back();
        if (seen[x]) {
            continue;
        }
        seen[x] = 1;
        out.push_back(x);
        for (int y : m_n[x].eps) {
            stack.push_back(y);
        }
    }
    if (out.empty()) {
        return -1;
    }
    std::sort(out.begin(), out.end());
    auto it = m_dfa_ids.find(out);
    if (it != m_dfa_ids.end()) {
        return it->second;
    }
    int id = static_cast<int>(m_dfa_sets.size());
    m_dfa_ids[out] = id;
    m_dfa_accept.push_back(seen[m_final]);
    m_dfa_sets.push_back(std::move(out));
    std::array<int, 256> row{};
    row.fill(-2);
    m_dfa_next.push_back(row);
    return id;
}

Matcher::Matcher(string const& pattern, std::bitset<256> const& delims) {
    P p{pattern, delims};
    Node n = parse_cat<Node>(p);
    if (p.more()) {
        p.bad("trailing characters");
    }
    Frag f = build(n);
    m_final = f.e;
    intern({f.s});
}

bool Matcher::uses(u8 byte) const {
    // every state of the automaton lies on a path from its start to its end
    for (auto const& n : m_n) {
        for (auto const& [set, to] : n.edges) {
            if (m_sets[static_cast<size_t>(set)][byte]) {
                return true;
            }
        }
    }
    return false;
}

int Matcher::step(int state, u8 byte) {
    int r = m_dfa_next[state][byte];
    if (r != -2) {
        return r;
    }
    vector<int> to;
    for (int x : m_dfa_sets[state]) {
        for (auto const& [set, t] : m_n[x].edges) {
            if (m_sets[set][byte]) {
                to.push_back(t);
            }
        }
    }
    r = intern(to);
    m_dfa_next[state][byte] = r;
    return r;
}

bool Matcher::matches(char const* p, size_t n) {
    int s = 0;
    for (size_t i = 0; i < n; i++) {
        s = step(s, static_cast<u8>(p[i]));
        if (s < 0) {
            return false;
        }
    }
    return accepting(s);
}

Model::Model(Schema const& s) {
    for (char c : s.delims) {
        m_delims.set(static_cast<u8>(c));
    }
    for (auto const& r : s.rules) {
        auto m = std::make_unique<Matcher>(r.pattern, m_delims);
        if (r.name == "timestamp") {
            m_ts.push_back({r.name, std::move(m)});
        } else {
            m_vars.push_back({r.name, std::move(m)});
        }
    }
}

vector<string> Model::types_of(char const* p, size_t n) {
    vector<string> out;
    for (auto& r : m_vars) {
        if (r.m->matches(p, n) && std::find(out.begin(), out.end(), r.name) == out.end()) {
            out.push_back(r.name);
        }
    }
    return out;
}

size_t Model::ts_at(string const& in, size_t p) {
    size_t best = 0;
    bool partial = false;
    for (auto& r : m_ts) {
        int s = 0;
        size_t i = p;
        while (i < in.size()) {
            s = r.m->step(s, static_cast<u8>(in[i]));
            if (s < 0) {
                break;
            }
            i++;
            if (i - p > 2) {
                partial = true;
            }
            if (r.m->accepting(s) && (i == in.size() || is_delim(in[i]))) {
                best = std::max(best, i - p);
            }
        }
    }
    if (best == 0 && partial) {
        m_failed_ts++;
    }
    return best;
}

string canon_newline(string s) {
    string const pat = "<newLine>";
    size_t p = 0;
    while ((p = s.find(pat, p)) != string::npos) {
        s.replace(p, pat.size(), "\n");
        p += 1;
    }
    return s;
}

vector<MEvent> Model::parse(string const& in) {
    vector<MEvent> out;
    m_starts.clear();
    size_t const n = in.size();
    size_t i = 0;
    MEvent ev;
    size_t ev_start = 0;
    auto close = [&](size_t end) {
        ev.text = in.substr(ev_start, end - ev_start);
        // multi-line: some character follows a newline, after the timestamp
        size_t nl = ev.text.find('\n', ev.ts.size());
        ev.multiline = ev.has_ts && nl != string::npos && nl + 1 < ev.text.size();
        // log type
        string lt;
        size_t cur = ev_start + ev.ts.size();
        for (auto const& v : ev.vars) {
            lt += in.substr(cur, v.pos - cur);
            lt += "<" + v.types[0] + ">";
            size_t run = v.text.size();
            if (v.pos > ev_start && run > 0 && v.pos - 1 >= ev_start + ev.ts.size()) {
                run -= 1;  // the delimiter
            }
            cur = v.pos + run;
        }
        lt += in.substr(cur, end - cur);
        ev.logtype = canon_newline(lt);
        m_starts.push_back(ev_start);
        out.push_back(std::move(ev));
        ev = MEvent{};
        ev_start = end;
    };
    bool at_line_start = true;
    while (i < n) {
        if (at_line_start) {
            at_line_start = false;
            size_t len = ts_at(in, i);
            if (len > 0) {
                if (i > 0) {
                    close(i);
                }
                ev.has_ts = true;
                ev.ts = in.substr(i, len);
                i += len;
                continue;
            }
            if (i > 0 && !ev.has_ts) {
                close(i);
            }
        }
        if (is_delim(in[i])) {
            if (in[i] == '\n') {
                at_line_start = true;
            }
            i++;
            continue;
        }
        size_t j = i;
        while (j < n && !is_delim(in[j])) {
            j++;
        }
        auto types = types_of(in.data() + i, j - i);
        if (!types.empty()) {
            if (types.size() > 1) {
                m_multi_type++;
            }
            MVar v;
            v.pos = i;
            size_t from = i;
            if (i > ev_start + ev.ts.size()) {
                from = i - 1;
            }
            v.text = in.substr(from, j - from);
            v.types = std::move(types);
            ev.vars.push_back(std::move(v));
        }
        i = j;
    }
    if (ev_start < n) {
        close(n);
    }
    return out;
}

string describe(MEvent const& e) {
    string o = "{text=" + show(e.text) + " ts=" + (e.has_ts ? show(e.ts) : "-")
               + " multiline=" + (e.multiline ? "1" : "0") + " logtype=" + show(e.logtype)
               + " vars=[";
    size_t k = 0;
    for (auto const& v : e.vars) {
        if (k++ > 12) {
            o += "...";
            break;
        }
        o += show(v.text, 60) + ":";
        for (auto const& t : v.types) {
            o += t + ",";
        }
        o += " ";
    }
    return o + "]}";
}

string diff(vector<MEvent> const& want, vector<MEvent> const& got, char const* wn, char const* gn) {
    size_t n = std::max(want.size(), got.size());
    for (size_t i = 0; i < n; i++) {
        string w = i < want.size() ? describe(want[i]) : "(none)";
        string g = i < got.size() ? describe(got[i]) : "(none)";
        bool same = i < want.size() && i < got.size();
        string what = "number of events";
        if (same) {
            auto const& a = want[i];
            auto const& b = got[i];
            same = false;
            if (a.text != b.text) {
                what = "text";
            } else if (a.has_ts != b.has_ts || a.ts != b.ts) {
                what = "timestamp";
            } else if (a.vars.size() != b.vars.size()) {
                what = "number of variables";
            } else {
                size_t k = 0;
                for (; k < a.vars.size(); k++) {
                    if (a.vars[k].text != b.vars[k].text || a.vars[k].types != b.vars[k].types) {
                        break;
                    }
                }
                if (k < a.vars.size()) {
                    what = "variable " + std::to_string(k);
                    w += " -> " + show(a.vars[k].text);
                    for (auto const& t : a.vars[k].types) {
                        w += "," + t;
                    }
                    g += " -> " + show(b.vars[k].text);
                    for (auto const& t : b.vars[k].types) {
                        g += "," + t;
                    }
                } else if (a.multiline != b.multiline) {
                    what = "multi-line flag";
                } else if (a.logtype != b.logtype) {
                    what = "log type";
                } else {
                    same = true;
                }
            }
        }
        if (!same) {
            return "event " + std::to_string(i) + " differs in " + what + ": " + wn + " " + w + " "
                   + gn + " " + g;
        }
    }
    return "";
}
}  // namespace sim
