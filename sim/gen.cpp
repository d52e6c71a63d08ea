#include "gen.hpp"

#include <algorithm>
#include <set>

namespace sim {
namespace {
string esc_lit(char c) {
    if (strchr("()*+-.[]\\^{}|<>?", c) && c) {
        return string("\\") + c;
    }
    return string(1, c);
}

// A pattern generator that keeps to the part of the language whose meaning is not in dispute:
// see "assumptions" in DESIGN.md.
struct PatGen {
    Rng& r;
    std::bitset<256> d;
    bool captures;
    int cap{0};
    vector<char> alpha;

    PatGen(Rng& rng, string const& delims, bool caps) : r(rng), captures(caps) {
        for (char c : delims) {
            d.set(static_cast<u8>(c));
        }
        for (char c : string("abc01x-._=/@#'")) {
            if (!d[static_cast<u8>(c)]) {
                alpha.push_back(c);
            }
        }
        if (r.chance(0.35)) {
            // any printable characters, most of which need a backslash in a pattern
            alpha.resize(std::min<size_t>(alpha.size(), 3));
            while (alpha.size() < 9) {
                char c = static_cast<char>(r.range(' ', '~'));
                if (r.chance(0.5)) {
                    static char const special[] = "()*+-.[]\\^{}|<>?";
                    c = special[r.below(sizeof special - 1)];
                }
                if (!d[static_cast<u8>(c)]) {
                    alpha.push_back(c);
                }
            }
        }
    }

    bool free_range(int a, int b) {
        for (int k = a; k <= b; k++) {
            if (d[k]) {
                return false;
            }
        }
        return true;
    }

    string klass() {
        switch (r.below(8)) {
            case 6: {
                int a = static_cast<int>(r.range(' ', '}'));
                int b = r.chance(0.1) ? a
                                      : static_cast<int>(
                                                r.range(a + 1, std::min<int>('~', a + 30))
                                        );
                if (!free_range(a, b)) {
                    return "[0-9]";
                }
                return "[" + esc_lit(static_cast<char>(a)) + "-" + esc_lit(static_cast<char>(b)) + "]";
            }
            case 0:
                return "\\d";
            case 1:
                return "[a-c]";
            case 2:
                return "[a-zA-Z]";
            case 3:
                return "[0-9a-f]";
            case 4: {
                // negated class: all delimiters must be listed
                string o = "[^";
                bool white = r.chance(0.2);
                if (white) {
                    o += "\\s";
                }
                for (int k = 0; k < 256; k++) {
                    if (d[k] && !(white && strchr(" \t\r\n\v\f", k) != nullptr)) {
                        switch (k) {
                            case '\n':
                                o += "\\n";
                                break;
                            case '\t':
                                o += "\\t";
                                break;
                            case '\r':
                                o += "\\r";
                                break;
                            case '\v':
                                o += "\\v";
                                break;
                            case '\f':
                                o += "\\f";
                                break;
                            default:
                                o += esc_lit(static_cast<char>(k));
                        }
                    }
                }
                if (r.chance(0.5) || d.none()) {
                    o += r.chance(0.5) ? "a-c" : "0-9";
                }
                return o + "]";
            }
            case 5:
                return ".";
            default: {
                string o = "[";
                int n = static_cast<int>(r.range(1, 3));
                for (int i = 0; i < n; i++) {
                    o += esc_lit(r.pick(alpha));
                }
                return o + "]";
            }
        }
    }

    string lit() {
        string o;
        int n = static_cast<int>(r.range(1, 3));
        for (int i = 0; i < n; i++) {
            o += esc_lit(r.pick(alpha));
        }
        return o;
    }

    // one repeated or plain piece
    string piece(int depth) {
        if (depth > 0 && r.chance(0.06)) {
            // without parentheses: | binds tighter than concatenation, and a character or group
            // follows it
            string o = r.chance(0.5) ? lit() : piece(0);
            i64 n = r.range(1, 2);
            for (i64 i = 0; i < n; i++) {
                o += "|" + (r.chance(0.7) ? esc_lit(r.pick(alpha)) : "(" + seq(depth - 1) + ")");
            }
            return o;
        }
        int k = static_cast<int>(r.below(depth > 0 ? 12 : 7));
        switch (k) {
            case 0:
            case 1:
                return lit();
            case 2:
                return klass();
            case 3:
            case 4:
                return klass() + (r.chance(0.8) ? "+" : "{1,3}");
            case 5: {
                int n = static_cast<int>(r.range(r.chance(0.05) ? 0 : 1, 4));
                return klass() + (n == 0 && r.chance(0.5) ? "{0,0}" : "{" + std::to_string(n) + "}");
            }
            case 6: {
                int n = static_cast<int>(r.range(1, 2));
                return klass() + "{" + std::to_string(n) + "," + std::to_string(n + r.range(0, 2))
                       + "}";
            }
            case 7:
                return klass() + "{0,1}";
            case 8:
                return klass() + (r.chance(0.8) ? "*" : "{0,2}");
            case 9: {
                string a = seq(depth - 1);
                string b = seq(depth - 1);
                return "((" + a + ")|(" + b + "))";
            }
            case 10: {
                string a = seq(depth - 1);
                switch (r.below(6)) {
                    case 0:
                        return "(" + a + ")*";
                    case 1:
                        return "(" + a + ")+";
                    case 2: {
                        i64 n = r.range(1, 2);
                        return "(" + a + "){" + std::to_string(n) + ","
                               + std::to_string(n + r.range(0, 1)) + "}";
                    }
                    default:
                        return "(" + a + "){0," + std::to_string(r.range(1, 2)) + "}";
                }
            }
            default: {
                string a = seq(depth - 1);
                if (captures && r.chance(0.5)) {
                    return "(?<c" + std::to_string(cap++) + ">" + a + ")";
                }
                return "(" + a + ")";
            }
        }
    }

    string seq(int depth) {
        int n = static_cast<int>(r.range(1, 3));
        string o;
        for (int i = 0; i < n; i++) {
            o += piece(depth);
        }
        return o;
    }
};

}  // namespace

string gen_pattern(Rng& r, bool captures) {
    PatGen g(r, "", captures);
    return g.seq(2);
}

string escape_literal(string const& s) {
    string o;
    for (char c : s) {
        o += c == '\n' ? "\\n" : c == '\t' ? "\\t" : c == '\r' ? "\\r" : esc_lit(c);
    }
    return o;
}

bool too_large(vector<Rule> const& rules, std::bitset<256> const& delims, size_t cap) {
    vector<std::unique_ptr<Matcher>> ms;
    for (auto const& v : rules) {
        ms.push_back(std::make_unique<Matcher>(v.pattern, delims));
    }
    std::set<vector<int>> seen;
    vector<vector<int>> todo{vector<int>(ms.size(), 0)};
    seen.insert(todo[0]);
    while (!todo.empty()) {
        vector<int> at = todo.back();
        todo.pop_back();
        for (int b = 0; b < 256; b++) {
            vector<int> next(at.size());
            for (size_t k = 0; k < at.size(); k++) {
                next[k] = at[k] < 0 ? -1 : ms[k]->step(at[k], static_cast<u8>(b));
            }
            if (seen.insert(next).second) {
                if (seen.size() > cap) {
                    return true;
                }
                todo.push_back(next);
            }
        }
    }
    return false;
}

Schema gen_schema(Rng& r, SchemaOpts const& o) {
    Schema s;
    static vector<string> const bases{
            " \n", " \t\r\n:,!;%", " \n:", " \r\n:,", "\n,;", " \n=/", " \t\n:-.", "\n", " \n[]()",
            " \n\t,:|<>",
    };
    s.delims = r.pick(bases);
    if (r.chance(0.3)) {
        for (char c : string("\"'=&{}")) {
            if (r.chance(0.3) && s.delims.find(c) == string::npos) {
                s.delims += c;
            }
        }
    }
    if (r.chance(0.05)) {
        for (char c : string("\v\f")) {
            s.delims += c;
        }
    }
    // order is irrelevant
    for (size_t i = s.delims.size(); i > 1; i--) {
        std::swap(s.delims[i - 1], s.delims[r.below(i)]);
    }
    Model empty(s);
    auto is_d = [&](char c) { return s.delims.find(c) != string::npos; };

    // variables
    static vector<string> const names{"int", "float", "hex",   "word", "hasNumber", "equals",
                                      "id",  "path",  "user1", "Key",  "v",         "zz"};
    int nv = static_cast<int>(r.range(o.min_vars, o.max_vars));
    vector<Rule> vars;
    int tries = 0;
    while (static_cast<int>(vars.size()) < nv && tries++ < 60) {
        Rule rule;
        rule.name = r.pick(names);
        if (r.chance(0.85)) {
            bool used = false;
            for (auto const& v : vars) {
                used = used || v.name == rule.name;
            }
            if (used) {
                continue;
            }
        }
        PatGen g(r, s.delims, o.captures);
        if (r.chance(0.45)) {
            // the patterns of the documentation
            vector<string> docs{"\\d+", "[0-9]+", "[a-fA-F0-9]+", ".*\\d.*", ".*=.*[a-zA-Z0-9].*",
                                "[a-c]+", ".+", "user\\d{1,3}", "\\-{0,1}[0-9]+\\.[0-9]+",
                                "\\-{0,1}[0-9]+", "[a-fA-F]+", ".*\\d"};
            rule.pattern = r.pick(docs);
        } else {
            rule.pattern = g.seq(2);
        }
        // must not match a delimiter, nor the empty string
        try {
            Matcher m(rule.pattern, empty.m_delims);
            if (m.nullable()) {
                continue;
            }
            bool bad = false;
            // literal delimiters inside the pattern
            string const& p = rule.pattern;
            bool neg = false;
            for (size_t i = 0; i < p.size(); i++) {
                if (p[i] == '[' && i + 1 < p.size() && p[i + 1] == '^') {
                    neg = true;
                }
                if (p[i] == ']') {
                    neg = false;
                }
                if (neg) {
                    continue;
                }
                if (p[i] == '\\') {
                    i++;
                    if (p[i] == 'd') {
                        continue;
                    }
                    bad = bad || is_d(p[i]);
                    continue;
                }
                // syntax characters are no literals
                if (strchr("()[]{}*+|?<>.,-^", p[i])) {
                    continue;
                }
                bad = bad || is_d(p[i]);
            }
            if (bad) {
                continue;
            }
        } catch (std::exception const&) {
            continue;
        }
        vars.push_back(rule);
    }

    // some patterns have exponentially large automata: those only cost time
    while (vars.size() > 1 && too_large(vars, empty.m_delims, 250)) {
        vars.pop_back();
    }
    if (vars.size() == 1 && too_large(vars, empty.m_delims, 250)) {
        vars[0].pattern = "[0-9]+";
    }

    // timestamps
    vector<Rule> ts;
    if (r.chance(o.p_ts)) {
        vector<char> soft;
        for (char c : s.delims) {
            if (c != '\n' && c != '\v' && c != '\f') {
                soft.push_back(c);
            }
        }
        int nt = r.chance(0.35) ? static_cast<int>(r.range(2, 3)) : 1;
        for (int t = 0; t < nt; t++) {
            string p;
            auto sep = [&]() -> string {
                if (soft.empty()) {
                    return "T";
                }
                char c = r.pick(soft);
                if (c == '\t') {
                    return "\\t";
                }
                if (c == '\r') {
                    return "\\r";
                }
                return esc_lit(c);
            };
            auto field = [&]() -> string {
                switch (r.below(5)) {
                    case 0:
                        return "\\d{2}";
                    case 1:
                        return "\\d{4}";
                    case 2:
                        return "[0-9]{1,2}";
                    case 3:
                        return "[A-Z]{1}";
                    default:
                        return "\\d";
                }
            };
            if (r.chance(0.2)) {
                p += is_d('[') ? "T" : "\\[";
            }
            int nf = static_cast<int>(r.range(soft.empty() ? 1 : 2, 4));
            for (int k = 0; k < nf; k++) {
                if (k > 0) {
                    p += (r.chance(0.3) && !is_d('-')) ? "\\-" : sep();
                    if (r.chance(0.1)) {
                        p += sep();
                    }
                }
                p += field();
            }
            if (r.chance(0.3)) {
                // two lengths
                p += "(" + sep() + "\\d{" + std::to_string(r.range(1, 3)) + "}){0,1}";
            }
            ts.push_back({"timestamp", p});
        }
        // a timestamp without a delimiter inside can tie with a variable: timestamps come first
    }
    bool ts_first = true;
    if (!ts.empty()) {
        bool all_with_delim = true;
        for (auto const& t : ts) {
            // the literals outside the optional suffix, without classes and repetition counts
            bool has = false;
            string const& p = t.pattern;
            for (size_t i = 0; i < p.size() && p[i] != '('; i++) {
                char c = p[i];
                if (c == '[' || c == '{') {
                    i = p.find(c == '[' ? ']' : '}', i);
                    continue;
                }
                if (c == '\\') {
                    c = p[++i];
                    if (c == 'd') {
                        continue;
                    }
                    c = c == 't' ? '\t' : c == 'r' ? '\r' : c;
                }
                has = has || (c != '\n' && is_d(c));
            }
            all_with_delim = all_with_delim && has;
        }
        ts_first = !all_with_delim;
    }
    if (ts_first) {
        s.rules = ts;
        s.rules.insert(s.rules.end(), vars.begin(), vars.end());
    } else {
        s.rules = vars;
        for (auto& t : ts) {
            s.rules.insert(s.rules.begin() + static_cast<long>(r.below(s.rules.size() + 1)), t);
        }
    }
    s.delims_at = r.chance(0.7) ? 0 : static_cast<int>(r.below(s.rules.size() + 1));
    return s;
}

Sampler::Sampler(Schema const& s) : m_s(s) {
    for (char c : s.delims) {
        m_d.set(static_cast<u8>(c));
        if (c != '\n') {
            m_soft += c;
        }
    }
    for (auto const& rule : s.rules) {
        auto m = std::make_unique<Matcher>(rule.pattern, m_d);
        (rule.name == "timestamp" ? m_ts : m_vars).push_back(std::move(m));
    }
    for (char c : string("abcxyz0123456789ABCDEFT-._=/@#'<>newLine")) {
        if (!m_d[static_cast<u8>(c)]) {
            m_wordset += c;
        }
    }
}

string Sampler::sample(Rng& r, Matcher& m) {
    for (int attempt = 0; attempt < 6; attempt++) {
        string o;
        int s = m.start();
        double stop = r.chance(0.5) ? 0.4 : 0.1;
        for (int n = 0; n < 60; n++) {
            if (m.accepting(s) && (r.chance(stop) || n > 50)) {
                return o;
            }
            // a few likely bytes, then all
            int t = -1;
            u8 b = 0;
            for (int k = 0; k < 12 && t < 0; k++) {
                b = static_cast<u8>(m_wordset[r.below(m_wordset.size())]);
                t = m.step(s, b);
            }
            if (t < 0) {
                u32 off = static_cast<u32>(r.below(128));
                for (u32 k = 0; k < 128 && t < 0; k++) {
                    b = static_cast<u8>((off + k) % 128);
                    t = m.step(s, b);
                }
            }
            if (t < 0) {
                break;
            }
            o += static_cast<char>(b);
            s = t;
        }
        if (m.accepting(s)) {
            return o;
        }
    }
    return "";
}

string Sampler::var(Rng& r) {
    return m_vars.empty() ? word(r, r.below(5)) : sample(r, *m_vars[r.below(m_vars.size())]);
}
string Sampler::ts(Rng& r) {
    return m_ts.empty() ? "" : sample(r, *m_ts[r.below(m_ts.size())]);
}
string Sampler::word(Rng& r, size_t n) {
    string o;
    for (size_t i = 0; i < n; i++) {
        if (r.chance(0.02)) {
            u8 b = static_cast<u8>(r.below(0xFD));
            if (!m_d[b]) {
                o += static_cast<char>(b);
                continue;
            }
        }
        o += m_wordset[r.below(m_wordset.size())];
    }
    return o;
}
char Sampler::delim(Rng& r) {
    return m_soft.empty() ? '\n' : m_soft[r.below(m_soft.size())];
}

string gen_input(Rng& r, Sampler& s, InputOpts const& o) {
    string in;
    size_t target = 0;
    if (r.chance(0.04)) {
        target = r.below(4);
    } else if (r.chance(0.4)) {
        target = r.below(o.max_len + 1);
    } else {
        target = r.below(o.max_len / 4 + 1);
    }
    // swarm: the mix of this input
    double p_ts_line = r.chance(0.2) ? 0.0 : r.chance(0.3) ? 0.9 : 0.4;
    double p_nl = r.chance(0.2) ? 0.02 : r.chance(0.3) ? 0.4 : 0.12;
    double p_var = r.chance(0.2) ? 0.9 : 0.5;
    double p_long = o.huge_events && r.chance(0.3) ? 0.08 : 0.0;
    double p_near = 0.15;
    bool line_start = true;
    if (r.chance(0.3) && s.has_ts()) {
        in += s.ts(r);
        line_start = false;
    }
    while (in.size() < target) {
        if (line_start) {
            line_start = false;
            if (s.has_ts() && r.chance(p_ts_line)) {
                string t = s.ts(r);
                if (r.chance(p_near) && !t.empty()) {
                    // a timestamp that is not quite one
                    switch (r.below(4)) {
                        case 0:
                            t.resize(r.below(t.size()) + 1);
                            break;
                        case 1:
                            t[r.below(t.size())] = 'x';
                            break;
                        case 2:
                            t += s.word(r, 1);
                            break;
                        default:
                            t = t.substr(0, r.below(t.size()) + 1) + "\n";
                    }
                }
                in += t;
                if (!t.empty() && t.back() == '\n') {
                    line_start = true;
                    continue;
                }
            }
        }
        if (r.chance(p_nl)) {
            if (r.chance(0.1)) {
                in += "\r\n";
            } else {
                in += "\n";
            }
            if (r.chance(0.1)) {
                in += string(r.below(4), '\n');
            }
            line_start = true;
            continue;
        }
        switch (r.below(12)) {
            case 0:
                in += s.delim(r);
                in += s.delim(r);
                break;
            case 1:
                if (s.has_ts()) {
                    in += s.delim(r) + s.ts(r);
                }
                break;
            case 2:
                // pad to a boundary of the buffer
                if (o.half > 0) {
                    size_t mis = in.size() % o.half;
                    size_t pad = o.half - mis;
                    i64 fuzz = r.range(-3, 2);
                    if (static_cast<i64>(pad) + fuzz > 0 && pad < o.max_len) {
                        size_t n = static_cast<size_t>(static_cast<i64>(pad) + fuzz);
                        if (r.chance(0.5)) {
                            in += s.word(r, n);
                        } else {
                            in += string(n, s.delim(r));
                        }
                    }
                }
                break;
            default:
                break;
        }
        if (r.chance(0.85)) {
            in += s.delim(r);
        }
        if (p_long > 0 && r.chance(p_long)) {
            size_t n = static_cast<size_t>(r.range(1, 5)) * o.half + r.below(5);
            if (in.size() + n < 3 * o.max_len) {
                if (r.chance(0.5)) {
                    in += s.word(r, n);
                } else {
                    while (n > 4) {
                        string v = s.var(r);
                        v += s.delim(r);
                        in += v;
                        n = n > v.size() ? n - v.size() : 0;
                    }
                }
            }
            continue;
        }
        if (r.chance(p_var)) {
            string v = s.var(r);
            if (r.chance(p_near) && !v.empty()) {
                switch (r.below(3)) {
                    case 0:
                        v.pop_back();
                        break;
                    case 1:
                        v += s.word(r, 1);
                        break;
                    default:
                        v = s.word(r, 1) + v;
                }
            }
            in += v;
        } else {
            in += s.word(r, static_cast<size_t>(r.skewed(12)));
        }
    }
    if (r.chance(0.4)) {
        in += "\n";
    }
    for (char& c : in) {
        if (static_cast<u8>(c) >= 0xFD) {
            c = 'z';
        }
    }
    return in;
}

vector<Delivery> gen_sched(Rng& r, size_t len, size_t half) {
    vector<Delivery> v;
    int style = static_cast<int>(r.below(7));
    size_t left = len + 1;
    u32 fixed = static_cast<u32>(1 + r.below(std::max<size_t>(1, std::min<size_t>(half, 64))));
    size_t cap = 400;
    while (left > 0 && v.size() < cap) {
        u32 n = 0;
        switch (style) {
            case 0:
                return v;  // everything that is asked for
            case 1:
                n = 1;
                break;
            case 2:
                n = fixed;
                break;
            case 3:
                n = static_cast<u32>(1 + r.below(half + 1));
                break;
            case 4:
                n = static_cast<u32>(std::max<i64>(1, static_cast<i64>(half) + r.range(-2, 2)));
                break;
            case 5:
                n = r.chance(0.8) ? static_cast<u32>(half * 4) : static_cast<u32>(1 + r.below(half));
                break;
            default:
                n = static_cast<u32>(1 + r.skewed(static_cast<i64>(half) * 2));
        }
        v.push_back({'d', n, 0});
        left = n >= left ? 0 : left - n;
    }
    return v;
}

void add_errors(Rng& r, vector<Delivery>& s, int max_errors) {
    static u32 const codes[]{1, 2, 3, 4, 6, 7, 8};
    int n = static_cast<int>(r.range(1, max_errors));
    if (s.empty()) {
        s.push_back({'d', 1u << 30, 0});
    }
    for (int i = 0; i < n; i++) {
        Delivery d{'e', codes[r.below(7)], static_cast<u32>(r.below(4))};
        size_t at = r.below(s.size() + 1);
        int burst = r.chance(0.15) ? static_cast<int>(r.range(2, 4)) : 1;
        for (int k = 0; k < burst; k++) {
            s.insert(s.begin() + static_cast<long>(at), d);
        }
    }
}

Stream gen_stream(Rng& r, Sampler& s, InputOpts const& o) {
    Stream st;
    st.data = gen_input(r, s, o);
    st.sched = gen_sched(r, st.data.size(), o.half);
    st.eof_form = r.chance(0.3) ? 1 : 0;
    st.dirty = r.chance(0.5) ? r.next() % 1000000 + 1 : 0;
    return st;
}

u32 gen_static_size(Rng& r) {
    switch (r.below(5)) {
        case 0:
            return static_cast<u32>(2 * r.range(1, 8));
        case 1:
            return static_cast<u32>(2 * r.range(4, 32));
        case 2:
            return static_cast<u32>(2 * r.range(16, 128));
        case 3:
            return static_cast<u32>(2 * r.range(64, 512));
        default:
            return static_cast<u32>(2 * r.range(1, 256));
    }
}
}  // namespace sim
