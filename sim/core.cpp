#include "core.hpp"

#include <sys/mman.h>
#include <unistd.h>

#include <cstdarg>
#include <cstdio>
#include <sstream>

namespace sim {
u64 mix(u64 a, u64 b) {
    u64 x = a ^ (b + 0x9E3779B97F4A7C15ULL + (a << 6) + (a >> 2));
    x ^= x >> 30;
    x *= 0xBF58476D1CE4E5B9ULL;
    x ^= x >> 27;
    x *= 0x94D049BB133111EBULL;
    x ^= x >> 31;
    return x;
}

void Rng::reseed(u64 seed) {
    m_s[0] = mix(seed, 1);
    m_s[1] = mix(seed, 2);
    if (m_s[0] == 0 && m_s[1] == 0) {
        m_s[0] = 1;
    }
}

u64 Rng::next() {
    u64 s1 = m_s[0];
    u64 const s0 = m_s[1];
    u64 const result = s0 + s1;
    m_s[0] = s0;
    s1 ^= s1 << 23;
    m_s[1] = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5);
    return mix(result, 0);
}

i64 Rng::skewed(i64 max) {
    if (max <= 0) {
        return 0;
    }
    switch (below(4)) {
        case 0:
            return range(0, std::min<i64>(max, 3));
        case 1:
            return range(0, std::min<i64>(max, 16));
        case 2:
            return range(0, std::min<i64>(max, 100));
        default:
            return range(0, max);
    }
}

string esc(string const& s) {
    string o = "\"";
    char b[8];
    for (unsigned char ch : s) {
        switch (ch) {
            case '"':
                o += "\\\"";
                break;
            case '\\':
                o += "\\\\";
                break;
            case '\n':
                o += "\\n";
                break;
            case '\r':
                o += "\\r";
                break;
            case '\t':
                o += "\\t";
                break;
            default:
                if (ch < 32 || ch >= 127) {
                    snprintf(b, sizeof b, "\\x%02x", ch);
                    o += b;
                } else {
                    o += static_cast<char>(ch);
                }
        }
    }
    return o + "\"";
}

static bool parse_str(char const*& p, string& out) {
    while (*p == ' ') {
        p++;
    }
    if (*p != '"') {
        return false;
    }
    p++;
    out.clear();
    while (*p && *p != '"') {
        if (*p == '\\') {
            p++;
            switch (*p) {
                case 'n':
                    out += '\n';
                    break;
                case 'r':
                    out += '\r';
                    break;
                case 't':
                    out += '\t';
                    break;
                case 'x': {
                    unsigned v = 0;
                    if (sscanf(p + 1, "%2x", &v) != 1) {
                        return false;
                    }
                    out += static_cast<char>(v);
                    p += 2;
                    break;
                }
                default:
                    out += *p;
            }
            p++;
        } else {
            out += *p++;
        }
    }
    if (*p != '"') {
        return false;
    }
    p++;
    return true;
}

string unesc(string const& s) {
    string o;
    char const* p = s.c_str();
    parse_str(p, o);
    return o;
}

string to_text(Case const& c) {
    std::ostringstream o;
    o << "simcase 1\n";
    o << "prop " << c.prop << "\n";
    o << "variant " << c.variant << "\n";
    o << "origin " << c.seed << " " << c.index << "\n";
    for (auto const& [k, v] : c.knobs) {
        o << "knob " << k << " " << v << "\n";
    }
    for (auto const& s : c.schemas) {
        o << "schema " << esc(s.delims) << " " << s.delims_at << " " << (s.has_delims ? 1 : 0)
          << "\n";
        for (auto const& r : s.rules) {
            o << "rule " << r.name << " " << esc(r.pattern) << "\n";
        }
    }
    for (auto const& s : c.streams) {
        o << "stream " << s.eof_form << " " << s.dirty << "\n";
        // long data in several lines
        for (size_t i = 0; i < s.data.size(); i += 200) {
            o << "data " << esc(s.data.substr(i, 200)) << "\n";
        }
        size_t i = 0;
        while (i < s.sched.size()) {
            o << "sched";
            for (int k = 0; k < 16 && i < s.sched.size(); k++, i++) {
                auto const& d = s.sched[i];
                o << " " << d.kind << d.n;
                if (d.arg) {
                    o << ":" << d.arg;
                }
            }
            o << "\n";
        }
    }
    for (auto const& op : c.ops) {
        o << "op " << op.kind;
        for (i64 v : op.a) {
            o << " " << v;
        }
        if (!op.s.empty()) {
            o << " " << esc(op.s);
        }
        o << "\n";
    }
    o << "end\n";
    return o.str();
}

bool from_text(string const& text, Case& c, string& err) {
    c = Case{};
    std::istringstream in(text);
    string line;
    bool ended = false;
    int ln = 0;
    while (std::getline(in, line)) {
        ln++;
        if (line.empty() || line[0] == '#') {
            continue;
        }
        if (line == "end") {
            ended = true;
            break;
        }
        size_t sp = line.find(' ');
        string key = line.substr(0, sp);
        string rest = sp == string::npos ? "" : line.substr(sp + 1);
        char const* p = rest.c_str();
        err = "line " + std::to_string(ln);
        if (key == "simcase") {
            continue;
        }
        if (key == "prop") {
            c.prop = rest;
        } else if (key == "variant") {
            c.variant = rest;
        } else if (key == "origin") {
            unsigned long long a = 0, b = 0;
            sscanf(p, "%llu %llu", &a, &b);
            c.seed = a;
            c.index = b;
        } else if (key == "knob") {
            char name[64];
            long long v = 0;
            if (sscanf(p, "%63s %lld", name, &v) != 2) {
                return false;
            }
            c.knobs[name] = v;
        } else if (key == "schema") {
            Schema s;
            if (!parse_str(p, s.delims)) {
                return false;
            }
            int h = 1;
            sscanf(p, "%d %d", &s.delims_at, &h);
            s.has_delims = h != 0;
            c.schemas.push_back(s);
        } else if (key == "rule") {
            size_t q = rest.find(' ');
            if (q == string::npos || c.schemas.empty()) {
                return false;
            }
            Rule r;
            r.name = rest.substr(0, q);
            p = rest.c_str() + q;
            if (!parse_str(p, r.pattern)) {
                return false;
            }
            c.schemas.back().rules.push_back(r);
        } else if (key == "stream") {
            Stream s;
            unsigned e = 0;
            unsigned long long d = 0;
            sscanf(p, "%u %llu", &e, &d);
            s.eof_form = e;
            s.dirty = d;
            c.streams.push_back(s);
        } else if (key == "data") {
            string v;
            if (c.streams.empty() || !parse_str(p, v)) {
                return false;
            }
            c.streams.back().data += v;
        } else if (key == "sched") {
            if (c.streams.empty()) {
                return false;
            }
            std::istringstream t(rest);
            string w;
            while (t >> w) {
                Delivery d;
                d.kind = w[0];
                unsigned n = 0, a = 0;
                sscanf(w.c_str() + 1, "%u:%u", &n, &a);
                d.n = n;
                d.arg = a;
                c.streams.back().sched.push_back(d);
            }
        } else if (key == "op") {
            Op op;
            size_t q = rest.find(' ');
            op.kind = rest.substr(0, q);
            if (q != string::npos) {
                p = rest.c_str() + q;
                while (true) {
                    while (*p == ' ') {
                        p++;
                    }
                    if (!*p) {
                        break;
                    }
                    if (*p == '"') {
                        if (!parse_str(p, op.s)) {
                            return false;
                        }
                        break;
                    }
                    char* e = nullptr;
                    long long v = strtoll(p, &e, 10);
                    if (e == p) {
                        return false;
                    }
                    op.a.push_back(v);
                    p = e;
                }
            }
            c.ops.push_back(op);
        } else {
            err += ": unknown key " + key;
            return false;
        }
    }
    if (!ended) {
        err = "no end line";
        return false;
    }
    err.clear();
    return true;
}

string delims_line(string const& delims) {
    string o = "delimiters:";
    for (char ch : delims) {
        switch (ch) {
            case '\n':
                o += "\\n";
                break;
            case '\r':
                o += "\\r";
                break;
            case '\t':
                o += "\\t";
                break;
            case '\v':
                o += "\\v";
                break;
            case '\f':
                o += "\\f";
                break;
            default:
                if (strchr("()*+-.[]\\^{}|<>?", ch) && ch) {
                    o += '\\';
                }
                o += ch;
        }
    }
    return o;
}

string schema_text(Schema const& s) {
    string o;
    int i = 0;
    bool first = true;
    auto line = [&](string const& l) {
        if (!first) {
            o += "\n";
        }
        first = false;
        o += l;
    };
    for (auto const& r : s.rules) {
        if (s.has_delims && i == s.delims_at) {
            line(delims_line(s.delims));
        }
        line(r.name + ":" + r.pattern);
        i++;
    }
    if (s.has_delims && s.delims_at >= i) {
        line(delims_line(s.delims));
    }
    return o;
}

void Ctx::log(string const& s) {
    u64 h = m_hash;
    u64 w = 0;
    size_t i = 0;
    for (; i + 8 <= s.size(); i += 8) {
        memcpy(&w, s.data() + i, 8);
        h = (h ^ w) * 0x9FB21C651E98DF25ULL;
        h ^= h >> 32;
    }
    w = s.size();
    for (; i < s.size(); i++) {
        w = (w << 8) | static_cast<u8>(s[i]);
    }
    m_hash = mix(h, w);
}

void Ctx::phase(char const* p) {
    strncpy(m_sh->phase, p, sizeof(m_sh->phase) - 1);
}

void Ctx::fail(string const& klass, string const& detail) {
    throw Violation{klass, detail};
}

void Ctx::tracef(char const* fmt, ...) {
    if (!trace) {
        return;
    }
    va_list ap;
    va_start(ap, fmt);
    vfprintf(stdout, fmt, ap);
    va_end(ap);
    fputc('\n', stdout);
}

static vector<string>& names() {
    static vector<string> v;
    return v;
}
static std::map<string, int>& ids() {
    static std::map<string, int> m;
    return m;
}
// Counter names are stored in a region shared by all forked processes, see main.cpp
struct NameTable {
    volatile u32 n;
    char name[cMaxCounters][48];
};
NameTable* g_name_table = nullptr;
void init_shared_names() {
    void* p = mmap(nullptr, sizeof(NameTable), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS,
                   -1, 0);
    if (p == MAP_FAILED) {
        perror("simcheck: mmap");
        _exit(70);
    }
    g_name_table = static_cast<NameTable*>(p);
}
vector<string> counter_names() {
    if (g_name_table == nullptr) {
        return names();
    }
    vector<string> v;
    for (u32 i = 0; i < g_name_table->n; i++) {
        v.emplace_back(g_name_table->name[i]);
    }
    return v;
}
int counter_id(string const& name) {
    auto it = ids().find(name);
    if (it != ids().end()) {
        return it->second;
    }
    // look in the shared table (only one run at a time uses it)
    NameTable* t = g_name_table;
    if (t == nullptr) {
        int id = static_cast<int>(names().size());
        names().push_back(name);
        ids()[name] = id;
        return id;
    }
    for (u32 i = 0; i < t->n; i++) {
        if (name == t->name[i]) {
            ids()[name] = static_cast<int>(i);
            return static_cast<int>(i);
        }
    }
    if (t->n >= cMaxCounters) {
        return cMaxCounters - 1;
    }
    u32 id = t->n;
    strncpy(t->name[id], name.c_str(), 47);
    t->n = id + 1;
    ids()[name] = static_cast<int>(id);
    return static_cast<int>(id);
}

void Ctx::count(string const& name, u64 n) {
    if (!quiet) {
        m_sh->counters[counter_id(name)] += n;
    }
}

string show(string const& s, size_t max) {
    if (s.size() <= max) {
        return esc(s);
    }
    return esc(s.substr(0, max / 2)) + "..." + esc(s.substr(s.size() - max / 2)) + "("
           + std::to_string(s.size()) + " bytes)";
}
}  // namespace sim
