// The reference model: written from the documentation (docs/schema.md, docs/parsing-constraints.md),
// sharing no code with the library.
#ifndef SIM_MODEL_HPP
#define SIM_MODEL_HPP

#include <bitset>
#include <map>

#include "core.hpp"

namespace sim {
// A pattern compiled to a lazily determinised automaton
class Matcher {
public:
    // `delims`: '.' matches everything else. Throws std::runtime_error on a bad pattern.
    // The pattern of a timestamp may match delimiters; there '.' is not used.
    Matcher(string const& pattern, std::bitset<256> const& delims);

    // state handling; -1 is dead
    int start() const { return 0; }
    int step(int state, u8 byte);
    bool accepting(int state) const { return m_dfa_accept[state]; }
    bool matches(char const* p, size_t n);
    bool nullable() const { return m_dfa_accept[0]; }
    // whether some string of the language contains the byte
    bool uses(u8 byte) const;

private:
    struct NState {
        vector<int> eps;
        vector<std::pair<int, int>> edges;  // (set index, target)
    };
    struct Frag {
        int s, e;
    };
    struct Node;
    int new_state();
    Frag build(Node const& n);
    int intern(vector<int> set);
    vector<NState> m_n;
    vector<std::bitset<256>> m_sets;
    vector<vector<int>> m_dfa_sets;
    vector<std::array<int, 256>> m_dfa_next;  // -2 unknown
    vector<char> m_dfa_accept;
    std::map<vector<int>, int> m_dfa_ids;
    int m_final{0};
};

struct MVar {
    string text;           // with leading delimiter, if there is one
    vector<string> types;  // names in schema order, without repetition
    size_t pos{0};         // position of the run in the input
};

// Canonical event. Static text and delimiters are merged, so that different but equivalent
// tokenisations of static text compare equal.
struct MEvent {
    string text;
    bool has_ts{false};
    string ts;
    bool multiline{false};
    string logtype;  // "<newLine>" replaced by a newline
    vector<MVar> vars;
};

class Model {
public:
    explicit Model(Schema const& s);
    vector<MEvent> parse(string const& in);
    // events that start at these offsets
    vector<size_t> m_starts;
    bool is_delim(char c) const { return m_delims[static_cast<u8>(c)]; }
    // rules matched by a run
    vector<string> types_of(char const* p, size_t n);
    // longest timestamp match at p that ends at a delimiter or at the end; 0: none
    size_t ts_at(string const& in, size_t p);
    std::bitset<256> m_delims;
    // probes
    u64 m_failed_ts{0};
    u64 m_multi_type{0};

private:
    struct R {
        string name;
        std::unique_ptr<Matcher> m;
    };
    vector<R> m_vars;
    vector<R> m_ts;
};

string canon_newline(string s);
string describe(MEvent const& e);
// empty when equal
string diff(vector<MEvent> const& want, vector<MEvent> const& got, char const* want_name, char const* got_name);
}  // namespace sim
#endif
