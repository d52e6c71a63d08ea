// Random schemas, inputs, delivery schedules.
#ifndef SIM_GEN_HPP
#define SIM_GEN_HPP

#include "core.hpp"
#include "model.hpp"

namespace sim {
struct SchemaOpts {
    int min_vars{0};
    int max_vars{6};
    double p_ts{0.75};
    bool captures{true};
    bool overlapping{true};
};
Schema gen_schema(Rng& r, SchemaOpts const& o);
// A pattern outside of any schema: '.' matches everything
string gen_pattern(Rng& r, bool captures);
string escape_literal(string const& s);
// whether the automaton of all the rules together has more than `cap` states
bool too_large(vector<Rule> const& rules, std::bitset<256> const& delims, size_t cap);

// Strings drawn from the patterns of a schema
class Sampler {
public:
    explicit Sampler(Schema const& s);
    string var(Rng& r);
    string ts(Rng& r);
    bool has_var() const { return !m_vars.empty(); }
    bool has_ts() const { return !m_ts.empty(); }
    string word(Rng& r, size_t n);
    char delim(Rng& r);
    Schema const& schema() const { return m_s; }

private:
    string sample(Rng& r, Matcher& m);
    Schema m_s;
    std::bitset<256> m_d;
    vector<std::unique_ptr<Matcher>> m_vars;
    vector<std::unique_ptr<Matcher>> m_ts;
    string m_wordset;
    string m_soft;  // delimiters other than the newline
};

struct InputOpts {
    size_t max_len{600};
    size_t half{32};      // half of the parser's buffer: lengths near multiples of it are favoured
    bool huge_events{true};
};
string gen_input(Rng& r, Sampler& s, InputOpts const& o);
vector<Delivery> gen_sched(Rng& r, size_t len, size_t half);
void add_errors(Rng& r, vector<Delivery>& s, int max_errors);
Stream gen_stream(Rng& r, Sampler& s, InputOpts const& o);
u32 gen_static_size(Rng& r);
}  // namespace sim
#endif
