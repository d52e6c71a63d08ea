#ifndef SIM_PROPS_HPP
#define SIM_PROPS_HPP

#include "gen.hpp"
#include "lib.hpp"

namespace sim {
struct World {
    std::unique_ptr<Model> model;
    vector<std::unique_ptr<ls::ReaderParser>> rp;
    vector<std::unique_ptr<ls::BufferParser>> bp;
    std::map<string, u64> nums;
    vector<string> texts;
    std::map<string, vector<u32>> sites;  // allocation places of an operation
    std::shared_ptr<void> extra;
};

struct Prop {
    string id;
    int episodes{40};  // per schema
    // the schema and everything prepare() needs
    std::function<Case(Rng&)> gen_base;
    // the rest
    std::function<void(Rng&, Case&)> gen_episode;
    std::function<void(World&, Case const&)> prepare;
    std::function<void(World&, Case const&, Ctx&)> exec;
    // knobs the minimiser may try to set, in order of preference
    std::map<string, vector<i64>> shrink_knobs;
    bool shrink_streams{false};
    bool shrink_rules{true};
    // whether a case still means what its parts say: the minimiser keeps to those
    std::function<bool(Case const&)> plausible;
};

vector<Prop>& registry();
Prop const* find_prop(string const& id);
void register_parse();
void register_event();
void register_schema();
void register_env();
void register_misc();
void register_query();

// shared by several properties
Case base_case(Rng& r, string const& prop, SchemaOpts const& so, double p_shipped);
InputOpts input_opts(Case const& c);
Sizes sizes(Case const& c);
Stream stream_for(Rng& r, Case const& c, Sampler& s);
}  // namespace sim
#endif
