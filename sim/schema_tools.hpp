// Loading schemas and describing what came of it.
#ifndef SIM_SCHEMA_TOOLS_HPP
#define SIM_SCHEMA_TOOLS_HPP

#include "props.hpp"

namespace sim {
inline string own(string const& s) {
    return string(s.data(), s.size());
}

// Everything a caller can see of a loaded schema
string dump(ls::SchemaAST const& ast);
string dump_or_null(std::unique_ptr<ls::SchemaAST>& ast);

template <class F>
string attempt(F&& f) {
    try {
        return "OK\n" + f();
    } catch (Violation const&) {
        throw;
    } catch (std::bad_alloc const&) {
        return "BAD_ALLOC";
    } catch (std::exception const& e) {
        return "ERR " + own(e.what());
    }
}

string load_string(string const& text);

// Runs f in a child that has seen nothing of what this process does
string pristine(std::function<string()> const& f);
}  // namespace sim
#endif
