// Driving the real library and recording what it returns.
#ifndef SIM_LIB_HPP
#define SIM_LIB_HPP

#include <log_surgeon/BufferParser.hpp>
#include <log_surgeon/FileReader.hpp>
#include <log_surgeon/LogEvent.hpp>
#include <log_surgeon/LogParser.hpp>
#include <log_surgeon/Reader.hpp>
#include <log_surgeon/ReaderParser.hpp>
#include <log_surgeon/Schema.hpp>

#include "core.hpp"
#include "model.hpp"
#include "world.hpp"

namespace sim {
namespace ls = log_surgeon;

struct TokRec {
    string text;
    vector<string> types;
    u32 line{0};  // only while g_capture_lines (a copied event has no line numbers)
    bool operator==(TokRec const&) const = default;
};

// Everything observable of an event
struct EvRec {
    string text;
    bool has_ts{false};
    string ts;
    bool multiline{false};
    bool has_delims{false};
    string logtype;
    vector<TokRec> toks;
    std::map<string, vector<string>> vars;  // by variable name: texts
    bool operator==(EvRec const&) const = default;
};

extern bool g_capture_lines;

string describe(EvRec const& e);
string diff(vector<EvRec> const& want, vector<EvRec> const& got, char const* wn, char const* gn);
MEvent canon(EvRec const& e);
vector<MEvent> canon(vector<EvRec> const& v);

// Reads all of an event through the public interface.
EvRec capture(ls::LogEventView const& v, ls::LogParser const& p);
// C20: the parts of a view against each other. Throws Violation.
void check_view(ls::LogEventView const& v, ls::LogParser const& p, Ctx& c);

// The simulated reader
class Source {
public:
    Source(Stream const& s, Ctx& c) : m_s(s), m_c(c) {}
    ls::ErrorCode operator()(char* dst, size_t n, size_t& got);
    // history
    size_t pos{0};
    size_t i{0};
    bool end_signalled{false};
    u64 calls{0};
    u64 errors{0};
    int last_error{0};
    u64 zero_requests{0};
    u64 reads_after_end{0};
    u64 short_reads{0};
    vector<std::pair<size_t, size_t>> requests;  // requested, delivered
    void (*yield)(){nullptr};

private:
    Stream const& m_s;
    Ctx& m_c;
};

ls::Reader reader_for(Source& s);

// A parser under test, built with a given size of its internal buffers
struct Sizes {
    u32 bytes{0};   // 0: shipped
    u32 tokens{0};
};
std::unique_ptr<ls::ReaderParser> make_reader_parser(Schema const& s, Sizes z);
std::unique_ptr<ls::BufferParser> make_buffer_parser(Schema const& s, Sizes z);
// Sizes of the static buffers of everything constructed while it lives
struct SizeGuard {
    explicit SizeGuard(Sizes z);
    ~SizeGuard();
};
std::unique_ptr<ls::SchemaAST> load_schema_string(string const& text);

struct Drain {
    vector<EvRec> ev;
    vector<int> errors;
    bool done{false};
    u64 calls{0};
};
struct DrainOpts {
    bool check_views{false};
    u64 max_calls{0};    // 0: derived from the input
    u64 max_events{~0ULL};
    bool keep_empty_last{false};
    bool capture{true};
};
// Calls the parser until it is done. Reader errors are recorded and retried.
Drain drain(ls::ReaderParser& p, Source& src, Stream const& s, Ctx& c, DrainOpts const& o = {});
void set_reader(ls::ReaderParser& p, Source& src);
ls::ErrorCode parse_next(ls::ReaderParser& p);
ls::ErrorCode parse_next(ls::BufferParser& p, char* buf, size_t size, size_t& off, bool fin);

// A buffer that ends at an inaccessible page (fast variant) or redzone (asan)
class EdgeBuf {
public:
    EdgeBuf(string const& content, size_t slack, u64 slack_seed);
    ~EdgeBuf();
    EdgeBuf(EdgeBuf const&) = delete;
    EdgeBuf& operator=(EdgeBuf const&) = delete;
    char* data() { return m_p; }
    size_t size() const { return m_n; }
    bool unchanged() const;

private:
    char* m_p{nullptr};
    size_t m_n{0};
    size_t m_slack{0};
    char* m_map{nullptr};
    size_t m_map_len{0};
    string m_copy;
};

void check_memory(Ctx& c);

// Runs f with no failure and, from a copy of the process taken at each of the given allocations, with
// a failure there. f is told by `child` whether an allocation has failed, and checks what it must.
void sweep_failures(Ctx& x, char const* what, vector<u64> points, bool burst,
                    std::function<void(bool const& child)> const& f);
}  // namespace sim
#endif
