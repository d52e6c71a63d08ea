// C18, C19: the file reader on a simulated disk, the capture registers
#include <errno.h>

#include <algorithm>
#include <optional>

#include <log_surgeon/finite_automata/PrefixTree.hpp>
#include <log_surgeon/finite_automata/RegisterHandler.hpp>

#include "schema_tools.hpp"

namespace sim {
using mem::Host;
using mem::Lib;

namespace {
// ---- C18
// a[0] of an op is the reader
//  "open r i errno"  "close r"  "read r n"  "null r"  "delim r ch keep append"  "nomem r"
//  "drop r"          destroys the reader and makes a new one
//  "drain r n"       reads on in pieces of n until the end
string file_path(size_t i) {
    return "/simdisk/file" + std::to_string(i);
}

void exec_c18(World&, Case const& c, Ctx& x) {
    struct R {
        std::unique_ptr<ls::FileReader> real;
        // model
        bool open{false};
        size_t file{0};
        size_t pos{0};
        std::string str;  // what try_read_to_delimiter appends to
    };
    vector<R> rs(2);
    {
        Lib l;
        ls::FileReader warm;
    }
    auto base = mem::stats();
    for (auto& r : rs) {
        Lib l;
        r.real = std::make_unique<ls::FileReader>();
    }
    u64 errors = 0;
    u64 bytes = 0;
    auto put = [&](size_t i, int open_errno) {
        disk::Plan plan;
        plan.content = c.streams[i].data;
        plan.sched = c.streams[i].sched;
        plan.open_errno = open_errno;
        disk::put(file_path(i), plan);
    };
    disk::clear();
    auto code_name = [](int e) {
        static char const* const n[]{"Success", "BufferOutOfBounds", "LogFullyConsumed", "BadParam",
                                     "Errno", "EndOfFile", "FileNotFound", "NotInit", "Truncated"};
        return e >= 0 && e < 9 ? string(n[e]) : std::to_string(e);
    };
    auto want_code = [&](char const* what, ls::ErrorCode got, ls::ErrorCode want, string const& why) {
        x.log(static_cast<u64>(static_cast<int>(got)));
        if (got != want) {
            x.fail("code", string(what) + " returned " + code_name(static_cast<int>(got))
                                   + " instead of " + code_name(static_cast<int>(want)) + ": "
                                   + why);
        }
    };
    auto read = [&](R& r, size_t n) -> ls::ErrorCode {
        EdgeBuf b(string(n, '\x5a'), 0, 0);
        size_t got = 0;
        u64 e0 = disk::stats().errors;
        ls::ErrorCode e{};
        {
            Lib l;
            e = r.real->read(b.data(), n, got);
        }
        bool fault = disk::stats().errors > e0;
        x.step();
        x.tracef("read %zu at %zu -> %s, %zu bytes%s", n, r.pos,
                 code_name(static_cast<int>(e)).c_str(), got, fault ? " (disk error)" : "");
        if (!r.open) {
            want_code("read", e, ls::ErrorCode::NotInit, "the reader is not open");
            return e;
        }
        auto const& d = c.streams[r.file].data;
        if (got > n || r.pos + got > d.size() || d.compare(r.pos, got, b.data(), got) != 0) {
            x.fail("data", "a read of " + std::to_string(n) + " at " + std::to_string(r.pos)
                                   + " gave " + show(string(b.data(), std::min(got, n))));
        }
        size_t left = d.size() - r.pos;
        r.pos += got;
        bytes += got;
        x.log(got);
        if (fault) {
            errors++;
            want_code("read", e, ls::ErrorCode::Errno,
                      "the disk failed after " + std::to_string(got) + " bytes");
            return e;
        }
        size_t most = std::min(n, left);
        if (got != most) {
            x.fail("short", "a read of " + std::to_string(n) + " with "
                                    + std::to_string(left) + " bytes left gave "
                                    + std::to_string(got) + " although the disk did not fail");
        }
        if (n > 0) {
            want_code("read", e, left == 0 ? ls::ErrorCode::EndOfFile : ls::ErrorCode::Success,
                      std::to_string(left) + " bytes were left");
        } else {
            want_code("read", e, ls::ErrorCode::Success, "nothing was asked for");
        }
        return e;
    };
    for (auto const& op : c.ops) {
        auto arg = [&](size_t i) { return i < op.a.size() ? op.a[i] : 0; };
        R& r = rs[static_cast<size_t>(arg(0)) % rs.size()];
        if (op.kind == "open") {
            size_t i = static_cast<size_t>(arg(1)) % (c.streams.size() + 1);
            std::string path = file_path(i);
            bool there = i < c.streams.size();
            int err = there ? static_cast<int>(arg(2)) : ENOENT;
            if (there) {
                put(i, err);
            } else {
                disk::Plan plan;
                plan.open_errno = ENOENT;
                disk::put(path, plan);
            }
            ls::ErrorCode e{};
            {
                Lib l;
                e = r.real->try_open(path);
            }
            x.step();
            x.tracef("open %s -> %s", path.c_str(), code_name(static_cast<int>(e)).c_str());
            r.open = err == 0;
            r.file = i;
            r.pos = 0;
            want_code("try_open", e,
                      err == 0        ? ls::ErrorCode::Success
                      : err == ENOENT ? ls::ErrorCode::FileNotFound
                                      : ls::ErrorCode::Errno,
                      "errno " + std::to_string(err));
            if (err != 0) {
                x.count("fault.disk_open_error");
            }
        } else if (op.kind == "close") {
            x.tracef("close");
            Lib l;
            r.real->close();
            r.open = false;
        } else if (op.kind == "read") {
            read(r, static_cast<size_t>(arg(1)));
        } else if (op.kind == "drain") {
            size_t n = static_cast<size_t>(std::max<i64>(1, arg(1)));
            size_t guard = (r.open ? c.streams[r.file].data.size() / n
                                             + c.streams[r.file].sched.size()
                                   : 0)
                           + 3;
            for (size_t k = 0;; k++) {
                if (k > guard) {
                    x.fail("no-end", "the end of the file is never reported");
                }
                auto e = read(r, n);
                if (e != ls::ErrorCode::Success && e != ls::ErrorCode::Errno) {
                    break;
                }
            }
        } else if (op.kind == "null") {
            size_t got = 77;
            ls::ErrorCode e{};
            {
                Lib l;
                e = r.real->read(nullptr, 5, got);
            }
            want_code("read", e, r.open ? ls::ErrorCode::BadParam : ls::ErrorCode::NotInit,
                      "there is no buffer");
        } else if (op.kind == "delim" || op.kind == "nomem") {
            bool nomem = op.kind == "nomem";
            char ch = static_cast<char>(arg(1));
            bool keep = arg(2) != 0;
            bool append = arg(3) != 0;
            string before = append ? own(r.str) : "";
            u64 e0 = disk::stats().errors;
            u64 g0 = disk::stats().getdelim_failures;
            if (nomem) {
                disk::fail_getdelim(0);
            }
            ls::ErrorCode e{};
            {
                Lib l;
                e = r.real->try_read_to_delimiter(ch, keep, append, r.str);
            }
            disk::fail_getdelim(~0ULL);
            bool fault = disk::stats().errors > e0;
            bool oom = disk::stats().getdelim_failures > g0;
            string got = own(r.str);
            x.step();
            x.tracef("to delimiter %s%s%s at %zu -> %s, %s%s", show(string(1, ch)).c_str(),
                     keep ? " keep" : "", append ? " append" : "", r.pos,
                     code_name(static_cast<int>(e)).c_str(), show(got).c_str(),
                     fault ? " (disk error)" : oom ? " (no memory)" : "");
            if (!r.open) {
                want_code("try_read_to_delimiter", e, ls::ErrorCode::NotInit,
                          "the reader is not open");
                continue;
            }
            auto const& d = c.streams[r.file].data;
            if (got.compare(0, before.size(), before) != 0 || got.size() < before.size()) {
                x.fail("data", "appending to " + show(before) + " gave " + show(got));
            }
            string part = got.substr(before.size());
            x.log(part);
            if (oom) {
                errors++;
                x.count("fault.getdelim_nomem");
                // at the end of the file there is nothing that memory is needed for
                if (e != ls::ErrorCode::EndOfFile || r.pos < d.size()) {
                    want_code("try_read_to_delimiter", e, ls::ErrorCode::Errno, "out of memory");
                }
                if (!part.empty()) {
                    x.fail("data", "data without reading: " + show(part));
                }
                continue;
            }
            if (fault) {
                errors++;
                if (d.compare(r.pos, part.size(), part) != 0) {
                    x.fail("data", "at " + std::to_string(r.pos) + " gave " + show(part));
                }
                r.pos += part.size();
                bytes += part.size();
                want_code("try_read_to_delimiter", e, ls::ErrorCode::Errno,
                          "the disk failed after " + std::to_string(part.size()) + " bytes");
                continue;
            }
            size_t left = d.size() - r.pos;
            size_t at = d.find(ch, r.pos);
            size_t end = at == string::npos ? d.size() : at + 1;
            size_t shown = at != string::npos && !keep ? end - 1 : end;
            if (part != d.substr(r.pos, shown - r.pos)) {
                x.fail("data", "at " + std::to_string(r.pos) + " up to " + show(string(1, ch))
                                       + " gave " + show(part) + " instead of "
                                       + show(d.substr(r.pos, shown - r.pos)));
            }
            bytes += end - r.pos;
            r.pos = end;
            want_code("try_read_to_delimiter", e,
                      left == 0 ? ls::ErrorCode::EndOfFile : ls::ErrorCode::Success,
                      std::to_string(left) + " bytes were left");
        } else if (op.kind == "drop") {
            x.tracef("drop");
            Lib l;
            r.real.reset();
            r.real = std::make_unique<ls::FileReader>();
            r.open = false;
        }
        u64 open_now = (rs[0].open ? 1 : 0) + (rs[1].open ? 1 : 0);
        if (disk::stats().open_now != open_now) {
            x.fail("handle", std::to_string(disk::stats().open_now) + " handles are open but "
                                     + std::to_string(open_now) + " readers are");
        }
    }
    auto st = disk::stats();
    x.count("fault.disk_read_error", st.errors);
    x.count("fault.disk_short_read", st.short_reads);
    for (auto& r : rs) {
        Lib l;
        r.real.reset();
        std::string().swap(r.str);
    }
    if (disk::stats().open_now != 0) {
        x.fail("handle", "a destroyed reader left its file open");
    }
    check_memory(x);
    auto s = mem::stats();
    if (s.live_blocks != base.live_blocks) {
        x.fail("leak", "memory is still allocated after the readers were destroyed");
    }
    if (bytes > 0 && (errors > 0 || st.short_reads > 0)) {
        x.nontrivial();
    }
}

void gen_c18(Rng& r, Case& c) {
    int nf = static_cast<int>(r.range(1, 3));
    for (int i = 0; i < nf; i++) {
        Stream s;
        // sizes around those of stdio's buffers too
        size_t len = r.chance(0.5)   ? static_cast<size_t>(r.skewed(300))
                     : r.chance(0.5) ? static_cast<size_t>(r.pick(vector<i64>{1024, 4096, 8192, 16384})
                                                           + r.range(-3, 3))
                                     : static_cast<size_t>(r.skewed(40000));
        int style = static_cast<int>(r.below(4));
        for (size_t k = 0; k < len; k++) {
            s.data += style == 0   ? static_cast<char>(r.below(256))
                      : style == 1 ? (r.chance(0.02) ? '\n' : 'x')
                      : style == 2 ? "\n\r,ab "[r.below(6)]
                                   : static_cast<char>('a' + k % 26);
        }
        if (r.chance(0.6)) {
            for (size_t k = 0; k < len && s.sched.size() < 300;) {
                u32 n = static_cast<u32>(1 + (r.chance(0.5) ? r.skewed(5000) : r.skewed(50)));
                s.sched.push_back({'d', n, 0});
                k += n;
            }
        }
        if (r.chance(0.65)) {
            static u32 const codes[]{EIO, EINTR, EAGAIN, ENOMEM, EISDIR, EBADF, ESTALE};
            int n = static_cast<int>(r.range(1, 5));
            for (int k = 0; k < n; k++) {
                size_t at = r.chance(0.3) ? 0 : r.below(s.sched.size() + 1);
                u32 code = codes[r.below(7)];
                int burst = r.chance(0.2) ? 3 : 1;
                for (int b = 0; b < burst; b++) {
                    s.sched.insert(s.sched.begin() + static_cast<long>(at), {'e', code, 0});
                }
            }
        }
        c.streams.push_back(s);
    }
    int n = static_cast<int>(r.range(3, 40));
    bool two = r.chance(0.3);
    auto who = [&]() -> i64 { return two ? r.range(0, 1) : 0; };
    auto open = [&](i64 w) {
        static i64 const codes[]{ENOENT, EACCES, EMFILE, EIO, ENOMEM, EINTR};
        c.ops.push_back({"open",
                         {w, r.chance(0.05) ? nf : r.range(0, nf - 1),
                          r.chance(0.12) ? codes[r.below(6)] : 0},
                         ""});
    };
    if (r.chance(0.9)) {
        open(0);
    }
    auto delim = [&]() -> i64 {
        return r.chance(0.6) ? '\n' : r.chance(0.5) ? "x,ar\0"[r.below(5)] : r.range(-128, 127);
    };
    for (int k = 0; k < n; k++) {
        i64 w = who();
        switch (r.below(12)) {
            case 0:
            case 1:
            case 2:
            case 3:
                c.ops.push_back({"read",
                                 {w, r.chance(0.3)   ? r.range(0, 4)
                                     : r.chance(0.8) ? r.skewed(9000)
                                                     : r.skewed(60000)},
                                 ""});
                break;
            case 4:
            case 5:
            case 6:
            case 7:
                c.ops.push_back({r.chance(0.06) ? "nomem" : "delim",
                                 {w, delim(), r.range(0, 1), r.chance(0.3) ? 1 : 0},
                                 ""});
                break;
            case 8:
                if (r.chance(0.5)) {
                    open(w);
                }
                break;
            case 9:
                if (r.chance(0.3)) {
                    c.ops.push_back({r.chance(0.5) ? "close" : "drop", {w}, ""});
                }
                break;
            case 10:
                c.ops.push_back({"null", {w}, ""});
                break;
            default:
                if (r.chance(0.4)) {
                    c.ops.push_back({"drain", {w, 1 + r.skewed(5000)}, ""});
                }
        }
    }
    if (r.chance(0.7)) {
        c.ops.push_back({"drain", {0, 1 + r.skewed(9000)}, ""});
    }
}

// ---- C19
// a[0] of an op is the handler (or tree)
//  "add h parent pos fail"  "setr h reg pos fail"  "copy h dst src fail"  "app h reg pos fail"
//  "get h reg fail"
//  "tins h parent pos fail"  "tset h node pos fail"  "tget h node fail"    on a prefix tree
//  "clone h"  the handler is copied, the copy takes part from now on
namespace fa = ls::finite_automata;

struct TreeModel {
    struct Node {
        i64 parent;
        int32_t pos;
    };
    vector<Node> nodes{{-1, -1}};
    vector<int32_t> path(size_t n) const {
        vector<int32_t> v;
        while (nodes[n].parent >= 0) {
            v.push_back(nodes[n].pos);
            n = static_cast<size_t>(nodes[n].parent);
        }
        return v;
    }
};
struct HandlerModel {
    TreeModel tree;
    vector<size_t> regs;
    // ids of nodes are known for sure below this one
    size_t certain{~size_t{0}};
};

string positions(vector<int32_t> const& v) {
    string o = "[";
    for (auto p : v) {
        o += std::to_string(p) + " ";
    }
    return o + "]";
}

void exec_c19(World&, Case const& c, Ctx& x) {
    auto base = mem::stats();
    struct H {
        std::unique_ptr<fa::RegisterHandler> real;
        HandlerModel m;
        std::unique_ptr<fa::PrefixTree> tree;
        TreeModel tm;
    };
    vector<H> hs(2);
    for (auto& h : hs) {
        Lib l;
        h.real = std::make_unique<fa::RegisterHandler>();
        h.tree = std::make_unique<fa::PrefixTree>();
    }
    u64 changed = 0;
    u64 refused = 0;
    // 0: done, 1: out_of_range, 2: bad_alloc
    auto call = [&](char const* what, i64 fail, std::function<void()> const& f) {
        int r = 0;
        string other;
        if (fail >= 0) {
            mem::plan_failures({static_cast<u64>(fail)});
        }
        try {
            Lib l;
            f();
        } catch (std::out_of_range const&) {
            r = 1;
        } catch (std::bad_alloc const&) {
            r = 2;
        } catch (std::exception const& e) {
            mem::no_failures();
            other = e.what();
            r = 3;
        }
        u64 k = fail >= 0 ? mem::failures_fired() : 0;
        mem::no_failures();
        x.step();
        x.log(static_cast<u64>(r));
        x.count("fault.alloc", k);
        if (r == 3) {
            x.fail("exception", string(what) + " threw " + other);
        }
        if (r == 2 && k == 0) {
            x.fail("exception", string(what) + " threw bad_alloc but no allocation failed");
        }
        // an exception's own text may be what could not be allocated
        if (r == 2) {
            x.count("probe.bad_alloc");
        }
        return r;
    };
    auto verify = [&](H& h, char const* after) {
        for (size_t i = 0; i < h.m.regs.size(); i++) {
            vector<int32_t> got;
            {
                Lib l;
                auto v = h.real->get_reversed_positions(i);
                Host host;
                got.assign(v.begin(), v.end());
            }
            auto want = h.m.tree.path(h.m.regs[i]);
            x.log(positions(got));
            if (got != want) {
                x.fail("positions", string("after ") + after + " register " + std::to_string(i)
                                            + " has " + positions(got) + " instead of "
                                            + positions(want));
            }
        }
        // there are no more registers than that
        int r = call("get_reversed_positions", -1,
                     [&] { (void)h.real->get_reversed_positions(h.m.regs.size()); });
        if (r != 1) {
            x.fail("range", string("after ") + after + " there is a register "
                                    + std::to_string(h.m.regs.size()));
        }
    };
    auto verify_tree = [&](H& h, char const* after) {
        if (h.tree->size() != h.tm.nodes.size()) {
            x.fail("size", string("after ") + after + " the tree has "
                                   + std::to_string(h.tree->size()) + " nodes instead of "
                                   + std::to_string(h.tm.nodes.size()));
        }
        size_t n = h.tm.nodes.size();
        for (size_t i = 0; i < n; i++) {
            if (n > 40 && i % 7 != 0 && i + 5 < n) {
                continue;
            }
            vector<int32_t> got;
            {
                Lib l;
                auto v = h.tree->get_reversed_positions(static_cast<u32>(i));
                Host host;
                got.assign(v.begin(), v.end());
            }
            if (got != h.tm.path(i)) {
                x.fail("positions", string("after ") + after + " node " + std::to_string(i)
                                            + " has " + positions(got) + " instead of "
                                            + positions(h.tm.path(i)));
            }
        }
    };
    auto require = [&](char const* what, int r, bool valid, string const& index) {
        if (valid && r == 1) {
            x.fail("range", string(what) + " refuses the valid index " + index);
        }
        if (!valid && r == 0) {
            x.fail("range", string(what) + " accepts the invalid index " + index);
        }
        if (!valid) {
            refused++;
            x.count("probe.invalid_index");
        }
    };
    for (auto const& op : c.ops) {
        auto arg = [&](size_t i, i64 d = 0) { return i < op.a.size() ? op.a[i] : d; };
        H& h = hs[static_cast<size_t>(arg(0)) % hs.size()];
        auto& m = h.m;
        x.tracef("%s %lld %lld %lld %lld", op.kind.c_str(), static_cast<long long>(arg(0)),
                 static_cast<long long>(arg(1)), static_cast<long long>(arg(2)),
                 static_cast<long long>(arg(3)));
        if (op.kind == "add") {
            auto parent = static_cast<u32>(arg(1));
            auto pos = static_cast<int32_t>(arg(2));
            size_t limit = std::min(m.certain, m.tree.nodes.size());
            if (parent >= limit && m.certain != ~size_t{0} && parent < 1u << 20) {
                continue;  // it is not known which node that is
            }
            bool valid = parent < m.tree.nodes.size();
            int r = call("add_register", arg(3, -1), [&] { h.real->add_register(parent, pos); });
            require("add_register", r, valid, std::to_string(parent));
            if (r == 0) {
                m.tree.nodes.push_back({static_cast<i64>(parent), pos});
                m.regs.push_back(m.tree.nodes.size() - 1);
                changed++;
            } else if (r == 2 && valid) {
                // the node may be there, nobody refers to it
                m.certain = std::min(m.certain, m.tree.nodes.size());
            }
            verify(h, "add_register");
        } else if (op.kind == "setr") {
            auto reg = static_cast<size_t>(arg(1));
            auto pos = static_cast<int32_t>(arg(2));
            int r = call("set_register", arg(3, -1), [&] { h.real->set_register(reg, pos); });
            require("set_register", r, reg < m.regs.size(), std::to_string(reg));
            if (r == 0) {
                m.tree.nodes[m.regs[reg]].pos = pos;
                changed++;
            }
            verify(h, "set_register");
        } else if (op.kind == "copy") {
            auto dst = static_cast<size_t>(arg(1));
            auto src = static_cast<size_t>(arg(2));
            int r = call("copy_register", arg(3, -1), [&] { h.real->copy_register(dst, src); });
            require("copy_register", r, dst < m.regs.size() && src < m.regs.size(),
                    std::to_string(dst) + "/" + std::to_string(src));
            if (r == 0) {
                m.regs[dst] = m.regs[src];
                changed++;
            }
            verify(h, "copy_register");
        } else if (op.kind == "app") {
            auto reg = static_cast<size_t>(arg(1));
            auto pos = static_cast<int32_t>(arg(2));
            int r = call("append_position", arg(3, -1), [&] { h.real->append_position(reg, pos); });
            bool valid = reg < m.regs.size();
            require("append_position", r, valid, std::to_string(reg));
            if (r == 0) {
                m.tree.nodes.push_back({static_cast<i64>(m.regs[reg]), pos});
                m.regs[reg] = m.tree.nodes.size() - 1;
                changed++;
            } else if (r == 2 && valid) {
                m.certain = std::min(m.certain, m.tree.nodes.size());
            }
            verify(h, "append_position");
        } else if (op.kind == "get") {
            auto reg = static_cast<size_t>(arg(1));
            vector<int32_t> got;
            int r = call("get_reversed_positions", arg(2, -1), [&] {
                auto v = h.real->get_reversed_positions(reg);
                Host host;
                got.assign(v.begin(), v.end());
            });
            require("get_reversed_positions", r, reg < m.regs.size(), std::to_string(reg));
            if (r == 0 && got != m.tree.path(m.regs[reg])) {
                x.fail("positions", "register " + std::to_string(reg) + " has " + positions(got)
                                            + " instead of "
                                            + positions(m.tree.path(m.regs[reg])));
            }
            verify(h, "get_reversed_positions");
        } else if (op.kind == "clone") {
            std::unique_ptr<fa::RegisterHandler> copy;
            call("copying", -1, [&] { copy = std::make_unique<fa::RegisterHandler>(*h.real); });
            H& other = hs[1 - static_cast<size_t>(arg(0)) % hs.size()];
            Lib l;
            other.real = std::move(copy);
            Host host;
            other.m = h.m;
        } else if (op.kind == "tins") {
            auto parent = static_cast<u32>(arg(1));
            auto pos = static_cast<int32_t>(arg(2));
            u32 id = 0;
            int r = call("insert", arg(3, -1), [&] { id = h.tree->insert(parent, pos); });
            require("insert", r, parent < h.tm.nodes.size(), std::to_string(parent));
            if (r == 0) {
                if (id != h.tm.nodes.size()) {
                    x.fail("id", "insert returned " + std::to_string(id) + " for node "
                                         + std::to_string(h.tm.nodes.size()));
                }
                h.tm.nodes.push_back({static_cast<i64>(parent), pos});
                changed++;
            }
            verify_tree(h, "insert");
        } else if (op.kind == "tset") {
            auto node = static_cast<u32>(arg(1));
            auto pos = static_cast<int32_t>(arg(2));
            int r = call("set", arg(3, -1), [&] { h.tree->set(node, pos); });
            require("set", r, node < h.tm.nodes.size(), std::to_string(node));
            if (r == 0) {
                h.tm.nodes[node].pos = pos;
            }
            verify_tree(h, "set");
        } else if (op.kind == "tget") {
            auto node = static_cast<u32>(arg(1));
            vector<int32_t> got;
            int r = call("get_reversed_positions", arg(2, -1), [&] {
                auto v = h.tree->get_reversed_positions(node);
                Host host;
                got.assign(v.begin(), v.end());
            });
            require("PrefixTree::get_reversed_positions", r, node < h.tm.nodes.size(),
                    std::to_string(node));
            if (r == 0 && got != h.tm.path(node)) {
                x.fail("positions", "node " + std::to_string(node) + " has " + positions(got)
                                            + " instead of " + positions(h.tm.path(node)));
            }
            verify_tree(h, "get_reversed_positions");
        }
        // the other one has nothing to do with it
        verify(hs[1 - static_cast<size_t>(arg(0)) % hs.size()], "an operation on another handler");
    }
    check_memory(x);
    for (auto& h : hs) {
        Lib l;
        h.real.reset();
        h.tree.reset();
    }
    check_memory(x);
    auto s = mem::stats();
    if (s.live_blocks != base.live_blocks) {
        x.fail("leak", "memory is still allocated after the handlers were destroyed");
    }
    if (changed > 2) {
        x.nontrivial();
    }
    if (refused > 0) {
        x.count("probe.runs_with_refusals");
    }
}

void gen_c19(Rng& r, Case& c) {
    int n = static_cast<int>(r.range(3, r.chance(0.2) ? 160 : 50));
    double p_fail = r.chance(0.6) ? 0.15 : 0.0;
    double p_bad = r.chance(0.7) ? 0.1 : 0.0;
    i64 regs[2]{0, 0};
    i64 nodes[2]{1, 1};
    i64 tnodes[2]{1, 1};
    bool two = r.chance(0.3);
    auto pos = [&]() -> i64 {
        switch (r.below(6)) {
            case 0:
                return -r.skewed(1000) - 1;
            case 1:
                return r.pick(vector<i64>{-1, 0, 2147483647, -2147483647 - 1});
            default:
                return r.skewed(5000);
        }
    };
    auto index = [&](i64 count) -> i64 {
        if (count == 0 || r.chance(p_bad)) {
            return r.pick(vector<i64>{count, count + 1, 4294967295LL, 1 << 20, count + r.skewed(100)});
        }
        return r.range(0, count - 1);
    };
    auto fail = [&]() -> i64 { return r.chance(p_fail) ? r.range(0, 2) : -1; };
    bool trees = r.chance(0.25);
    for (int k = 0; k < n; k++) {
        i64 h = two ? r.range(0, 1) : 0;
        if (trees) {
            switch (r.below(6)) {
                case 0:
                case 1:
                case 2:
                    c.ops.push_back({"tins", {h, index(tnodes[h]), pos(), fail()}, ""});
                    tnodes[h]++;
                    break;
                case 3:
                    c.ops.push_back({"tset", {h, index(tnodes[h]), pos(), fail()}, ""});
                    break;
                default:
                    c.ops.push_back({"tget", {h, index(tnodes[h]), fail()}, ""});
            }
            continue;
        }
        switch (r.below(14)) {
            case 0:
            case 1:
            case 2:
                c.ops.push_back({"add", {h, r.chance(0.5) ? 0 : index(nodes[h]), pos(), fail()}, ""});
                regs[h]++;
                nodes[h]++;
                break;
            case 3:
            case 4:
                c.ops.push_back({"setr", {h, index(regs[h]), pos(), fail()}, ""});
                break;
            case 5:
            case 6:
                c.ops.push_back({"copy", {h, index(regs[h]), index(regs[h]), fail()}, ""});
                break;
            case 7:
            case 8:
            case 9:
            case 10:
                c.ops.push_back({"app", {h, index(regs[h]), pos(), fail()}, ""});
                nodes[h]++;
                break;
            case 11:
                if (two && r.chance(0.2)) {
                    c.ops.push_back({"clone", {h}, ""});
                    regs[1 - h] = regs[h];
                    nodes[1 - h] = nodes[h];
                }
                break;
            default:
                c.ops.push_back({"get", {h, index(regs[h]), fail()}, ""});
        }
    }
}
}  // namespace

void register_misc() {
    auto& R = registry();
    {
        Prop p;
        p.id = "C18";
        p.episodes = 400;
        p.gen_base = [](Rng&) {
            Case c;
            c.prop = "C18";
            return c;
        };
        p.gen_episode = gen_c18;
        p.prepare = [](World&, Case const&) {};
        p.exec = exec_c18;
        R.push_back(p);
    }
    {
        Prop p;
        p.id = "C19";
        p.episodes = 400;
        p.gen_base = [](Rng&) {
            Case c;
            c.prop = "C19";
            return c;
        };
        p.gen_episode = gen_c19;
        p.prepare = [](World&, Case const&) {};
        p.exec = exec_c19;
        R.push_back(p);
    }
}
}  // namespace sim
