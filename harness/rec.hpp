// Building records with every field under harness control (through the library's own inner record layout).
#pragma once
#include "sym.h"
#include "ref.hpp"
#include <memory>
#include <vector>
#include <blackhole/attribute.hpp>
#include <blackhole/attributes.hpp>
#include <blackhole/extensions/writer.hpp>
#include <blackhole/formatter.hpp>
#include <blackhole/record.hpp>
#include "record.hpp"
using namespace blackhole; using attribute::view_t;
struct rec {
    string_view msg, fmtd; attribute_pack pack; int sev = 0; std::int64_t ts = 1500000000123456789ll; std::uint64_t lwp = 777, tid = 0x7f01;
    rec(const char* m, std::size_t n) : msg("pattern"), fmtd(m, n) {}
    record_t make() { record_t::inner_t in{msg, fmtd, severity_t(sev), record_t::time_point(record_t::time_point::duration(ts)), lwp, (std::thread::native_handle_type)tid, {0}, pack}; return record_t(in); }
};
struct shown { int x; const char* p = nullptr; std::size_t n = 0; };
namespace blackhole { inline namespace v1 { template<> struct display_traits<shown> { static void apply(const shown& s, writer_t& wr) { if (s.p) wr.inner << fmt::StringRef(s.p, s.n); else wr.write("<{}>", s.x); } }; } }
// renders with f into a fresh writer; threw reports a standard exception
static inline std::string fmt_with(formatter_t& f, rec& r, bool* threw = nullptr) { record_t rr = r.make(); writer_t w; if (threw) { *threw = false; try { f.format(rr, w); } catch (const std::exception&) { *threw = true; } } else f.format(rr, w); return str_v(w.result()); }
static inline int hexval(int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : -1; }
// s is exactly the canonical lowercase hexadecimal text of v
static inline bool is_hex(const char* s, std::size_t n, std::uint64_t v) {
    n = sym_concrete(n); if (!n || n > 16) return false; if (n < 16 && sym_concrete((v >> (4 * n)) != 0)) return false; if (n > 1 && sym_concrete((v >> (4 * (n - 1))) == 0)) return false;
    bool ok = true; for (std::size_t i = 0; i < n; i++) { unsigned d = (v >> (4 * (n - 1 - i))) & 15; ok &= s[i] == "0123456789abcdef"[d]; } return ok;
}
