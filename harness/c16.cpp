#include "rec.hpp"
#include "cfg.hpp"
#include "vfs.hpp"
#include <limits>
#include <blackhole/registry.hpp>
#include <blackhole/severity.hpp>
#include <blackhole/sink.hpp>
#include <blackhole/sink/file.hpp>
#include "sink/file/flusher.hpp"
#include "sink/file/flusher/bytecount.hpp"
#include "sink/file/flusher/repeat.hpp"
using namespace sink::file; static const std::uint64_t MAX = ~0ull;
// repeat policy: any threshold, any record sizes; zero means never
HARNESS c16_repeat() {
    std::uint64_t n = sym_int("n", 64); flusher::repeat_factory_t f(n); auto p = f.create(); unsigned k = (unsigned)sym_param("records", 8); std::uint64_t pending = 0; bool flushed = false;
    for (unsigned i = 0; i < k; i++) { std::uint64_t b = sym_int("b", 64); sym_assume(b > 0); bool fl = sym_concrete(p->update(b) == flusher_t::flush); pending++; if (fl) { pending = 0; flushed = true; } CHECKM(n == 0 || pending < n, "flushed with the N-th record at the latest"); if (n == 0) CHECKM(!fl, "zero: left to the stream"); }
    sym_reach(flushed ? "flushed" : "idle");
}
HARNESS c16_repeat_long() {
    std::uint64_t n = sym_choice("n", (unsigned)sym_param("max", 60)) + 1; flusher::repeat_t p(n); std::uint64_t pending = 0; int fl = 0; for (unsigned i = 0; i < 3 * n + 2; i++) { pending++; if (p.update(1 + i) == flusher_t::flush) pending = 0, fl++; CHECKM(pending < n, "within N records"); } CHECKM(fl >= 3, "flushed each time"); sym_reach("done");
}
// byte policy: any threshold, any sequence of write sizes (memory cannot hold more than 2^63 bytes in one write)
static void bytes(std::uint64_t B) {
    flusher::bytecount_factory_t f(B); auto p = f.create(); unsigned k = (unsigned)sym_param("records", 3); unsigned __int128 pending = 0; bool flushed = false;
    for (unsigned i = 0; i < k; i++) { std::uint64_t b = sym_int("b", 63); sym_assume(b > 0); bool fl = sym_concrete(p->update(b) == flusher_t::flush); pending = fl ? 0 : pending + b; flushed |= fl; CHECKM(B == 0 || pending <= B, "no more than B bytes pending"); }
    sym_reach(flushed ? "flushed" : "idle");
}
HARNESS c16_bytes() { bytes(sym_int("B", (unsigned)sym_param("bits", 64))); }
HARNESS c16_bytes_huge() { static const std::uint64_t B[] = {MAX, MAX - 1, 1ull << 63, (1ull << 63) + 1, 10000000000000000000ull, 1ull << 62, 3ull << 62}; bytes(B[sym_choice("B", (unsigned)sym_param("set", 7))]); }
// the same with every quantity narrow, longer histories
HARNESS c16_bytes_small() {
    std::uint64_t B = sym_int("B", 4); sym_assume(B > 0); flusher::bytecount_t p(B); unsigned k = (unsigned)sym_param("records", 6); std::uint64_t pending = 0; for (unsigned i = 0; i < k; i++) { std::uint64_t b = sym_int("b", 4); bool fl = sym_concrete(p.update(b) == flusher_t::flush); pending = fl ? 0 : pending + b; CHECKM(pending <= B, "no more than B bytes pending"); } sym_reach("done");
}
static const char* P = "/v/app.log";
static void emit(sink_t& s, std::size_t n) { rec r("x", 1); record_t rr = r.make(); std::string m(n, 'q'); s.emit(rr, string_view(m.data(), m.size())); }
// through the sink, however it was configured: what the system has been given after each record
HARNESS c16_sink() {
    unsigned how = sym_choice("how", 5); std::uint64_t t = sym_choice("t", (unsigned)sym_param("max", 6)) + 1; std::unique_ptr<sink_t> s; bool bytes = how == 1 || how == 3 || how == 4; auto reg = [&](const std::string& flush) { auto c = cfg("{\"type\":\"file\",\"path\":\"/v/app.log\",\"flush\":" + flush + "}"); return registry::configured()->sink("file")(c->config()); };
    if (how == 0) s = builder<sink::file_t>(P).flush_every(std::size_t(t)).build(); else if (how == 1) s = builder<sink::file_t>(P).flush_every(bytes_t(t)).build(); else if (how == 2) s = reg(std::to_string(t)); else if (how == 3) s = reg("\"" + std::to_string(t) + "B\""); else s = reg("\"" + std::to_string(t) + "\"");
    unsigned k = (unsigned)sym_param("emits", 4); std::size_t total = 0, records = 0; for (unsigned i = 0; i < k; i++) { std::size_t n = sym_choice("len", 4); emit(*s, n); total += n + 1; records++; std::size_t have = vfs::at(P)->data.size(); std::size_t pend = total - have; CHECKM(have <= total, "nothing extra"); if (have == total) records = 0; if (bytes) CHECKM(pend <= t, "at most B bytes pending"); else CHECKM(records < t, "flushed with the N-th record at the latest"); }
    s.reset(); CHECKM(vfs::at(P)->data.size() == total, "flushed when destroyed"); sym_reach(bytes ? "bytes" : "records");
}
// builder units
HARNESS c16_units() {
    std::uint64_t x = sym_int("x", 32); CHECK(bytes_t(kilobytes_t(x)).count() == x * 1000ull); CHECK(bytes_t(megabytes_t(x)).count() == x * 1000000ull); CHECK(bytes_t(gigabytes_t(x)).count() == x * 1000000000ull); CHECK(bytes_t(kibibytes_t(x)).count() == x << 10); CHECK(bytes_t(mibibytes_t(x)).count() == x << 20); CHECK(bytes_t(gibibytes_t(x)).count() == x << 30); sym_reach("done");
}
HARNESS c16_sink_units() {
    unsigned u = sym_choice("u", 2); std::uint64_t t = u ? 1024 : 1000; builder<sink::file_t> b(P); if (u) b.flush_every(kibibytes_t(1)); else b.flush_every(kilobytes_t(1)); auto s = std::move(b).build(); std::size_t total = 0; unsigned k = (unsigned)sym_param("emits", 3); static const std::size_t N[] = {0, 498, 499, 500, 510, 511, 512, 998, 999, 1000, 1022, 1023, 1024}; for (unsigned i = 0; i < k; i++) { std::size_t n = N[sym_choice("n", 13)]; emit(*s, n); total += n + 1; CHECKM(total - vfs::at(P)->data.size() <= t, "at most one unit pending"); } sym_reach("done");
}
// ---- size literals
struct unit { const char* name; std::uint64_t mul; }; static const unit U[] = {{"", 1}, {"B", 1}, {"kB", 1000}, {"MB", 1000000}, {"GB", 1000000000}, {"KiB", 1 << 10}, {"MiB", 1 << 20}, {"GiB", 1 << 30}};
static bool parse(const block& s, std::uint64_t& v) { try { v = flusher::parse_dunit(s.str()); return true; } catch (const std::exception&) { return false; } }
// every string up to the bound: accepted exactly when it is digits followed by a known unit
HARNESS c16_literals() {
    block s("s", sym_choice("len", (unsigned)sym_param("max", 5) + 1)); std::size_t d = 0; while (d < s.n && sym_concrete(s.p[d] >= '0' && s.p[d] <= '9')) d++; const unit* u = nullptr; for (auto& c : U) if (strlen(c.name) == s.n - d && sym_concrete(same_v(std::string(s.p + d, s.n - d), c.name))) { u = &c; break; }
    std::uint64_t v = 0; bool ok = parse(s, v); CHECKM(ok == (u && d > 0), "accepted exactly when well-formed"); if (ok) { std::uint64_t n = 0; for (std::size_t i = 0; i < d; i++) n = n * 10 + (unsigned)(s.p[i] - '0'); CHECKM(v == n * u->mul, "number times unit"); sym_reach("accepted"); } else sym_reach("rejected");
}
// well-formed literals with up to two arbitrary bytes inserted somewhere, or one replaced or removed
static void literal(const block& s) {
    std::size_t d = 0; while (d < s.n && sym_concrete(s.p[d] >= '0' && s.p[d] <= '9')) d++; const unit* u = nullptr; for (auto& c : U) if (strlen(c.name) == s.n - d && sym_concrete(same_v(std::string(s.p + d, s.n - d), c.name))) { u = &c; break; }
    std::uint64_t v = 0; bool ok = parse(s, v); CHECKM(ok == (u && d > 0), "accepted exactly when well-formed"); if (ok) { std::uint64_t n = 0; for (std::size_t i = 0; i < d; i++) n = n * 10 + (unsigned)(s.p[i] - '0'); CHECKM(v == n * u->mul, "number times unit"); sym_reach("accepted"); } else sym_reach("rejected"); }
HARNESS c16_mutated() {
    static const char* B[] = {"12", "7B", "10kB", "3MB", "2GB", "45KiB", "6MiB", "8GiB"}; std::string t = B[sym_choice("base", 8)]; std::size_t at = sym_choice("at", (unsigned)t.size() + 1); unsigned how = sym_choice("how", 2 + (unsigned)sym_param("insert", 2));
    if (how == 0) { if (at == t.size()) return; t.erase(at, 1); block s(t); literal(s); return; } if (how == 1) { if (at == t.size()) return; block s(t); sym_bytes(s.p + at, 1, "c"); literal(s); return; } block s(t.substr(0, at) + std::string(how - 1, '?') + t.substr(at)); sym_bytes(s.p + at, how - 1, "c"); literal(s); }
// long numbers: exact or rejected as not representable
HARNESS c16_magnitude() {
    unsigned ui = (unsigned)sym_param("u", 0), len = (unsigned)sym_param("digits", 20), k = (unsigned)sym_param("sym", 4); const unit& u = U[ui]; std::string maxs = std::to_string(MAX / u.mul); bool lead = sym_bool("lead"); std::string t = len >= maxs.size() ? std::string(len - maxs.size(), '0') + maxs : std::string(len, '9'); block s(t + u.name);
    for (unsigned i = 0; i < k; i++) { std::size_t at = lead ? len - maxs.size() + i : len - k + i; if (len < maxs.size()) at = lead ? i : len - k + i; unsigned x = sym_int("d", 4); sym_assume(x < 10); s.p[at] = (char)('0' + x); }
    unsigned __int128 n = 0; for (unsigned i = 0; i < len; i++) n = n * 10 + (unsigned)(s.p[i] - '0'); bool fits = sym_concrete(n <= MAX / u.mul); std::uint64_t v = 0; bool ok = parse(s, v); CHECKM(ok == fits, "accepted exactly when representable"); if (ok) { CHECKM(v == (std::uint64_t)n * u.mul, "number times unit"); sym_reach("fits"); } else sym_reach("too large");
}
// configuration: anything but a non-negative integer or a well-formed size is an error
HARNESS c16_config() {
    static const char* V[] = {"\"10MB\"", "7", "\"\"", "\"MB\"", "\"10mb\"", "\" 10MB\"", "\"10 MB\"", "\"-1\"", "\"1.5MB\"", "\"99999999999999999999\"", "\"18446744073709551615kB\"", "-1", "1.5", "true", "null", "[]", "{}"}; unsigned i = sym_choice("i", 17); bool threw = false; try { auto c = cfg(std::string("{\"type\":\"file\",\"path\":\"/v/app.log\",\"flush\":") + V[i] + "}"); auto s = registry::configured()->sink("file")(c->config()); } catch (const std::exception&) { threw = true; }
    CHECKM(threw == (i > 1), "ill-formed sizes raise an error"); sym_reach(threw ? "error" : "ok");
}
