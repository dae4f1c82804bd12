#include "rec.hpp"
#include <cstring>
#include <limits>
#include <stdexcept>
#include <blackhole/extensions/format.hpp>
#include <blackhole/extensions/metaformat.hpp>
namespace d = blackhole::detail;
static std::string text(fmt::MemoryWriter& w) { return std::string(w.data(), w.size()); }
template<class... A> static bool rt(const std::string& pat, std::string& out, const A&... a) { fmt::MemoryWriter w; try { w.write(pat, a...); } catch (const fmt::FormatError&) { return false; } out = text(w); return true; }
template<std::size_t N, class... A> static bool ct(const string_view& pat, std::string& out, const A&... a) { fmt::MemoryWriter w; try { const d::formatter<N> f(pat); f.format(w, a...); } catch (const fmt::FormatError&) { return false; } out = text(w); return true; }
template<std::size_t N, class... A> static void both(const string_view& pat, const A&... a) {
    std::string x, y; std::string p(pat.data(), pat.size()); bool c = ct<N>(pat, x, a...), r = rt(p, y, a...); CHECKM(r, "the runtime formatter accepts the pattern as well"); CHECKM(c, "formatted"); CHECKM(same(x, y), "the text of the runtime formatter"); observe("text", x);
}
template<std::size_t N, class A, class B> static void arity(unsigned k, const string_view& p, const A& a, const B& b) { if (k == 0) both<N>(p); else if (k == 1) both<N>(p, a); else if (k == 2) both<N>(p, a, b); else both<N>(p, a, b, a); }
template<class A, class B> static void dispatch(std::size_t n, unsigned k, const string_view& p, const A& a, const B& b) { switch (n) { case 1: arity<1>(k, p, a, b); break; case 2: arity<2>(k, p, a, b); break; case 3: arity<3>(k, p, a, b); break; case 4: arity<4>(k, p, a, b); break; case 5: arity<5>(k, p, a, b); break; default: sym_unsupported("literals"); } }
// every pattern of the given length: parsed by the compile-time functions, executed here
HARNESS c26_patterns() {
    block p("p", sym_choice("len", (unsigned)sym_param("len", 5) + 1)); for (std::size_t i = 0; i < p.n; i++) sym_assume(p.p[i] != 0); string_view pat(p.p, p.n); std::size_t n = 0; try { n = d::literal_count(pat); } catch (const std::out_of_range&) { sym_reach("rejected"); return; }
    n = sym_concrete(n); unsigned k = 0; for (std::size_t i = 0; i + 1 < p.n; i++) if (sym_concrete(p.p[i] == '{')) { if (sym_concrete(p.p[i + 1] == '}')) k++; i++; } else if (sym_concrete(p.p[i] == '}')) i++; 
    dispatch(n, k, pat, std::string("<A>"), 7); sym_reach(k == 0 ? "plain" : k == 1 ? "one" : "more");
}
// literal patterns as applications write them, parsed at compile time
#define PAT(...) [](auto&&... a) { constexpr d::formatter<d::literal_count(__VA_ARGS__)> f(__VA_ARGS__); fmt::MemoryWriter w; f.format(w, a...); std::string x = text(w), y; CHECKM(rt(__VA_ARGS__, y, a...), "accepted at run time"); CHECKM(same(x, y), "the text of the runtime formatter"); observe("text", x); }
HARNESS c26_literals() {
    block s("s", sym_choice("len", 3)); std::string t = s.str(); int i = (int)sym_choice("i", 200) - 100; char c; sym_bytes(&c, 1, "c");
    switch (sym_choice("k", 12)) { case 0: PAT("plain")(t); break; case 1: PAT("{}")(t); break; case 2: PAT("{} - {} [{}] 'GET {} HTTP/1.0' {} {}")(t, i, c, "literal", t, 5u); break; case 3: PAT("{{}}")(); break; case 4: PAT("{{{}}}")(t); break; case 5: PAT("a{{b}}c{}d")(i); break; case 6: PAT("{}{}{}")(t, t, i); break; case 7: PAT("}}{{")(); break; case 8: PAT("{} }} {}")(i, c); break; case 9: PAT("")(); break; case 10: PAT("{{{{ {} }}}} {} tail")(t, i); break; default: PAT("100% %s \\ {} \t\"")(t); } sym_reach("done");
}
// every kind of argument
template<class T> static void arg(const T& v) { both<3>(string_view("<{}|{}>", 7), v, 1); both<2>(string_view("{}", 2), v); }
HARNESS c26_ints() {
    switch (sym_choice("type", 12)) { case 0: arg((int)sym_int("v", 32)); break; case 1: arg((unsigned)sym_int("v", 32)); break; case 2: { long v = (long)sym_int("v", 64); sym_assume(v > -1000 && v < 1000); arg(v); break; } case 3: { unsigned long v = sym_int("v", 64); sym_assume(v >= ~0ull - 500); arg(v); break; } case 4: arg((short)sym_int("v", 16)); break; case 5: arg((unsigned short)sym_int("v", 16)); break; case 6: { long long v = (long long)sym_int("v", 64); sym_assume(v < std::numeric_limits<long long>::min() + 500); arg(v); break; } case 7: { unsigned long long v = sym_int("v", 64); sym_assume(v < 500); arg(v); break; }
    case 8: arg((char)sym_int("v", 8)); break; case 9: arg((signed char)sym_int("v", 8)); break; case 10: arg((unsigned char)sym_int("v", 8)); break; default: arg(sym_bool("v")); } sym_reach("done");
}
HARNESS c26_texts() {
    block s("s", sym_choice("len", (unsigned)sym_param("len", 4) + 1)); switch (sym_choice("type", 6)) { case 0: arg(s.str()); break; case 1: arg(fmt::StringRef(s.p, s.n)); break; case 2: { std::string t = s.str(); arg(t.c_str()); break; } case 3: { std::string t = s.str(); char* p = &t[0]; arg(p); break; } case 4: { char a[4] = {'a', 'b', 0, 0}; sym_bytes(a, 2, "a"); both<2>(string_view("{}", 2), a); break; } default: both<2>(string_view("{}", 2), "literal"); } sym_reach("done");
}
HARNESS c26_null() { const char* p = nullptr; std::string x, y; string_view pat("x{}y", 4); bool c = ct<2>(pat, x, p), r = rt("x{}y", y, p); CHECKM(c == r && (!c || same(x, y)), "refused alike"); sym_reach("done"); }
HARNESS c26_doubles() { static const double D[] = {0, -0.5, 1.5, 3, 1e100, 1e-5, 123456789.125, 1.0 / 3}; unsigned k = sym_choice("k", 8); if (sym_bool("float")) arg((float)D[k == 4 ? 0 : k]); else arg(D[k]); enum E { A = 3, B = -4 }; arg(sym_bool("e") ? A : B); sym_reach("done"); }
// long texts, past the writer's inline buffer
HARNESS c26_long() { std::size_t n = 490 + sym_choice("n", (unsigned)sym_param("n", 20)); block s(std::string(n, 'q')); sym_bytes(s.p + n - 1, 1, "c"); block p(std::string("ab") + std::string(480, 'z') + "{}" + std::string(15, 'y') + "{}"); both<3>(string_view(p.p, p.n), s.str(), 12345); sym_reach("done"); }
