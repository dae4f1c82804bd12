#include "sym.h"
#include "ref.hpp"
#include <blackhole/attribute.hpp>
#include <blackhole/attributes.hpp>
#include <blackhole/extensions/writer.hpp>
#include <typeinfo>
#include <cstring>
using namespace blackhole;
using attribute::value_t; using attribute::view_t;
enum K { NUL, BOOL, I64, U64, DBL, STR };
static std::uint64_t dbits(double d) { std::uint64_t u; std::memcpy(&u, &d, 8); return u; }
static double dof(std::uint64_t u) { double d; std::memcpy(&d, &u, 8); return d; }
struct model { K k; std::uint64_t u; std::string s; };       // u: value or bit pattern
static std::string text(const std::string& s) { return s; } static std::string text(const string_view& s) { return str_v(s); }
template<class V> struct rec : V::visitor_t {
    model m{NUL, 0, ""}; int calls = 0;
    void operator()(const typename V::null_type&) override { calls++; m.k = NUL; }
    void operator()(const typename V::bool_type& v) override { calls++; m.k = BOOL; m.u = v; }
    void operator()(const typename V::sint64_type& v) override { calls++; m.k = I64; m.u = (std::uint64_t)v; }
    void operator()(const typename V::uint64_type& v) override { calls++; m.k = U64; m.u = v; }
    void operator()(const typename V::double_type& v) override { calls++; m.k = DBL; m.u = dbits(v); }
    void operator()(const typename V::string_type& v) override { calls++; m.k = STR; m.s = text(v); }
    void operator()(const typename V::function_type&) override { calls++; CHECKM(false, "not a function"); }
};
static bool eq(const model& a, const model& b) { return a.k == b.k && (a.k == STR ? same(a.s, b.s) : a.k == NUL || a.u == b.u); }
template<class T, class V, class F> static void acc(const V& v, bool mine, F f) {
    bool thrown = false; try { f(attribute::get<T>(v)); } catch (const std::bad_cast&) { thrown = true; }
    CHECKM(thrown == !mine, "typed access: value of the stored type, bad_cast otherwise");
}
template<class V> static void agree(const V& v, const model& m) {
    rec<V> r; v.apply(r); CHECKM(r.calls == 1 && eq(r.m, m), "visitation yields what was stored");
    acc<typename V::null_type>(v, m.k == NUL, [&](const std::nullptr_t&) {});
    acc<typename V::bool_type>(v, m.k == BOOL, [&](bool x) { CHECKM(x == (m.u != 0), "bool"); });
    acc<typename V::sint64_type>(v, m.k == I64, [&](std::int64_t x) { CHECKM(x == (std::int64_t)m.u, "signed"); });
    acc<typename V::uint64_type>(v, m.k == U64, [&](std::uint64_t x) { CHECKM(x == m.u, "unsigned"); });
    acc<typename V::double_type>(v, m.k == DBL, [&](double x) { CHECKM(dbits(x) == m.u, "double"); });
    acc<typename V::string_type>(v, m.k == STR, [&](const typename V::string_type& x) { CHECKM(same(text(x), m.s), "string"); });
}
static void full(const value_t& v, const model& m) { agree(v, m); view_t w(v); agree(w, m); view_t c(w); agree(c, m); view_t d; d = w; agree(d, m); }
static unsigned len(unsigned i) { static const unsigned L[] = {0, 1, 3, 15, 16, 24}; return L[i]; }
#define INTS(X) X(0, char, I64) X(1, short, I64) X(2, int, I64) X(3, long, I64) X(4, long long, I64) X(5, unsigned char, U64) X(6, unsigned short, U64) X(7, unsigned, U64) X(8, unsigned long, U64) X(9, unsigned long long, U64)
template<class V> static V* build(unsigned kind, const char* n, model& m, std::string& keep) {
    m.u = 0; m.s.clear();
#define ONE(i, T, KK) case i: { T x = (T)sym_int(n, sizeof(T) * 8); m.k = KK; m.u = KK == I64 ? (std::uint64_t)(std::int64_t)x : (std::uint64_t)x; return new V(x); }
    switch (kind) { INTS(ONE)
    case 10: m.k = NUL; return new V(nullptr);
    case 11: m.k = NUL; return new V();
    case 12: { bool b = (sym_int(n, 8) & 1) != 0; m.k = BOOL; m.u = b; return new V(b); }
    case 13: { std::uint64_t u = sym_int(n, 64); m.k = DBL; m.u = u; return new V(dof(u)); }
    case 14: m.k = STR; m.s = std::string("a\0b", 3); return new V("a\0b");
    default: { block b(n, len(kind - 15)); m.k = STR; m.s = b.str(); keep = b.str(); return new V(keep); } }
}
enum { KINDS = 21 };
HARNESS c04_store() {
    unsigned k = sym_choice("kind", KINDS); model m; std::string keep; value_t* v = build<value_t>(k, "x", m, keep); keep.assign(keep.size(), '#');
    full(*v, m); value_t c(*v); full(c, m); value_t mv(std::move(*v)); full(mv, m); delete v; full(mv, m); full(c, m);
    mv = c; full(mv, m); full(c, m); value_t& alias = mv; mv = alias; full(mv, m); mv = std::move(alias); full(mv, m); sym_reach("stored");
}
HARNESS c04_view() {
    unsigned k = sym_choice("kind", KINDS); model m; std::string keep; view_t* v = build<view_t>(k, "x", m, keep);
    agree(*v, m); view_t c(*v); agree(c, m); view_t d; d = c; agree(d, m); delete v; agree(c, m); CHECKM(d == c || m.k == DBL, "a copy equals its source"); 
    float fs[] = {0.0f, -1.5f, 3.4028235e38f}; unsigned fi = sym_choice("float", 3); model fm{DBL, dbits((double)fs[fi]), ""}; agree(view_t(fs[fi]), fm); sym_reach("stored");
}
// two views compare equal exactly when type and contents are equal
HARNESS c04_equality() {
    unsigned ka = sym_choice("ka", 17), kb = sym_choice("kb", 17); if (ka == 13 || kb == 13) return; model ma, mb; std::string sa, sb;
    if (ka >= 14) ka += 1; if (kb >= 14) kb += 1;
    view_t* a = build<view_t>(ka, "a", ma, sa); view_t* b = build<view_t>(kb, "b", mb, sb);
    bool e = *a == *b, r = *b == *a, ne = *a != *b; CHECKM(e == eq(ma, mb), "equality"); CHECKM(e == r, "symmetric"); CHECKM(ne == !e, "inequality is the negation");
    if (e) sym_reach("equal"); else sym_reach("different"); delete a; delete b;
}
HARNESS c04_equality_double() {
    static const double D[] = {0.0, -0.0, 1.0, -1.0, 1e300, 4.9e-324}; unsigned i = sym_choice("i", 6), j = sym_choice("j", 6);
    CHECKM((view_t(D[i]) == view_t(D[j])) == (D[i] == D[j]), "doubles compare by value"); CHECKM((view_t(D[i]) != view_t(D[j])) == (D[i] != D[j]), "inequality"); CHECKM(!(view_t(D[i]) == view_t(1)), "types differ"); sym_reach("done");
}
// any history of assignments between three values
HARNESS c04_history() {
    unsigned ops = (unsigned)sym_param("ops", 2); value_t* v[3]; model m[3]; bool moved[3] = {false, false, false}; std::string keep;
    static const unsigned P[] = {2, 10, 12, 13, 18, 20}; 
    unsigned nk = (unsigned)sym_param("kinds", 6); for (int i = 0; i < 3; i++) v[i] = build<value_t>(P[6 - nk + sym_choice("k", nk)], "x", m[i], keep);
    for (unsigned s = 0; s < ops; s++) {
        unsigned op = sym_choice("op", 4), i = sym_choice("i", 3), j = sym_choice("j", 3); if (moved[j] && !(op == 0 && false)) return;
        switch (op) {
        case 0: *v[i] = *v[j]; m[i] = m[j]; moved[i] = moved[j]; break;
        case 1: *v[i] = std::move(*v[j]); m[i] = m[j]; if (i != j) { moved[i] = false; moved[j] = true; } break;
        case 2: if (i == j) return; { value_t* n = new value_t(*v[j]); delete v[i]; v[i] = n; m[i] = m[j]; moved[i] = false; } break;
        case 3: if (i == j) return; { value_t* n = new value_t(std::move(*v[j])); delete v[i]; v[i] = n; m[i] = m[j]; moved[i] = false; moved[j] = true; } break;
        }
    }
    for (int i = 0; i < 3; i++) if (!moved[i]) full(*v[i], m[i]);
    for (int i = 0; i < 3; i++) delete v[i]; sym_reach("done");
}
// values displayed through display_traits reach the visitor as a function that writes their text
struct shown { int x; };
namespace blackhole { inline namespace v1 { template<> struct display_traits<shown> { static void apply(const shown& s, writer_t& wr) { wr.write("<{}>", s.x); } }; } }
struct fvis : view_t::visitor_t { std::string out; int n = 0;
    void operator()(const view_t::null_type&) override {} void operator()(const view_t::bool_type&) override {} void operator()(const view_t::sint64_type&) override {} void operator()(const view_t::uint64_type&) override {} void operator()(const view_t::double_type&) override {} void operator()(const view_t::string_type&) override {}
    void operator()(const view_t::function_type& f) override { n++; writer_t w; f(w); out = str_v(w.result()); } };
HARNESS c04_display() {
    shown s{(int)sym_int("x", 8)}; view_t v(s); fvis f; v.apply(f); CHECKM(f.n == 1 && same(f.out, "<" + dec(s.x) + ">"), "displayed value"); view_t w(v); CHECKM(w == v && !(w != v), "same object"); shown t{s.x}; CHECKM(!(view_t(t) == v), "another object"); sym_reach("done");
}
