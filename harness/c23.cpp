#include "rec.hpp"
#include "cfg.hpp"
#include "json.hpp"
#include <stdexcept>
#include <boost/optional/optional.hpp>
#include "config/json.hpp"
using namespace blackhole; using config::node_t;
typedef std::unique_ptr<config::factory_t> fac;
static fac load(const std::string& t) { try { return cfg(t); } catch (const std::exception&) { return nullptr; } }
// every accessor of a node against the expected kind and contents
struct want { char t; std::int64_t i; std::uint64_t u; double d; std::string s; };   // t: 0 null, b, i (negative), u, d, s, a, o
template<class F> static bool mismatch(F f) { try { f(); } catch (const config::type_mismatch&) { return true; } return false; }
static void scalar(const node_t& n, const want& w) {
    bool sfits = w.t == 'i' || (w.t == 'u' && sym_concrete(w.u < (1ull << 63))); CHECKM(n.is_bool() == (w.t == 'b'), "is_bool"); CHECKM(n.is_sint64() == sfits, "is_sint64"); CHECKM(n.is_uint64() == (w.t == 'u'), "is_uint64"); CHECKM(n.is_double() == (w.t == 'd'), "is_double"); CHECKM(n.is_string() == (w.t == 's'), "is_string"); CHECKM(n.is_vector() == (w.t == 'a'), "is_vector"); CHECKM(n.is_object() == (w.t == 'o'), "is_object");
    if (w.t == 'b') CHECKM(n.to_bool() == (w.i != 0), "the value"); else CHECKM(mismatch([&] { n.to_bool(); }), "type mismatch");
    if (sfits) CHECKM(n.to_sint64() == (w.t == 'i' ? w.i : (std::int64_t)w.u), "the value"); else CHECKM(mismatch([&] { n.to_sint64(); }), "type mismatch");
    if (w.t == 'u') CHECKM(n.to_uint64() == w.u, "the value"); else CHECKM(mismatch([&] { n.to_uint64(); }), "type mismatch");
    if (w.t == 'd') { double x = n.to_double(); CHECKM(x == w.d, "the value"); } else CHECKM(mismatch([&] { n.to_double(); }), "type mismatch");
    if (w.t == 's') { std::string x = n.to_string(); CHECKM(same(x, w.s), "the value"); observe("s", x); } else CHECKM(mismatch([&] { n.to_string(); }), "type mismatch");
    if (w.t != 'a') { int k = 0; CHECKM(mismatch([&] { n.each([&](const node_t&) { k++; }); }) && k == 0, "only arrays are iterated"); CHECKM(!n[std::size_t(sym_int("index", 64))], "no element"); }
    if (w.t != 'o') { int k = 0; CHECKM(mismatch([&] { n.each_map([&](const std::string&, const node_t&) { k++; }); }) && k == 0, "only objects are iterated"); CHECKM(!n[std::string("k")], "no member"); }
}
static void through(const config::option<node_t>& o, const want& w) {   // the same through an option
    CHECKM((bool)o, "present"); scalar(o.unwrap().get(), w); if (w.t == 'b') CHECK(o.to_bool().get() == (w.i != 0)); else CHECK(mismatch([&] { o.to_bool(); })); if (w.t == 'u') CHECK(o.to_uint64().get() == w.u); else CHECK(mismatch([&] { o.to_uint64(); })); if (w.t == 'i') CHECK(o.to_sint64().get() == w.i); if (w.t == 's') CHECK(same(o.to_string().get(), w.s)); else CHECK(mismatch([&] { o.to_string(); })); if (w.t == 'd') CHECK(o.to_double().get() == w.d); else CHECK(mismatch([&] { o.to_double(); }));
}
static void absent(const config::option<node_t>& o) {
    CHECKM(!o, "absent"); CHECK(!o.unwrap()); CHECK(!o.to_bool()); CHECK(!o.to_sint64()); CHECK(!o.to_uint64()); CHECK(!o.to_double()); CHECK(!o.to_string()); int k = 0; o.each([&](const node_t&) { k++; }); o.each_map([&](const std::string&, const node_t&) { k++; }); CHECK(k == 0); CHECK(!o[std::size_t(0)]); CHECK(!o[std::string("k")]);
}
static std::string quoted(const std::string& s) { std::string r = "\""; for (char c : s) { if (sym_concrete(c == '"' || c == '\\')) { r.push_back('\\'); r.push_back(c); } else if (sym_concrete((unsigned char)c < 32)) { r += "\\u00"; r.push_back(sym_concrete((unsigned char)c < 16) ? '0' : '1'); int h = c & 15; r.push_back((char)(h + (h < 10 ? '0' : 'a' - 10))); } else r.push_back(c); } return r + "\""; }
HARNESS c23_scalars() {
    unsigned k = sym_choice("k", 6); want w{0, 0, 0, 0, ""}; std::string t; bool neg = false; block b("s", k == 3 ? sym_choice("len", (unsigned)sym_param("len", 2) + 1) : 0);
    if (k == 0) t = "null"; else if (k == 1) { bool v = sym_bool("v"); t = v ? "true" : "false"; w.t = 'b'; w.i = v; }
    else if (k == 2) { unsigned n = sym_choice("digits", (unsigned)sym_param("digits", 3)) + 1; neg = sym_bool("neg"); std::string d(n, '0'); std::uint64_t v = 0; for (unsigned i = 0; i < n; i++) { unsigned x = (unsigned)sym_int("d", 4); sym_assume(x < 10 && (i > 0 || n == 1 || x > 0)); d[i] = (char)('0' + x); v = v * 10 + x; } t = (neg ? "-" : "") + d; if (neg && sym_concrete(v != 0)) { w.t = 'i'; w.i = -(std::int64_t)v; } else { w.t = 'u'; w.u = v; } }
    else if (k == 3) { w.t = 's'; w.s = b.str(); t = quoted(w.s); } else if (k == 4) { static const double D[] = {0.5, -1.25, 100.0, 1e10, 18446744073709551616.0, -9223372036854775808.0 * 2, 3.0}; static const char* S[] = {"0.5", "-1.25", "1e2", "1.0E+10", "18446744073709551616", "-18446744073709551616", "3.0"}; unsigned i = sym_choice("i", 7); w.t = 'd'; w.d = D[i]; t = S[i]; }
    else { bool o = sym_bool("o"); w.t = o ? 'o' : 'a'; t = o ? "{}" : "[]"; }
    unsigned at = sym_choice("at", 3); fac f = load(at == 0 ? t : at == 1 ? "{\"z\":1,\"k\": " + t + "}" : "[ 0," + t + "]"); CHECKM(f != nullptr, "a well-formed document"); const node_t& r = f->config(); if (at == 0) scalar(r, w); else if (at == 1) { through(r[std::string("k")], w); absent(r[std::string("q")]); absent(r[std::string("")]); absent(r[std::string("k\0", 2)]); } else { through(r[std::size_t(1)], w); absent(r[std::size_t(2)]); std::uint64_t i = sym_int("i", 64); if (sym_concrete(i > 1)) absent(r[std::size_t(i)]); } sym_reach("done");
}
// integers around the limits of the types
HARNESS c23_limits() {
    static const char* B[] = {"9223372036854775807", "18446744073709551615", "9223372036854775808", "4294967295"}; unsigned k = sym_choice("k", 4); bool neg = sym_bool("neg"); std::string d = B[k]; unsigned n = (unsigned)sym_param("digits", 2); for (unsigned i = 0; i < n; i++) { unsigned x = (unsigned)sym_int("d", 4); sym_assume(x < 10); d[d.size() - n + i] = (char)('0' + x); }
    unsigned __int128 v = 0; for (char c : d) v = v * 10 + (unsigned)(c - '0'); fac f = load("[" + std::string(neg ? "-" : "") + d + "]"); CHECKM(f != nullptr, "well-formed"); auto o = f->config()[std::size_t(0)]; want w{0, 0, 0, 0, ""}; bool s64 = sym_concrete(v <= ((unsigned __int128)1 << 63)), u64 = sym_concrete(v <= ~0ull); const node_t& e = o.unwrap().get();
    if (neg && s64) { w.t = 'i'; w.i = (std::int64_t)(0 - (std::uint64_t)v); } else if (!neg && u64) { w.t = 'u'; w.u = (std::uint64_t)v; } else { CHECKM(!e.is_sint64() && !e.is_uint64(), "not an integer any more"); CHECKM(e.is_double(), "a double"); CHECK(mismatch([&] { e.to_sint64(); }) && mismatch([&] { e.to_uint64(); })); sym_reach("double"); return; } scalar(e, w); sym_reach("integer");
}
// an array and an object of any size up to the bound: iteration and lookup
HARNESS c23_iterate() {
    unsigned n = sym_choice("n", (unsigned)sym_param("n", 3) + 1); std::string ks[8]; std::uint64_t vs[8]; std::string a = "[", o = "{"; for (unsigned i = 0; i < n; i++) { block k("key", sym_choice("klen", (unsigned)sym_param("klen", 2))); ks[i] = k.str(); vs[i] = i + 5; if (i) a += ",", o += ", "; a += dec(vs[i]); o += quoted(ks[i]) + ":" + dec(vs[i]); }
    bool nested = sym_bool("nested"); std::string t = "{\"arr\":" + a + "],\"obj\":" + o + "}}"; if (nested) t = "{\"x\":[0,{\"y\":" + t + "}]}"; fac f = load(t); CHECKM(f != nullptr, "well-formed"); config::option<node_t> x0 = nested ? f->config()[std::string("x")][std::size_t(1)][std::string("y")] : config::option<node_t>(); const node_t& r = nested ? x0.unwrap().get() : f->config(); auto A = r[std::string("arr")], O = r[std::string("obj")];
    unsigned i = 0; A.each([&](const node_t& e) { CHECKM(i < n, "each element once"); CHECKM(e.to_uint64() == vs[i], "in document order"); i++; }); CHECKM(i == n, "every element"); i = 0; O.each_map([&](const std::string& k, const node_t& e) { CHECKM(i < n, "each member once"); CHECKM(same(k, ks[i]), "with its key"); CHECKM(e.to_uint64() == vs[i], "in document order"); i++; }); CHECKM(i == n, "every member");
    std::uint64_t j = sym_int("j", 64); auto e = A[std::size_t(j)]; bool in = sym_concrete(j < n); CHECKM((bool)e == in, "present exactly when inside"); if (in) { CHECKM(e.to_uint64().get() == vs[sym_concrete(j)], "the element"); sym_reach("inside"); } else { absent(e); sym_reach("outside"); }
    block q("q", sym_choice("qlen", (unsigned)sym_param("klen", 2) + 1)); auto m = O[q.str()]; int hit = -1; for (unsigned k = 0; k < n && hit < 0; k++) if (ks[k].size() == q.n && sym_concrete(same_v(ks[k], q.str()))) hit = (int)k; CHECKM((bool)m == (hit >= 0), "present exactly when a member has that key"); if (hit >= 0) { std::uint64_t g = m.to_uint64().get(); bool any = false; for (unsigned k = (unsigned)hit; k < n; k++) if (g == vs[k]) any |= sym_concrete(same_v(ks[k], q.str())); CHECKM(any, "a member of that key"); sym_reach("found"); }
}
// an exception thrown by a visitor passes through
HARNESS c23_throw() { fac f = load("{\"a\":[1,2,3]}"); int k = 0; bool out = false; unsigned at = sym_choice("at", 3); try { f->config()[std::string("a")].each([&](const node_t&) { if (k++ == (int)at) throw 42; }); } catch (int) { out = true; } CHECK(out && k == (int)at + 1); sym_reach("done"); }
// ---- documents: the grammar of RFC 8259 (unpaired surrogates left open), plus comments and one trailing comma, which this configuration admits
struct grammar {
    const std::string& s; std::size_t i = 0; unsigned depth = 0; bool odd = false, big = false; grammar(const std::string& s) : s(s) {}
    bool is(char c) { return i < s.size() && sym_concrete(s[i] == c); } bool eat(char c) { if (!is(c)) return false; i++; return true; }
    bool ws() { for (;;) { if (is(' ') || is('\t') || is('\n') || is('\r')) i++; else if (is('/')) { i++; if (eat('*')) { for (;;) { if (i >= s.size() || is(0)) return false; if (eat('*')) { if (eat('/')) break; } else i++; } } else if (eat('/')) { while (i < s.size() && !is('\n') && !is(0)) i++; if (i < s.size() && is('\n')) i++; } else return false; } else return true; } }
    bool digits() { std::size_t b = i; while (i < s.size() && sym_concrete(s[i] >= '0' && s[i] <= '9')) i++; return i > b; }
    bool word(const char* w) { for (; *w; w++) if (!eat(*w)) return false; return true; }
    bool hex4(unsigned& u) { u = 0; for (int k = 0; k < 4; k++) { if (i >= s.size()) return false; char c = s[i]; unsigned d; if (sym_concrete(c >= '0' && c <= '9')) d = (unsigned)(c - '0'); else if (sym_concrete((c | 32) >= 'a' && (c | 32) <= 'f')) d = (unsigned)((c | 32) - 'a' + 10); else return false; u = u * 16 + d; i++; } return true; }
    bool str() { if (!eat('"')) return false; for (;;) { if (i >= s.size()) return false; if (eat('"')) return true; if (sym_concrete((unsigned char)s[i] < 32)) return false; if (eat('\\')) { if (i >= s.size()) return false; if (eat('u')) { unsigned u; if (!hex4(u)) return false; if (sym_concrete(u >= 0xd800 && u < 0xe000)) { unsigned l; if (sym_concrete(u >= 0xdc00) || !eat('\\') || !eat('u') || !hex4(l) || !sym_concrete(l >= 0xdc00 && l < 0xe000)) { odd = true; return false; } } } else { bool ok = false; for (const char* p = "\"\\/bfnrt"; *p; p++) if (is(*p)) { ok = true; break; } if (!ok) return false; i++; } } else i++; } }
    bool value() {
        if (++depth > 20) return false; if (eat('{')) { if (!ws()) return false; if (!eat('}')) for (;;) { if (!str() || !ws() || !eat(':') || !ws() || !value() || !ws()) return false; if (eat(',')) { if (!ws()) return false; if (eat('}')) break; continue; } if (eat('}')) break; return false; } }
        else if (eat('[')) { if (!ws()) return false; if (!eat(']')) for (;;) { if (!value() || !ws()) return false; if (eat(',')) { if (!ws()) return false; if (eat(']')) break; continue; } if (eat(']')) break; return false; } }
        else if (is('"')) { if (!str()) return false; } else if (is('t')) { if (!word("true")) return false; } else if (is('f')) { if (!word("false")) return false; } else if (is('n')) { if (!word("null")) return false; }
        else { eat('-'); if (!eat('0') && !digits()) return false; if (eat('.') && !digits()) return false; if (is('e') || is('E')) { i++; bool neg = is('-'); if (neg || is('+')) i++; std::size_t b = i; if (!digits()) return false; unsigned x = 0; for (; b < i; b++) x = x * 10 + (unsigned)(s[b] - '0'); if (!neg && sym_concrete(x > 250)) big = true; } } depth--; return true;
    }
    bool document() { return ws() && value() && ws() && i == s.size(); }
};
static void accepts(const std::string& t) { grammar g(t); bool want = g.document(); fac f = load(t); if (g.odd) { sym_reach("unpaired"); return; }   // unpaired surrogates: up to the reader
    if (g.big && !f) { sym_reach("unrepresentable"); return; }
    CHECKM((f != nullptr) == want, "accepted exactly when well-formed"); if (want) sym_reach("accepted"); else sym_reach("rejected"); }
HARNESS c23_documents() { block b("d", sym_choice("len", (unsigned)sym_param("max", 3) + 1)); accepts(b.str()); }
// arbitrary bytes inside a document
HARNESS c23_mutated() {
    static const char* D[] = {"{\"a\":[1,-2.5e3,\"x\\n\"],\"b\":{\"c\":null}}", "[true,false,{\"k\":\"\\ud83d\\ude00\"}, 10 ]", " /*c*/{\"a\":1,}//x\n", "[[[[]]],{\"\":{}}]"}; std::string t = D[sym_choice("doc", 4)]; unsigned at = sym_choice("at", 40); sym_assume(at < t.size()); unsigned how = sym_choice("how", 3);
    if (how == 0) sym_bytes(&t[at], 1, "c"); else if (how == 1) t.erase(at, 1); else { char c; sym_bytes(&c, 1, "c"); t.insert(t.begin() + at, c); } accepts(t);
}
HARNESS c23_truncated() { std::string t = "{\"formatters\": [1, {\"key\": \"va\\u0041lue\"}, -3.5e+2, null], \"k\": true}"; t.resize(sym_choice("n", 70)); accepts(t); }
// a stream that cannot be read
HARNESS c23_stream() { std::istringstream is(sym_bool("empty") ? "" : "{}"); is.setstate(std::ios::failbit); bool threw = false; try { config::factory_traits<config::json_t>::construct(is); } catch (const std::exception&) { threw = true; } CHECKM(threw, "an unreadable document is refused"); sym_reach("done"); }
// the library's structured accessors agree with an independent reader
static void agree(const node_t& n, const jv& v) {
    switch (v.t) { case 'o': { std::size_t i = 0; n.each_map([&](const std::string& k, const node_t& e) { CHECKM(i < v.m.size(), "each member once"); CHECKM(same(k, v.m[i].first), "the key"); agree(e, v.m[i].second); i++; }); CHECKM(i == v.m.size(), "every member"); break; } case 'a': { std::size_t i = 0; n.each([&](const node_t& e) { CHECKM(i < v.m.size(), "each element once"); agree(e, v.m[i].second); auto o = n[i]; CHECK((bool)o); i++; }); CHECKM(i == v.m.size(), "every element"); break; }
    case 's': CHECKM(same(n.to_string(), v.s), "the string"); break; case 't': case 'f': CHECK(n.to_bool() == (v.t == 't')); break; case '0': CHECK(!n.is_bool() && !n.is_sint64() && !n.is_uint64() && !n.is_double() && !n.is_string() && !n.is_vector() && !n.is_object()); break; default: CHECK(n.is_sint64() || n.is_uint64() || n.is_double()); }
}
HARNESS c23_agree() {
    block b("d", (unsigned)sym_param("len", 3)); static const char* L[] = {"[1,{\"k", "{\"a\":[{}, \"", "[[\"x\", ", "{\"\\u00e9\":"}; static const char* R[] = {"\":[2,\"z\"]},null]", "\", true]}", "],[{}]]", "}"}; unsigned k = sym_choice("k", 4); std::string t = L[k] + b.str() + R[k]; fac f = load(t); if (!f) { sym_reach("rejected"); return; } jparser p(t); jv v = p.value(); if (!p.ok || p.i != p.n) { sym_reach("extension"); return; } agree(f->config(), v); sym_reach("agree");
}
