#include "rec.hpp"
#include "json.hpp"
#include "cfg.hpp"
#include <unistd.h>
#include <limits>
#include <blackhole/formatter/json.hpp>
extern "C" pid_t getpid() noexcept { return 4242; }
extern "C" long syscall(long, ...) noexcept { return 777; }
using B = builder<formatter::json_t>;
static void predefined(const jv& d, const rec& r) { is_num(member(d, "lwp"), 777); is_str(member(d, "thread"), "0x7f01"); is_num(member(d, "process"), 4242); is_num(member(d, "severity"), r.sev); is_num(member(d, "timestamp"), r.ts / 1000); }
// message, name and value of arbitrary bytes
HARNESS c11_strings() {
    unsigned ml = (unsigned)sym_param("msg", 2), nl = (unsigned)sym_param("name", 1), vl = (unsigned)sym_param("value", 1); block m("m", sym_choice("ml", ml + 1)), n("n", sym_choice("nl", nl + 1)), v("v", sym_choice("vl", vl + 1)); bool nlz = sym_bool("newline");
    attribute_list l{{string_view(n.p, n.n), view_t(string_view(v.p, v.n))}}; rec r(m.p, m.n); r.pack.emplace_back(l); B b; if (nlz) b.newline(); auto f = std::move(b).build(); std::string out = fmt_with(*f, r); jv d = document(out, nlz);
    CHECKM(d.m.size() == 7, "six fields and one attribute"); is_str(member(d, "message"), m.str()); is_str(member(d, n.str()), v.str()); predefined(d, r); observe("out", out); sym_reach(m.n && n.n && v.n ? "full" : "partial");
}
HARNESS c11_one() {   // one longer string at a time
    unsigned w = sym_choice("where", 3); block s("s", sym_choice("n", (unsigned)sym_param("len", 4) + 1)); if (w == 1 && s.n == 3) sym_assume(!(s.p[0] == 'l' && s.p[1] == 'w' && s.p[2] == 'p')); string_view sv(s.p, s.n); attribute_list l{{w == 1 ? sv : string_view("k", 1), w == 2 ? view_t(sv) : view_t(string_view("v", 1))}}; rec r(w == 0 ? s.p : "m", w == 0 ? s.n : 1); r.pack.emplace_back(l);
    std::string out = fmt_with(*B().build(), r); jv d = document(out, false); CHECKM(d.m.size() == 7, "six fields and one attribute"); is_str(member(d, "message"), w == 0 ? s.str() : "m"); is_str(member(d, w == 1 ? s.str() : "k"), w == 2 ? s.str() : "v"); predefined(d, r); observe("out", out); sym_reach("done");
}
// outputs around and past every internal buffer: long strings, many attributes
HARNESS c11_long() {
    static const unsigned N[] = {499, 500, 501, 1023, 1025, 4095, 4097, 9000}; unsigned n = N[sym_choice("n", (unsigned)sym_param("sizes", 6))], w = sym_choice("where", 3); block s(std::string(n, 'a')); sym_bytes(s.p, 1, "first"); sym_bytes(s.p + n - 1, 1, "last"); string_view sv(s.p, s.n);
    attribute_list l{{w == 1 ? sv : string_view("k", 1), w == 2 ? view_t(sv) : view_t(string_view("v", 1))}, {"z", view_t(1)}}; rec r(w == 0 ? s.p : "m", w == 0 ? s.n : 1); r.pack.emplace_back(l); std::string out = fmt_with(*B().build(), r); jv d = document(out, false);
    CHECKM(d.m.size() == 8, "six fields and two attributes"); is_str(member(d, "message"), w == 0 ? s.str() : "m"); is_str(member(d, w == 1 ? s.str() : "k"), w == 2 ? s.str() : "v"); is_num(member(d, "z"), 1); predefined(d, r); observe("out", out); sym_reach("done");
}
HARNESS c11_many() {
    static const unsigned N[] = {10, 16, 17, 60, 130, 300}; unsigned n = N[sym_choice("n", (unsigned)sym_param("sizes", 4))]; bool uniq = sym_bool("unique"); block v("v", 1); std::vector<std::string> names; for (unsigned i = 0; i < n; i++) names.push_back("attribute" + dec_u(i)); attribute_list l; for (unsigned i = 0; i < n; i++) l.emplace_back(string_view(names[i]), i % 3 == 0 ? view_t(string_view(v.p, v.n)) : i % 3 == 1 ? view_t((int)i) : view_t(string_view("text of some length")));
    rec r("m", 1); r.pack.emplace_back(l); B b; if (uniq) b.unique(); std::string out = fmt_with(*std::move(b).build(), r); jv d = document(out, false); CHECKM(d.m.size() == 6 + n, "every field exactly once"); predefined(d, r); for (unsigned i = 0; i < n; i++) { const jv& x = d.m[6 + i].second; CHECKM(same(d.m[6 + i].first, names[i]), "names in order"); if (i % 3 == 0) is_str(x, v.str()); else if (i % 3 == 1) is_num(x, i); else is_str(x, "text of some length"); } observe("out", out); sym_reach("done");
}
// other value types; strings produced by user types, severity names, timestamp patterns and formatting specifications
HARNESS c11_types() {
    unsigned k = sym_choice("kind", 13); static const double D[] = {0.0, 1.5, -2.25, 1e300, 1e-7, 123456789.0, std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN()}; static const std::int64_t I[] = {0, -1, 127, -128, 2147483647, -2147483648ll, 4294967296ll, 9223372036854775807ll, -9223372036854775807ll - 1}; unsigned x = sym_choice("x", 9); std::int64_t iv = I[x]; int w = (int)sym_range("w", 0, 199) - 100; shown sh{w}; block s("s", k == 9 ? 1 : 0);
    view_t v; switch (k) { case 0: v = view_t(nullptr); break; case 1: v = view_t(true); break; case 2: v = view_t(false); break; case 3: v = view_t(iv); break; case 4: v = view_t((std::uint64_t)iv); break; case 5: v = view_t(D[x]); break; case 6: v = view_t(sh); break; case 7: v = view_t(w); break; case 8: v = view_t((unsigned)w); break; case 9: v = view_t(string_view(s.p, 1)); break; case 10: v = view_t(string_view()); break; case 11: v = view_t(9223372036854770000ll + w); break; default: v = view_t((std::uint64_t)w); }
    if (k != 3 && k != 4 && k != 5) sym_assume(x == 0); attribute_list l{{"k", v}}; rec r("m", 1); r.pack.emplace_back(l); std::string out = fmt_with(*B().build(), r); jv d = document(out, false); const jv& j = member(d, "k"); predefined(d, r); CHECKM(d.m.size() == 7, "nothing else");
    switch (k) { case 0: CHECKM(j.t == '0', "null"); break; case 1: CHECKM(j.t == 't', "true"); break; case 2: CHECKM(j.t == 'f', "false"); break; case 3: is_num(j, iv); break; case 4: is_unum(j, (std::uint64_t)iv); break; case 5: if (x >= 6) CHECKM(j.t == '0', "non-finite numbers have no JSON form"); else { static const char* const T[] = {"0.0", "1.5", "-2.25", "1e300", "1e-7", "123456789.0"}; CHECKM(j.t == 'n' && same(j.s, T[x]), "the exact number"); } break;
        case 6: CHECKM(j.t == 's' && j.s.size() > 2 && j.s[0] == '<' && j.s[j.s.size() - 1] == '>' && is_dec32(j.s.data() + 1, j.s.size() - 2, w), "what the user type writes"); break; case 7: is_num(j, w); break; case 8: is_unum(j, (unsigned)w); break; case 9: is_str(j, s.str()); break; case 10: is_str(j, ""); break; case 11: is_num(j, 9223372036854770000ll + w); break; default: is_unum(j, (std::uint64_t)w); }
    observe("out", out); sym_reach("done");
}
HARNESS c11_user() {   // whatever a user type writes
    static const unsigned N[] = {0, 1, 2, 3, 501}; unsigned n = N[sym_choice("n", (unsigned)sym_param("lens", 5))]; block s(std::string(n, 'a')); if (n && n < 500) sym_bytes(s.p, n, "s"); if (n > 500) sym_bytes(s.p + 499, 2, "s"); shown sh{7, s.p, s.n}; static const char none = 0; if (!s.n) sh.p = &none; bool fmt = sym_bool("format"), uniq = sym_bool("unique"); B b; if (fmt) b.format("k", "{}"); if (uniq) b.unique();
    attribute_list l{{"k", view_t(sh)}, {"z", view_t(1)}}; rec r("m", 1); r.pack.emplace_back(l); std::string out = fmt_with(*std::move(b).build(), r); jv d = document(out, false); CHECKM(d.m.size() == 8, "six fields and two attributes"); is_str(member(d, "k"), s.str()); is_num(member(d, "z"), 1); predefined(d, r); observe("out", out); sym_reach("done");
}
HARNESS c11_produced() {   // text produced by configuration: severity names, timestamp patterns, formatted values, keys
    unsigned k = sym_choice("where", 5); std::string s(sym_choice("n", (unsigned)sym_param("len", 2) + 1), 0); if (s.size()) sym_bytes(&s[0], s.size(), "s"); if (k == 1 || k == 2) for (char& c : s) sym_assume(c != 0 && c != '%' && c != '{' && c != '}'); rec r("hello", 5); r.sev = 0; attribute_list l{{"a", view_t(5)}, {"b", view_t(string_view("\"q\n", 3))}}; r.pack.emplace_back(l);
    B b; switch (k) { case 0: b.severity({s}); break; case 1: b.timestamp("<" + s + ">"); break; case 2: b.format("a", s + "{:03d}"); b.format("b", "{:>4s}"); b.format("message", s + "{}"); break; case 3: sym_assume(s != "b"); b.rename("a", s); break; default: b.route("/r", {"a"}).rename("a", s); }
    std::string out = fmt_with(*std::move(b).build(), r); jv d = document(out, false); if (k != 2) is_str(member(d, "message"), "hello"); 
    switch (k) { case 0: is_str(member(d, "severity"), s); break; case 1: is_str(member(d, "timestamp"), "<" + s + ">"); break; case 2: is_str(member(d, "a"), s + "005"); is_str(member(d, "b"), " \"q\n"); is_str(member(d, "message"), s + "hello"); break; case 3: is_num(member(d, s), 5); break; default: is_num(member(member(d, "r"), s), 5); } observe("out", out); sym_reach("done");
}
// the formatter keeps no state between records
HARNESS c11_twice() { block m("m", 1), k("k", 2); rec r(m.p, m.n), q(k.p, k.n); attribute_list l{{"a", view_t(string_view(m.p, 1))}}; r.pack.emplace_back(l); auto f = B().unique().route("/x").build(); std::string a = fmt_with(*f, r), b = fmt_with(*f, q), c = fmt_with(*f, r); CHECKM(same(a, c), "the same record gives the same text"); jv d = document(b, false); is_str(member(d.count("x") ? member(d, "x") : d, "message"), k.str()); observe("out", a + b); sym_reach("done"); }
