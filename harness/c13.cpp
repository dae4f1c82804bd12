#include "rec.hpp"
#include "tskv.hpp"
#include <unistd.h>
#include <blackhole/formatter/tskv.hpp>
extern "C" pid_t getpid() noexcept { return 4242; }
extern "C" long syscall(long, ...) noexcept { return 777; }
using B = builder<formatter::tskv_t>;
static std::vector<expected> base(const std::string& msg) { std::vector<expected> e(5); e[0] = {"timestamp", "2017-07-14 02:40:00 +0000"}; e[1] = {"severity", "3"}; e[2] = {"pid", "4242"}; e[3] = {"tid", "0x7f01"}; e[4] = {"message", msg}; return e; }
static void judge(const std::string& out, const std::vector<expected>& e) { CHECKM(exactly(line(out), e), "the fields decode back to exactly the original keys and values"); observe("out", out); }
HARNESS c13_strings() {
    unsigned ml = (unsigned)sym_param("msg", 2), nl = (unsigned)sym_param("name", 1), vl = (unsigned)sym_param("value", 1); block m("m", sym_choice("ml", ml + 1)), n("n", sym_choice("nl", nl + 1)), v("v", sym_choice("vl", vl + 1)); attribute_list l{{string_view(n.p, n.n), view_t(string_view(v.p, v.n))}}; rec r(m.p, m.n); r.sev = 3; r.pack.emplace_back(l);
    auto e = base(m.str()); e.push_back({n.str(), v.str()}); judge(fmt_with(*B().build(), r), e); sym_reach(m.n && n.n && v.n ? "full" : "partial");
}
// one longer string at a time: message, attribute name, attribute value, constant name and value, a new name
HARNESS c13_one() {
    unsigned w = sym_choice("where", 7); block s("s", sym_choice("n", (unsigned)sym_param("len", 3) + 1)); string_view sv(s.p, s.n); attribute_list l{{w == 1 ? sv : string_view("k", 1), w == 2 ? view_t(sv) : view_t(string_view("v", 1))}}; rec r(w == 0 ? s.p : "m", w == 0 ? s.n : 1); r.sev = 3; r.pack.emplace_back(l);
    B b; auto e = base(w == 0 ? s.str() : "m"); if (w == 3) { b.create(s.str(), "c"); e.push_back({s.str(), "c"}); } if (w == 4) { b.create("c", s.str()); e.push_back({"c", s.str()}); } if (w == 5) b.rename("k", s.str()); if (w == 6) { b.rename("message", s.str()); e[4].k = s.str(); } e.push_back({w == 1 || w == 5 ? s.str() : "k", w == 2 ? s.str() : "v"}); judge(fmt_with(*std::move(b).build(), r), e); sym_reach(w == 4 ? "constant" : "other");
}
HARNESS c13_long() {
    static const unsigned N[] = {490, 499, 500, 501, 1024, 4097}; unsigned n = N[sym_choice("n", (unsigned)sym_param("sizes", 4))], w = sym_choice("where", 3); block s(std::string(n, 'a')); sym_bytes(s.p, 1, "first"); sym_bytes(s.p + n - 1, 1, "last"); string_view sv(s.p, s.n); attribute_list l{{w == 1 ? sv : string_view("k", 1), w == 2 ? view_t(sv) : view_t(string_view("v", 1))}, {"z", view_t(1)}}; rec r(w == 0 ? s.p : "m", w == 0 ? s.n : 1); r.sev = 3; r.pack.emplace_back(l);
    auto e = base(w == 0 ? s.str() : "m"); e.push_back({w == 1 ? s.str() : "k", w == 2 ? s.str() : "v"}); e.push_back({"z", "1"}); judge(fmt_with(*B().build(), r), e); sym_reach("done");
}
struct raw { string_view s; };
namespace blackhole { inline namespace v1 { template<> struct display_traits<raw> { static void apply(const raw& s, writer_t& wr) { wr.write("{}", fmt::StringRef(s.s.data(), s.s.size())); } }; } }
// text from user types and from timestamp patterns
HARNESS c13_produced() {
    unsigned w = sym_choice("where", 3); block s("s", sym_choice("n", (unsigned)sym_param("len", 2)) + 1); raw x{string_view(s.p, s.n)}; attribute_list l; if (w == 0) l.emplace_back("k", view_t(x)); rec r("m", 1); r.sev = 3; r.pack.emplace_back(l); B b; auto e = base("m"); if (w == 0) e.push_back({"k", s.str()});
    if (w) { for (std::size_t i = 0; i < s.n; i++) sym_assume(s.p[i] != '%' && s.p[i] != 0); if (w == 1) { b.timestamp("timestamp", "%Y" + s.str() + "%H"); e[0].v = "2017" + s.str() + "02"; } else { b.timestamp("t", s.str()); e.push_back({"t", s.str()}); } } judge(fmt_with(*std::move(b).build(), r), e); sym_reach("done");
}
HARNESS c13_twice() {   // one formatter, two records: nothing leaks from one into the other
    B b; b.create("c", "1"); auto f = std::move(b).build(); block m("m", 2), v("v", 1); attribute_list l{{"k", view_t(string_view(v.p, 1))}}; rec r1(m.p, 2); r1.sev = 3; r1.pack.emplace_back(l); rec r2("x", 1); r2.sev = 3; auto e1 = base(m.str()), e2 = base("x"); e1.push_back({"c", "1"}); e2.push_back({"c", "1"}); e1.push_back({"k", v.str()}); judge(fmt_with(*f, r1), e1); judge(fmt_with(*f, r2), e2); judge(fmt_with(*f, r1), e1); sym_reach("done");
}
