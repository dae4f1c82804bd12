#include "rec.hpp"
#include "tskv.hpp"
#include "cfg.hpp"
#include <unistd.h>
#include <limits>
#include <blackhole/formatter/tskv.hpp>
extern "C" pid_t getpid() noexcept { return 4242; }
extern "C" long syscall(long, ...) noexcept { return 777; }
using B = builder<formatter::tskv_t>;
struct opts { std::vector<std::pair<std::string, std::string>> create, rename, stamps; std::vector<std::string> remove; };
static std::string q(const std::string& s) { return "\"" + s + "\""; }
static std::unique_ptr<formatter_t> make(const opts& o, unsigned how) {
    if (how == 2) { std::string j = "{\"type\":\"tskv\",\"create\":{"; bool f = true; auto comma = [&] { if (!f) j += ','; f = false; }; for (auto& x : o.create) { comma(); j += q(x.first) + ":" + q(x.second); } j += "},\"rename\":{"; f = true; for (auto& x : o.rename) { comma(); j += q(x.first) + ":" + q(x.second); } j += "},\"remove\":["; f = true; for (auto& x : o.remove) { comma(); j += q(x); } j += "],\"mutate\":{"; f = true; for (auto& x : o.stamps) { comma(); j += q(x.first) + ":{\"strftime\":" + q(x.second) + ",\"gmtime\":true}"; } j += "}}"; auto c = cfg(j); return factory<formatter::tskv_t>().from(c->config()); }
    B b; for (auto& x : o.remove) if (how) b.remove(x); else b = std::move(b).remove(x); for (auto& x : o.create) if (how) b.create(x.first, x.second); else b = std::move(b).create(x.first, x.second); for (auto& x : o.rename) if (how) b.rename(x.first, x.second); else b = std::move(b).rename(x.first, x.second); for (auto& x : o.stamps) if (how) b.timestamp(x.first, x.second); else b = std::move(b).timestamp(x.first, x.second); return std::move(b).build();
}
struct model { const opts& o; std::vector<expected> e; void put(expected x) { for (auto& r : o.remove) if (same(r, x.k)) return; for (auto& r : o.rename) if (same(r.first, x.k)) { x.k = r.second; break; } e.push_back(x); } };
static void judge(const opts& o, formatter_t& f, rec& r, const std::vector<expected>& attrs, const std::string& stamp, const std::string& message = "M", const std::string& year = "2017") {
    std::string out = fmt_with(f, r); model m{o, {}}; std::vector<expected> c; for (auto& x : o.create) { bool again = false; for (auto& y : c) if (same(y.k, x.first)) y.v = x.second, again = true; if (!again) c.push_back({x.first, x.second}); } for (auto& x : c) m.put(x);
    bool own = false; for (auto& s : o.stamps) { if (same(s.first, "timestamp")) own = true; m.put({s.first, year}); } if (!own) m.put({"timestamp", stamp}); m.put({"severity", "", 1, r.sev}); m.put({"pid", "4242"}); m.put({"tid", r.tid == 0x7f01 ? "0x7f01" : "0x7f0a02"}); m.put({"message", message}); for (auto& a : attrs) m.put(a);
    CHECKM(exactly(line(out), m.e), "every field not removed, exactly once, under its renamed key, with its exact value"); observe("out", out);
}
static void judge(const opts& o, unsigned how, rec& r, const std::vector<expected>& attrs, const std::string& stamp) { auto f = make(o, how); judge(o, *f, r, attrs, stamp); }
static const char* const NAMES[] = {"k", "message", "severity", "timestamp", "pid", "tid", "c", "z"};
// the C library's conversion of time, replaced below
extern bool own_tm; extern struct tm given;
// create, remove, rename and mutate together
HARNESS c14_options() {
    opts o; unsigned how = sym_choice("how", 3), nn = (unsigned)sym_param("names", 8); if (sym_bool("create")) { o.create.push_back({NAMES[sym_choice("cname", nn)], "C"}); if (sym_bool("again")) { o.create.push_back({"c", "D"}); if (how == 2) sym_assume(!same(o.create[0].first, "c")); } } if (sym_bool("remove")) o.remove.push_back(NAMES[sym_choice("rname", nn)]); if (sym_bool("rename")) { o.rename.push_back({NAMES[sym_choice("from", nn)], NAMES[sym_choice("to", nn)]}); }
    attribute_list l; std::vector<expected> at; if (sym_bool("attr")) { block v("v", 1); l.emplace_back("k", view_t(-7)); at.push_back({"k", "", 1, -7}); } rec r("M", 1); r.sev = 3; r.pack.emplace_back(l); judge(o, how, r, at, "2017-07-14 02:40:00 +0000"); sym_reach(o.remove.size() ? "removed" : "kept");
}
HARNESS c14_pairs() {   // several removals and renamings at once, attributes with the names of predefined fields, mutations
    opts o; unsigned how = sym_choice("how", 3); static const char* const P[] = {"message", "severity", "timestamp", "pid", "tid", "k"}; for (auto p : P) if (sym_bool("rm")) o.remove.push_back(p); if (sym_bool("swap")) { o.rename.push_back({"pid", "tid"}); o.rename.push_back({"tid", "pid"}); } if (sym_bool("stamp")) o.stamps.push_back({"timestamp", "%Y"}); if (sym_bool("stamp2")) o.stamps.push_back({"when", "%Y"});
    attribute_list a{{"k", view_t(1)}, {"pid", view_t(2)}}, b{{"k", view_t(3)}}; rec r("M", 1); r.sev = 3; r.pack.emplace_back(a); r.pack.emplace_back(b); judge(o, how, r, {{"k", "", 1, 1}, {"pid", "", 1, 2}, {"k", "", 1, 3}}, "2017-07-14 02:40:00 +0000"); sym_reach(o.remove.size() == 6 ? "all" : "some");
}
// exact values: severities, every attribute type
HARNESS c14_values() {
    unsigned k = sym_choice("kind", 13), x = sym_choice("x", 6); static const std::int64_t I[] = {0, -1, 4294967296ll, 9223372036854775807ll, -9223372036854775807ll - 1, -2147483648ll}; static const double D[] = {0.0, 1.5, -2.25, 1e300, 123456.0, -std::numeric_limits<double>::infinity()}; static const char* const DT[] = {"0", "1.5", "-2.25", "1e+300", "123456", "-inf"};
    if (k != 3 && k != 4 && k != 5) sym_assume(x == 0); int w = (int)sym_range("w", 0, 199) - 100; shown sh{w}; block s("s", 2); view_t v; expected e{"k", ""}; switch (k) { case 0: v = view_t(nullptr); e.v = "none"; break; case 1: v = view_t(true); e.v = "true"; break; case 2: v = view_t(false); e.v = "false"; break; case 3: v = view_t(I[x]); e.v = dec(I[x]); break; case 4: v = view_t((std::uint64_t)I[x]); e.v = dec_u((std::uint64_t)I[x]); break; case 5: v = view_t(D[x]); e.v = DT[x]; break; case 6: v = view_t(sh); e.kind = 2; e.n = w; break; case 7: v = view_t(w); e.kind = 1; e.n = w; break; case 8: v = view_t(9223372036854770000ll + w); e.kind = 1; e.n = 9223372036854770000ll + w; break; case 9: v = view_t(string_view(s.p, 2)); e.v = s.str(); break; case 10: v = view_t(string_view()); break; case 11: v = view_t((unsigned char)(w & 127)); e.kind = 1; e.n = w & 127; break; default: v = view_t((short)w); e.kind = 1; e.n = w; }
    attribute_list l{{"k", v}}; rec r("M", 1); r.sev = 3; r.pack.emplace_back(l); judge(opts{}, 1, r, {e}, "2017-07-14 02:40:00 +0000"); sym_reach("done");
}
HARNESS c14_severity() { int s = (int)sym_int("sev", 32); sym_assume(s < -2147483600 || s > 2147483600 || (s > -120 && s < 120)); rec r("M", 1); r.sev = s; judge(opts{}, 1, r, {}, "2017-07-14 02:40:00 +0000"); sym_reach(s < 0 ? "neg" : "pos"); }
// the timestamp field follows the record's time, in UTC or local time as asked: the C library's conversion is replaced by one returning arbitrary fields
bool own_tm = false; static unsigned utc_calls, local_calls; static time_t asked; struct tm given;
extern "C" struct tm* gmtime_r(const time_t* t, struct tm* o) noexcept { if (!own_tm) { memset(o, 0, sizeof *o); o->tm_year = 117; o->tm_mon = 6; o->tm_mday = 14; o->tm_hour = 2; o->tm_min = 40; o->tm_zone = "GMT"; return o; } utc_calls++; asked = *t; *o = given; return o; }
extern "C" struct tm* localtime_r(const time_t* t, struct tm* o) noexcept { local_calls++; asked = *t; *o = given; return o; }
HARNESS c14_clock() { unsigned h = (unsigned)sym_range("h", 0, 23), mi = (unsigned)sym_range("mi", 0, 59), s = (unsigned)sym_range("s", 0, 59), y = (unsigned)sym_range("y", 1970, 2100), us = (unsigned)sym_range("us", 0, 99); static const unsigned US[] = {0, 100, 499950, 999900}; us += US[sym_choice("usbase", 4)]; static const std::int64_t T[] = {0, 1499990400, 4102444799}; std::int64_t t = T[sym_choice("t", 3)]; unsigned how = sym_choice("how", 3); static const unsigned NS[] = {0, 1, 499, 500, 999}; unsigned ns = NS[sym_choice("nsk", 5)];
    given = {}; given.tm_year = (int)y - 1900; given.tm_mday = 1; given.tm_hour = (int)h; given.tm_min = (int)mi; given.tm_sec = (int)s; own_tm = true; rec r("M", 1); r.sev = 3; r.ts = t * 1000000000ll + us * 1000ll + ns; bool utc = true; std::unique_ptr<formatter_t> f; if (how == 0) { B b; b.timestamp("timestamp", "%Y %H:%M:%S.%f"); f = std::move(b).build(); } else if (how == 1) { B b; utc = sym_bool("utc"); b.timestamp("timestamp", "%Y %H:%M:%S.%f", utc); f = std::move(b).build(); } else { utc = sym_bool("utc"); auto c = cfg(std::string("{\"type\":\"tskv\",\"mutate\":{\"timestamp\":{\"strftime\":\"%Y %H:%M:%S.%f\",\"gmtime\":") + (utc ? "true}}}" : "false}}}")); f = factory<formatter::tskv_t>().from(c->config()); }
    auto o = line(fmt_with(*f, r)); CHECKM(utc_calls == utc && local_calls == !utc, "converted once, as asked"); CHECKM(asked == t, "the record's second"); CHECKM(o.size() == 5, "five fields"); const std::string& x = o[0].v; CHECKM(same(o[0].k, "timestamp") && x.size() == 20 && x[4] == ' ' && x[7] == ':' && x[10] == ':' && x[13] == '.', "pattern"); auto d = [&](std::size_t i) { return (unsigned)(x[i] - '0'); };
    CHECKM(d(0) * 1000 + d(1) * 100 + d(2) * 10 + d(3) == y, "year"); CHECKM(d(5) * 10 + d(6) == h && d(8) * 10 + d(9) == mi && d(11) * 10 + d(12) == s, "time of day"); CHECKM(d(14) * 100000 + d(15) * 10000 + d(16) * 1000 + d(17) * 100 + d(18) * 10 + d(19) == us, "microseconds"); sym_reach(utc ? "utc" : "local"); }

// one record after another through formatters with different options: each line is that of its own record
HARNESS c14_twice() {
    opts o[4]; o[1].create.push_back({"c", "C"}); o[1].remove.push_back("a"); o[1].rename.push_back({"message", "msg"}); o[2].remove.push_back("message"); o[2].rename.push_back({"a", "b"}); o[2].stamps.push_back({"when", "%Y"}); o[3].create.push_back({"b", "Z"}); o[3].rename.push_back({"severity", "level"}); o[3].remove.push_back("timestamp");
    unsigned rounds = (unsigned)sym_param("rounds", 2), kinds = (unsigned)sym_param("kinds", 4), shapes = (unsigned)sym_param("shapes", 5), how = sym_choice("how", 3); std::unique_ptr<formatter_t> f[4]; for (unsigned i = 0; i < kinds; i++) f[i] = make(o[i], how); own_tm = true; given = {}; given.tm_year = 117; given.tm_mon = 6; given.tm_mday = 14; given.tm_hour = 2; given.tm_min = 40;
    for (unsigned i = 0; i < rounds; i++) {
        unsigned k = sym_choice("formatter", kinds), w = sym_choice("record", shapes); block m("m", w == 3 ? 2 : 1), v("v", 1); for (auto b : {&m, &v}) for (unsigned j = 0; j < b->n; j++) sym_assume((unsigned char)(b->p[j] - 'a') < 26); attribute_list l1, l2; std::vector<expected> exp; rec r(m.p, m.n); r.sev = (int)(i + w); if (i) { r.tid = 0x7f0a02; r.ts += 60000000000ll; given.tm_min = 41; given.tm_year = 118; }
        auto num = [&](attribute_list& l, const char* n, int x) { l.emplace_back(string_view(n, strlen(n)), view_t(x)); exp.push_back({n, "", 1, x}); };
        switch (w) { case 0: break; case 1: num(l1, "a", 41); break; case 2: num(l1, "b", 1); num(l1, "a", 2); num(l2, "b", 3); break; case 3: l1.emplace_back("a", view_t(string_view(v.p, 1))); exp.push_back({"a", v.str()}); num(l2, "z", 5); break; default: num(l1, "z", 1); num(l2, "z", 2); num(l2, "c", 3); num(l2, "a", 4); }
        r.pack.emplace_back(l1); r.pack.emplace_back(l2); judge(o[k], *f[k], r, exp, i ? "2018-07-14 02:41:00 +0000" : "2017-07-14 02:40:00 +0000", m.str(), i ? "2018" : "2017"); sym_reach(i ? "again" : "first");
    }
}
