#include "rec.hpp"
#include "json.hpp"
#include "cfg.hpp"
#include <unistd.h>
#include <map>
#include <blackhole/formatter/json.hpp>
extern "C" pid_t getpid() noexcept { return 4242; }
extern "C" long syscall(long, ...) noexcept { return 777; }
// ---- reference layout: options -> expected tree
struct opts {
    std::vector<std::pair<std::string, std::vector<std::string>>> routes; std::string rest; std::vector<std::pair<std::string, std::string>> renames; std::vector<std::string> sev; std::string ts; bool unique = false, newline = false; std::vector<std::pair<std::string, std::string>> formats;
};
static std::vector<std::string> tokens(const std::string& p) { std::vector<std::string> r; std::size_t i = 0; while (i < p.size()) { i++; std::string t; while (i < p.size() && p[i] != '/') { if (p[i] == '~' && i + 1 < p.size()) { t += p[i + 1] == '1' ? '/' : '~'; i += 2; } else t += p[i++]; } r.push_back(t); } return r; }
static jv leaf(char t, const std::string& s) { jv v; v.t = t; v.s = s; return v; }
struct model {
    jv root; const opts& o; explicit model(const opts& o) : o(o) { root.t = 'o'; }
    const std::string& route(const std::string& n) const { for (auto& r : o.routes) for (auto& a : r.second) if (same(a, n)) return r.first; return o.rest; }
    std::string key(const std::string& n) const { for (auto& r : o.renames) if (same(r.first, n)) return r.second; return n; }
    // the object at a location; a location occupied by something else falls back to the document root
    jv& at(const std::string& ptr) { jv* v = &root; for (auto& t : tokens(ptr)) { jv* c = nullptr; for (auto& m : v->m) if (same(m.first, t)) { c = &m.second; break; } if (!c) { v->m.emplace_back(t, jv()); c = &v->m.back().second; c->t = 'o'; } if (c->t != 'o') return root; v = c; } return *v; }
    void put(const std::string& n, const jv& v, bool user) { jv& ob = at(route(n)); std::string k = key(n); if (user && o.unique && ob.count(k)) return; ob.m.emplace_back(k, v); }
};
static bool equal(const jv& a, const jv& b) {   // same members, regardless of order among different names
    if (a.t != b.t || !same(a.s, b.s) || a.m.size() != b.m.size()) return false; std::vector<char> used(b.m.size(), 0);
    for (auto& x : a.m) { bool hit = false; for (std::size_t i = 0; i < b.m.size() && !hit; i++) if (!used[i] && same(x.first, b.m[i].first) && equal(x.second, b.m[i].second)) used[i] = 1, hit = true; if (!hit) return false; } return true;
}
static bool unique_keys(const jv& v) { for (auto& m : v.m) { if (v.t == 'o' && v.count(m.first) != 1) return false; if (!unique_keys(m.second)) return false; } return true; }
static std::unique_ptr<formatter_t> by_builder(const opts& o) { builder<formatter::json_t> b; for (auto& r : o.routes) b.route(r.first, r.second); if (o.rest.size()) b.route(o.rest); for (auto& r : o.renames) b.rename(r.first, r.second); if (o.sev.size()) b.severity(o.sev); if (o.ts.size()) b.timestamp(o.ts); for (auto& f : o.formats) b.format(f.first, f.second); if (o.unique) b.unique(); if (o.newline) b.newline(); return std::move(b).build(); }
static std::string q(const std::string& s) { return "\"" + s + "\""; }
static std::unique_ptr<formatter_t> by_config(const opts& o) {
    std::string j = "{\"type\":\"json\""; if (o.unique) j += ",\"unique\":true"; if (o.newline) j += ",\"newline\":true"; j += ",\"routing\":{"; bool first = true; auto comma = [&] { if (!first) j += ','; first = false; };
    for (auto& r : o.routes) { comma(); j += q(r.first) + ":["; for (std::size_t i = 0; i < r.second.size(); i++) j += (i ? "," : "") + q(r.second[i]); j += "]"; } if (o.rest.size()) { comma(); j += q(o.rest) + ":\"*\""; } j += "},\"mapping\":{"; first = true; for (auto& r : o.renames) { comma(); j += q(r.first) + ":" + q(r.second); } j += "},\"formatting\":{"; first = true; for (auto& f : o.formats) { comma(); j += q(f.first) + ":" + q(f.second); }
    j += "},\"mutate\":{"; first = true; if (o.ts.size()) { comma(); j += "\"timestamp\":" + q(o.ts); } if (o.sev.size()) { comma(); j += "\"severity\":["; for (std::size_t i = 0; i < o.sev.size(); i++) j += (i ? "," : "") + q(o.sev[i]); j += "]"; } j += "}}"; auto c = cfg(j); return factory<formatter::json_t>().from(c->config());
}
static void judge(const opts& o, formatter_t& f, rec& r, const std::string& msg, const std::vector<std::pair<std::string, jv>>& attrs) {
    std::string out = fmt_with(f, r); jv d = document(out, o.newline); model m(o); auto fm = [&](const char* n, const jv& v) { for (auto& x : o.formats) if (same(x.first, n)) return leaf('s', x.second.substr(0, x.second.find('{')) + v.s); return v; };
    m.put("message", fm("message", leaf('s', msg)), false); m.put("lwp", fm("lwp", leaf('n', dec((std::int64_t)r.lwp))), false); m.put("thread", fm("thread", leaf('s', r.tid == 0x7f01 ? "0x7f01" : "0x7f0a02")), false); m.put("process", fm("process", leaf('n', "4242")), false);
    bool named = sym_concrete(r.sev >= 0 && (std::size_t)r.sev < o.sev.size()); m.put("severity", fm("severity", named ? leaf('s', o.sev[sym_concrete(r.sev)]) : leaf('n', dec(sym_concrete((std::uint64_t)(std::int64_t)r.sev)))), false);
    m.put("timestamp", o.ts.size() ? leaf('s', same(o.ts, "%Y") ? "2017" : std::string("2017-07-14 02:40:00.") + (r.ts % 1000000000 == 499 ? "000000" : "999999")) : leaf('n', dec(r.ts / 1000)), false); for (auto& a : attrs) m.put(a.first, fm(a.first.c_str(), a.second), true);
    CHECKM(equal(d, m.root), "every field and attribute exactly once, where it is routed, under its renamed key, with its value and type"); if (o.unique) CHECKM(unique_keys(d), "no object holds a duplicate key"); observe("out", out);
}
static void judge(const opts& o, rec& r, const std::string& msg, const std::vector<std::pair<std::string, jv>>& attrs, bool config) { auto f = config ? by_config(o) : by_builder(o); judge(o, *f, r, msg, attrs); }
// routing, renaming, unique and newline with up to two attributes (names may repeat, also across lists and with predefined fields)
static const char* const NAMES[] = {"a", "b", "message", "x", "/"};
HARNESS c12_layout() {
    opts o; static const char* const REST[] = {"", "/x", "/x/y", "/a", "/"}; o.rest = REST[sym_choice("rest", (unsigned)sym_param("rests", 5))]; bool config = sym_bool("config");
    switch (sym_choice("route", 5)) { case 1: o.routes.push_back({"/x", {"a"}}); break; case 2: o.routes.push_back({"/x/y", {"a", "message"}}); break; case 3: o.routes.push_back({"/p", {"message", "severity"}}); o.routes.push_back({"/p/q", {"b"}}); break; case 4: o.routes.push_back({"/~1~0k", {"a", "timestamp"}}); break; }
    switch (sym_choice("rename", 4)) { case 1: o.renames.push_back({"a", "b"}); break; case 2: o.renames.push_back({"message", "msg"}); o.renames.push_back({"b", "x"}); break; case 3: o.renames.push_back({"b", "message"}); break; }
    o.unique = sym_bool("unique"); o.newline = sym_bool("newline"); if (!config || !o.newline) sym_assume(config == o.newline); unsigned n = sym_choice("attrs", 3), nn = (unsigned)sym_param("names", 4); block v("v", 1); std::vector<std::string> nm; std::vector<std::pair<std::string, jv>> exp; attribute_list l1, l2; for (unsigned i = 0; i < n; i++) nm.push_back(NAMES[sym_choice("name", nn)]);
    bool split = n == 2 && sym_bool("split"); for (unsigned i = 0; i < n; i++) { (split && i ? l2 : l1).emplace_back(string_view(nm[i]), i ? view_t(string_view(v.p, 1)) : view_t(11)); exp.push_back({nm[i], i ? leaf('s', v.str()) : leaf('n', "11")}); }
    rec r("M", 1); r.sev = 3; r.pack.emplace_back(l1); if (split) r.pack.emplace_back(l2); judge(o, r, "M", exp, config); sym_reach(o.unique ? "unique" : "all");
}
// mutations and formatting
HARNESS c12_mutation() {
    opts o; rec r("M", 1); bool config = sym_bool("config"); if (sym_bool("sevmap")) o.sev = {"D", "I", "W"}; if (sym_bool("ts")) o.ts = sym_bool("usec") ? "%Y" : "%Y-%m-%d %H:%M:%S.%f", r.ts = sym_bool("late") ? 1500000000999999999ll : 1500000000000000499ll; if (sym_bool("route")) o.routes.push_back({"/meta", {"severity", "timestamp", "process"}}); if (sym_bool("rename")) { o.renames.push_back({"severity", "level"}); o.renames.push_back({"timestamp", "when"}); o.renames.push_back({"process", "pid"}); }
    if (sym_bool("fmt")) { o.formats.push_back({"message", "m{}"}); if (o.sev.empty()) o.formats.push_back({"severity", "s{}"}); o.formats.push_back({"lwp", "l{}"}); o.formats.push_back({"thread", "t{}"}); o.formats.push_back({"k", "k{}"}); }
    r.sev = (int)sym_range("sev", 0, 9) - 3; if (sym_bool("extreme")) { sym_assume(r.sev == 2 || r.sev == 6); r.sev = r.sev == 2 ? 2147483647 : -2147483647 - 1; } attribute_list l{{"k", view_t(7)}, {"severity", view_t(8)}}; sym_assume(true); r.pack.emplace_back(l);
    std::vector<std::pair<std::string, jv>> exp{{"k", leaf('n', "7")}, {"severity", leaf('n', "8")}}; judge(o, r, "M", exp, config); sym_reach("done");
}
// any name: routed, renamed and formatted under exactly that name
HARNESS c12_names() {
    block n("n", sym_choice("nl", (unsigned)sym_param("len", 2) + 1)), t("t", sym_choice("tl", 2)); bool route = sym_bool("route"), rename = sym_bool("rename"), format = sym_bool("format"), rest = sym_bool("rest"), uniq = sym_bool("unique"); builder<formatter::json_t> b; if (rest) b.route("/rest"); if (route) b.route("/p", {n.str()}); if (rename) b.rename(n.str(), t.str()); if (format) b.format(n.str(), "<{}>"); if (uniq) b.unique();
    attribute_list l{{string_view(n.p, n.n), view_t(5)}}; rec r("M", 1); r.pack.emplace_back(l); auto f = std::move(b).build(); std::string out = fmt_with(*f, r); jv d = document(out, false); const jv& w = rest ? member(d, "rest") : d; const jv& at = route ? member(d, "p") : w; const jv& v = member(at, rename ? t.str() : n.str());
    if (format) CHECKM(v.t == 's' && v.s == "<5>", "formatted as that name asks"); else is_num(v, 5); CHECKM(w.m.size() == 6u + !route + (route && !rest), "the rest as it was"); if (route) CHECKM(at.m.size() == 1, "nothing else routed"); CHECKM(member(w, "message").s == "M", "the message"); observe("out", out); sym_reach(n.n ? "named" : "empty");
}
// the most recent attribute of a name wins: call-site before scopes, earlier lists before later ones
HARNESS c12_recent() {
    opts o; o.unique = true; o.rest = sym_bool("rest") ? "/f" : ""; block n1("n1", 1), n2("n2", 1), n3("n3", 1); for (auto b : {&n1, &n2, &n3}) sym_assume((unsigned char)(b->p[0] - 'a') < 3); attribute_list a{{string_view(n1.p, 1), view_t(1)}, {string_view(n2.p, 1), view_t(2)}}, b{{string_view(n3.p, 1), view_t(3)}}; rec r("M", 1); r.pack.emplace_back(a); r.pack.emplace_back(b);
    auto f = by_builder(o); std::string out = fmt_with(*f, r); jv d = document(out, false); const jv& w = o.rest.size() ? member(d, "f") : d; bool d2 = !same(n2.str(), n1.str()), d3 = !same(n3.str(), n1.str()) && !same(n3.str(), n2.str()); is_num(member(w, n1.str()), 1); if (d2) is_num(member(w, n2.str()), 2); if (d3) is_num(member(w, n3.str()), 3); CHECKM(w.m.size() == 6 + 1 + d2 + d3, "each name once"); CHECKM(unique_keys(d), "no duplicate key"); observe("out", out); sym_reach(d2 && d3 ? "distinct" : "merged");
}
// invalid routes are refused when the formatter is built
HARNESS c12_invalid() { std::string p(sym_choice("n", 4), 0); if (p.size()) sym_bytes(&p[0], p.size(), "p"); for (char c : p) sym_assume(c != 0 && (unsigned char)c < 0x80); bool rest = sym_bool("rest"); bool threw = false; std::unique_ptr<formatter_t> f; builder<formatter::json_t> b; if (rest) b.route(p); else b.route(p, {"a"}); try { f = std::move(b).build(); } catch (const std::invalid_argument&) { threw = true; }
    if (threw) { CHECKM(!(p.empty() || (p[0] == '/' && p.find('~') == std::string::npos)), "a valid pointer is accepted"); sym_reach("refused"); return; } rec r("M", 1); attribute_list l{{"a", view_t(1)}}; r.pack.emplace_back(l); jv d = document(fmt_with(*f, r), false);
    if (p.empty() || p[0] == '/') { const jv* v = &d; for (auto& t : tokens(p)) v = &(v->t == 'a' ? v->m.at((std::size_t)std::stoi(t)).second : member(*v, t)); is_num(member(*v, "a"), 1); if (rest) is_str(member(*v, "message"), "M"); } sym_reach("accepted"); }

// a numeric token makes an array; a later name below it must not destroy what is already there
HARNESS c12_array() { opts o; bool first = sym_bool("first"); builder<formatter::json_t> b; b.route("/x/0", {first ? "message" : "a"}); b.route("/x/k"); auto f = std::move(b).build(); rec r("M", 1); block v("v", 1); attribute_list l{{"a", view_t(string_view(v.p, 1))}, {"b", view_t(2)}}; r.pack.emplace_back(l); jv d = document(fmt_with(*f, r), false); const jv& x = member(d, "x");
    if (first) { CHECKM(x.t == 'a' && x.m.size() == 1, "one element"); is_str(member(x.m[0].second, "message"), "M"); is_str(member(d, "a"), v.str()); is_num(member(d, "b"), 2); is_num(member(d, "process"), 4242); } else { is_str(member(member(x, "0"), "a"), v.str()); is_str(member(member(x, "k"), "message"), "M"); is_num(member(member(x, "k"), "b"), 2); } sym_reach("done"); }

// one record after another through formatters with different options: each document is that of its own record
HARNESS c12_twice() {
    opts o[4]; o[1].rest = "/r"; o[1].routes.push_back({"/p", {"a", "severity"}}); o[1].unique = true; o[1].ts = "%Y"; o[2].renames.push_back({"a", "b"}); o[2].renames.push_back({"message", "msg"}); o[2].unique = true; o[2].newline = true; o[2].sev = {"D", "I"}; o[3].rest = "/r/s"; o[3].routes.push_back({"/r", {"b"}}); o[3].formats.push_back({"message", "m{}"});
    unsigned rounds = (unsigned)sym_param("rounds", 2), kinds = (unsigned)sym_param("kinds", 4), shapes = (unsigned)sym_param("shapes", 5); bool config = sym_bool("config"); std::unique_ptr<formatter_t> f[4]; for (unsigned i = 0; i < kinds; i++) f[i] = config ? by_config(o[i]) : by_builder(o[i]);
    for (unsigned i = 0; i < rounds; i++) {
        unsigned k = sym_choice("formatter", kinds), w = sym_choice("record", shapes); block m("m", w == 3 ? 2 : 1), v("v", 1); for (auto b : {&m, &v}) for (unsigned j = 0; j < b->n; j++) sym_assume((unsigned char)(b->p[j] - 'a') < 26); attribute_list l1, l2; std::vector<std::pair<std::string, jv>> exp; rec r(m.p, m.n); r.sev = (int)(i + w); if (i) { r.lwp = 778; r.tid = 0x7f0a02; r.ts += 1000000; }
        auto num = [&](attribute_list& l, const char* n, int x) { l.emplace_back(string_view(n, strlen(n)), view_t(x)); exp.push_back({n, leaf('n', dec(x))}); };
        switch (w) { case 0: break; case 1: num(l1, "a", 41); break; case 2: num(l1, "b", 1); num(l1, "a", 2); num(l2, "b", 3); break; case 3: l1.emplace_back("a", view_t(string_view(v.p, 1))); exp.push_back({"a", leaf('s', v.str())}); num(l2, "z", 5); break; default: num(l1, "z", 1); num(l2, "z", 2); num(l2, "a", 3); num(l2, "a", 4); }
        r.pack.emplace_back(l1); r.pack.emplace_back(l2); judge(o[k], *f[k], r, m.str(), exp); sym_reach(i ? "again" : "first");
    }
}
// many attributes, with a repeated name anywhere among them
HARNESS c12_many() {
    opts o; o.unique = sym_bool("unique"); if (sym_bool("route")) { o.routes.push_back({"/x", {"n3", "n17", "n33"}}); o.rest = "/y"; } unsigned n = (unsigned)sym_param("n", 36), split = (unsigned)sym_range("split", 0, 2) * (n / 2), a = sym_choice("a", n), b = (unsigned)sym_param("near", 0) ? (a + 1) % n : (a * 7 + 5) % n; std::vector<std::string> nm; for (unsigned i = 0; i < n; i++) nm.push_back("n" + dec(i)); nm[b] = nm[a];
    attribute_list l1, l2; std::vector<std::pair<std::string, jv>> exp; for (unsigned i = 0; i < n; i++) { (i < split ? l1 : l2).emplace_back(string_view(nm[i]), view_t(i)); exp.push_back({nm[i], leaf('n', dec(i))}); } rec r("M", 1); r.pack.emplace_back(l1); r.pack.emplace_back(l2); judge(o, r, "M", exp, false); sym_reach(o.unique ? "unique" : "all");
}
