#include "rec.hpp"
#include "cfg.hpp"
#include <unistd.h>
#include <blackhole/formatter/string.hpp>
static int g_pid = 4242; static long g_lwp = 777;
extern "C" pid_t getpid() noexcept { return g_pid; }
extern "C" long syscall(long n, ...) noexcept { if (n == 186) return g_lwp; return -1; }
static const char* g_names[] = {"fifteen-chars-x", nullptr, "", "w2", "renamed"};
static int g_name;     // behaviour of pthread_getname_np
extern "C" int pthread_getname_np(pthread_t t, char* b, size_t n) noexcept { CHECKM((unsigned long)t == 0x7f01, "the record's thread is queried"); CHECKM(n >= 16, "room for a thread name"); if (g_name == 1) return 2; memcpy(b, g_names[g_name], strlen(g_names[g_name]) + 1); return 0; }
static std::unique_ptr<formatter_t> mk(const std::string& p) { return builder<formatter::string_t>(p).build(); }
static void expect(formatter_t& f, rec& r, const std::string& want, const char* what) { bool threw; std::string got = fmt_with(f, r, &threw); CHECKM(!threw, "an available placeholder renders"); CHECKM(same(got, want), what); observe("out", got); }
HARNESS c07_message() {
    static const char* const P[] = {"{message}", "a{message}b", "{message}{message}", "{message:s}", "{{{message}}}", "<{message:<6}>", "<{message:>6s}>", "<{message:*^6}>", "<{message:.2s}>", "{message:4}|{message:.1}"};
    unsigned w = sym_choice("p", 10); block m("m", sym_choice("n", (unsigned)sym_param("len", 4) + 1)); std::string s = m.str(), x; auto pad = [](std::string t, std::size_t n) { while (t.size() < n) t.push_back(' '); return t; };
    auto lead = [](std::string t, std::size_t n) { std::string q; while (q.size() + t.size() < n) q.push_back(' '); return q + t; };
    switch (w) { case 0: case 3: x = s; break; case 1: x = "a" + s + "b"; break; case 2: x = s + s; break; case 4: x = "{" + s + "}"; break; case 5: x = "<" + pad(s, 6) + ">"; break; case 6: x = "<" + lead(s, 6) + ">"; break;
        case 7: { std::size_t k = s.size() < 6 ? 6 - s.size() : 0; x = "<" + std::string(k / 2, '*') + s + std::string(k - k / 2, '*') + ">"; break; } case 8: x = "<" + s.substr(0, 2) + ">"; break; default: x = pad(s, 4) + "|" + s.substr(0, 1); }
    rec r(m.p, m.n); expect(*mk(P[w]), r, x, "the message is rendered exactly as given, literals unchanged"); sym_reach(m.n ? "text" : "empty");
}
// generic placeholders: one attribute of each type, looked up by name
HARNESS c07_attribute() {
    unsigned k = sym_choice("kind", 8); bool opt = sym_bool("optional"); block s("s", k == 5 || k == 7 ? sym_choice("n", (unsigned)sym_param("len", 3) + 1) : 0); shown sh{7, s.p, s.n}; std::int64_t i = 0; std::uint64_t u = 0; view_t v; std::string x; bool b = false;
    bool full = sym_param("full", 0); if (k == 2) i = (std::int64_t)(full ? sym_int("i", 64) : sym_range("i", 0, 1999) - 1000); if (k == 3) u = full ? sym_int("u", 64) : ~sym_range("u", 0, 999) ; if (k == 1) b = sym_bool("b");
    switch (k) { case 0: v = view_t(nullptr); x = "none"; break; case 1: v = view_t(b); x = b ? "true" : "false"; break; case 2: v = view_t(i); break; case 3: v = view_t(u); break; case 4: v = view_t(2.5); x = "2.5"; break; case 5: v = view_t(string_view(s.p, s.n)); x = s.str(); break; case 6: v = view_t(-0.0); x = "-0"; break; default: v = view_t(sh); x = s.str(); }
    if (opt) sym_assume(k == 5 || k == 7);
    attribute_list l{{"other", view_t(1)}, {"aa", view_t(2)}, {"a", v}, {"a", view_t(3)}}; rec r("m", 1); r.pack.emplace_back(l); auto f = mk(opt ? "[{a:{none:default}s}]" : "[{a}]");
    std::string got = fmt_with(*f, r); CHECKM(got.size() >= 2 && got[0] == '[' && got[got.size() - 1] == ']', "literals around"); 
    if (k == 2) CHECKM(is_dec(got.data() + 1, got.size() - 2, i), "signed attribute in decimal"); else if (k == 3) CHECKM(is_dec_u(got.data() + 1, got.size() - 2, u), "unsigned attribute in decimal"); else CHECKM(same(got, "[" + x + "]"), "attribute rendered exactly as given");
    observe("out", got); sym_reach("found");
}
HARNESS c07_absent() {
    unsigned w = sym_choice("p", 6); attribute_list l{{"ab", view_t(1)}, {"", view_t(2)}, {"A", view_t(3)}}; rec r("m", 1); bool has = sym_bool("attrs"); if (has) r.pack.emplace_back(l);
    static const char* const P[] = {"x{a}y", "x{a:d}y", "x{a:{dflt:default}s}y", "x{a:{-12:default}d}y", "x{a:{1.5:default}.2f}y", "x{a:{:default}s}y"}; static const char* const X[] = {nullptr, nullptr, "xdflty", "x-12y", "x1.50y", "xy"};
    auto f = mk(P[w]); bool threw; std::string got = fmt_with(*f, r, &threw);
    if (!X[w]) { CHECKM(threw, "a required attribute that is absent raises an error"); sym_reach("raised"); } else { CHECKM(!threw && same(got, X[w]), "an optional attribute that is absent yields its default"); sym_reach("default"); observe("out", got); }
}
// names: exact match, first occurrence in the pack's order
HARNESS c07_lookup() {
    block n1("n1", 1 + sym_choice("l1", 2)), n2("n2", 1 + sym_choice("l2", 2)); attribute_list a{{string_view(n1.p, n1.n), view_t("first")}}, b{{string_view(n2.p, n2.n), view_t("second")}, {"kk", view_t("third")}}; rec r("m", 1); r.pack.emplace_back(a); r.pack.emplace_back(b);
    const char* want = same(n1.str(), "kk") ? "first" : same(n2.str(), "kk") ? "second" : "third"; expect(*mk("{kk}"), r, want, "the attribute of that exact name that comes first is rendered"); sym_reach(want);
}
HARNESS c07_severity() {
    unsigned w = sym_choice("p", 3); int sev = (int)sym_int("sev", 32); rec r("m", 1); r.sev = sev; std::string got;
    if (w == 0) got = fmt_with(*mk("{severity}"), r); else if (w == 1) got = fmt_with(*mk("{severity:d}"), r);
    else { int seen = 0; std::string spec; int calls = 0; auto f = builder<formatter::string_t>("<{severity:>4s}|{severity:d}>").mapping([&](int s, const std::string& sp, writer_t& wr) { seen = s; spec = sp; calls++; wr.write(sp, "N"); }).build(); got = fmt_with(*f, r);
        CHECKM(calls == 1 && seen == sev && same(spec, "{:>4s}"), "the mapping receives the severity and the specification once"); CHECKM(got.size() > 6 && same(got.substr(0, 6), "<   N|"), "what the mapping writes is output in place"); got = got.substr(6, got.size() - 7); }
    CHECKM(is_dec32(got.data(), got.size(), sev), "severity as a number"); observe("out", got); sym_reach("done");
}
// severity names from configuration
HARNESS c07_sevmap() {
    int sev = (int)sym_int("sev", 32); bool num = sym_bool("num"); auto c = cfg(std::string("{\"pattern\":\"") + (num ? "{severity:d}" : "{severity}") + "\",\"sevmap\":[\"DEBUG\",\"I\",\"WARN\"]}"); auto f = factory<formatter::string_t>().from(c->config());
    rec r("m", 1); r.sev = sev; std::string got = fmt_with(*f, r); static const char* const N[] = {"DEBUG", "I", "WARN"};
    if (!num && sym_concrete(sev >= 0 && sev < 3)) { CHECKM(same(got, N[sym_concrete(sev)]), "configured severity name"); sym_reach("named"); } else { CHECKM(is_dec32(got.data(), got.size(), sev), "severity without a name as a number"); sym_reach("number"); }
    observe("out", got);
}
HARNESS c07_ids() {
    unsigned w = sym_choice("p", 6); g_pid = (int)(sym_int("pid", 32) & 0x3fffff); g_lwp = (long)(sym_int("lwp", 32) & 0x3fffff); rec r("m", 1); r.tid = sym_int("tid", 64); r.lwp = sym_bool("owned") ? 1 + (sym_int("own", 32) & 0x3fffff) : 0;     // owned records remember it, others are read on their thread
    static const char* const P[] = {"{process}", "{process:d}", "{thread:d}", "{thread}", "{thread:x}", "{thread:#x}"}; std::string got = fmt_with(*mk(P[w]), r);
    switch (w) { case 0: case 1: CHECKM(is_dec(got.data(), got.size(), g_pid), "process id"); break; case 2: CHECKM(is_dec_u(got.data(), got.size(), r.lwp ? r.lwp : (std::uint64_t)g_lwp), "kernel thread id"); break;
        case 4: CHECKM(is_hex(got.data(), got.size(), r.tid), "thread handle in hex"); break; default: CHECKM(got.size() > 2 && got[0] == '0' && got[1] == 'x' && is_hex(got.data() + 2, got.size() - 2, r.tid), "thread handle in hex, with prefix"); }
    observe("out", got); sym_reach("done");
}
HARNESS c07_names() {
    unsigned w = sym_choice("p", 2); g_name = sym_choice("name", 3); rec r("m", 1); 
    if (w) { std::string got = fmt_with(*mk("{process:s}"), r); CHECKM(same(got, program_invocation_short_name), "process name"); }
    else expect(*mk("[{thread:s}]"), r, g_name == 0 ? "[fifteen-chars-x]" : g_name == 1 ? "[<unnamed>]" : "[]", "thread name");
    sym_reach("done");
}
// leftover placeholder: every user attribute once, in the pack's order
HARNESS c07_leftover() {
    static const char* const P[] = {"{...}", "<{...:s}>", "{...:{{name}={value}:p}s}", "{...:{{value}:p}{; :s}s}", "{...:{ | :s}s}", "{...:{[{name:<4s}{value:>3s}]:p}{:s}s}", "{...:{{{{name}}}:p}s}", "{...:>20s}"};
    unsigned w = sym_choice("p", 8), lists = sym_choice("lists", 3); std::vector<block*> bs; std::vector<std::pair<std::string, std::string>> as; std::vector<attribute_list> ls(lists); rec r("m", 1);
    for (unsigned i = 0; i < lists; i++) { unsigned n = sym_choice("attrs", 3); for (unsigned j = 0; j < n; j++) { block* a = new block("n", 1 + (j & 1)); block* v = new block("v", 2 * (i & 1) + (1 - j)); bs.push_back(a); bs.push_back(v); as.emplace_back(a->str(), v->str()); ls[i].emplace_back(string_view(a->p, a->n), view_t(string_view(v->p, v->n))); } r.pack.emplace_back(ls[i]); }
    std::string x, sep = w == 3 ? "; " : w == 4 ? " | " : w == 5 ? "" : ", "; auto padr = [](std::string t, std::size_t n) { while (t.size() < n) t.push_back(' '); return t; }; auto padl = [](std::string t, std::size_t n) { std::string q; while (q.size() + t.size() < n) q.push_back(' '); return q + t; };
    for (std::size_t i = 0; i < as.size(); i++) { if (i) x += sep; const auto& n = as[i].first; const auto& v = as[i].second;
        switch (w) { case 2: x += n + "=" + v; break; case 3: x += v; break; case 5: x += "[" + padr(n, 4) + padl(v, 3) + "]"; break; case 6: x += "{" + n + "}"; break; default: x += n + ": " + v; } }
    if (w == 1) x = "<" + x + ">"; if (w == 7) { sym_assume(!as.empty()); x = padl(x, 20); }
    expect(*mk(P[w]), r, x, "each attribute is rendered once, in order, with the pattern and separator"); sym_reach(as.size() > 2 ? "many" : as.empty() ? "none" : "few"); for (auto b : bs) delete b;
}
// several placeholders in one pattern: each in its place
HARNESS c07_mixed() {
    block m("m", 2), v("v", 2), c("c", 1); std::string lit = c.str(); sym_assume(lit[0] != '{' && lit[0] != '}'); attribute_list l{{"k", view_t(string_view(v.p, v.n))}}; rec r(m.p, m.n); r.pack.emplace_back(l); r.sev = 3;
    expect(*mk(lit + "{severity}" + lit + "[{message}]" + lit + lit + "{k}{k}" + lit + "{...}" + lit), r, lit + "3" + lit + "[" + m.str() + "]" + lit + lit + v.str() + v.str() + lit + "k: " + v.str() + lit, "each placeholder in its place"); sym_reach("done");
}
// output larger than the inline buffers (500 bytes) is complete
HARNESS c07_long() {
    unsigned n = 480 + 4 * sym_choice("n", 12), at = sym_choice("where", 3); block b(std::string(n, 'x')); sym_bytes(b.p, 2, "head"); sym_bytes(b.p + n - 2, 2, "tail"); std::string s = b.str(); rec r(at == 0 ? b.p : "m", at == 0 ? n : 1);
    attribute_list l{{"k", view_t(string_view(b.p, b.n))}}; r.pack.emplace_back(l);
    if (at == 0) expect(*mk("abc{message}def"), r, "abc" + s + "def", "long message"); else if (at == 1) expect(*mk("abc{k}def{k}"), r, "abc" + s + "def" + s, "long attribute"); else expect(*mk("abc{...}def"), r, "abck: " + s + "def", "long leftover"); sym_reach("done");
}
// one record after another, through one formatter or two: nothing of an earlier record shows in a later one, although threads are renamed, processes fork and attributes come and go
HARNESS c07_twice() {
    std::unique_ptr<formatter_t> f[] = {mk("{thread:s} {process} {thread:d} {severity} {message} {a:{-1:default}d} {...}"), mk("{...:{{value}:p}{;:s}s} {a:{0:default}d} {message:<4} {thread:d} {thread:s} {process:d}"), mk("{message}{message}{a:{77:default}d}")};
    unsigned rounds = (unsigned)sym_param("rounds", 2), kinds = (unsigned)sym_param("kinds", 3), shapes = (unsigned)sym_param("shapes", 4);
    for (unsigned i = 0; i < rounds; i++) {
        unsigned k = sym_choice("formatter", kinds), w = sym_choice("record", shapes); block m("m", w & 1 ? 2 : 1), v("v", w & 1); attribute_list l1, l2; rec r(m.p, m.n); std::string M = m.str(), a = "", left; const char* sep = k == 0 ? ", " : ";";
        auto add = [&](attribute_list& l, const char* n, view_t x, const std::string& t) { l.emplace_back(string_view(n, strlen(n)), x); if (!left.empty()) left += sep; left += k == 0 ? n + (": " + t) : t; };
        r.sev = (int)(i + 3 * w); g_name = i ? (int)sym_choice("name", 5) : 0; g_pid = 4242 + (i && sym_bool("forked")); r.lwp = i && sym_bool("thread") ? 778 : 777; std::string none = k == 0 ? "-1" : k == 1 ? "0" : "77";
        switch (w) { case 0: a = none; break; case 1: add(l1, "a", view_t(41), "41"); a = "41"; break; case 2: add(l1, "b", view_t(true), "true"); add(l2, "a", view_t(7), "7"); a = "7"; break; default: add(l1, "s", view_t(string_view(v.p, v.n)), v.str()); add(l1, "a", view_t(5), "5"); add(l2, "a", view_t(6), "6"); a = "5"; }
        r.pack.emplace_back(l1); r.pack.emplace_back(l2); std::string name = g_name == 1 ? "<unnamed>" : g_names[g_name], pid = dec(g_pid), lwp = dec((std::int64_t)r.lwp), want = k == 0 ? name + " " + pid + " " + lwp + " " + dec(r.sev) + " " + M + " " + a + " " + left : k == 1 ? left + " " + a + " " + M + std::string(4 - M.size(), ' ') + " " + lwp + " " + name + " " + pid : M + M + a;
        bool threw; std::string got = fmt_with(*f[k], r, &threw); CHECKM(!threw, "an available placeholder renders"); CHECKM(same(got, want), "each rendering is that of its own record, whatever was rendered before"); sym_reach(i ? "again" : "first");
    }
}
