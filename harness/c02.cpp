#include "sym.h"
#include "ref.hpp"
#include <blackhole/attribute.hpp>
#include <blackhole/attributes.hpp>
#include <blackhole/extensions/facade.hpp>
#include <blackhole/handler.hpp>
#include <blackhole/logger.hpp>
#include <blackhole/message.hpp>
#include <blackhole/record.hpp>
#include <blackhole/root.hpp>
#include <vector>
using namespace blackhole;
static std::int64_t g_now; static int g_nowcalls;
std::chrono::system_clock::time_point std::chrono::system_clock::now() noexcept { g_nowcalls++; return time_point(duration(g_now)); }
struct seen { std::string msg, fmtd; int sev; std::int64_t ts; std::size_t natt; bool active; };
static std::vector<seen> g_seen;
static std::string sv(const string_view& v) { return v.size() ? std::string(v.data(), v.size()) : std::string(); }
struct hstub : handler_t { void handle(const record_t& r) override {
    std::size_t n = 0; for (const auto& l : r.attributes()) n += l.get().size();
    g_seen.push_back({sv(r.message()), sv(r.formatted()), (int)r.severity(), (std::int64_t)r.timestamp().time_since_epoch().count(), n, r.is_active()}); } };
struct env {
    int sev, thr, fcalls = 0; std::int64_t now; bool acc; std::unique_ptr<root_logger_t> log;
    env() {
        sev = (int)sym_int("sev", 32); thr = (int)sym_int("thr", 32); now = (std::int64_t)sym_int("now", 64); sym_assume(now != 0); g_now = now; g_nowcalls = 0; g_seen.clear();
        std::vector<std::unique_ptr<handler_t>> hs; hs.emplace_back(new hstub);
        log.reset(new root_logger_t([this](const record_t& r) { fcalls++; CHECKM(!r.is_active() && g_nowcalls == 0, "the clock is read only after acceptance"); return (int)r.severity() >= thr; }, std::move(hs)));
        acc = sev >= thr;
    }
    void done(const std::string& msg, const std::string& text, std::size_t natt) {
        CHECKM(fcalls == 1, "one verdict per record");
        if (!acc) { CHECKM(g_seen.empty(), "rejected record not handled"); CHECKM(g_nowcalls == 0, "rejected record not timestamped"); sym_reach("rejected"); return; }
        CHECKM(g_seen.size() == 1, "accepted record handled once"); const seen& s = g_seen[0];
        CHECKM(same(s.msg, msg), "message() is the original pattern"); CHECKM(same(s.fmtd, text), "formatted() is the produced text");
        CHECKM(s.sev == sev, "severity"); CHECKM(s.active && s.ts == now, "timestamp is that of the clock after acceptance"); CHECKM(s.natt == natt, "attributes visible");
        observe("formatted", s.fmtd); sym_reach("accepted");
    }
};
HARNESS c02_plain() {
    env e; block m("m", sym_choice("len", 4)); unsigned kind = sym_choice("kind", 3); attribute_list al{{"k", attribute::view_t(1)}};
    if (kind == 0) e.log->log(e.sev, string_view(m.p, m.n)); else if (kind == 1) { attribute_pack p{al}; e.log->log(e.sev, string_view(m.p, m.n), p); } else { logger_facade<root_logger_t> f(*e.log); f.log(e.sev, string_view(m.p, m.n), al); }
    e.done(m.str(), m.str(), kind ? 1 : 0);
}
HARNESS c02_lazy() {
    env e; block m("m", sym_choice("len", 3)), t("t", sym_choice("tlen", 4)); bool none = sym_bool("nothing"); int calls = 0;
    lazy_message_t lm{string_view(m.p, m.n), [&]() -> string_view { calls++; CHECKM(g_nowcalls == 0, "timestamp taken after the message is produced"); return none ? string_view() : string_view(t.p, t.n); }};
    attribute_pack p; e.log->log(e.sev, lm, p);
    CHECKM(calls == (e.acc ? 1 : 0), "the supplier runs exactly once for an accepted record and never for a rejected one");
    e.done(m.str(), none ? m.str() : t.str(), 0);
}
// facade: literal text around placeholders, argument values symbolic, pattern not NUL-terminated
static void lit(std::string& s, const char* name, unsigned n) { for (unsigned i = 0; i < n; i++) { unsigned char c = (unsigned char)sym_int(name, 8); sym_assume(c != '{' && c != '}' && c != 0); s.push_back((char)c); } }
HARNESS c02_facade() {
    env e; unsigned k = (unsigned)sym_param("lit", 1); std::string p, x; unsigned n0 = sym_choice("n0", k + 1), n1 = sym_choice("n1", k + 1), n2 = sym_choice("n2", k + 1);
    std::int32_t i = (std::int32_t)sym_int("i", 32); block s("s", sym_choice("slen", 3)); bool attrs = sym_bool("attrs"), esc = sym_bool("esc");
    if (sym_param("small", 1)) sym_assume(i > -1000 && i < 1000);
    lit(p, "L0", n0); x = p; p += "{}"; x += dec(i); std::string l1; lit(l1, "L1", n1); p += l1; x += l1; if (esc) { p += "{{}}"; x += "{}"; } p += "{}"; x += s.str(); std::string l2; lit(l2, "L2", n2); p += l2; x += l2;
    block b(p); logger_facade<root_logger_t> f(*e.log); std::string arg = s.str(); attribute_list al{{"k", attribute::view_t(1)}, {"l", attribute::view_t(true)}};
    if (attrs) f.log(e.sev, string_view(b.p, b.n), i, arg, al); else f.log(e.sev, string_view(b.p, b.n), i, arg);
    e.done(p, x, attrs ? 2 : 0);
}
// a pattern parsed at compile time
HARNESS c02_meta() {
    env e; block s("s", sym_choice("slen", 3)); std::string arg = s.str(); logger_facade<root_logger_t> f(*e.log); std::int32_t i = (std::int32_t)sym_choice("i", 20) - 10;
    if (sym_bool("two")) { constexpr detail::formatter<detail::literal_count("a{}b{}")> p("a{}b{}"); f.log(e.sev, p, arg, i); e.done("a{}b{}", "a" + arg + "b" + dec(i), 0); } else { constexpr detail::formatter<detail::literal_count("{}")> p("{}"); f.log(e.sev, p, arg); e.done("{}", arg, 0); }
}
HARNESS c02_facade64() {
    env e; std::uint64_t u = sym_int("u", 64); std::int64_t i = (std::int64_t)sym_int("i", 64); bool which = sym_bool("which");
    block b(std::string("v={}")); logger_facade<root_logger_t> f(*e.log); 
    if (which) f.log(e.sev, string_view(b.p, b.n), u); else f.log(e.sev, string_view(b.p, b.n), i);
    if (!e.acc) { CHECKM(g_seen.empty(), "rejected"); return; }
    CHECKM(g_seen.size() == 1, "handled once"); const std::string& t = g_seen[0].fmtd; CHECKM(t.size() > 2 && t[0] == 'v' && t[1] == '=', "literal");
    CHECKM(which ? is_dec_u(t.data() + 2, t.size() - 2, u) : is_dec(t.data() + 2, t.size() - 2, i), "integer argument text"); sym_reach("ok"); observe("t", t);
}
// arguments are taken by reference and rendered only if accepted: a user type counts its renderings
struct counted { int v; }; static int g_render;
static std::ostream& operator<<(std::ostream& o, const counted& c) { g_render++; return o << c.v; }
HARNESS c02_laziness() {
    env e; g_render = 0; counted c{7}; logger_facade<root_logger_t> f(*e.log); bool attrs = sym_bool("attrs");
    if (attrs) f.log(e.sev, "c={}", c, attribute_list{{"k", attribute::view_t(1)}}); else f.log(e.sev, "c={}", c);
    CHECKM(g_render == (e.acc ? 1 : 0), "arguments rendered once if accepted, never if rejected"); e.done("c={}", "c=7", attrs ? 1 : 0);
}
// log calls made while another one is in progress on the same thread (by a handler, by an argument being rendered, by a supplier), and further calls after it
static root_logger_t* g_second; static unsigned g_how; static std::vector<std::string> g_texts;
struct chatty { int v; }; static std::ostream& operator<<(std::ostream& o, const chatty& c);
static const attribute_list& some_attr() { static attribute_list al{{"k", attribute::view_t(1)}}; return al; }
static unsigned g_via; static std::string g_in;
// the same call as the outer one (same argument types, so the same instantiation), with other values
static void one(root_logger_t& log, unsigned via, int sev, const string_view& pat, const std::string& arg, int n, bool nest);
static void log_inside() { static int depth = 0; if (depth) return; depth++; g_in = "in"; one(*g_second, g_via, 1, "in {} {}", g_in, 7, false); depth--; }
struct nester : handler_t { bool outer; explicit nester(bool o) : outer(o) {} void handle(const record_t& r) override { if (outer && g_how == 0) log_inside(); g_texts.push_back(sv(r.formatted())); } };
static std::ostream& operator<<(std::ostream& o, const chatty& c) { if (g_how == 1 && c.v == 42) log_inside(); return o << c.v; }
static void one(root_logger_t& log, unsigned via, int sev, const string_view& pat, const std::string& arg, int n, bool nest) {
    logger_facade<root_logger_t> f(log);
    switch (via) {
    case 0: f.log(sev, pat, arg, chatty{n}); break;
    case 1: f.log(sev, pat, arg, chatty{n}, some_attr()); break;
    case 2: { constexpr detail::formatter<detail::literal_count("on {} {}")> p("on {} {}"); f.log(sev, p, arg, n); break; }
    default: { attribute_pack pk; std::string text = std::string(nest ? "out " : "in ") + arg + " " + dec(n); lazy_message_t lm{string_view("x"), [&]() -> string_view { if (nest && g_how == 2) log_inside(); return string_view(text.data(), text.size()); }}; log.log(sev, lm, pk); }
    }
}
HARNESS c02_nested() {
    g_now = 1; g_how = sym_choice("how", 4); unsigned via = g_via = sym_choice("via", 4); bool same_logger = sym_bool("same"); block s("s", sym_choice("slen", 3)); std::string arg = s.str(); g_texts.clear();
    std::vector<std::unique_ptr<handler_t>> a, b; a.emplace_back(new nester(true)); b.emplace_back(new nester(false)); root_logger_t la(std::move(a)), lb(std::move(b)); g_second = same_logger ? &la : &lb;
    for (int round = 0; round < 2; round++) {
        g_texts.clear(); one(la, via, 0, "out {} {}", arg, 42, true);
        bool inside = g_how == 0 || (g_how == 1 && via < 2) || (g_how == 2 && via == 3);
        CHECKM(g_texts.size() == (inside ? 2u : 1u), "each record handled once"); if (inside) CHECKM(same(g_texts[0], via == 2 ? "on in 7" : "in in 7"), "the record logged inside"); CHECKM(same(g_texts.back(), std::string(via == 2 ? "on " : "out ") + arg + " 42"), "the outer record's own text"); sym_reach(inside ? "inside" : "plain");
    }
}
