#include "rec.hpp"
#include "cfg.hpp"
#include <blackhole/registry.hpp>
#include <blackhole/severity.hpp>
#include <blackhole/sink.hpp>
#include <blackhole/sink/console.hpp>
#include <blackhole/termcolor.hpp>
extern std::string& rt_console(int) __asm__("rt_console");
static bool g_tty[3]; static int g_asked;
extern "C" int isatty(int fd) noexcept { g_asked++; return fd == 1 || fd == 2 ? g_tty[fd] : 0; }
static const int CODE[] = {39, 2, 34, 32, 33, 31, 0};
static termcolor_t colour(unsigned k) { switch (k) { case 1: return termcolor_t::gray(); case 2: return termcolor_t::blue(); case 3: return termcolor_t::green(); case 4: return termcolor_t::yellow(); case 5: return termcolor_t::red(); case 6: return termcolor_t::reset(); default: return termcolor_t(); } }
static std::string line(const std::string& t, bool tty, unsigned col) { return tty && col ? "\033[" + dec(CODE[col]) + "m" + t + "\033[0m\n" : t + "\n"; }
static void clear() { rt_console(1).clear(); rt_console(2).clear(); }
static void emit(sink_t& s, int sev, const block& m) { rec r("x", 1); r.sev = sev; record_t rr = r.make(); s.emit(rr, string_view(m.p, m.n)); }
// any sequence of colour mappings, both streams, terminal or not, two records
HARNESS c22_colours() {
    unsigned n = sym_choice("n", (unsigned)sym_param("maps", 2) + 1), ns = sym_choice("colours", 1) + 7; bool err = sym_bool("stderr"); g_tty[1] = sym_bool("tty1"); g_tty[2] = sym_bool("tty2"); int fd = err ? 2 : 1;
    int sv[8]; unsigned cl[8]; builder<sink::console_t> b; if (err) b.stderr(); else if (sym_bool("explicit")) b.stdout();
    for (unsigned i = 0; i < n; i++) { sv[i] = (int)sym_int("mapsev", 32); cl[i] = sym_choice("col", ns); b.colorize(severity_t(sv[i]), colour(cl[i])); }
    auto s = std::move(b).build(); block m("m", sym_choice("len", (unsigned)sym_param("len", 2) + 1)); int sev = (int)sym_int("sev", 32); unsigned want = 0; for (unsigned i = 0; i < n; i++) if (sym_concrete(sv[i] == sev)) want = cl[i];
    clear(); emit(*s, sev, m); std::string x = line(m.str(), g_tty[fd], want); CHECKM(same(rt_console(fd), x), "the record's bytes and a newline, coloured as configured on a terminal only"); CHECKM(rt_console(3 - fd).empty(), "nothing on the other stream");
    observe("out", rt_console(fd)); sym_reach(!g_tty[fd] ? "plain" : want ? "coloured" : "tty-plain");
    emit(*s, sev, m); CHECKM(same(rt_console(fd), x + x), "the next record follows the first"); 
}
// a custom mapping, then specific severities on top of it
HARNESS c22_custom() {
    g_tty[1] = true; unsigned base = sym_choice("base", 7), c = sym_choice("c", 7); int ms = (int)sym_int("ms", 32), sev = (int)sym_int("sev", 32); bool after = sym_bool("after"); builder<sink::console_t> b;
    auto fn = [base](const record_t&) -> termcolor_t { return colour(base); };
    if (after) b.colorize(severity_t(ms), colour(c)).colorize(fn); else b.colorize(fn).colorize(severity_t(ms), colour(c)); auto s = std::move(b).build(); block m("m", 2); clear(); emit(*s, sev, m);
    bool hit = !after && sym_concrete(sev == ms); CHECKM(same(rt_console(1), line(m.str(), true, hit ? c : base)), "the severity's colour, or the custom mapping's"); observe("out", rt_console(1)); sym_reach(hit ? "hit" : "base");
}
// default sink and configured sink: no colours
HARNESS c22_default() {
    g_tty[1] = sym_bool("tty"); bool reg = sym_bool("registry"); block m("m", sym_choice("len", (unsigned)sym_param("len", 3) + 1)); int sev = (int)sym_int("sev", 32); std::unique_ptr<sink_t> s;
    if (reg) { auto c = cfg("{\"type\":\"console\"}"); s = registry::configured()->sink("console")(c->config()); } else s = builder<sink::console_t>().build();
    clear(); emit(*s, sev, m); CHECKM(same(rt_console(1), m.str() + "\n"), "written unchanged"); CHECKM(rt_console(2).empty(), "nothing on the error stream"); observe("out", rt_console(1)); sym_reach("done");
}
HARNESS c22_filter() {
    g_tty[1] = sym_bool("tty"); int sev = (int)sym_int("sev", 32); auto c = cfg("{\"type\":\"console\",\"filter\":{\"type\":\"severity\",\"threshold\":2}}"); auto g = registry::configured(); auto s = g->sink("console")(c->config()); block m("m", 3);
    clear(); emit(*s, sev, m); if (sym_concrete(sev >= 2)) { CHECKM(same(rt_console(1), m.str() + "\n"), "an accepted record is written"); sym_reach("accepted"); } else { CHECKM(rt_console(1).empty(), "a rejected record writes nothing"); sym_reach("rejected"); } CHECKM(rt_console(2).empty(), "nothing on the error stream"); observe("out", rt_console(1));
}
// two sinks with their own mappings do not affect each other
HARNESS c22_two() {
    g_tty[1] = sym_bool("tty1"); g_tty[2] = sym_bool("tty2"); unsigned a = sym_choice("a", 7), b = sym_choice("b", 7); bool same_stream = sym_bool("same"); int sev = (int)sym_int("sev", 32); builder<sink::console_t> ba, bb; ba.colorize(severity_t(1), colour(a)); bb.colorize(severity_t(1), colour(b)); if (!same_stream) bb.stderr();
    auto sa = std::move(ba).build(), sb = std::move(bb).build(); block m("m", 1), k("k", 2); clear(); bool one = sym_concrete(sev == 1); emit(*sa, sev, m); emit(*sb, sev, k); std::string xa = line(m.str(), g_tty[1], one ? a : 0), xb = line(k.str(), g_tty[same_stream ? 1 : 2], one ? b : 0);
    if (same_stream) CHECKM(same(rt_console(1), xa + xb), "each record in its own colour"); else { CHECKM(same(rt_console(1), xa), "first sink"); CHECKM(same(rt_console(2), xb), "second sink"); } observe("out", rt_console(1)); sym_reach("done");
}
HARNESS c22_long() { g_tty[1] = sym_bool("tty"); std::size_t n = 4000 + sym_choice("n", 3) * 100; block m(std::string(n, 'q')); sym_bytes(m.p + n - 2, 2, "tail"); builder<sink::console_t> b; b.colorize(severity_t(0), colour(5)); auto s = std::move(b).build(); clear(); emit(*s, 0, m); CHECKM(same(rt_console(1), line(m.str(), g_tty[1], 5)), "long records are written completely"); observe("out", rt_console(1)); sym_reach("done"); }
