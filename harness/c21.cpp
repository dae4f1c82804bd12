#include "rec.hpp"
#include "cfg.hpp"
#include "stub.hpp"
#include <cstdarg>
#include <syslog.h>
#include <blackhole/registry.hpp>
#include <blackhole/sink.hpp>
#include <blackhole/sink/syslog.hpp>
extern "C" char* program_invocation_short_name;
// syslog(3) as glibc keeps it: the identity is the caller's pointer until closelog
static struct { const char* ident; bool open; int option, facility; } g_log; static int g_opens, g_closes, g_calls, g_pri; static std::string g_text, g_tag; static int g_option, g_facility;
static void vlog(int pri, const char* f, va_list ap) {
    g_calls++; g_pri = pri; g_text.clear(); g_tag = g_log.ident ? std::string(g_log.ident) : "(default)"; g_option = g_log.option; g_facility = g_log.facility;
    for (; *f; f++) {
        if (*f != '%') { g_text.push_back(*f); continue; } f++; if (*f == '%') { g_text.push_back('%'); continue; } long prec = -1; if (*f == '.') { f++; if (*f == '*') { prec = va_arg(ap, int); f++; } else { prec = 0; while (*f >= '0' && *f <= '9') prec = prec * 10 + (*f++ - '0'); } }
        if (*f == 's') { const char* s = va_arg(ap, const char*); for (long i = 0; (prec < 0 || i < prec) && s[i]; i++) g_text.push_back(s[i]); } else { CHECKM(false, "a conversion without its argument: the text was taken for a format"); return; }
    }
}
extern "C" {
void openlog(const char* i, int o, int f) { g_opens++; g_log = {i, true, o, f}; }
void closelog(void) { g_closes++; g_log.ident = nullptr; g_log.open = false; }
void syslog(int pri, const char* f, ...) { va_list ap; va_start(ap, f); vlog(pri, f, ap); va_end(ap); }
void __syslog_chk(int pri, int, const char* f, ...) { va_list ap; va_start(ap, f); vlog(pri, f, ap); va_end(ap); }
void vsyslog(int pri, const char* f, va_list ap) { vlog(pri, f, ap); }
}
static std::string upto0(const block& b) { std::string r; for (std::size_t i = 0; i < b.n && sym_concrete(b.p[i] != 0); i++) r.push_back(b.p[i]); return r; }
static void emit(sink_t& s, int sev, const block& m) { rec r("x", 1); r.sev = sev; record_t rr = r.make(); s.emit(rr, string_view(m.p, m.n)); }
static void logged(int pri, const std::string& text, int calls) { CHECKM(g_calls == calls, "one call per record"); CHECKM(g_pri == pri, "the priority configured for the severity, or the default"); CHECKM(same(g_text, text), "the text exactly as formatted"); CHECKM(g_tag == "(default)" || g_tag == program_invocation_short_name, "the identity is valid"); CHECKM(g_option == LOG_PID && g_facility == LOG_USER, "the options reached openlog"); }
// any mapping, any severity, any text; a second record as well
HARNESS c21_priorities() {
    unsigned n = sym_choice("n", (unsigned)sym_param("map", 4) + 1); bool none = n == 0 && sym_bool("none"); tree t = t_obj(); put(t, "type", t_str("syslog")); int pri[16]; if (!none) { tree& a = put(t, "priorities", t_arr()); for (unsigned i = 0; i < n; i++) { pri[i] = (int)sym_int("pri", 32); put(a, "", t_int(pri[i])); } }
    stub c(t); auto s = sym_bool("registry") ? registry::configured()->sink("syslog")(c) : factory<sink::syslog_t>(*registry::configured()).from(c); CHECKM(g_opens == 1 && g_closes == 0, "opened once"); t = tree(); int sev = (int)sym_int("sev", 32); int want = LOG_ERR; bool mapped = false; for (unsigned i = 0; i < n; i++) if (sym_concrete(sev == (int)i)) { want = pri[i]; mapped = true; }
    block m("m", sym_choice("len", (unsigned)sym_param("len", 2) + 1)); std::string x = upto0(m); emit(*s, sev, m); logged(want, x, 1); observe("text", g_text); if (mapped) sym_reach("mapped"); else sym_reach("default"); int sev2 = (int)sym_choice("sev2", n + 2) - 1; block k("k", 1); std::string y = upto0(k); emit(*s, sev2, k); logged(sev2 >= 0 && sev2 < (int)n ? pri[sev2] : LOG_ERR, y, 2); s.reset(); CHECKM(g_closes == 1, "closed with the sink");
}
// longer texts, including conversion specifications, in buffers that end right after them
HARNESS c21_text() {
    auto c = cfg("{\"type\":\"syslog\",\"priorities\":[7,6,4,3]}"); auto s = registry::configured()->sink("syslog")(c->config()); c.reset(); static const char* T[] = {"%s", "%n%n", "100%", "%.*s", "%", "a%%b", "%1$s %99d"}; unsigned k = sym_choice("k", 8); block m(k < 7 ? std::string(T[k]) : std::string(3000, 'q')); if (m.n > 1) sym_bytes(m.p + m.n - 1, 1, "c"); std::string x = upto0(m); int sev = (int)sym_choice("sev", 6) - 1; static const int P[] = {7, 6, 4, 3}; emit(*s, sev, m); logged(sev < 0 || sev > 3 ? LOG_ERR : P[sev], x, 1); observe("text", g_text); sym_reach("done");
}
HARNESS c21_any() { auto c = cfg("{\"type\":\"syslog\"}"); auto s = registry::configured()->sink("syslog")(c->config()); block m("m", sym_choice("len", (unsigned)sym_param("len", 5) + 1)); std::string x = upto0(m); emit(*s, 0, m); logged(LOG_ERR, x, 1); observe("text", g_text); sym_reach("done"); }
// several sinks, created and destroyed in any order: the identity never dangles
HARNESS c21_many() {
    std::unique_ptr<sink_t> s[3]; auto c = cfg("{\"type\":\"syslog\"}"); auto reg = registry::configured(); int calls = 0, made = 0; unsigned k = (unsigned)sym_param("ops", 5); block m("m", 1); sym_assume(m.p[0] != 0);
    for (unsigned i = 0; i < k; i++) { unsigned j = sym_choice("j", 3); if (!s[j]) { s[j] = reg->sink("syslog")(c->config()); made++; CHECKM(g_opens == made, "opened by each sink"); CHECKM(g_log.ident && std::string(g_log.ident) == program_invocation_short_name, "with its identity"); } else if (sym_bool("drop")) s[j].reset(); else { emit(*s[j], 0, m); logged(LOG_ERR, m.str(), ++calls); } } sym_reach(calls ? "logged" : "idle");
}
// priorities that are not representable, or not numbers
HARNESS c21_invalid() {
    unsigned i = sym_choice("i", 4); bool threw = false; std::int64_t v = 0; tree t = t_obj(); tree& a = put(t, "priorities", t_arr()); if (i == 0) { v = (std::int64_t)sym_int("v", 64); put(a, "", t_int(v)); } else if (i == 1) put(a, "", t_str("3")); else if (i == 2) put(a, "", t_bool(true)); else a = t_str("x"); stub c(t); std::unique_ptr<sink_t> s; try { s = registry::configured()->sink("syslog")(c); } catch (const std::exception&) { threw = true; }
    if (i == 0) { bool fits = sym_concrete(v >= -2147483648ll && v <= 2147483647ll); CHECKM(threw == !fits, "unrepresentable priorities are refused"); if (fits) { block m("m", 0); emit(*s, 0, m); logged((int)v, "", 1); sym_reach("fits"); } else sym_reach("refused"); } else CHECKM(threw, "ill-typed priorities are refused"); s.reset(); CHECKM(g_opens == g_closes, "closed again");
}
