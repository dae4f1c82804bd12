#include "sym.h"
#include <blackhole/attribute.hpp>
#include <blackhole/attributes.hpp>
#include <blackhole/extensions/writer.hpp>
#include <blackhole/formatter.hpp>
#include <blackhole/handler.hpp>
#include <blackhole/handler/blocking.hpp>
#include <blackhole/record.hpp>
#include <blackhole/root.hpp>
#include <blackhole/sink.hpp>
#include <cstring>
#include <stdexcept>
#include <string>
#include <vector>
using namespace blackhole;
// outcome of a component: 0 ok, 1 throws std::exception, 2 throws something else
static void outcome(unsigned o) { if (o == 1) throw std::runtime_error("handler failure"); if (o == 2) throw 42; }
static std::vector<int> g_log;      // (call number * 16 + handler) in order of delivery
struct hstub : handler_t {
    int id; unsigned out[2]; int calls = 0; std::string msg; severity_t sev;
    hstub(int id, unsigned a, unsigned b, const std::string& m, severity_t s) : id(id), msg(m), sev(s) { out[0] = a; out[1] = b; }
    void handle(const record_t& r) override {
        g_log.push_back(id);
        CHECKM((int)r.severity() == (int)sev, "handler sees the severity of the call");
        CHECKM(r.message().size() == msg.size() && !memcmp(r.message().data(), msg.data(), msg.size()), "handler sees the message of the call");
        CHECKM(r.is_active(), "record is active when handled");
        outcome(out[calls++ & 1]);
    }
};
// every handler outcome, filter verdict depending on the record, two log calls
HARNESS c01_dispatch() {
    unsigned n = sym_choice("n", (unsigned)sym_param("handlers", 3) + 1);
    unsigned nv = (unsigned)sym_param("outcomes", 3);
    int sev = (int)sym_int("sev", 32); int thr = (int)sym_int("thr", 32);
    char m[2]; sym_bytes(m, 2, "m"); std::string msg(m, 2);
    std::vector<std::unique_ptr<handler_t>> hs; unsigned calls = (unsigned)sym_param("calls", 2);
    for (unsigned i = 0; i < n; i++) { unsigned a = sym_choice("outA", nv), b = calls > 1 ? sym_choice("outB", nv) : 0; hs.emplace_back(new hstub((int)i, a, b, msg, severity_t(sev))); }
    int fcalls = 0;
    root_logger_t log([&](const record_t& r) { fcalls++; return (int)r.severity() >= thr; }, std::move(hs));
    bool escaped = false;
    for (unsigned c = 0; c < calls; c++) {
        g_log.clear(); fcalls = 0;
        try { log.log(severity_t(sev), string_view(msg)); } catch (...) { escaped = true; }
        CHECKM(!escaped, "no handler exception escapes the log call");
        CHECKM(fcalls == 1, "the filter judges the record once");
        if (sev >= thr) { CHECKM(g_log.size() == n, "each handler receives an accepted record exactly once"); for (unsigned i = 0; i < n; i++) CHECKM(g_log[i] == (int)i, "handlers are served in the order given"); if (n) sym_reach("delivered"); }
        else { CHECKM(g_log.empty(), "a rejected record reaches no handler"); sym_reach("rejected"); }
    }
    int k = (int)g_log.size(); sym_observe("delivered", &k, sizeof k);
}
// builder-made logger, attribute pack and lazy overloads
HARNESS c01_overloads() {
    unsigned kind = sym_choice("kind", 3), a = sym_choice("outA", 3), b = sym_choice("outB", 3); int sev = (int)sym_int("sev", 32); bool acc = sym_bool("acc"), ctor = sym_bool("filterLater");
    char m[3]; sym_bytes(m, 3, "m"); std::string msg(m, 3); g_log.clear(); int sup = 0;
    builder<root_logger_t> bl; bl.add(std::unique_ptr<handler_t>(new hstub(0, a, 0, msg, sev))); bl.add(std::unique_ptr<handler_t>(new hstub(1, b, 0, msg, sev)));
    auto log = std::move(bl).build();
    if (ctor || !acc) log->filter([&](const record_t&) { return acc; });
    attribute_pack pack; bool escaped = false;
    try {
        if (kind == 0) log->log(sev, string_view(msg)); else if (kind == 1) log->log(sev, string_view(msg), pack);
        else { lazy_message_t lm{string_view(msg), [&]() -> string_view { sup++; return string_view("x", 1); }}; log->log(sev, lm, pack); }
    } catch (...) { escaped = true; }
    CHECKM(!escaped, "no handler exception escapes the log call");
    CHECKM(g_log.size() == (acc ? 2u : 0u), "delivery count"); if (acc) CHECKM(g_log[0] == 0 && g_log[1] == 1, "order of delivery");
    CHECKM(sup == (kind == 2 && acc ? 1 : 0), "supplier used once, only if accepted");
    if (acc) sym_reach("acc"); else sym_reach("rej"); int k = (int)g_log.size(); sym_observe("n", &k, 4);
}
static std::vector<int> g_sinks; static int g_fmt;
struct fstub : formatter_t { std::string text; unsigned out; fstub(const std::string& t, unsigned o) : text(t), out(o) {}
    void format(const record_t& r, writer_t& w) override { g_fmt++; outcome(out); w.inner << fmt::StringRef(text.data(), text.size()); } };
struct sstub : sink_t { int id; unsigned out; std::string text; const record_t* rec; sstub(int id, unsigned o, const std::string& t, const record_t* r) : id(id), out(o), text(t), rec(r) {}
    void emit(const record_t& r, const string_view& m) override {
        g_sinks.push_back(id); CHECKM(&r == rec, "sink receives the record being handled");
        CHECKM(m.size() == text.size() && (text.empty() || !memcmp(m.data(), text.data(), text.size())), "sink receives exactly the formatted bytes"); outcome(out); } };
HARNESS c01_blocking() {
    unsigned n = sym_choice("n", 4), len = sym_choice("len", (unsigned)sym_param("len", 3) + 1), fo = sym_choice("fmtOut", 3), bad = sym_choice("badSink", n + 1), bo = sym_choice("badOut", 3);
    char t[8]; sym_bytes(t, len, "t"); std::string text(t, len); if (sym_bool("long")) text = std::string(600, 'q') + text;
    string_view m("message"); attribute_pack pack; record_t rec(severity_t((int)sym_int("sev", 32)), m, pack); rec.activate();
    builder<handler::blocking_t> b; b.set(std::unique_ptr<formatter_t>(new fstub(text, fo)));
    for (unsigned i = 0; i < n; i++) b.add(std::unique_ptr<sink_t>(new sstub((int)i, i == bad ? bo : 0, text, &rec)));
    auto h = std::move(b).build(); g_sinks.clear(); g_fmt = 0; bool thrown = false;
    try { h->handle(rec); } catch (...) { thrown = true; }
    CHECKM(g_fmt == 1, "the formatter runs exactly once");
    bool sinkfail = bad < n && bo != 0;
    unsigned want = fo ? 0 : sinkfail ? bad + 1 : n;
    if (!sinkfail) { CHECKM(g_sinks.size() == want, "every sink receives the record once"); sym_reach("all"); CHECKM(thrown == (fo != 0), "formatter failure surfaces, nothing else throws"); }
    else if (!fo) { CHECKM(g_sinks.size() >= want && g_sinks.size() <= n, "sinks up to the failing one were served"); }
    for (unsigned i = 0; i < g_sinks.size(); i++) CHECKM(g_sinks[i] == (int)i, "sinks are served once, in order");
    int k = (int)g_sinks.size(); sym_observe("sinks", &k, 4);
}
// more calls than two: nothing about earlier failures may change later deliveries
HARNESS c01_many() {
    unsigned calls = (unsigned)sym_param("calls", 6); char m[1]; sym_bytes(m, 1, "m"); std::string msg(m, 1); int sev = (int)sym_int("sev", 32);
    struct each : handler_t { int id; const unsigned* next; each(int id, const unsigned* n) : id(id), next(n) {} void handle(const record_t&) override { g_log.push_back(id); if (next) outcome(*next); } };
    unsigned now = 0; bool first = sym_bool("first"); std::vector<std::unique_ptr<handler_t>> hs; hs.emplace_back(new each(0, first ? &now : nullptr)); hs.emplace_back(new each(1, first ? nullptr : &now)); root_logger_t log(std::move(hs));
    for (unsigned c = 0; c < calls; c++) {
        now = sym_choice("out", 3); g_log.clear(); bool escaped = false; try { log.log(severity_t(sev), string_view(msg)); } catch (...) { escaped = true; }
        CHECKM(!escaped, "no handler exception escapes the log call"); CHECKM(g_log.size() == 2 && g_log[0] == 0 && g_log[1] == 1, "each handler receives each record, whatever failed before");
    }
    sym_reach("done");
}
// one blocking handler used again, and inside a sink of another one on the same thread
struct echo : formatter_t { void format(const record_t& r, writer_t& w) override { w.inner << '<' << fmt::StringRef(r.message().data(), r.message().size()) << '>'; } };
static std::vector<std::string> g_got;
struct keep : sink_t { handler_t* inner = nullptr; const record_t* rec = nullptr; void emit(const record_t& r, const string_view& m) override { std::string before(m.data(), m.size()); if (inner) { handler_t* h = inner; inner = nullptr; h->handle(*rec); inner = h; } g_got.push_back(std::string(m.data(), m.size())); CHECKM(g_got.back().size() == before.size() && !memcmp(g_got.back().data(), before.data(), before.size()), "the bytes stay as they are while the sink uses them"); } };
static bool got(std::size_t i, const std::string& msg) { std::string t = "<" + msg + ">"; return i < g_got.size() && g_got[i].size() == t.size() && !memcmp(g_got[i].data(), t.data(), t.size()); }
HARNESS c01_again() {
    unsigned la = sym_choice("la", 3), lb = sym_choice("lb", 3); bool big = sym_bool("big"), nest = sym_bool("nest"), same = sym_bool("same"); char t[2], u[2]; sym_bytes(t, 2, "t"); sym_bytes(u, 2, "u"); std::string a(t, la), b(u, lb); if (big) a += std::string(700, 'q');
    attribute_pack pack; string_view ma(a.data(), a.size()), mb(b.data(), b.size()); record_t ra(severity_t(0), ma, pack), rb(severity_t(1), mb, pack); ra.activate(); rb.activate(); g_got.clear();
    keep *s0 = new keep, *s1 = new keep, *s2 = new keep; builder<handler::blocking_t> x, y; x.set(std::unique_ptr<formatter_t>(new echo)); x.add(std::unique_ptr<sink_t>(s0)); x.add(std::unique_ptr<sink_t>(s1)); y.set(std::unique_ptr<formatter_t>(new echo)); y.add(std::unique_ptr<sink_t>(s2)); auto hx = std::move(x).build(), hy = std::move(y).build();
    if (nest) { s0->inner = same ? hx.get() : hy.get(); s0->rec = &rb; }
    hx->handle(ra); std::size_t i = 0;
    if (nest) { CHECKM(got(i++, b), "the record handled inside"); if (same) CHECKM(got(i++, b), "and its second sink"); }
    CHECKM(got(i++, a) && got(i++, a), "both sinks received the formatted bytes"); s0->inner = nullptr; hx->handle(rb); CHECKM(got(i++, b) && got(i++, b), "the second record's bytes and nothing else"); CHECKM(i == g_got.size(), "nothing twice"); sym_reach(nest ? "nested" : "plain");
}
