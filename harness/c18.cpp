#include "sym.h"
#include "ref.hpp"
#include <blackhole/attribute.hpp>
#include <blackhole/attributes.hpp>
#include <blackhole/handler.hpp>
#include <blackhole/logger.hpp>
#include <blackhole/record.hpp>
#include <blackhole/root.hpp>
#include <blackhole/scope/holder.hpp>
#include <atomic>
#include <memory>
#include <pthread.h>
#include <vector>
using namespace blackhole;
// Every log call of a thread is observed through thread-local slots: which filter judged it and which handlers received it.
struct seen { int filter, filters; int handler[4]; int n; int attrs; };
static thread_local seen t_seen;
static std::atomic<int> g_alive;
struct hnd : handler_t { int id; int magic = 4711; explicit hnd(int id) : id(id) { g_alive.fetch_add(1, std::memory_order_relaxed); } ~hnd() { magic = 0; g_alive.fetch_sub(1, std::memory_order_relaxed); }
    void handle(const record_t& r) override { CHECKM(magic == 4711, "the handler is alive"); seen& s = t_seen; if (s.n < 4) s.handler[s.n] = id; s.n++; s.attrs = 0; for (auto& l : r.attributes()) s.attrs += (int)l.get().size(); CHECKM(magic == 4711, "the handler stays alive"); } };
struct flt { int id; bool accept; std::shared_ptr<int> own = std::make_shared<int>(4711); bool operator()(const record_t&) const { seen& s = t_seen; CHECKM(*own == 4711, "the filter is alive"); s.filter = id; s.filters++; return accept; } };
static root_logger_t* make(int id, bool accept = true) { std::vector<std::unique_ptr<handler_t>> hs; hs.emplace_back(new hnd(id)); hs.emplace_back(new hnd(id + 1)); return new root_logger_t(flt{id, accept}, std::move(hs)); }
static seen shot(root_logger_t& l) { t_seen = seen(); l.log(0, "m"); return t_seen; }
// the record was judged by one filter, and delivered to both handlers of one logger, in order, or to none if rejected
static void whole(const seen& s, bool accepted) { CHECKM(s.filters == 1, "judged by exactly one filter"); if (!accepted) { CHECKM(s.n == 0, "rejected"); return; } CHECKM(s.n == 2 && s.handler[1] == s.handler[0] + 1, "the handlers of one logger, each once, in order"); }
enum { LOG, REFILTER, MOVE, SCOPE };
struct act { root_logger_t* l; unsigned op, n; int base; seen got[3]; };
static void doit(act& a) {
    for (unsigned i = 0; i < a.n; i++) switch (a.op) {
    case LOG: a.got[i] = shot(*a.l); break;
    case REFILTER: a.l->filter(flt{a.base + (int)i, true}); break;
    case MOVE: { std::unique_ptr<root_logger_t> o(make(a.base + 10 * (int)i)); *a.l = std::move(*o); break; }
    default: { attributes_t at; at.emplace_back("k", attribute::value_t((std::int64_t)7)); scope::holder_t h(*a.l, at); a.got[i] = shot(*a.l); CHECKM(a.got[i].attrs == 1, "own scope"); } } }
static void* run(void* p) { doit(*(act*)p); return nullptr; }
// three threads on one logger: any pair of operations against the main thread's logging
HARNESS c18_trio() {
    root_logger_t* l = make(0); unsigned o1 = sym_choice("first", 4), o2 = sym_choice("second", 4), n = (unsigned)sym_param("n", 1), logs = (unsigned)sym_param("logs", 1); sym_assume(o1 <= o2); act a{l, o1, n, 100}, b{l, o2, n, 200}, m{l, LOG, logs, 0}; pthread_t t1, t2; pthread_create(&t1, nullptr, run, &a); pthread_create(&t2, nullptr, run, &b); doit(m); pthread_join(t1, nullptr); pthread_join(t2, nullptr);
    auto known = [&](const seen& s) { whole(s, true); int f = s.filter, h = s.handler[0]; bool fok = f == 0, hok = h == 0; for (act* x : {&a, &b}) for (unsigned i = 0; i < n; i++) { if (x->op == REFILTER && f == x->base + (int)i) fok = true; if (x->op == MOVE && f == x->base + 10 * (int)i) fok = true; if (x->op == MOVE && h == x->base + 10 * (int)i) hok = true; } CHECKM(fok, "a filter that was current"); CHECKM(hok, "handlers that were current"); };
    for (unsigned i = 0; i < m.n; i++) { known(m.got[i]); CHECKM(m.got[i].attrs == 0, "no other thread's scopes"); } for (act* x : {&a, &b}) if (x->op == LOG || x->op == SCOPE) for (unsigned i = 0; i < n; i++) { known(x->got[i]); CHECKM(x->got[i].attrs == (x->op == SCOPE), "only its own scopes"); }
    // afterwards: the last completed updates are in force
    seen s = shot(*l); known(s); int last1 = 100 + (o1 == MOVE ? 10 : 1) * (int)(n - 1), last2 = 200 + (o2 == MOVE ? 10 : 1) * (int)(n - 1); bool m1 = o1 == MOVE, m2 = o2 == MOVE; if (m1 || m2) CHECKM((m1 && s.handler[0] == last1) || (m2 && s.handler[0] == last2), "a completed reassignment is not lost"); else CHECKM(s.handler[0] == 0, "the handlers are kept");
    if (o1 == REFILTER && o2 == REFILTER) CHECKM(s.filter == last1 || s.filter == last2, "a completed filter replacement is not lost"); if (o1 == REFILTER && o2 != REFILTER && !m2) CHECKM(s.filter == last1, "the filter set last"); if (o2 == REFILTER && o1 != REFILTER && !m1) CHECKM(s.filter == last2, "the filter set last"); if (m1 && m2) CHECKM(s.filter == s.handler[0], "the filter of the logger assigned last"); if (o1 == REFILTER && m2) CHECKM(s.filter == last1 || s.filter == last2, "a filter that is still current");
    delete l; CHECKM(g_alive.load() == 0, "every handler released exactly once"); sym_reach(m1 || m2 ? "moved" : o1 == REFILTER || o2 == REFILTER ? "refiltered" : "plain"); }
// updates by the observing thread itself are in force at once; another thread's later logging sees completed updates
struct tell { root_logger_t* l; std::atomic<int> done; seen after; bool had; };
static void* watch(void* p) { tell& t = *(tell*)p; bool had = t.done.load(std::memory_order_acquire); seen s = shot(*t.l); t.after = s; t.had = had; return nullptr; }
HARNESS c18_visible() {
    root_logger_t* l = make(0); unsigned op = sym_choice("op", 4); tell t{l, {0}, {}, false}; pthread_t th; pthread_create(&th, nullptr, watch, &t); int f, h = 0;
    switch (op) { case 0: l->filter(flt{50, true}); f = 50; break; case 1: { std::unique_ptr<root_logger_t> o(make(60)); *l = std::move(*o); f = h = 60; break; } case 2: { std::unique_ptr<root_logger_t> o(make(60)); *l = std::move(*o); l->filter(flt{50, true}); f = 50; h = 60; break; } default: l->filter(flt{50, true}); { std::unique_ptr<root_logger_t> o(make(60)); *l = std::move(*o); } f = h = 60; }
    seen s = shot(*l); CHECKM(s.filter == f && s.handler[0] == h, "own updates are in force"); t.done.store(1, std::memory_order_release); pthread_join(th, nullptr); whole(t.after, true); if (t.had) { CHECKM(t.after.filter == f && t.after.handler[0] == h, "completed updates are seen by every thread"); sym_reach("after"); } else sym_reach("during"); delete l; CHECKM(g_alive.load() == 0, "every handler released"); }
// two threads move-assigning, one logger's previous owner shared with a moved-from logger that keeps logging
HARNESS c18_cross() {
    root_logger_t* x = make(10); root_logger_t* y = make(20); unsigned k = sym_choice("kind", 3); struct two { root_logger_t *to, *from; unsigned k; } a{x, y, k}; pthread_t th; auto fn = [](void* p) -> void* { two& w = *(two*)p; if (w.k == 2) { root_logger_t z(std::move(*w.from)); seen s = shot(z); whole(s, true); CHECKM(s.handler[0] == 20, "the moved logger"); return nullptr; } *w.to = std::move(*w.from); return nullptr; };
    pthread_create(&th, nullptr, fn, &a); seen s = shot(*x); whole(s, true); CHECKM(s.handler[0] == 10 || (s.handler[0] == 20 && k != 2), "current handlers"); CHECKM(s.filter == s.handler[0], "with their filter"); if (k == 1) { s = shot(*y); whole(s, true); CHECKM(s.handler[0] == 20, "the source stays usable while it is assigned from"); } pthread_join(th, nullptr); s = shot(*x); CHECKM(s.handler[0] == (k == 2 ? 10 : 20), "reassigned"); delete x; delete y; CHECKM(g_alive.load() == 0, "released once"); sym_reach("done"); }
// a rejecting filter against an accepting one, logging from two threads
HARNESS c18_reject() {
    root_logger_t* l = make(0, sym_bool("initially")); bool init = true; (void)init; bool later = sym_bool("later"); struct cx { root_logger_t* l; bool later; } c{l, later}; pthread_t th; pthread_create(&th, nullptr, [](void* p) -> void* { cx& c = *(cx*)p; c.l->filter(flt{1, c.later}); seen s = shot(*c.l); whole(s, c.later); CHECKM(s.filter == 1, "own filter"); return nullptr; }, &c); seen s = shot(*l); CHECKM(s.filters == 1, "judged once"); if (s.filter == 1) whole(s, later); else CHECKM(s.n == 0 || s.n == 2, "all handlers or none"); pthread_join(th, nullptr); s = shot(*l); whole(s, later); delete l; sym_reach(later ? "accept" : "reject"); }
