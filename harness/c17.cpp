#include "rec.hpp"
#include "cfg.hpp"
#include <atomic>
#include <pthread.h>
#include <sched.h>
#include <unistd.h>
#include <blackhole/factory.hpp>
#include <blackhole/registry.hpp>
#include <blackhole/sink.hpp>
#include <blackhole/sink/asynchronous.hpp>
typedef builder<sink::asynchronous_t> B; typedef std::unique_ptr<sink_t> sink_p;
struct entry { int producer; unsigned index, emitted[2]; std::string text; };       // emitted: how many emits each producer had entered when this one was handled
struct shared_t { std::atomic<unsigned> started[2], finished[2], handled, gate; bool closed = false; std::vector<entry> log; bool destroyed = false; unsigned faulty = 99; };
static shared_t* g;
// the sink at the end of the queue: runs on the library's thread, its log is read only after destruction
struct last : sink_t {
    ~last() { g->destroyed = true; }
    void emit(const record_t& r, const string_view& m) override {
        g->handled.fetch_add(1, std::memory_order_relaxed); if (g->closed) while (!g->gate.load(std::memory_order_relaxed)) sched_yield();
        entry e; e.text = str_v(m); int s = r.severity(); e.producer = s / 100; e.index = (unsigned)(s % 100); for (int i = 0; i < 2; i++) e.emitted[i] = g->started[i].load(std::memory_order_relaxed);
        CHECKM(same_v(r.formatted(), "F" + e.text) && same_v(r.message(), "pattern"), "the record's texts"); CHECKM(r.timestamp().time_since_epoch().count() == 1500000000000000000ll + s, "the record's timestamp"); CHECKM(r.lwp() == 777 + (unsigned)s && (std::uint64_t)r.tid() == 0x7f01u, "the record's thread");
        unsigned n = 0; for (auto& l : r.attributes()) for (auto& a : l.get()) { n++; CHECKM(same_v(a.first, "k" + e.text) && same_v(attribute::get<string_view>(a.second), "v" + e.text), "the record's attribute"); } CHECKM(n == (e.index & 1 ? 1u : 0u), "attribute count"); g->log.push_back(e);
        if (g->log.size() == g->faulty) { if (sym_bool("odd")) throw 42; throw std::runtime_error("wrapped sink failed"); } } };
struct prod { sink_t* s; int id; unsigned n; std::string text[10]; unsigned seen[10], fin[10]; };
static void one(prod& p, unsigned i) {   // every source buffer is dead when the emit returns
    std::string t = p.text[i], f = "F" + t, k = "k" + t, v = "v" + t; rec r(f.data(), f.size()); r.sev = p.id * 100 + (int)i; r.ts = 1500000000000000000ll + r.sev; r.lwp = 777 + (unsigned)r.sev; attribute_list al; if (i & 1) al.emplace_back(string_view(k.data(), k.size()), view_t(string_view(v.data(), v.size()))); r.pack.emplace_back(al);
    record_t x = r.make(); p.seen[i] = g->handled.load(std::memory_order_relaxed); g->started[p.id].store(i + 1, std::memory_order_relaxed); p.s->emit(x, string_view(t.data(), t.size())); g->finished[p.id].store(i + 1, std::memory_order_relaxed); for (auto b : {&t, &f, &k, &v}) memset(&(*b)[0], '?', b->size()); }
static void* produce(void* v) { prod& p = *(prod*)v; for (unsigned i = 0; i < p.n; i++) one(p, i); return nullptr; }
static sink_p make(unsigned factor, bool drop, unsigned how) {
    sink_p w(new last); if (how == 0) { B b(std::move(w)); b.factor(factor); if (drop) b.drop(); else b.wait(); return std::move(b).build(); } if (how == 1) { B b(std::move(w)); if (!drop) b.drop(); auto c = drop ? std::move(b).drop() : std::move(b).wait(); return std::move(c).factor(factor).build(); } if (how == 2) { B b(std::move(w)); if (drop) b.drop(); return std::move(b.factor(factor)).build(); }
    struct wf : factory<sink_t> { const char* type() const noexcept override { return "last"; } sink_p from(const config::node_t&) const override { return sink_p(new last); } }; w.reset(); g->destroyed = false; auto reg = registry::empty(); reg->add(std::shared_ptr<factory<sink_t>>(new wf)); auto c = cfg(std::string("{\"type\":\"asynchronous\",\"factor\":") + std::to_string(factor) + ",\"overflow\":\"" + (drop ? "drop" : "wait") + "\",\"sink\":{\"type\":\"last\"}}"); return factory<sink::asynchronous_t>(*reg).from(c->config()); }
static void text(prod& p, int id, unsigned n) { p.id = id; p.n = n; for (unsigned i = 0; i < n; i++) { p.text[i] = std::string(1 + (i + (unsigned)id) % 3, 'x'); sym_bytes(&p.text[i][0], 1, "b"); } }
static void judge(const prod* ps, unsigned np, bool drop, unsigned cap) {
    CHECKM(g->destroyed, "the wrapped sink is released"); bool got[2][10] = {}; unsigned next[2] = {}; for (auto& e : g->log) { CHECKM((unsigned)e.producer < np && e.index < ps[e.producer].n, "only emitted records are delivered"); const prod& p = ps[e.producer]; CHECKM(!got[e.producer][e.index], "once"); got[e.producer][e.index] = true; CHECKM(e.index >= next[e.producer], "in emission order"); next[e.producer] = e.index + 1; CHECKM(same(e.text, p.text[e.index]), "content"); }
    for (unsigned k = 0; k < np; k++) for (unsigned i = 0; i < ps[k].n; i++) { CHECKM(drop || got[k][i], "delivered before destruction returns"); if (!got[k][i]) { unsigned acc = 0; for (unsigned j = 0; j < i; j++) acc += got[k][j]; if (np == 2) for (unsigned j = 0; j < ps[1 - k].n; j++) acc += got[1 - k][j]; CHECKM(acc >= ps[k].seen[i] + cap, "lost only if the queue was full"); } } }
// one producer, the policy and the way of building it: the consumer may be held until everything has been emitted
HARNESS c17_one() {
    shared_t sh{}; g = &sh; bool drop = sym_bool("drop"); unsigned how = sym_choice("how", 4); sh.closed = drop && sym_bool("held"); unsigned n = 1 + sym_choice("n", (unsigned)sym_param("n", 6)); if (sym_bool("fault")) sh.faulty = 1 + sym_choice("which", 2); prod p; text(p, 0, n); { sink_p s = make(2, drop, how); p.s = s.get(); produce(&p); sh.gate.store(1, std::memory_order_relaxed); }
    judge(&p, 1, drop, 4); sym_reach(drop ? sh.log.size() < n ? "lost" : "dropping" : n > 4 ? "waited" : "waiting"); }
// two producers
HARNESS c17_two() {
    shared_t sh{}; g = &sh; bool drop = sym_bool("drop"); sh.closed = drop && sym_bool("held"); prod p[2]; text(p[0], 0, (unsigned)sym_param("n0", 2)); text(p[1], 1, (unsigned)sym_param("n1", 2)); { sink_p s = make(2, drop, 0); p[0].s = p[1].s = s.get(); pthread_t t; pthread_create(&t, nullptr, produce, &p[1]); produce(&p[0]); pthread_join(t, nullptr); sh.gate.store(1, std::memory_order_relaxed); }
    judge(p, 2, drop, 4); sym_reach(!drop ? "wait" : sh.log.size() < p[0].n + p[1].n ? "lost" : "drop"); }
// the capacity is two to the factor, and only the documented range is accepted
HARNESS c17_factor() {
    shared_t sh{}; g = &sh; bool config = sym_bool("config"); unsigned f = sym_choice("f", 24); static const std::uint64_t BIG[] = {0, 1, 21, 22, 64, 255, 256, 4294967298ull, 18446744073709551615ull}; std::uint64_t v = f < 9 ? BIG[f] : f - 7; sym_assume(v < 2 || v > 20 || (int)v <= sym_param("fmax", 5)); sh.closed = true; bool thrown = false; unsigned cap = 1u << (v & 31), n = cap + 3; 
    try { sink_p s; if (config) { struct wf : factory<sink_t> { const char* type() const noexcept override { return "last"; } sink_p from(const config::node_t&) const override { return sink_p(new last); } }; auto reg = registry::empty(); reg->add(std::shared_ptr<factory<sink_t>>(new wf)); auto c = cfg("{\"factor\":" + std::to_string(v) + ",\"overflow\":\"drop\",\"sink\":{\"type\":\"last\"}}"); s = factory<sink::asynchronous_t>(*reg).from(c->config()); } else { B b(sink_p(new last)); s = std::move(std::move(b).drop().factor((std::size_t)v)).build(); }
        while (!sh.handled.load(std::memory_order_relaxed)) { if (!sh.started[0].load(std::memory_order_relaxed)) { rec r("Fx", 2); r.ts = 1500000000000000000ll; record_t x = r.make(); sh.started[0].store(1, std::memory_order_relaxed); s->emit(x, string_view("x", 1)); } sched_yield(); }
        for (unsigned i = 0; i < n; i++) { rec r("Fx", 2); r.ts = 1500000000000000000ll; record_t x = r.make(); s->emit(x, string_view("x", 1)); } sh.gate.store(1, std::memory_order_relaxed);
    } catch (const std::invalid_argument&) { thrown = true; }
    CHECKM(thrown == (v < 2 || v > 20), "the documented range"); if (!thrown) CHECKM(sh.log.size() == 1 + cap, "exactly the queue's capacity is kept"); sym_reach(thrown ? "refused" : "accepted"); }
// ill-typed or missing options raise
HARNESS c17_config() {
    shared_t sh{}; g = &sh; static const char* const J[] = {"{}", "{\"factor\":4,\"overflow\":\"wait\"}", "{\"factor\":4,\"sink\":{\"type\":\"null\"}}", "{\"overflow\":\"wait\",\"sink\":{\"type\":\"null\"}}", "{\"factor\":4,\"overflow\":\"waits\",\"sink\":{\"type\":\"null\"}}", "{\"factor\":4,\"overflow\":\"\",\"sink\":{\"type\":\"null\"}}", "{\"factor\":\"4\",\"overflow\":\"wait\",\"sink\":{\"type\":\"null\"}}", "{\"factor\":-4,\"overflow\":\"wait\",\"sink\":{\"type\":\"null\"}}", "{\"factor\":4.5,\"overflow\":\"wait\",\"sink\":{\"type\":\"null\"}}", "{\"factor\":4,\"overflow\":1,\"sink\":{\"type\":\"null\"}}", "{\"factor\":4,\"overflow\":\"wait\",\"sink\":{}}", "{\"factor\":4,\"overflow\":\"wait\",\"sink\":{\"type\":\"nonexistent\"}}", "{\"factor\":4,\"overflow\":\"wait\",\"sink\":null}", "{\"factor\":4,\"overflow\":\"wait\",\"sink\":{\"type\":\"null\"}}"};
    unsigned k = sym_choice("k", 14); bool thrown = false; auto c = cfg(J[k]); auto reg = registry::configured(); try { auto s = factory<sink::asynchronous_t>(*reg).from(c->config()); CHECKM(s != nullptr, "a sink"); } catch (const std::exception&) { thrown = true; } CHECKM(thrown == (k != 13), "missing or ill-typed options are refused"); sym_reach(thrown ? "refused" : "accepted"); }
HARNESS c17_range() { shared_t sh{}; g = &sh; unsigned f = 2 + sym_choice("f", 19); sym_assume((int)f <= sym_param("fmax", 20)); bool thrown = false; try { sink_p s = make((unsigned)f, f & 1, f & 1 ? 3 : 0); } catch (const std::invalid_argument&) { thrown = true; } catch (const std::bad_alloc&) {} CHECKM(!thrown && sh.destroyed && sh.log.empty(), "every documented factor is accepted"); sym_reach("accepted"); }
