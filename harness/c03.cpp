#include "sym.h"
#include "ref.hpp"
#include <blackhole/attribute.hpp>
#include <blackhole/attributes.hpp>
#include <blackhole/handler.hpp>
#include <blackhole/logger.hpp>
#include <blackhole/message.hpp>
#include <blackhole/record.hpp>
#include <blackhole/root.hpp>
#include <blackhole/scope/holder.hpp>
#include <blackhole/wrapper.hpp>
#include <algorithm>
#include <pthread.h>
#include <vector>
using namespace blackhole;
typedef std::vector<int> ids;       // attribute values (ids) in the order seen
static ids ids_of(const record_t& r) { ids v; for (const auto& l : r.attributes()) for (const auto& a : l.get()) { CHECKM(a.first == string_view("k"), "attribute name"); v.push_back((int)attribute::get<std::int64_t>(a.second)); } return v; }
struct slot { ids handled, filtered; int n = 0; };
static slot g_slot[2];
static thread_local int t_who = 0;
struct hstub : handler_t { void handle(const record_t& r) override { slot& s = g_slot[t_who]; s.handled = ids_of(r); s.n++; } };
static root_logger_t* make() {
    std::vector<std::unique_ptr<handler_t>> hs; hs.emplace_back(new hstub);
    return new root_logger_t([](const record_t& r) { g_slot[t_who].filtered = ids_of(r); return true; }, std::move(hs));
}
static attributes_t one(int id) { attributes_t a; a.emplace_back("k", attribute::value_t((std::int64_t)id)); return a; }
// log through `wrappers` wrappers (outermost first) with `site` call-site attributes, overload `kind`
static void do_log(logger_t& l, int base, unsigned wrappers, unsigned kind, ids& expect) {
    std::vector<std::unique_ptr<wrapper_t>> ws; logger_t* cur = &l;
    for (unsigned i = 0; i < wrappers; i++) { ws.emplace_back(new wrapper_t(*cur, one(base + (int)i))); cur = ws.back().get(); }
    attribute_list a{{"k", attribute::view_t(base + 8)}, {"k", attribute::view_t(base + 9)}};
    if (kind == 0) cur->log(0, "m"); 
    else { attribute_pack p{a}; expect.push_back(base + 8); expect.push_back(base + 9);
        if (kind == 1) cur->log(0, "m", p); else { lazy_message_t lm{"m", []() -> string_view { return "x"; }}; cur->log(0, lm, p); } }
    for (unsigned i = wrappers; i-- > 0;) expect.push_back(base + (int)i);
}
static void judge(const ids& e, bool ordered, std::size_t nsite) {
    slot& s = g_slot[t_who]; CHECKM(s.n == 1, "handled once"); CHECKM(s.handled == s.filtered, "filter and handler see the same attributes");
    if (ordered) { CHECKM(s.handled == e, "attributes: call site, wrappers outermost first, scopes innermost first"); return; }
    ids a = s.handled, b = e; CHECKM(a.size() == b.size(), "number of attributes");
    CHECKM(std::equal(b.begin(), b.begin() + nsite, a.begin()), "call-site and wrapper attributes come first");
    std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); CHECKM(a == b, "exactly the live scopes' attributes");
}
// call-site, wrappers, scopes: no moves
HARNESS c03_order() {
    root_logger_t* l = make(); unsigned nw = sym_choice("wrappers", 4), ns = sym_choice("scopes", 4), kind = sym_choice("kind", 3); t_who = 0; g_slot[0] = slot();
    std::unique_ptr<wrapper_t> via; if (sym_bool("scope through wrapper")) via.reset(new wrapper_t(*l, one(99)));
    { std::vector<std::unique_ptr<scope::holder_t>> st; for (unsigned i = 0; i < ns; i++) st.emplace_back(new scope::holder_t(via && (i & 1) ? (logger_t&)*via : (logger_t&)*l, one((int)i + 10)));
      ids e; do_log(*l, 20, nw, kind, e); std::size_t n = e.size(); for (unsigned i = ns; i-- > 0;) e.push_back((int)i + 10); judge(e, true, n); if (ns == 3 && nw == 3) sym_reach("deep"); while (!st.empty()) st.pop_back(); }
    g_slot[0] = slot(); ids e; do_log(*l, 30, 0, 0, e); judge(e, true, 0); delete l;
}
// any history of opening, closing, logging, move construction and move assignment on two loggers of one thread
struct live { int id; int on; std::unique_ptr<scope::holder_t> h; };
HARNESS c03_history() {
    unsigned ops = (unsigned)sym_param("ops", 4); t_who = 0; root_logger_t* l[2] = {make(), make()}; bool valid[2] = {true, true}; bool mixed[2] = {false, false};
    std::vector<live> st; int next = 10;
    auto count = [&](int w) { int n = 0; for (auto& s : st) n += s.on == w; return n; };
    auto check = [&](int w) {
        g_slot[0] = slot(); ids e; do_log(*l[w], 50, 1, 1, e); std::size_t n = e.size();
        for (auto it = st.rbegin(); it != st.rend(); ++it) if (it->on == w) e.push_back(it->id);
        judge(e, !mixed[w], n);
    };
    for (unsigned i = 0; i < ops; i++) {
        unsigned op = sym_choice("op", 6); int w = (int)sym_choice("logger", 2), o = 1 - w;
        switch (op) {
        case 0: if (!valid[w]) return; { live x; x.id = next++; x.on = w; x.h.reset(new scope::holder_t(*l[w], one(x.id))); st.push_back(std::move(x)); } break;
        case 1: if (st.empty() || w) return; st.pop_back(); break;
        case 2: // move assign w <- o
            if (!valid[o]) return; { bool both = count(w) && count(o); bool m = mixed[o] || both || (mixed[w] && count(w)); *l[w] = std::move(*l[o]); for (auto& s : st) s.on = w; valid[w] = true; valid[o] = false; mixed[w] = m; mixed[o] = false; if (both) sym_reach("merged"); } break;
        case 3: if (!valid[w]) return; { root_logger_t* n = new root_logger_t(std::move(*l[w])); delete l[w]; l[w] = n; } break;
        case 4: if (!valid[w]) return; check(w); break;
        case 5: // w is replaced by one move-constructed from o, which stays around
            if (!valid[o] || count(w)) return; { root_logger_t* n = new root_logger_t(std::move(*l[o])); delete l[w]; l[w] = n; for (auto& s : st) s.on = w; valid[w] = true; valid[o] = false; mixed[w] = mixed[o]; mixed[o] = false; } break;
        }
    }
    for (int w = 0; w < 2; w++) if (valid[w]) check(w);
    while (!st.empty()) { st.pop_back(); for (int w = 0; w < 2; w++) if (valid[w]) check(w); }
    sym_reach("done"); delete l[0]; delete l[1];
}
// scopes belong to the thread that opened them
struct targ { root_logger_t* l; unsigned n; };
static void* worker(void* p) {
    targ* a = (targ*)p; t_who = 1; g_slot[1] = slot(); ids e;
    { std::vector<std::unique_ptr<scope::holder_t>> st; for (unsigned i = 0; i < a->n; i++) st.emplace_back(new scope::holder_t(*a->l, one((int)i + 40)));
      do_log(*a->l, 60, 0, 1, e); for (unsigned i = a->n; i-- > 0;) e.push_back((int)i + 40); judge(e, true, 2); while (!st.empty()) st.pop_back(); }
    g_slot[1] = slot(); e.clear(); do_log(*a->l, 60, 0, 1, e); judge(e, true, 2); return nullptr;
}
HARNESS c03_threads() {
    root_logger_t* l = make(); t_who = 0; g_slot[0] = slot(); targ a{l, sym_choice("theirs", 3)}; unsigned mine = sym_choice("mine", 2); pthread_t t; ids e;
    std::vector<std::unique_ptr<scope::holder_t>> st; for (unsigned i = 0; i < mine; i++) st.emplace_back(new scope::holder_t(*l, one((int)i + 70)));
    pthread_create(&t, nullptr, worker, &a); do_log(*l, 20, 0, 1, e); for (unsigned i = mine; i-- > 0;) e.push_back((int)i + 70); judge(e, true, 2);
    pthread_join(t, nullptr); g_slot[0] = slot(); e.clear(); do_log(*l, 20, 0, 1, e); for (unsigned i = mine; i-- > 0;) e.push_back((int)i + 70); judge(e, true, 2);
    while (!st.empty()) st.pop_back(); sym_reach("joined"); delete l;
}
