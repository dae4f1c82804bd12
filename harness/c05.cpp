#include "sym.h"
#include "ref.hpp"
#include <boost/assert.hpp>
#include <blackhole/attribute.hpp>
#include <blackhole/attributes.hpp>
#include <blackhole/extensions/writer.hpp>
#include <blackhole/record.hpp>
#include "recordbuf.hpp"
#include <vector>
using namespace blackhole;
using attribute::view_t; using attribute::value_t;
struct shown { int x; const char* p = nullptr; std::size_t n = 0; };
namespace blackhole { inline namespace v1 { template<> struct display_traits<shown> { static void apply(const shown& s, writer_t& wr) { if (s.p) wr.inner << fmt::StringRef(s.p, s.n); else wr.write("<{}>", s.x); } }; } }
// expected value of an attribute: kind (0 null 1 bool 2 i64 3 u64 4 double 5 string), value, text
static long g_lwp; extern "C" long syscall(long, ...) noexcept { return g_lwp; }   // gettid
struct mval { int k; std::uint64_t u; std::string s; };
struct vis : view_t::visitor_t { mval m{-1, 0, ""};
    void operator()(const view_t::null_type&) override { m.k = 0; } void operator()(const view_t::bool_type& v) override { m.k = 1; m.u = v; }
    void operator()(const view_t::sint64_type& v) override { m.k = 2; m.u = (std::uint64_t)v; } void operator()(const view_t::uint64_type& v) override { m.k = 3; m.u = v; }
    void operator()(const view_t::double_type& v) override { m.k = 4; std::memcpy(&m.u, &v, 8); } void operator()(const view_t::string_type& v) override { m.k = 5; m.s = str_v(v); }
    void operator()(const view_t::function_type& f) override { m.k = 5; writer_t w; f(w); m.s = str_v(w.result()); } };
struct src {     // owns every buffer of the original record; destroyed (and scribbled) after the copy
    std::vector<block*> bufs; std::vector<shown*> shs; std::vector<attribute_list*> lists; attribute_pack pack; string_view* msg; string_view* fmtd;
    ~src() { for (auto b : bufs) { memset(b->p, '?', b->n); delete b; } for (auto l : lists) delete l; memset((void*)msg, 0x5a, sizeof *msg); memset((void*)fmtd, 0x5a, sizeof *fmtd); delete msg; delete fmtd; for (auto x : shs) { x->p = (const char*)8; delete x; } }
};
struct expected { std::string msg, fmtd; int sev; std::int64_t ts; std::uint64_t tid, lwp; std::vector<std::pair<std::string, mval>> attrs; };
static string_view str(src& s, const char* n, std::size_t len, std::string& out) { block* b = new block(n, len); s.bufs.push_back(b); out = b->str(); return string_view(b->p, b->n); }
static view_t val(src& s, unsigned kind, mval& m) {
    m.u = 0; m.s.clear();
    switch (kind) {
    case 0: m.k = 0; return view_t(nullptr);
    case 1: { bool b = (sym_int("b", 8) & 1) != 0; m.k = 1; m.u = b; return view_t(b); }
    case 2: { std::int64_t i = (std::int64_t)sym_int("i", 64); m.k = 2; m.u = (std::uint64_t)i; return view_t(i); }
    case 3: { std::uint64_t u = sym_int("u", 64); m.k = 3; m.u = u; return view_t(u); }
    case 4: { std::uint64_t u = sym_int("d", 64); m.k = 4; m.u = u; double d; std::memcpy(&d, &u, 8); return view_t(d); }
    case 5: m.k = 5; return view_t(str(s, "s", 3, m.s));
    case 6: m.k = 5; return view_t(str(s, "s", 20, m.s));
    default: { m.k = 5; string_view raw = str(s, "w", 3, m.s); s.shs.push_back(new shown{7, raw.data(), raw.size()}); return view_t(*s.shs.back()); }
    }
}
static record_t::inner_t* g_inner;
// builds a record over s, filling e; shape: number of lists, attributes in each
static recordbuf_t* capture(const std::vector<unsigned>& shape, unsigned mlen, unsigned flen, unsigned firstkind, expected& e) {
    src s; s.msg = new string_view(str(s, "m", mlen, e.msg)); s.fmtd = new string_view(str(s, "f", flen, e.fmtd)); unsigned k = firstkind;
    for (unsigned n : shape) { attribute_list* l = new attribute_list; for (unsigned i = 0; i < n; i++) { std::string name; string_view nv = str(s, "n", 1 + (k >> 1 & 1) * 16, name); mval m; view_t v = val(s, k++ % 8, m); l->emplace_back(nv, v); e.attrs.emplace_back(name, m); } s.lists.push_back(l); s.pack.emplace_back(*l); }
    e.sev = (int)sym_int("sev", 32); e.ts = (std::int64_t)sym_int("ts", 64); e.tid = sym_int("tid", 64); g_lwp = (long)(1 + (sym_int("lwp", 32) & 0x3fffff)); e.lwp = (std::uint64_t)g_lwp;
    record_t::inner_t in{*s.msg, *s.fmtd, severity_t(e.sev), record_t::time_point(record_t::time_point::duration(e.ts)), 0, (std::thread::native_handle_type)e.tid, {0}, s.pack};
    record_t r(in); CHECK(r.lwp() == e.lwp); recordbuf_t* b = new recordbuf_t(r); g_lwp = 5555555; return b;     // read on another thread from now on
}
static void judge(const recordbuf_t& b, const expected& e) {
    record_t r = b.into_view();
    CHECKM(same_v(r.message(), e.msg), "message"); CHECKM(same_v(r.formatted(), e.fmtd), "formatted message"); CHECKM((int)r.severity() == e.sev, "severity");
    CHECKM((std::int64_t)r.timestamp().time_since_epoch().count() == e.ts, "timestamp"); CHECKM((std::uint64_t)r.tid() == e.tid, "thread id"); CHECKM((std::uint64_t)r.lwp() == e.lwp, "kernel thread id");
    std::size_t i = 0; for (const auto& l : r.attributes()) for (const auto& a : l.get()) {
        CHECKM(i < e.attrs.size(), "no extra attributes"); if (i >= e.attrs.size()) return; const auto& x = e.attrs[i++];
        CHECKM(same_v(a.first, x.first), "attribute name"); vis v; a.second.apply(v); CHECKM(v.m.k == x.second.k, "attribute type"); CHECKM(v.m.k == 5 ? same(v.m.s, x.second.s) : v.m.k == 0 || v.m.u == x.second.u, "attribute value"); }
    CHECKM(i == e.attrs.size(), "every attribute kept, in order");
}
static const unsigned L[] = {0, 3, 20};
HARNESS c05_copy() {
    unsigned n1 = sym_choice("n1", 3), n2 = sym_choice("n2", 3), lists = sym_choice("lists", 3), k = sym_choice("kind", 8); std::vector<unsigned> sh; if (lists > 0) sh.push_back(n1); if (lists > 1) sh.push_back(n2);
    expected e; recordbuf_t* b = capture(sh, L[sym_choice("ml", 3)], L[sym_choice("fl", 3)], k, e); judge(*b, e);
    recordbuf_t* c = new recordbuf_t(std::move(*b)); delete b; judge(*c, e); recordbuf_t d; d = std::move(*c); delete c; judge(d, e); sym_reach("copied");
}
// spills of the inline storage: 15..18 attributes in one list, 15..18 lists
HARNESS c05_many() {
    unsigned n = 15 + sym_choice("n", 4); std::vector<unsigned> sh; if (sym_bool("lists")) for (unsigned i = 0; i < n; i++) sh.push_back(1); else sh.push_back(n);
    expected e; recordbuf_t* b = capture(sh, 3, 20, 0, e); judge(*b, e); recordbuf_t* c = new recordbuf_t(std::move(*b)); delete b; judge(*c, e);
    expected e2; recordbuf_t* d = capture({1}, 3, 3, 5, e2); *d = std::move(*c); delete c; judge(*d, e); recordbuf_t* f = capture({1}, 3, 3, 5, e2 = expected()); recordbuf_t g(std::move(*d)); *d = std::move(*f); delete f; judge(*d, e2); judge(g, e); delete d; sym_reach("moved");
}
// any history of moves between records of different shapes
HARNESS c05_history() {
    unsigned ops = (unsigned)sym_param("ops", 3); recordbuf_t* b[3]; expected e[3]; bool ok[3];
    for (int i = 0; i < 3; i++) { unsigned s = sym_choice("shape", 3); std::vector<unsigned> sh; if (s == 1) sh = {2}; if (s == 2) sh = {17}; b[i] = capture(sh, L[s], L[(s + i) % 3], 4, e[i]); ok[i] = true; }
    for (unsigned q = 0; q < ops; q++) { unsigned op = sym_choice("op", 2), i = sym_choice("i", 3), j = sym_choice("j", 3); if (!ok[j]) return;
        if (op == 0) { *b[i] = std::move(*b[j]); if (i != j) { e[i] = e[j]; ok[i] = true; ok[j] = false; } }
        else { if (i == j) return; recordbuf_t* n = new recordbuf_t(std::move(*b[j])); delete b[i]; b[i] = n; e[i] = e[j]; ok[i] = true; ok[j] = false; } }
    for (int i = 0; i < 3; i++) if (ok[i]) judge(*b[i], e[i]);
    for (int i = 0; i < 3; i++) delete b[i]; sym_reach("done");
}
