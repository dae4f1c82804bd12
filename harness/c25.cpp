#include "sym.h"
#include <blackhole/stdext/string_view.hpp>
#include <sstream>
#include <string>
using blackhole::stdext::string_view;
typedef unsigned char uc;
static int ref_cmp(const char* a, std::size_t n, const char* b, std::size_t m) {
    for (std::size_t i = 0; i < n && i < m; i++) if ((uc)a[i] != (uc)b[i]) return (uc)a[i] < (uc)b[i] ? -1 : 1;
    return n < m ? -1 : n > m ? 1 : 0;
}
// the views designate exact-size heap blocks, so that any access outside them is a memory error
struct bytes {
    char* p; std::size_t n; bytes(const char* name, std::size_t n) : p(n ? new char[n] : nullptr), n(n) { sym_bytes(p, n, name); }
    ~bytes() { delete[] p; } string_view view() const { return string_view(p, n); } std::string str() const { return std::string(p ? p : "", n); }
};
HARNESS c25_compare() {
    unsigned max = (unsigned)sym_param("max", 4);
    unsigned n = sym_choice("n", max + 1), m = sym_choice("m", max + 1);
    bytes a("a", n), b("b", m); string_view x = a.view(), y = b.view();
    int c = ref_cmp(a.p, n, b.p, m);
    bool eq = x == y, lt = x < y, gt = y < x;
    CHECKM(eq == (c == 0), "== agrees with byte-wise equality");
    CHECKM(lt == (c < 0), "< agrees with the ordering of the byte sequences");
    CHECKM(gt == (c > 0), "> agrees with the ordering of the byte sequences");
    CHECKM((x == b.str()) == (c == 0), "view == string");
    CHECKM((a.str() == y) == (c == 0), "string == view");
    if (n == m && n) sym_reach("same size"); if (!n && !m) sym_reach("both empty");
    char r[3] = {eq, lt, gt}; sym_observe("cmp", r, 3);
}
HARNESS c25_access() {
    unsigned max = (unsigned)sym_param("max", 4); unsigned n = sym_choice("n", max + 1);
    bytes a("a", n); string_view x = a.view(); std::uint64_t id = sym_int("id", 64); bool thrown = false; char got = 0;
    try { got = x[id]; } catch (const std::out_of_range&) { thrown = true; }
    CHECKM(thrown == (id >= n), "operator[] throws exactly when out of range");
    if (!thrown) { CHECKM(got == a.p[id], "operator[] yields the byte"); sym_reach("in"); } else sym_reach("out");
    sym_observe("c", &got, 1);
}
HARNESS c25_substr() {
    unsigned max = (unsigned)sym_param("max", 4); unsigned n = sym_choice("n", max + 1);
    bytes a("a", n); string_view x = a.view(); std::uint64_t pos = sym_int("pos", 64), cnt = sym_int("cnt", 64); bool thrown = false; string_view s;
    try { s = x.substr(pos, cnt); } catch (const std::out_of_range&) { thrown = true; }
    CHECKM(thrown == (pos > n), "substr throws exactly when the position is outside");
    if (thrown) { sym_reach("thrown"); return; }
    std::uint64_t want = cnt < n - pos ? cnt : n - pos;
    CHECKM(s.size() == want, "substr size"); CHECKM(s.data() == a.p + pos, "substr designates the right bytes");
    std::string t = s.to_string(); CHECKM(t == a.str().substr(pos, cnt), "substr agrees with std::string::substr");
    string_view d = x.substr(); CHECKM(d.size() == n && d.data() == a.p, "substr with default arguments is the whole view");
    string_view e = x.substr(pos); CHECKM(e.size() == n - pos && e.data() == a.p + pos, "substr with default count is the rest");
    sym_reach("ok"); sym_observe("sub", t.data(), t.size());
}
HARNESS c25_convert() {
    unsigned max = (unsigned)sym_param("max", 4); unsigned n = sym_choice("n", max + 1);
    bytes a("a", n); std::string s = a.str(); string_view v(s), x = a.view();
    CHECKM(v.size() == n && v.data() == s.data(), "view of a string designates its bytes");
    std::string t = x.to_string(); CHECKM(t.size() == n, "to_string size"); for (unsigned i = 0; i < n; i++) CHECKM(t[i] == a.p[i], "to_string bytes");
    string_view c(x); CHECKM(c.data() == x.data() && c.size() == x.size(), "copy"); string_view d; CHECKM(d.size() == 0, "default view is empty"); CHECKM(d == string_view(""), "default view equals empty view");
    d = x; CHECKM(d.data() == x.data() && d.size() == n, "assignment");
    std::ostringstream o; o << x; CHECKM(o.str() == s, "stream insertion writes exactly the bytes");
    char lit[5]; sym_bytes(lit, 4, "lit"); lit[4] = 0; string_view l(lit); CHECKM(l.size() == 4, "a literal's view excludes only the terminator, embedded NUL included"); CHECKM(l == std::string(lit, 4), "literal bytes");
    if (n == max) sym_reach("max"); sym_observe("s", t.data(), t.size());
}
HARNESS c25_hash() {
    unsigned max = (unsigned)sym_param("max", 4); unsigned n = sym_choice("n", max + 1);
    bytes a("a", n), b("b", n); std::hash<string_view> h;
    sym_assume(a.view() == b.view()); CHECKM(h(a.view()) == h(b.view()), "equal views hash equally"); if (n) sym_reach("nonempty");
    std::size_t u = h(a.view()); sym_observe("h", &u, sizeof u);
}
// views of any size up to 2^46: only what decides is looked at, sizes are never narrowed
HARNESS c25_sizes() {
    unsigned n = sym_choice("n", (unsigned)sym_param("max", 2) + 1); bytes a("a", n); std::uint64_t m = sym_int("m", 64); sym_assume(m >= n && m < (1ull << 46)); bool first = sym_bool("first"); char z = 0; const char* q = n ? a.p : &z; string_view x(q, n), y(q, m);
    bool same = sym_concrete(m == n); CHECKM((x == y) == same && (y == x) == same, "views of different sizes differ"); CHECKM((x < y) == !same, "a prefix is less than a longer view"); CHECKM(!(y < x), "and the longer one is not less");
    std::uint64_t pos = sym_int("pos", 64), cnt = sym_int("cnt", 64); bool thrown = false; string_view s; try { s = first ? y.substr(pos) : y.substr(pos, cnt); } catch (const std::out_of_range&) { thrown = true; } CHECKM(thrown == (pos > m), "substr throws exactly when the position is outside"); if (!thrown) { CHECKM(s.data() == q + pos, "position"); CHECKM(s.size() == (first || m - pos < cnt ? m - pos : cnt), "size"); }
    CHECKM(string_view(y).size() == m, "copied size"); sym_reach(same ? "same" : "longer"); }
