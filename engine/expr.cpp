#include "expr.h"
#include <functional>

std::vector<VarInfo> g_vars;
static std::map<std::string, E> g_varByName;

struct VSHash { size_t operator()(const VarSet* v) const { size_t h = 1469598103u; for (auto x : *v) h = h * 1099511628211ull ^ x; return h; } };
struct VSEq { bool operator()(const VarSet* a, const VarSet* b) const { return *a == *b; } };
static std::unordered_set<const VarSet*, VSHash, VSEq> g_vs;
static const VarSet* g_empty = nullptr;
static const VarSet* internVS(VarSet&& v) {
    auto it = g_vs.find(&v);
    if (it != g_vs.end()) return *it;
    auto* n = new VarSet(std::move(v)); g_vs.insert(n); return n;
}
static const VarSet* unionVS(const VarSet* a, const VarSet* b) {
    if (a == b || b->empty()) return a;
    if (a->empty()) return b;
    VarSet r; r.reserve(a->size() + b->size());
    std::set_union(a->begin(), a->end(), b->begin(), b->end(), std::back_inserter(r));
    return internVS(std::move(r));
}

struct EHash { size_t operator()(E e) const { return e->h; } };
struct EEq { bool operator()(E x, E y) const {
    return x->op == y->op && x->w == y->w && x->aux == y->aux && x->c == y->c && x->a == y->a && x->b == y->b && x->d == y->d; } };
static std::unordered_set<E, EHash, EEq> g_tab;
static uint32_t g_next = 1;
uint32_t exprCount() { return g_next; }

static void ranges(Expr* e) {
    u128 m = mask(e->w); e->lo = 0; e->hi = m;
    switch (e->op) {
    case CONST: e->lo = e->hi = e->c; break;
    case ZEXT: e->lo = e->a->lo; e->hi = e->a->hi; break;
    case ADD: if (e->w < 128 && e->a->hi + e->b->hi <= m) { e->lo = e->a->lo + e->b->lo; e->hi = e->a->hi + e->b->hi; } break;
    case MUL: if (e->w <= 64 && (e->b->hi == 0 || e->a->hi <= m / (e->b->hi))) { e->lo = e->a->lo * e->b->lo; e->hi = e->a->hi * e->b->hi; } break;
    case SUB: if (e->a->lo >= e->b->hi) { e->lo = e->a->lo - e->b->hi; e->hi = e->a->hi - e->b->lo; } break;
    case UDIV: if (e->b->isC() && e->b->c) { e->lo = e->a->lo / e->b->c; e->hi = e->a->hi / e->b->c; } break;
    case UREM: if (e->b->isC() && e->b->c) { if (e->a->hi < e->b->c) { e->lo = e->a->lo; e->hi = e->a->hi; } else e->hi = e->b->c - 1; } break;
    case AND: e->hi = std::min(e->a->hi, e->b->hi); break;
    case OR: { e->lo = std::max(e->a->lo, e->b->lo); u128 h = e->a->hi | e->b->hi; u128 k = 0; while (k < h) k = (k << 1) | 1; e->hi = std::min(m, k); break; }
    case ITE: e->lo = std::min(e->b->lo, e->d->lo); e->hi = std::max(e->b->hi, e->d->hi); break;
    case CONCAT: { unsigned n = e->b->w; e->lo = (e->a->lo << n) | e->b->lo; e->hi = (e->a->hi << n) | e->b->hi; break; }
    case EXTRACT: if (e->aux == 0 && e->a->hi <= m) { e->lo = e->a->lo; e->hi = e->a->hi; }
        else if (e->aux + e->w == e->a->w) { e->lo = e->a->lo >> e->aux; e->hi = e->a->hi >> e->aux; } break;
    case SEXT: if (e->a->hi < ((u128)1 << (e->a->w - 1))) { e->lo = e->a->lo; e->hi = e->a->hi; } break;
    default: break;
    }
}

static E mk(Op op, unsigned w, uint32_t aux, u128 c, E a, E b, E d) {
    Expr t; t.op = op; t.w = w; t.aux = aux; t.c = c; t.a = a; t.b = b; t.d = d;
    uint64_t h = op * 0x9E3779B97F4A7C15ull + w * 0x1000193 + aux * 0x85ebca6b;
    auto mix = [&](uint64_t x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; };
    mix((uint64_t)c); mix((uint64_t)(c >> 64)); mix(a ? a->id : 0); mix(b ? b->id : 0); mix(d ? d->id : 0);
    t.h = (uint32_t)(h ^ (h >> 32));
    auto it = g_tab.find(&t);
    if (it != g_tab.end()) return *it;
    if (!g_empty) g_empty = internVS(VarSet());
    Expr* e = new Expr(t);
    e->id = g_next++; e->stamp = 0; e->mark = 0; e->z = nullptr; e->tt = nullptr; e->val = 0;
    if (op == VAR) e->vs = internVS(VarSet{aux});
    else { e->vs = g_empty; if (a) e->vs = unionVS(e->vs, a->vs); if (b) e->vs = unionVS(e->vs, b->vs); if (d) e->vs = unionVS(e->vs, d->vs); }
    e->hasDiv = (a && a->hasDiv) || (b && b->hasDiv) || (d && d->hasDiv) || ((op == UDIV || op == UREM));
    e->anyDiv = (a && a->anyDiv) || (b && b->anyDiv) || (d && d->anyDiv) || op == UDIV || op == UREM || op == SDIV || op == SREM;
    ranges(e);
    g_tab.insert(e);
    return e;
}

E mkConst(u128 v, unsigned w) { return mk(CONST, w, 0, v & mask(w), 0, 0, 0); }
E mkVar(const std::string& name, unsigned w) {
    auto it = g_varByName.find(name);
    if (it != g_varByName.end()) {
        if (it->second->w == w) return it->second;
        return mkVar(name + "'" + std::to_string(w), w);
    }
    uint32_t id = g_vars.size();
    g_vars.push_back({name, w, nullptr});
    E e = mk(VAR, w, id, 0, 0, 0, 0);
    g_vars[id].e = e; g_varByName[name] = e; return e;
}

u128 evalConcreteBin(Op op, u128 x, u128 y, unsigned w, bool& ok) {
    ok = true; u128 m = mask(w); x &= m; y &= m;
    switch (op) {
    case ADD: return (x + y) & m;
    case SUB: return (x - y) & m;
    case MUL: return (x * y) & m;
    case UDIV: if (!y) { ok = false; return m; } return x / y;
    case UREM: if (!y) { ok = false; return x; } return x % y;
    case SDIV: { if (!y) { ok = false; return 0; } i128 a = sx(x, w), b = sx(y, w); if (b == -1) return (u128)(-(u128)a) & m; return (u128)(a / b) & m; }
    case SREM: { if (!y) { ok = false; return 0; } i128 a = sx(x, w), b = sx(y, w); if (b == -1) return 0; return (u128)(a % b) & m; }
    case AND: return x & y;
    case OR: return x | y;
    case XOR: return x ^ y;
    case SHL: return y >= w ? 0 : (x << (unsigned)y) & m;
    case LSHR: return y >= w ? 0 : x >> (unsigned)y;
    case ASHR: { i128 a = sx(x, w); unsigned s = y >= w ? w - 1 : (unsigned)y; return (u128)(a >> s) & m; }
    case EQ: return x == y;
    case ULT: return x < y;
    case ULE: return x <= y;
    case SLT: return sx(x, w) < sx(y, w);
    case SLE: return sx(x, w) <= sx(y, w);
    default: ok = false; return 0;
    }
}

static bool isCmp(Op op) { return op >= EQ && op <= SLE; }
static bool isPow2(u128 v) { return v && !(v & (v - 1)); }
static unsigned log2u(u128 v) { unsigned n = 0; while (v > 1) { v >>= 1; n++; } return n; }
static bool divC(E e) { return e->op == UDIV && e->w <= 64 && e->b->isC() && e->b->c; }
static bool constIte(E e) { return e->op == ITE && e->b->isC() && e->d->isC(); }

E mkNot(E a) {
    if (a->isC()) return mkConst(!a->c, 1);
    if (a->op == XOR && a->b->isC()) return a->a;  // width 1: x ^ 1
    switch (a->op) {
    case ULT: return mkBin(ULE, a->b, a->a);
    case ULE: return mkBin(ULT, a->b, a->a);
    case SLT: return mkBin(SLE, a->b, a->a);
    case SLE: return mkBin(SLT, a->b, a->a);
    default: break;
    }
    return mk(XOR, 1, 0, 0, a, mkConst(1, 1), 0);
}

E mkZext(E a, unsigned w) {
    if (a->w == w) return a;
    if (a->isC()) return mkConst(a->c, w);
    if (a->op == ZEXT) return mkZext(a->a, w);
    if (constIte(a)) return mkIte(a->a, mkConst(a->b->c, w), mkConst(a->d->c, w));
    return mk(ZEXT, w, 0, 0, a, 0, 0);
}
E mkSext(E a, unsigned w) {
    if (a->w == w) return a;
    if (a->isC()) return mkConst((u128)sx(a->c, a->w), w);
    if (a->op == ZEXT) return mkZext(a->a, w);
    if (a->op == SEXT) return mkSext(a->a, w);
    if (a->hi < ((u128)1 << (a->w - 1))) return mkZext(a, w);
    if (constIte(a)) return mkIte(a->a, mkSext(a->b, w), mkSext(a->d, w));
    return mk(SEXT, w, 0, 0, a, 0, 0);
}
E mkExtract(E a, unsigned off, unsigned w) {
    if (off == 0 && w == a->w) return a;
    if (a->isC()) return mkConst(a->c >> off, w);
    switch (a->op) {
    case EXTRACT: return mkExtract(a->a, a->aux + off, w);
    case CONCAT: {
        unsigned n = a->b->w;
        if (off + w <= n) return mkExtract(a->b, off, w);
        if (off >= n) return mkExtract(a->a, off - n, w);
        return mkConcat(mkExtract(a->a, 0, off + w - n), mkExtract(a->b, off, n - off));
    }
    case ZEXT: {
        unsigned n = a->a->w;
        if (off >= n) return mkConst(0, w);
        if (off + w <= n) return mkExtract(a->a, off, w);
        return mkZext(mkExtract(a->a, off, n - off), w);
    }
    case SEXT: {
        unsigned n = a->a->w;
        if (off + w <= n) return mkExtract(a->a, off, w);
        if (off == 0) return mkSext(a->a, w);
        break;
    }
    case ADD: case SUB: case MUL:
        if (off == 0) return mkBin(a->op, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
        break;
    case AND: case OR: case XOR:
        return mkBin(a->op, mkExtract(a->a, off, w), mkExtract(a->b, off, w));
    case ITE:
        if ((a->b->isC() || a->d->isC()))
            return mkIte(a->a, mkExtract(a->b, off, w), mkExtract(a->d, off, w));
        break;
    default: break;
    }
    return mk(EXTRACT, w, off, 0, a, 0, 0);
}
static unsigned tz(E e);
E mkConcat(E hi, E lo) {
    unsigned w = hi->w + lo->w;
    if (lo->isC() && lo->c == 0 && hi->op == EXTRACT && hi->aux == lo->w && hi->aux + hi->w == hi->a->w && tz(hi->a) >= lo->w) return hi->a;
    if (hi->isC() && lo->isC()) return mkConst((hi->c << lo->w) | lo->c, w);
    if (hi->isC() && hi->c == 0) return mkZext(lo, w);
    if (hi->op == EXTRACT && lo->op == EXTRACT && hi->a == lo->a && lo->aux + lo->w == hi->aux)
        return mkExtract(hi->a, lo->aux, w);
    if (lo->op == CONCAT && hi->op == EXTRACT && lo->a->op == EXTRACT && hi->a == lo->a->a && lo->a->aux + lo->a->w == hi->aux)
        return mkConcat(mkExtract(hi->a, lo->a->aux, hi->w + lo->a->w), lo->b);
    if (hi->op == EXTRACT && hi->aux == lo->w && (hi->a->op == ADD || hi->a->op == SUB || hi->a->op == MUL) && mkExtract(hi->a, 0, lo->w) == lo) return mkExtract(hi->a, 0, w);
    // hi is upper part of the very value whose low part is `lo` (lo = x truncated, x == extract base)
    if (hi->op == CONCAT) return mkConcat(hi->a, mkConcat(hi->b, lo));
    if (hi->isC() && lo->op == CONCAT && lo->a->isC()) return mkConcat(mkConst((hi->c << lo->a->w) | lo->a->c, hi->w + lo->a->w), lo->b);
    if (hi->op == ZEXT) return mkZext(mkConcat(hi->a, lo), w);
    return mk(CONCAT, w, 0, 0, hi, lo, 0);
}
E mkIte(E c, E a, E b) {
    if (c->isC()) return c->c ? a : b;
    if (a == b) return a;
    if (c->op == XOR && c->w == 1 && c->b->isC()) return mkIte(c->a, b, a);
    if (a->w == 1) {
        if (a->isC() && b->isC()) return a->c ? c : mkNot(c);
        if (a->isC()) return a->c ? mkBin(OR, c, b) : mkBin(AND, mkNot(c), b);
        if (b->isC()) return b->c ? mkBin(OR, mkNot(c), a) : mkBin(AND, c, a);
    }
    if (a->op == ITE && a->a == c) a = a->b;
    if (b->op == ITE && b->a == c) b = b->d;
    if (a == b) return a;
    return mk(ITE, a->w, 0, 0, c, a, b);
}

// trailing known-zero bits
static unsigned tz(E e) {
    if (e->isC()) { if (!e->c) return e->w; unsigned n = 0; u128 v = e->c; while (!(v & 1)) { v >>= 1; n++; } return n; }
    if (e->op == CONCAT) { unsigned n = tz(e->b); return n == e->b->w ? n + tz(e->a) : n; }
    if (e->op == ZEXT) return std::min<unsigned>(tz(e->a), e->w);
    if (e->op == MUL) return std::min<unsigned>(tz(e->a) + tz(e->b), e->w);
    if (e->op == ADD) return std::min<unsigned>(tz(e->a), tz(e->b));
    return 0;
}

// e = sum of x_i * c_i + k without overflow (checked through the ranges)
struct Lin { std::vector<std::pair<E, u128>> t; u128 k = 0; };
static bool linear(E e, u128 f, Lin& l, int depth = 0) {
    if (depth > 12 || l.t.size() > 12) return false;
    if (e->isC()) { l.k += e->c * f; return true; }
    if (e->op == ADD && e->a->hi + e->b->hi <= mask(e->w)) return linear(e->a, f, l, depth + 1) && linear(e->b, f, l, depth + 1);
    if (e->op == MUL && e->b->isC() && e->b->c && e->a->hi <= mask(e->w) / e->b->c) return linear(e->a, f * e->b->c, l, depth + 1);
    if (e->op == CONCAT && e->b->isC() && e->b->c == 0) return linear(mkZext(e->a, e->w), f << e->b->w, l, depth + 1);
    for (auto& t : l.t) if (t.first == e) { t.second += f; return true; }
    l.t.push_back({e, f}); return true;
}
// splits e = C * q + r when some part of the sum is a multiple of C; false when there is nothing to split off
static bool splitMultiple(E e, u128 C, E& q, E& r) {
    unsigned w = e->w; if (w > 64 || (e->op != ADD && e->op != MUL)) return false;
    Lin l; if (!linear(e, 1, l) || l.k > mask(w)) return false;
    q = mkConst(l.k / C, w); r = mkConst(l.k % C, w); bool any = l.k >= C;
    for (auto& t : l.t) {
        if (t.second > mask(w)) return false;
        if (t.second % C == 0) { q = mkBin(ADD, q, mkBin(MUL, t.first, mkConst(t.second / C, w))); any = true; }
        else r = mkBin(ADD, r, mkBin(MUL, t.first, mkConst(t.second, w)));
    }
    return any;
}

E mkBin(Op op, E a, E b) {
    unsigned w = a->w;
    if (a->w != b->w) { fprintf(stderr, "symex: width mismatch op %d %u %u\n", op, a->w, b->w); abort(); }
    if (a->isC() && b->isC()) {
        bool ok; u128 r = evalConcreteBin(op, a->c, b->c, w, ok);
        return mkConst(r, isCmp(op) ? 1 : w);
    }
    bool comm = op == ADD || op == MUL || op == AND || op == OR || op == XOR || op == EQ;
    if (comm && (a->isC() || (!b->isC() && a->id > b->id))) std::swap(a, b);
    u128 m = mask(w);
    // distribute over ite-of-constants when the other side is constant
    if (b->isC() && constIte(a)) return mkIte(a->a, mkBin(op, a->b, b), mkBin(op, a->d, b));
    if (a->isC() && constIte(b)) return mkIte(b->a, mkBin(op, a, b->b), mkBin(op, a, b->d));
    switch (op) {
    case ADD:
        if (b->isC()) {
            if (b->c == 0) return a;
            if (a->op == ADD && a->b->isC()) return mkBin(ADD, a->a, mkConst(a->b->c + b->c, w));
        } else {
            if (a->op == ADD && a->b->isC()) return mkBin(ADD, mkBin(ADD, a->a, b), a->b);
            if (b->op == ADD && b->b->isC()) return mkBin(ADD, mkBin(ADD, a, b->a), b->b);
            if (a->op == SUB && a->b == b) return a->a;
            if (b->op == SUB && b->b == a) return b->a;
        }
        if (w == 1) return mkBin(XOR, a, b);
        break;
    case SUB:
        if (a == b) return mkConst(0, w);
        if (b->isC()) return mkBin(ADD, a, mkConst(-b->c, w));
        if (a->op == ADD && a->a == b) return a->b;
        if (a->op == ADD && a->b == b) return a->a;
        if (b->op == ADD && b->a == a && b->b->isC()) return mkConst(-b->b->c, w);
        if (a->op == ADD && a->b->isC() && b->op == ADD && b->b->isC())
            return mkBin(ADD, mkBin(SUB, a->a, b->a), mkConst(a->b->c - b->b->c, w));
        if (a->op == ADD && a->b->isC()) return mkBin(ADD, mkBin(SUB, a->a, b), a->b);
        if (b->op == ADD && b->b->isC()) return mkBin(ADD, mkBin(SUB, a, b->a), mkConst(-b->b->c, w));
        if (w == 1) return mkBin(XOR, a, b);
        break;
    case MUL:
        if (b->isC()) {
            if (b->c == 0) return b;
            if (b->c == 1) return a;
            if (isPow2(b->c)) return mkBin(SHL, a, mkConst(log2u(b->c), w));
            if (a->op == MUL && a->b->isC()) return mkBin(MUL, a->a, mkConst(a->b->c * b->c, w));
            if (a->op == ADD && a->b->isC()) return mkBin(ADD, mkBin(MUL, a->a, b), mkConst(a->b->c * b->c, w));
        }
        break;
    case UDIV:
        if (b->isC() && b->c) {
            if (b->c == 1) return a;
            if (a->hi < b->c) return mkConst(0, w);
            if (isPow2(b->c)) return mkBin(LSHR, a, mkConst(log2u(b->c), w));
            if (a->op == ZEXT && b->c <= mask(a->a->w)) return mkZext(mkBin(UDIV, a->a, mkConst(b->c, a->a->w)), w);
            if (a->op == UDIV && a->b->isC() && w <= 64 && a->b->c * b->c <= m) return mkBin(UDIV, a->a, mkConst(a->b->c * b->c, w));
            { E q, r; if (splitMultiple(a, b->c, q, r)) return mkBin(ADD, q, mkBin(UDIV, r, b)); }
        }
        break;
    case UREM:
        if (b->isC() && b->c) {
            if (b->c == 1) return mkConst(0, w);
            if (a->hi < b->c) return a;
            if (isPow2(b->c)) { unsigned n = log2u(b->c); return mkZext(mkExtract(a, 0, n), w); }
            if (a->op == ZEXT && b->c <= mask(a->a->w)) return mkZext(mkBin(UREM, a->a, mkConst(b->c, a->a->w)), w);
            { E q, r; if (splitMultiple(a, b->c, q, r)) return mkBin(UREM, r, b); }
        }
        break;
    case SDIV: case SREM:
        if (b->isC() && b->c && !(b->c >> (w - 1)) && a->hi < ((u128)1 << (w - 1)))
            return mkBin(op == SDIV ? UDIV : UREM, a, b);
        break;
    case AND:
        if (a == b) return a;
        if (b->isC()) {
            if (b->c == 0) return b;
            if (b->c == m) return a;
            if (a->op == AND && a->b->isC()) return mkBin(AND, a->a, mkConst(a->b->c & b->c, w));
            if (isPow2(b->c + 1)) return mkZext(mkExtract(a, 0, log2u(b->c + 1)), w);
            if (a->op == ZEXT) return mkZext(mkBin(AND, a->a, mkConst(b->c, a->a->w)), w);
            if (a->op == CONCAT) return mkConcat(mkBin(AND, a->a, mkConst(b->c >> a->b->w, a->a->w)), mkBin(AND, a->b, mkConst(b->c, a->b->w)));
            // contiguous high mask: x & ~(2^k-1)
            u128 inv = (~b->c) & m;
            if (w > 1 && isPow2(inv + 1)) { unsigned k = log2u(inv + 1); return mkConcat(mkExtract(a, k, w - k), mkConst(0, k)); }
            if (isPow2(b->c)) { unsigned k = log2u(b->c); E bit = mkExtract(a, k, 1); E r = k ? mkConcat(bit, mkConst(0, k)) : bit; return mkZext(r, w); }
        }
        if (w == 1) {
            if (a->op == XOR && a->b->isC() && a->a == b) return mkFalse();
            if (b->op == XOR && b->b->isC() && b->a == a) return mkFalse();
        }
        break;
    case OR:
        if (a == b) return a;
        if (b->isC()) {
            if (b->c == 0) return a;
            if (b->c == m) return b;
            if (a->op == OR && a->b->isC()) return mkBin(OR, a->a, mkConst(a->b->c | b->c, w));
            if (a->op == CONCAT) return mkConcat(mkBin(OR, a->a, mkConst(b->c >> a->b->w, a->a->w)), mkBin(OR, a->b, mkConst(b->c, a->b->w)));
            if (a->op == ZEXT && a->w > a->a->w) {
                unsigned n = a->a->w;
                return mkConcat(mkConst(b->c >> n, w - n), mkBin(OR, a->a, mkConst(b->c, n)));
            }
        }
        if (w == 1) {
            if (a->op == XOR && a->b->isC() && a->a == b) return mkTrue();
            if (b->op == XOR && b->b->isC() && b->a == a) return mkTrue();
        } else {
            // disjoint: one has k trailing zero bits, the other fits in k bits
            for (int i = 0; i < 2; i++) {
                E x = i ? b : a, y = i ? a : b;
                unsigned k = tz(x);
                if (k && k < w && y->hi <= mask(k)) return mkConcat(mkExtract(x, k, w - k), mkExtract(y, 0, k));
            }
        }
        break;
    case XOR:
        if (a == b) return mkConst(0, w);
        if (b->isC()) {
            if (b->c == 0) return a;
            if (w == 1) return mkNot(a);
            if (a->op == XOR && a->b->isC()) return mkBin(XOR, a->a, mkConst(a->b->c ^ b->c, w));
            if (a->op == CONCAT) return mkConcat(mkBin(XOR, a->a, mkConst(b->c >> a->b->w, a->a->w)), mkBin(XOR, a->b, mkConst(b->c, a->b->w)));
            if (a->op == ZEXT && b->c <= mask(a->a->w)) return mkZext(mkBin(XOR, a->a, mkConst(b->c, a->a->w)), w);
        }
        break;
    case SHL:
        if (b->isC()) {
            if (b->c == 0) return a;
            if (b->c >= w) return mkConst(0, w);
            unsigned n = (unsigned)b->c;
            return mkConcat(mkExtract(a, 0, w - n), mkConst(0, n));
        }
        break;
    case LSHR:
        if (b->isC()) {
            if (b->c == 0) return a;
            if (b->c >= w) return mkConst(0, w);
            unsigned n = (unsigned)b->c;
            return mkZext(mkExtract(a, n, w - n), w);
        }
        break;
    case ASHR:
        if (b->isC()) {
            if (b->c == 0) return a;
            unsigned n = b->c >= w ? w - 1 : (unsigned)b->c;
            return mkSext(mkExtract(a, n, w - n), w);
        }
        break;
    case EQ:
        if (a == b) return mkTrue();
        if (a->hi < b->lo || b->hi < a->lo) return mkFalse();
        if (w == 1) { if (b->isC()) return b->c ? a : mkNot(a);
            break; }
        if (b->isC()) {
            switch (a->op) {
            case ZEXT: return mkEq(a->a, mkConst(b->c, a->a->w));
            case SEXT: { E t = mkConst(b->c, a->a->w); if ((u128)sx(t->c, t->w) == (u128)sx(b->c, w)) return mkEq(a->a, t); return mkFalse(); }
            case CONCAT: return mkAnd(mkEq(a->a, mkConst(b->c >> a->b->w, a->a->w)), mkEq(a->b, mkConst(b->c, a->b->w)));
            case ADD: if (a->b->isC()) return mkEq(a->a, mkConst(b->c - a->b->c, w)); break;
            case XOR: if (a->b->isC()) return mkEq(a->a, mkConst(b->c ^ a->b->c, w)); break;
            case SUB: if (a->a->isC()) return mkEq(a->b, mkConst(a->a->c - b->c, w)); if (b->c == 0) return mkEq(a->a, a->b); break;
            case ITE:
                if (a->b->isC()) { if (a->b->c == b->c) return mkOr(a->a, mkEq(a->d, b)); return mkAnd(mkNot(a->a), mkEq(a->d, b)); }
                if (a->d->isC()) { if (a->d->c == b->c) return mkOr(mkNot(a->a), mkEq(a->b, b)); return mkAnd(a->a, mkEq(a->b, b)); }
                if (a->b->op == ITE || a->d->op == ITE || a->b->op==ZEXT || a->d->op==ZEXT) return mkIte(a->a, mkEq(a->b, b), mkEq(a->d, b));
                break;
            case OR: if (b->c == 0) return mkAnd(mkEq(a->a, b), mkEq(a->b, b)); break;
            case UDIV: if (divC(a)) { if (b->c == 0) return mkBin(ULT, a->a, a->b); if (b->c > m / a->b->c) return mkFalse(); return mkAnd(mkBin(ULE, mkConst(b->c * a->b->c, w), a->a), mkBin(ULE, a, b)); } break;
            default: break;
            }
        } else {
            if (a->op == ZEXT && b->op == ZEXT) {
                if (a->a->w == b->a->w) return mkEq(a->a, b->a);
                unsigned n = std::max(a->a->w, b->a->w);
                return mkEq(mkZext(a->a, n), mkZext(b->a, n));
            }
            if (a->op == SEXT && b->op == SEXT && a->a->w == b->a->w) return mkEq(a->a, b->a);
            if (a->op == CONCAT && b->op == CONCAT && a->a->w == b->a->w) return mkAnd(mkEq(a->a, b->a), mkEq(a->b, b->b));
            if (a->op == ADD && b->op == ADD && a->b->isC() && b->b->isC()) {
                if (a->b == b->b) return mkEq(a->a, b->a);
            }
            if (a->op == ADD && a->b->isC() && a->a == b) return mkFalse();
            if (b->op == ADD && b->b->isC() && b->a == a) return mkFalse();
        }
        break;
    case ULT:
        if (a == b) return mkFalse();
        if (a->hi < b->lo) return mkTrue();
        if (a->lo >= b->hi) return mkFalse();
        if (b->isC() && b->c == 1) return mkEq(a, mkConst(0, w));
        if (w == 1) return mkAnd(mkNot(a), b);
        if (a->op == ZEXT && b->op == ZEXT && a->a->w == b->a->w) return mkBin(ULT, a->a, b->a);
        if (a->op == ZEXT && b->isC()) return mkBin(ULT, a->a, mkConst(b->c, a->a->w));
        if (b->op == ZEXT && a->isC()) return mkBin(ULT, mkConst(a->c, b->a->w), b->a);
        if (a->isC() && a->c == 0) return mkNot(mkEq(b, a));
        if (a->isC() && a->c == m - 1) return mkEq(b, mkConst(m, w));
        if (b->isC() && divC(a)) { if (b->c > m / a->b->c) return mkTrue(); return mkBin(ULT, a->a, mkConst(b->c * a->b->c, w)); }          // x/c < k  <=>  x < k*c
        if (a->isC() && divC(b)) { if (a->c + 1 > m / b->b->c) return mkFalse(); return mkBin(ULE, mkConst((a->c + 1) * b->b->c, w), b->a); } // k < x/c  <=>  (k+1)*c <= x
        break;
    case ULE:
        if (a == b) return mkTrue();
        if (a->hi <= b->lo) return mkTrue();
        if (a->lo > b->hi) return mkFalse();
        if (b->isC() && b->c == 0) return mkEq(a, b);
        if (w == 1) return mkOr(mkNot(a), b);
        if (a->op == ZEXT && b->op == ZEXT && a->a->w == b->a->w) return mkBin(ULE, a->a, b->a);
        if (a->op == ZEXT && b->isC()) return mkBin(ULE, a->a, mkConst(b->c, a->a->w));
        if (b->op == ZEXT && a->isC()) return mkBin(ULE, mkConst(a->c, b->a->w), b->a);
        if (b->isC() && divC(a)) { if (b->c + 1 > m / a->b->c) return mkTrue(); return mkBin(ULT, a->a, mkConst((b->c + 1) * a->b->c, w)); }
        if (a->isC() && divC(b)) { if (a->c > m / b->b->c) return mkFalse(); return mkBin(ULE, mkConst(a->c * b->b->c, w), b->a); }
        break;
    case SLT: case SLE: {
        if (a == b) return mkConst(op == SLE, 1);
        u128 half = (u128)1 << (w - 1);
        if (w > 1 && a->hi < half && b->hi < half) return mkBin(op == SLT ? ULT : ULE, a, b);
        if (w > 1 && a->lo >= half && b->lo >= half) return mkBin(op == SLT ? ULT : ULE, a, b);
        if (w > 1 && a->lo >= half && b->hi < half) return mkTrue();
        if (w > 1 && a->hi < half && b->lo >= half) return mkFalse();
        if (a->op == SEXT && b->isC()) {
            unsigned n = a->a->w; E t = mkConst(b->c, n);
            if ((u128)sx(t->c, n) == (u128)sx(b->c, w)) return mkBin(op, a->a, t);
            return mkConst(sx(b->c, w) > 0, 1);
        }
        if (b->op == SEXT && a->isC()) {
            unsigned n = b->a->w; E t = mkConst(a->c, n);
            if ((u128)sx(t->c, n) == (u128)sx(a->c, w)) return mkBin(op, t, b->a);
            return mkConst(sx(a->c, w) < 0, 1);
        }
        if (a->op == SEXT && b->op == SEXT && a->a->w == b->a->w) return mkBin(op, a->a, b->a);
        break;
    }
    default: break;
    }
    return mk(op, isCmp(op) ? 1 : w, 0, 0, a, b, 0);
}

static uint64_t g_stamp = 1;
uint64_t freshStamp() { return ++g_stamp; }

u128 evalExpr(E e, const std::vector<uint64_t>& asg, uint64_t st) {
    if (e->op == CONST) return e->c;
    if (e->stamp == st) return e->val;
    u128 r = 0;
    switch (e->op) {
    case VAR: r = e->aux < asg.size() ? (u128)asg[e->aux] & mask(e->w) : 0; break;
    case ZEXT: r = evalExpr(e->a, asg, st); break;
    case SEXT: r = (u128)sx(evalExpr(e->a, asg, st), e->a->w) & mask(e->w); break;
    case EXTRACT: r = (evalExpr(e->a, asg, st) >> e->aux) & mask(e->w); break;
    case CONCAT: r = (evalExpr(e->a, asg, st) << e->b->w) | evalExpr(e->b, asg, st); break;
    case ITE: r = evalExpr(e->a, asg, st) ? evalExpr(e->b, asg, st) : evalExpr(e->d, asg, st); break;
    default: { bool ok; r = evalConcreteBin(e->op, evalExpr(e->a, asg, st), evalExpr(e->b, asg, st), e->a->w, ok); }
    }
    e->stamp = st; e->val = r;
    return r;
}

const TT* truthTable(E e) {
    if (e->tt) return e->tt;
    if (e->w != 1 || e->vs->size() != 1) return nullptr;
    uint32_t v = (*e->vs)[0];
    if (g_vars[v].w > 8) return nullptr;
    auto* t = new TT; std::vector<uint64_t> asg(v + 1, 0);
    unsigned n = 1u << g_vars[v].w;
    for (unsigned i = 0; i < n; i++) { asg[v] = i; if (evalExpr(e, asg, freshStamp())) t->set(i); }
    e->tt = t; return t;
}

std::string exprStr(E e, int depth) {
    static const char* N[] = {"const","var","+","-","*","udiv","sdiv","urem","srem","&","|","^","shl","lshr","ashr","=","<u","<=u","<s","<=s","zext","sext","extract","concat","ite"};
    if (e->op == CONST) { char b[40]; snprintf(b, sizeof b, "0x%llx:%u", (unsigned long long)e->c, e->w); return b; }
    if (e->op == VAR) return g_vars[e->aux].name;
    if (!depth) return "...";
    std::string s = std::string("(") + N[e->op];
    if (e->op == EXTRACT) s += "[" + std::to_string(e->aux) + "+" + std::to_string(e->w) + "]";
    if (e->op == ZEXT || e->op == SEXT) s += std::to_string(e->w);
    for (E k : {e->a, e->b, e->d}) if (k) s += " " + exprStr(k, depth - 1);
    return s + ")";
}
