#include "solver.h"
#include <chrono>
#include <cstring>

SolverStats g_sol;
unsigned g_solverTimeoutMs = 60000;
static Z3_context C = nullptr;
static Z3_tactic g_tac = nullptr;
static std::unordered_map<uint32_t, Z3_ast> g_bvOfBool;   // expr id -> bv1 version

static void zerr(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); }

static void init() {
    if (C) return;
    Z3_config cfg = Z3_mk_config();
    Z3_set_param_value(cfg, "model", "true");
    C = Z3_mk_context(cfg);   // not _rc: every AST stays alive with the context
    Z3_del_config(cfg);
    Z3_set_error_handler(C, zerr);
    auto tac = [&](const char* n) { Z3_tactic t = Z3_mk_tactic(C, n); Z3_tactic_inc_ref(C, t); return t; };
    auto then = [&](Z3_tactic a, Z3_tactic b) { Z3_tactic t = Z3_tactic_and_then(C, a, b); Z3_tactic_inc_ref(C, t); return t; };
    g_tac = then(tac("simplify"), then(tac("propagate-values"), then(tac("solve-eqs"), then(tac("simplify"), then(tac("bit-blast"), tac("sat"))))));
}
static Z3_ast keep(Z3_ast a) { Z3_inc_ref(C, a); return a; }
static Z3_sort bv(unsigned w) { return Z3_mk_bv_sort(C, w); }
static Z3_ast constant(u128 v, unsigned w) {
    if (w <= 64) return Z3_mk_unsigned_int64(C, (uint64_t)v, bv(w));
    char buf[64]; int i = 63; buf[i] = 0;
    if (!v) buf[--i] = '0';
    while (v) { buf[--i] = '0' + (int)(v % 10); v /= 10; }
    return Z3_mk_numeral(C, buf + i, bv(w));
}
static Z3_ast nat(E e);
static Z3_ast asBV(E e) {
    if (e->w != 1) return nat(e);
    auto it = g_bvOfBool.find(e->id);
    if (it != g_bvOfBool.end()) return it->second;
    Z3_ast b = nat(e);
    Z3_ast r = keep(Z3_mk_ite(C, b, Z3_mk_unsigned_int64(C, 1, bv(1)), Z3_mk_unsigned_int64(C, 0, bv(1))));
    g_bvOfBool[e->id] = r; return r;
}
struct DivVars { Z3_ast q, r, side; };
static std::map<std::pair<uint32_t, uint64_t>, DivVars> g_div;
static DivVars& divVars(E x, E c) {
    auto key = std::make_pair(x->id, (uint64_t)c->c);
    auto it = g_div.find(key);
    if (it != g_div.end()) return it->second;
    unsigned w = x->w;
    char n[64]; snprintf(n, sizeof n, "!q%u_%llx", x->id, (unsigned long long)c->c);
    DivVars d;
    // as narrow as the operand's range allows
    unsigned k = 1; while (k < w && (x->hi >> k)) k++;
    while (k < w && (c->c >> k)) k++;
    auto wide = [&](Z3_ast a) { return keep(k == w ? a : Z3_mk_zero_ext(C, w - k, a)); };
    Z3_ast q = Z3_mk_const(C, Z3_mk_string_symbol(C, n), bv(k)); n[1] = 'r';
    Z3_ast r = Z3_mk_const(C, Z3_mk_string_symbol(C, n), bv(k));
    d.q = wide(q); d.r = wide(r);
    Z3_ast xx = k == w ? asBV(x) : Z3_mk_extract(C, k - 1, 0, asBV(x)), cc = constant(c->c, k);
    u128 qmax = mask(k) / c->c; if (x->hi / c->c < qmax) qmax = x->hi / c->c;
    Z3_ast cs[4] = {
        Z3_mk_eq(C, xx, Z3_mk_bvadd(C, Z3_mk_bvmul(C, q, cc), r)),
        Z3_mk_bvult(C, r, cc), Z3_mk_bvule(C, q, constant(qmax, k)), Z3_mk_bvule(C, r, xx)};
    d.side = keep(Z3_mk_and(C, 4, cs));
    return g_div[key] = d;
}
// Symbolic divisor: exact are the solver's own division circuits, relax the facts that usually suffice.
struct DivSym { Z3_ast q, r, exact, relax; };
static std::map<std::pair<uint32_t, uint32_t>, DivSym> g_divSym;
static DivSym& divSym(E x, E y) {
    auto key = std::make_pair(x->id, y->id); auto it = g_divSym.find(key); if (it != g_divSym.end()) return it->second;
    unsigned w = x->w; char n[64]; snprintf(n, sizeof n, "!Q%u_%u", x->id, y->id); DivSym d; Z3_ast X = asBV(x), Y = asBV(y);
    d.q = keep(Z3_mk_const(C, Z3_mk_string_symbol(C, n), bv(w))); n[1] = 'R'; d.r = keep(Z3_mk_const(C, Z3_mk_string_symbol(C, n), bv(w)));
    Z3_ast ex[2] = {Z3_mk_eq(C, d.q, Z3_mk_bvudiv(C, X, Y)), Z3_mk_eq(C, d.r, Z3_mk_bvurem(C, X, Y))}; d.exact = keep(Z3_mk_and(C, 2, ex));
    Z3_ast zero = constant(0, w), one = constant(1, w), y0 = Z3_mk_eq(C, Y, zero), less = Z3_mk_bvult(C, X, Y), diff = Z3_mk_bvsub(C, X, Y), once = Z3_mk_bvult(C, diff, Y);
    auto both = [&](Z3_ast a, Z3_ast b) { Z3_ast k[2] = {a, b}; return Z3_mk_and(C, 2, k); };
    Z3_ast rlt = Z3_mk_bvult(C, d.r, Y), rle = Z3_mk_bvule(C, d.r, diff);
    Z3_ast nz = Z3_mk_ite(C, less, both(Z3_mk_eq(C, d.r, X), Z3_mk_eq(C, d.q, zero)), Z3_mk_ite(C, once, both(Z3_mk_eq(C, d.r, diff), Z3_mk_eq(C, d.q, one)), both(both(rlt, rle), both(Z3_mk_bvult(C, one, d.q), Z3_mk_bvule(C, d.q, X)))));
    d.relax = keep(Z3_mk_ite(C, y0, both(Z3_mk_eq(C, d.r, X), Z3_mk_eq(C, d.q, constant(mask(w), w))), nz));
    return g_divSym[key] = d;
}
static Z3_ast nat(E e) {
    if (e->z) return e->z;
    Z3_ast r;
    if (e->w == 1) {
        switch (e->op) {
        case CONST: r = e->c ? Z3_mk_true(C) : Z3_mk_false(C); break;
        case VAR: r = Z3_mk_const(C, Z3_mk_string_symbol(C, ("v!" + std::to_string(e->aux)).c_str()), Z3_mk_bool_sort(C)); break;
        case AND: { Z3_ast k[2] = {nat(e->a), nat(e->b)}; r = Z3_mk_and(C, 2, k); break; }
        case OR: { Z3_ast k[2] = {nat(e->a), nat(e->b)}; r = Z3_mk_or(C, 2, k); break; }
        case XOR: case ADD: case SUB: r = Z3_mk_xor(C, nat(e->a), nat(e->b)); break;
        case ITE: r = Z3_mk_ite(C, nat(e->a), nat(e->b), nat(e->d)); break;
        case EQ: r = e->a->w == 1 ? Z3_mk_iff(C, nat(e->a), nat(e->b)) : Z3_mk_eq(C, nat(e->a), nat(e->b)); break;
        case ULT: r = Z3_mk_bvult(C, asBV(e->a), asBV(e->b)); break;
        case ULE: r = Z3_mk_bvule(C, asBV(e->a), asBV(e->b)); break;
        case SLT: r = Z3_mk_bvslt(C, asBV(e->a), asBV(e->b)); break;
        case SLE: r = Z3_mk_bvsle(C, asBV(e->a), asBV(e->b)); break;
        case EXTRACT: r = Z3_mk_eq(C, Z3_mk_extract(C, e->aux, e->aux, asBV(e->a)), Z3_mk_unsigned_int64(C, 1, bv(1))); break;
        case MUL: { Z3_ast k[2] = {nat(e->a), nat(e->b)}; r = Z3_mk_and(C, 2, k); break; }
        default: {
            Z3_ast t;
            Z3_ast x = asBV(e->a), y = asBV(e->b);
            switch (e->op) {
            case UDIV: t = Z3_mk_bvudiv(C, x, y); break; case SDIV: t = Z3_mk_bvsdiv(C, x, y); break;
            case UREM: t = Z3_mk_bvurem(C, x, y); break; case SREM: t = Z3_mk_bvsrem(C, x, y); break;
            case SHL: t = Z3_mk_bvshl(C, x, y); break; case LSHR: t = Z3_mk_bvlshr(C, x, y); break;
            default: t = Z3_mk_bvashr(C, x, y); break;
            }
            r = Z3_mk_eq(C, t, Z3_mk_unsigned_int64(C, 1, bv(1)));
        }
        }
        e->z = keep(r); return r;
    }
    switch (e->op) {
    case CONST: r = constant(e->c, e->w); break;
    case VAR: r = Z3_mk_const(C, Z3_mk_string_symbol(C, ("v!" + std::to_string(e->aux)).c_str()), bv(e->w)); break;
    case ADD: r = Z3_mk_bvadd(C, nat(e->a), nat(e->b)); break;
    case SUB: r = Z3_mk_bvsub(C, nat(e->a), nat(e->b)); break;
    case MUL: r = Z3_mk_bvmul(C, nat(e->a), nat(e->b)); break;
    case UDIV: r = e->b->isC() && e->b->c ? divVars(e->a, e->b).q : e->b->isC() ? Z3_mk_bvudiv(C, nat(e->a), nat(e->b)) : divSym(e->a, e->b).q; break;
    case UREM: r = e->b->isC() && e->b->c ? divVars(e->a, e->b).r : e->b->isC() ? Z3_mk_bvurem(C, nat(e->a), nat(e->b)) : divSym(e->a, e->b).r; break;
    case SDIV: r = Z3_mk_bvsdiv(C, nat(e->a), nat(e->b)); break;
    case SREM: r = Z3_mk_bvsrem(C, nat(e->a), nat(e->b)); break;
    case AND: r = Z3_mk_bvand(C, nat(e->a), nat(e->b)); break;
    case OR: r = Z3_mk_bvor(C, nat(e->a), nat(e->b)); break;
    case XOR: r = Z3_mk_bvxor(C, nat(e->a), nat(e->b)); break;
    case SHL: r = Z3_mk_bvshl(C, nat(e->a), nat(e->b)); break;
    case LSHR: r = Z3_mk_bvlshr(C, nat(e->a), nat(e->b)); break;
    case ASHR: r = Z3_mk_bvashr(C, nat(e->a), nat(e->b)); break;
    case ZEXT: r = Z3_mk_zero_ext(C, e->w - e->a->w, asBV(e->a)); break;
    case SEXT: r = Z3_mk_sign_ext(C, e->w - e->a->w, asBV(e->a)); break;
    case EXTRACT: r = Z3_mk_extract(C, e->aux + e->w - 1, e->aux, asBV(e->a)); break;
    case CONCAT: r = Z3_mk_concat(C, asBV(e->a), asBV(e->b)); break;
    case ITE: r = Z3_mk_ite(C, nat(e->a), nat(e->b), nat(e->d)); break;
    default: fprintf(stderr, "bad expr op\n"); abort();
    }
    e->z = keep(r); return r;
}
static void collectDivs(E e, uint64_t mark, std::vector<E>& out) {
    if (!e->hasDiv || e->mark == mark) return;
    e->mark = mark;
    if ((e->op == UDIV || e->op == UREM) && (!e->b->isC() || e->b->c) && e->w != 1) out.push_back(e);
    for (E k : {e->a, e->b, e->d}) if (k) collectDivs(k, mark, out);
}


// A condition on a single byte that involves divisions goes to the solver as the set of bytes satisfying it
// (intervals, computed by evaluating the condition at its 256 values): bit-blasted division circuits are far slower.
static E tabulated(E e) {
    if (!e->anyDiv) return e;
    const TT* t = truthTable(e); if (!t) return e;
    static std::unordered_map<uint32_t, E> memo; auto it = memo.find(e->id); if (it != memo.end()) return it->second;
    E v = g_vars[(*e->vs)[0]].e; unsigned n = 1u << v->w; E r = mkFalse();
    for (unsigned i = 0; i < n;) { if (!t->test(i)) { i++; continue; } unsigned j = i; while (j + 1 < n && t->test(j + 1)) j++; E in = mkAnd(mkBin(ULE, mkConst(i, v->w), v), mkBin(ULE, v, mkConst(j, v->w))); r = mkOr(r, in); i = j + 1; }
    g_sol.tabulated++; return memo[e->id] = r;
}

struct CacheEnt { Res r; Model m; };
static std::map<std::vector<uint32_t>, CacheEnt> g_cache;
static const bool g_log = getenv("SYMEX_LOGQ") != nullptr;

// Unsigned bounds of terms that the conjuncts state directly (x < c, c <= x, ...).
typedef std::map<E, std::pair<u128, u128>> Bounds;
static void bound(Bounds& B, E e) {
    auto get = [&](E x) -> std::pair<u128, u128>& { auto it = B.find(x); return it != B.end() ? it->second : (B[x] = {x->lo, x->hi}); };
    E a = e->a, b = e->b;
    if (e->op == AND && e->w == 1) { bound(B, a); bound(B, b); return; }
    if (e->op == ULT && b->isC() && b->c) { auto& p = get(a); if (b->c - 1 < p.second) p.second = b->c - 1; }
    else if (e->op == ULE && b->isC()) { auto& p = get(a); if (b->c < p.second) p.second = b->c; }
    else if (e->op == ULT && a->isC()) { auto& p = get(b); if (a->c + 1 > p.first) p.first = a->c + 1; }
    else if (e->op == ULE && a->isC()) { auto& p = get(b); if (a->c > p.first) p.first = a->c; }
    else if (e->op == EQ && b->isC()) { auto& p = get(a); p = {b->c, b->c}; }
}
static void bubble(Bounds& B, E x) {   // derive bounds through shape-preserving operators down to x
    if (B.count(x)) return;
    if (x->op == ZEXT) { bubble(B, x->a); auto it = B.find(x->a); if (it != B.end()) B[x] = it->second; }
    else if (x->op == UDIV && x->b->isC() && x->b->c) { bubble(B, x->a); auto it = B.find(x->a); if (it != B.end()) B[x] = {std::max(it->second.first / x->b->c, x->lo), std::min(it->second.second / x->b->c, x->hi)}; }
    else if (x->op == EXTRACT && x->aux == 0) { bubble(B, x->a); auto it = B.find(x->a); if (it != B.end() && it->second.second <= mask(x->w)) B[x] = it->second; }
}
static Z3_lbool run(const std::vector<E>& cs, const std::vector<Z3_ast>& extra, unsigned ms, Z3_model* m) {
    Z3_solver s = Z3_mk_solver_from_tactic(C, g_tac);
    Z3_solver_inc_ref(C, s);
    Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p);
    Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), ms);
    Z3_solver_set_params(C, s, p); Z3_params_dec_ref(C, p);
    for (E e : cs) Z3_solver_assert(C, s, nat(e));
    for (Z3_ast a : extra) Z3_solver_assert(C, s, a);
    Z3_lbool lb = Z3_solver_check(C, s);
    *m = nullptr;
    if (lb == Z3_L_TRUE) { *m = Z3_solver_get_model(C, s); Z3_model_inc_ref(C, *m); }
    Z3_solver_dec_ref(C, s);
    return lb;
}
static Model readModel(Z3_model m, const VarSet& vars) {
    Model r;
    for (uint32_t v : vars) {
        Z3_ast val; E ve = g_vars[v].e; uint64_t x = 0;
        if (Z3_model_eval(C, m, nat(ve), true, &val)) {
            if (ve->w == 1) x = Z3_get_bool_value(C, val) == Z3_L_TRUE;
            else Z3_get_numeral_uint64(C, val, &x);
        }
        r.push_back({v, x});
    }
    Z3_model_dec_ref(C, m);
    return r;
}
static E holds(const std::vector<E>& cs, const Model& m) {   // our own evaluator: first conjunct not satisfied
    std::vector<uint64_t> asg(g_vars.size(), 0); for (auto& kv : m) asg[kv.first] = kv.second;
    uint64_t st = freshStamp();
    for (E e : cs) if (!evalExpr(e, asg, st)) return e;
    return nullptr;
}

Res solve(std::vector<E> cs, Model* out) {
    init();
    std::sort(cs.begin(), cs.end(), [](E a, E b) { return a->id < b->id; });
    cs.erase(std::unique(cs.begin(), cs.end()), cs.end());
    std::vector<uint32_t> key; key.reserve(cs.size());
    for (E e : cs) key.push_back(e->id);
    auto it = g_cache.find(key);
    if (it != g_cache.end()) { g_sol.cacheHits++; if (out) *out = it->second.m; return it->second.r; }
    auto t0 = std::chrono::steady_clock::now();
    std::vector<E> whole = cs; for (E& e : cs) e = tabulated(e);
    static uint64_t mark = 0; mark++;
    std::vector<E> divs; VarSet vars; Bounds B;
    for (E e : cs) { collectDivs(e, mark, divs); vars.insert(vars.end(), e->vs->begin(), e->vs->end()); bound(B, e); }
    std::sort(vars.begin(), vars.end()); vars.erase(std::unique(vars.begin(), vars.end()), vars.end());
    CacheEnt ent; ent.r = UNKNOWN; bool doneq = false; Z3_model m;
    std::vector<Z3_ast> extra;
    if (!divs.empty()) {
        // Quotients and remainders as free values within their bounds: a relaxation, so UNSAT carries over;
        // a model counts only if it satisfies the exact constraints under our own evaluator.
        for (E e : divs) {
            if (!e->b->isC()) { auto& d = divSym(e->a, e->b); extra.push_back(d.relax); if (e->w <= 8) extra.push_back(d.exact); continue; }
            auto& d = divVars(e->a, e->b); bubble(B, e->a);
            auto ib = B.find(e->a); u128 lo = e->a->lo, hi = e->a->hi; if (ib != B.end()) lo = std::max(lo, ib->second.first), hi = std::min(hi, ib->second.second);
            u128 c = e->b->c; unsigned w = e->w;
            if (hi < (1u << 16)) extra.push_back(d.side);   // narrow operands stay exact
            if (hi < c) extra.push_back(Z3_mk_eq(C, d.r, asBV(e->a)));
            extra.push_back(Z3_mk_bvult(C, d.r, constant(c, w)));
            extra.push_back(Z3_mk_bvule(C, d.q, constant(hi / c, w))); extra.push_back(Z3_mk_bvule(C, constant(lo / c, w), d.q));
            auto iq = B.find(e); if (iq != B.end() && e->op == UDIV) { extra.push_back(Z3_mk_bvule(C, constant(iq->second.first, w), d.q)); extra.push_back(Z3_mk_bvule(C, d.q, constant(iq->second.second, w))); }
        }
        Z3_lbool lb = run(cs, extra, g_solverTimeoutMs, &m);
        if (lb == Z3_L_FALSE) { ent.r = UNSAT; doneq = true; g_sol.relaxed++; }
        else if (lb == Z3_L_TRUE) { ent.m = readModel(m, vars); if (!holds(whole, ent.m)) { ent.r = SAT; doneq = true; g_sol.relaxed++; } else ent.m.clear(); }
        std::set<Z3_ast> done;
        for (E e : divs) { if (!e->b->isC()) { auto& d = divSym(e->a, e->b); if (done.insert(d.exact).second) extra.push_back(d.exact); continue; } auto& d = divVars(e->a, e->b); if (done.insert(d.side).second) extra.push_back(d.side); }
    }
    if (!doneq) {
        Z3_lbool lb = run(cs, extra, g_solverTimeoutMs, &m);
        ent.r = lb == Z3_L_TRUE ? SAT : lb == Z3_L_FALSE ? UNSAT : UNKNOWN;
        if (ent.r == SAT) {
            ent.m = readModel(m, vars);
            if (E bad = holds(whole, ent.m)) { fprintf(stderr, "symex: model check failed for %s\n", exprStr(bad).c_str()); ent.r = UNKNOWN; }
        }
    }
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    if (g_log && dt > 0.3) { fprintf(stderr, "slow query %.2fs %s relaxed=%d divs=%zu n=%zu\n", dt, ent.r == SAT ? "sat" : ent.r == UNSAT ? "unsat" : "unknown", (int)doneq, divs.size(), cs.size()); for (E e : cs) fprintf(stderr, "    %.6000s\n", exprStr(e, getenv("SYMEX_LOGD") ? atoi(getenv("SYMEX_LOGD")) : 8).c_str()); }
    g_sol.queries++; g_sol.time += dt; if (dt > g_sol.maxTime) g_sol.maxTime = dt;
    if (ent.r == SAT) g_sol.sat++; else if (ent.r == UNSAT) g_sol.unsat++; else g_sol.unknown++;
    if (out) *out = ent.m;
    if (ent.r != UNKNOWN) g_cache[key] = ent;
    return ent.r;
}
