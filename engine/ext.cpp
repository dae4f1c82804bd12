#include "engine.h"
#include <cstring>
#include <cmath>
#include <llvm/IR/Intrinsics.h>
using namespace llvm;
Val g_ret2;
#define EXT(name) static ExtRes name(Engine& G, State& s, const Inst& I, std::vector<Val>& a, Val& ret)
static inline uint64_t m64(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static const std::vector<Field>& F8() { static std::vector<Field> f{{0, 64, 8, K_INT}}; return f; }
static uint64_t cz(Engine& G, State& s, const Val& v, unsigned w = 64) { return G.concretize(s, v, w); }

// ---------------------------------------------------------------- harness API
EXT(x_sym_int) {
    std::string n = G.cstr(s, cz(G, s, a[0])); unsigned w = (unsigned)cz(G, s, a[1], 32); if (s.dead) return X_DEAD;
    unsigned k = s.symCount[n]++; E v = mkVar(n + "#" + std::to_string(k), w); s.inputs.push_back({n, v->aux});
    ret = fromE(mkZext(v, 64)); return X_OK;
}
EXT(x_sym_bytes) {
    uint64_t p = cz(G, s, a[0]), n = cz(G, s, a[1]); std::string nm = G.cstr(s, cz(G, s, a[2])); if (s.dead) return X_DEAD;
    if (!n) return X_OK;
    uint32_t id; uint64_t off; if (!G.range(s, p, n, true, id, off)) return X_DEAD;
    Obj* o = s.mem.wr(id);
    for (uint64_t i = 0; i < n; i++) { unsigned k = s.symCount[nm]++; E v = mkVar(nm + "#" + std::to_string(k), 8); s.inputs.push_back({nm, v->aux}); Val x; x.e = v; G.setByte(o, off + i, x); }
    return X_OK;
}
EXT(x_sym_assume) {
    Val c = a[0]; E e = isC(c) ? nullptr : mkNot(mkEq(c.e, mkConst(0, c.e->w)));
    bool t = isC(c) ? c.c != 0 : (e->isC() ? (bool)e->c : true);
    if (e && !e->isC()) {
        if (G.wit(s, e)) G.addCons(s, e);
        else { Model m; Res r = G.feasible(s, e, &m); if (r == SAT) { G.setWit(s, m); G.addCons(s, e); } else t = false; }
    }
    if (!t) { G.st.assumeKilled++; return X_DEAD; }
    return X_OK;
}
EXT(x_sym_check) {
    std::string msg = G.cstr(s, cz(G, s, a[1])); if (s.dead) return X_DEAD;
    G.st.checks++; G.st.checkCount[msg]++;
    Val c = a[0];
    if (isC(c)) { if (c.c) return X_OK; G.violation(s, "property", msg); return X_DEAD; }
    E e = mkNot(mkEq(c.e, mkConst(0, c.e->w)));
    if (e->isC()) { if (e->c) return X_OK; G.violation(s, "property", msg); return X_DEAD; }
    G.st.checksSolver++;
    if (!G.wit(s, e)) { G.violation(s, "property", msg); return X_DEAD; }
    Model m; Res r = G.feasible(s, mkNot(e), &m);
    if (r == SAT) { G.setWit(s, m); G.violation(s, "property", msg); return X_DEAD; }
    if (r == UNKNOWN) return X_DEAD;
    s.known.insert(e->id); return X_OK;
}
EXT(x_sym_reach) { std::string m = G.cstr(s, cz(G, s, a[0])); if (s.dead) return X_DEAD; s.reachLabels.insert(m); return X_OK; }
EXT(x_sym_observe) {
    std::string l = G.cstr(s, cz(G, s, a[0])); uint64_t p = cz(G, s, a[1]), n = cz(G, s, a[2]); if (s.dead) return X_DEAD;
    ObsRec r; r.label = l;
    if (n) { uint32_t id; uint64_t off; if (!G.range(s, p, n, false, id, off)) return X_DEAD; Obj* o = s.mem.get(id); for (uint64_t i = 0; i < n; i++) r.bytes.push_back(G.byteAt(o, off + i)); }
    s.obs.push_back(r); return X_OK;
}
EXT(x_sym_concrete) { ret = C64(cz(G, s, a[0])); return X_OK; }
EXT(x_sym_is_symbolic) { ret = C64(!isC(a[0])); return X_OK; }
EXT(x_sym_param) { std::string n = G.cstr(s, cz(G, s, a[0])); auto it = G.opt.params.find(n); ret = it == G.opt.params.end() ? a[1] : C64((uint64_t)it->second); return X_OK; }
EXT(x_sym_note) { std::string n = G.cstr(s, cz(G, s, a[0])); s.notes.push_back(n); if (G.opt.trace) fprintf(stderr, "note: %s\n", n.c_str()); return X_OK; }
EXT(x_sym_trace) { std::string n = G.cstr(s, cz(G, s, a[0])); fprintf(stderr, "trace: %s %s\n", n.c_str(), isC(a[1]) ? std::to_string((long long)a[1].c).c_str() : exprStr(a[1].e, 5).c_str()); return X_OK; }
EXT(x_sym_kill) { G.st.bounded++; return X_DEAD; }
EXT(x_sym_fail) { std::string k = G.cstr(s, cz(G, s, a[0])); std::string m = G.cstr(s, cz(G, s, a[1])); if (!s.dead) G.violation(s, k, m); return X_DEAD; }
EXT(x_sym_unsupported) { std::string k = G.cstr(s, cz(G, s, a[0])); G.inconclusive(s, "unsupported: " + k); return X_DEAD; }

// ---------------------------------------------------------------- heap
static ExtRes doAlloc(Engine& G, State& s, uint64_t n, uint8_t fn, Val& ret, const char* what, uint8_t fill = 0xA5) {
    if (n > 11000000) { G.inconclusive(s, "allocation of " + std::to_string(n) + " bytes is outside the model"); return X_DEAD; }
    uint32_t id = G.alloc(s, n, O_HEAP, what, fill); Obj* o = s.mem.wr(id); o->allocFn = fn; ret = C64(o->base()); return X_OK;
}
EXT(x_malloc) { return doAlloc(G, s, cz(G, s, a[0]), 0, ret, "heap block (malloc)"); }
EXT(x_calloc) { uint64_t n = cz(G, s, a[0]) * cz(G, s, a[1]); return doAlloc(G, s, n, 0, ret, "heap block (calloc)", 0); }
EXT(x_aligned_alloc) { return doAlloc(G, s, cz(G, s, a[1]), 0, ret, "heap block (aligned_alloc)"); }
EXT(x_posix_memalign) { uint64_t p = cz(G, s, a[0]); Val r; ExtRes e = doAlloc(G, s, cz(G, s, a[2]), 0, r, "heap block (posix_memalign)"); if (e != X_OK) return e; if (!G.store(s, C64(p), F8(), &r)) return X_DEAD; ret = C64(0); return X_OK; }
EXT(x_new) { return doAlloc(G, s, cz(G, s, a[0]), 1, ret, "heap block (new)"); }
EXT(x_newa) { return doAlloc(G, s, cz(G, s, a[0]), 2, ret, "heap block (new[])"); }
EXT(x_free) { return G.freeMem(s, cz(G, s, a[0]), 0) ? X_OK : X_DEAD; }
EXT(x_del) { return G.freeMem(s, cz(G, s, a[0]), 1) ? X_OK : X_DEAD; }
EXT(x_dela) { return G.freeMem(s, cz(G, s, a[0]), 2) ? X_OK : X_DEAD; }
EXT(x_realloc) {
    uint64_t p = cz(G, s, a[0]), n = cz(G, s, a[1]);
    ExtRes e = doAlloc(G, s, n, 0, ret, "heap block (realloc)"); if (e != X_OK || !p) return e;
    uint32_t id; uint64_t off; if (!G.range(s, p, 0, false, id, off)) return X_DEAD;
    Obj* o = s.mem.get(id); uint32_t nid = (uint32_t)((ret.c >> 24) - 1); Obj* d = s.mem.wr(nid);
    for (uint64_t i = 0; i < n && i < o->size; i++) G.setByte(d, i, G.byteAt(o, i));
    return G.freeMem(s, p, 0) ? X_OK : X_DEAD;
}
static bool copyMem(Engine& G, State& s, uint64_t d, uint64_t sp, uint64_t n) {
    if (!n) return true;
    uint32_t si, di; uint64_t so, dof;
    if (!G.range(s, sp, n, false, si, so) || !G.range(s, d, n, true, di, dof)) return false;
    if (G.opt.races && s.th.size() > 1) { if (!G.access(s, s.mem.wr(si), so, n, false, false) || !G.access(s, s.mem.wr(di), dof, n, true, false)) return false; }
    Obj* o = s.mem.wr(di); Obj* q = s.mem.get(si);
    if (!q->sym && !o->sym) { memmove(&o->data[dof], &q->data[so], n); return true; }
    std::vector<Val> t(n); for (uint64_t i = 0; i < n; i++) t[i] = G.byteAt(q, so + i);
    for (uint64_t i = 0; i < n; i++) G.setByte(o, dof + i, t[i]);
    return true;
}
EXT(x_memcpy) { uint64_t n = cz(G, s, a[2]); if (n) { uint64_t d = cz(G, s, a[0]), p = cz(G, s, a[1]); if (!copyMem(G, s, d, p, n)) return X_DEAD; } ret = a[0]; return X_OK; }
EXT(x_memset) {
    uint64_t d = cz(G, s, a[0]), n = cz(G, s, a[2]); ret = C64(d); if (!n) return X_OK;
    uint32_t id; uint64_t off; if (!G.range(s, d, n, true, id, off)) return X_DEAD;
    if (G.opt.races && s.th.size() > 1 && !G.access(s, s.mem.wr(id), off, n, true, false)) return X_DEAD;
    Obj* o = s.mem.wr(id); Val v = a[1]; if (!isC(v) && v.e->w > 8) v = fromE(mkExtract(v.e, 0, 8)); else if (isC(v)) v.c &= 255;
    for (uint64_t i = 0; i < n; i++) G.setByte(o, off + i, v);
    return X_OK;
}
static bool readBytes(Engine& G, State& s, uint64_t p, uint64_t n, std::vector<Val>& out) {
    if (!n) return true;
    uint32_t id; uint64_t off; if (!G.range(s, p, n, false, id, off)) return false;
    if (G.opt.races && s.th.size() > 1 && !G.access(s, s.mem.wr(id), off, n, false, false)) return false;
    Obj* o = s.mem.get(id); for (uint64_t i = 0; i < n; i++) out.push_back(G.byteAt(o, off + i));
    return true;
}
EXT(x_memcmp) {
    uint64_t n = cz(G, s, a[2]); if (!n) { ret = C64(0); return X_OK; }
    std::vector<Val> x, y; if (!readBytes(G, s, cz(G, s, a[0]), n, x) || !readBytes(G, s, cz(G, s, a[1]), n, y)) return X_DEAD;
    E r = mkConst(0, 32);
    for (size_t i = n; i-- > 0;) {
        if (isC(x[i]) && isC(y[i])) { if (x[i].c != y[i].c) r = mkConst((u128)(int64_t)((int)x[i].c - (int)y[i].c), 32); continue; }
        E p = toE(x[i], 8), q = toE(y[i], 8);
        r = mkIte(mkEq(p, q), r, mkBin(SUB, mkZext(p, 32), mkZext(q, 32)));
    }
    ret = fromE(r); return X_OK;
}
EXT(x_bcmp) {
    uint64_t n = cz(G, s, a[2]); if (!n) { ret = C64(0); return X_OK; }
    std::vector<Val> x, y; if (!readBytes(G, s, cz(G, s, a[0]), n, x) || !readBytes(G, s, cz(G, s, a[1]), n, y)) return X_DEAD;
    E r = mkTrue(); for (size_t i = 0; i < n; i++) r = mkAnd(r, mkEq(toE(x[i], 8), toE(y[i], 8)));
    ret = fromE(mkIte(r, mkConst(0, 32), mkConst(1, 32))); return X_OK;
}
static bool byteIs(Engine& G, State& s, const Val& v, uint8_t c) { return isC(v) ? (uint8_t)v.c == c : G.decide(s, mkEq(v.e, mkConst(c, 8))); }
EXT(x_strlen) {
    uint64_t p = cz(G, s, a[0]); uint32_t id; uint64_t off;
    for (uint64_t i = 0;; i++) { if (!G.range(s, p + i, 1, false, id, off)) return X_DEAD; if (byteIs(G, s, G.byteAt(s.mem.get(id), off), 0)) { ret = C64(i); return X_OK; } }
}
EXT(x_strnlen) {
    uint64_t p = cz(G, s, a[0]), n = cz(G, s, a[1]); uint32_t id; uint64_t off;
    for (uint64_t i = 0; i < n; i++) { if (!G.range(s, p + i, 1, false, id, off)) return X_DEAD; if (byteIs(G, s, G.byteAt(s.mem.get(id), off), 0)) { ret = C64(i); return X_OK; } }
    ret = C64(n); return X_OK;
}
EXT(x_memchr) {
    uint64_t p = cz(G, s, a[0]), n = cz(G, s, a[2]); uint32_t id; uint64_t off; Val c = a[1];
    if (!isC(c)) c = fromE(mkExtract(c.e, 0, 8));
    for (uint64_t i = 0; i < n; i++) {
        if (!G.range(s, p + i, 1, false, id, off)) return X_DEAD;
        Val b = G.byteAt(s.mem.get(id), off); bool eq = isC(c) ? byteIs(G, s, b, (uint8_t)c.c) : G.decide(s, mkEq(toE(b, 8), toE(c, 8)));
        if (eq) { ret = C64(p + i); return X_OK; }
    }
    ret = C64(0); return X_OK;
}
EXT(x_strchr) {
    uint64_t p = cz(G, s, a[0]); uint32_t id; uint64_t off; uint8_t c = (uint8_t)cz(G, s, a[1], 32);
    for (uint64_t i = 0;; i++) { if (!G.range(s, p + i, 1, false, id, off)) return X_DEAD; Val b = G.byteAt(s.mem.get(id), off); if (byteIs(G, s, b, c)) { ret = C64(p + i); return X_OK; } if (byteIs(G, s, b, 0)) { ret = C64(0); return X_OK; } }
}
static ExtRes cmpStr(Engine& G, State& s, uint64_t p, uint64_t q, uint64_t n, Val& ret) {
    uint32_t id; uint64_t off;
    for (uint64_t i = 0; i < n; i++) {
        if (!G.range(s, p + i, 1, false, id, off)) return X_DEAD; Val x = G.byteAt(s.mem.get(id), off);
        if (!G.range(s, q + i, 1, false, id, off)) return X_DEAD; Val y = G.byteAt(s.mem.get(id), off);
        E ex = toE(x, 8), ey = toE(y, 8);
        if (!G.decide(s, mkEq(ex, ey))) { bool lt = G.decide(s, mkBin(ULT, ex, ey)); ret = C64(lt ? 0xffffffffu : 1); return X_OK; }
        if (byteIs(G, s, x, 0)) { ret = C64(0); return X_OK; }
    }
    ret = C64(0); return X_OK;
}
EXT(x_strcmp) { return cmpStr(G, s, cz(G, s, a[0]), cz(G, s, a[1]), ~0ull, ret); }
EXT(x_strncmp) { return cmpStr(G, s, cz(G, s, a[0]), cz(G, s, a[1]), cz(G, s, a[2]), ret); }

// ---------------------------------------------------------------- termination
EXT(x_abort) { G.violation(s, "abort", "abort() called"); return X_DEAD; }
EXT(x_terminate) { G.violation(s, "terminate", "std::terminate called (exception escaped a noexcept region)"); return X_DEAD; }
EXT(x_assert_fail) { std::string e = G.cstr(s, cz(G, s, a[0])), f = G.cstr(s, cz(G, s, a[1])); G.violation(s, "assert", "assertion failed: " + e + " (" + f + ":" + std::to_string(cz(G, s, a[2], 32)) + ")"); return X_DEAD; }
EXT(x_exit) { G.violation(s, "abort", "process exit requested"); return X_DEAD; }
EXT(x_unwind) { uint64_t e = cz(G, s, a[0]); return G.unwind(s, e) ? X_RETRY : X_DEAD; }
EXT(x_nop) { ret = C64(0); return X_OK; }
EXT(x_one) { ret = C64(1); return X_OK; }

// ---------------------------------------------------------------- threads
EXT(x_thread_create) { int t = G.createThread(s, cz(G, s, a[0]), cz(G, s, a[1])); if (s.dead) return X_DEAD; ret = C64((uint64_t)t); return X_OK; }
// Modelled system calls are atomic and race-free by themselves: sym_env(1) ... sym_env(0) encloses one.
EXT(x_sym_env) { if (cz(G, s, a[0], 32) & 1) { if (!s.th[s.cur].env && !G.schedPoint(s)) return X_SWITCHED; s.th[s.cur].env++; } else { if (s.th[s.cur].env) s.th[s.cur].env--; G.noteWrite(s); } return X_OK; }
EXT(x_thread_self) { ret = C64((uint64_t)s.cur); return X_OK; }
static void joinVC(VC& a, const VC& b) { for (int i = 0; i < MAXT; i++) a[i] = std::max(a[i], b[i]); }
EXT(x_thread_join) {
    int t = (int)cz(G, s, a[0]); if (t < 0 || t >= (int)s.th.size()) { G.violation(s, "memory", "join of an invalid thread"); return X_DEAD; }
    if (s.th[t].st != T_DONE) { auto& T = s.th[s.cur]; T.st = T_JOIN; T.key = t; return G.switchAway(s) ? X_SWITCHED : X_DEAD; }
    joinVC(s.th[s.cur].vc, s.th[t].vc); return X_OK;
}
EXT(x_yield) {
    ret = C64(0);
    if (s.th.size() < 2) return X_OK;
    auto& T = s.th[s.cur];
    if (T.phase == 1) { T.phase = 0; T.idle = 0; T.lookedAt = T.looks; T.seenOther = G.otherWrites(s, s.cur); return X_OK; }     // resumed
    uint64_t ow = G.otherWrites(s, s.cur);
    if (T.looks == T.lookedAt) return X_OK;      // nothing examined since the last pause: one spin iteration
    T.lookedAt = T.looks;
    // A thread that keeps pausing while nobody else writes repeats itself; it is descheduled after examining its
    // condition three times without change, so that loops examining several places in turn see all of them.
    bool changed = ow > T.seenOther;
    if (changed) T.idle = 0; else if (++T.idle < 3) return X_OK;
    if (changed) { T.seenOther = ow; T.polls++; if ((int)T.polls > G.opt.maxPolls) { G.st.bounded++; return X_DEAD; }
        // may continue right away or let another thread run first
        for (size_t t = 0; t < s.th.size(); t++) if ((int)t != s.cur && G.enabled(s, t)) { State* n = G.clone(s); n->th[n->cur].phase = 1; n->sched.push_back((int)t); n->schedWhere.push_back({n->cur, I.src}); n->cur = (int)t; n->th[t].st = T_RUN; n->schedDone = true; G.work.push_back(n); }
        return X_OK; }
    T.st = T_YIELD; T.phase = 1;
    return G.switchAway(s) ? X_SWITCHED : X_DEAD;
}
static ExtRes lockMutex(Engine& G, State& s, uint64_t m, bool tryOnly, Val& ret, bool spin) {
    uint32_t id; uint64_t off; if (!G.range(s, m, 4, false, id, off)) return X_DEAD;
    if (!G.schedPoint(s)) return X_SWITCHED;
    s.th[s.cur].looks++;
    auto& M = s.mtx[m];
    bool recursive = false; if (!spin) { Obj* o = s.mem.get(id); if (off + 20 <= o->size) recursive = (o->data[off + 16] & 3) == 1; }
    if (M.owner == s.cur && recursive) { M.count++; ret = C64(0); return X_OK; }
    if (M.owner >= 0 || M.readers) {
        if (tryOnly) { ret = C64(16); return X_OK; }
        if (M.owner == s.cur) { G.violation(s, "deadlock", "a thread locks a mutex it already holds"); return X_DEAD; }
        s.th[s.cur].st = T_MUTEX; s.th[s.cur].key = m; return G.switchAway(s) ? X_SWITCHED : X_DEAD;
    }
    M.owner = s.cur; M.count = 1; joinVC(s.th[s.cur].vc, M.vc); ret = C64(0); return X_OK;
}
static ExtRes unlockMutex(Engine& G, State& s, uint64_t m, Val& ret) {
    auto it = s.mtx.find(m); ret = C64(0);
    if (it == s.mtx.end() || it->second.owner != s.cur) { G.violation(s, "lock", "unlock of a mutex not held by the thread"); return X_DEAD; }
    auto& M = it->second; if (--M.count) return X_OK;
    M.owner = -1; joinVC(M.vc, s.th[s.cur].vc); s.th[s.cur].vc[s.cur]++; G.noteWrite(s); return X_OK;
}
EXT(x_mutex_lock) { return lockMutex(G, s, cz(G, s, a[0]), false, ret, false); }
EXT(x_mutex_trylock) { return lockMutex(G, s, cz(G, s, a[0]), true, ret, false); }
EXT(x_mutex_unlock) { return unlockMutex(G, s, cz(G, s, a[0]), ret); }
EXT(x_mutex_destroy) { uint64_t m = cz(G, s, a[0]); auto it = s.mtx.find(m); if (it != s.mtx.end()) { if (it->second.owner >= 0) { G.violation(s, "lock", "a locked mutex is destroyed"); return X_DEAD; } s.mtx.erase(it); } ret = C64(0); return X_OK; }
EXT(x_spin_init) { uint64_t p = cz(G, s, a[0]); Val z = C64(0); static std::vector<Field> f4{{0, 32, 4, K_INT}}; if (!G.store(s, C64(p), f4, &z)) return X_DEAD; s.mtx.erase(p); ret = C64(0); return X_OK; }
EXT(x_minit) {   // kind from the attribute (bits 0-1 of its first word)
    uint64_t p = cz(G, s, a[0]), at = cz(G, s, a[1]); static std::vector<Field> f4{{0, 32, 4, K_INT}}; Val z = C64(0);
    for (int i = 0; i < 40; i += 4) if (!G.store(s, C64(p + i), f4, &z)) return X_DEAD;
    if (at) { uint32_t id; uint64_t off; if (!G.range(s, at, 4, false, id, off)) return X_DEAD; Val k = C64(s.mem.get(id)->data[off] & 3); if (!G.store(s, C64(p + 16), f4, &k)) return X_DEAD; }
    s.mtx.erase(p); ret = C64(0); return X_OK; }
EXT(x_spin_lock) { return lockMutex(G, s, cz(G, s, a[0]), false, ret, true); }
EXT(x_spin_trylock) { return lockMutex(G, s, cz(G, s, a[0]), true, ret, true); }
EXT(x_rdlock) {
    uint64_t m = cz(G, s, a[0]); if (!G.schedPoint(s)) return X_SWITCHED; s.th[s.cur].looks++; auto& M = s.mtx[m];
    if (M.owner >= 0) { s.th[s.cur].st = T_RWLOCK; s.th[s.cur].key = m; return G.switchAway(s) ? X_SWITCHED : X_DEAD; }
    M.readers++; joinVC(s.th[s.cur].vc, M.vc); ret = C64(0); return X_OK;
}
EXT(x_rwunlock) {
    uint64_t m = cz(G, s, a[0]); auto& M = s.mtx[m]; ret = C64(0);
    if (M.owner == s.cur) return unlockMutex(G, s, m, ret);
    if (M.readers <= 0) { G.violation(s, "lock", "unlock of an rwlock not held"); return X_DEAD; }
    M.readers--; joinVC(M.vc, s.th[s.cur].vc); s.th[s.cur].vc[s.cur]++; G.noteWrite(s); return X_OK;
}
static ExtRes condWait(Engine& G, State& s, uint64_t c, uint64_t m, bool timed, Val& ret, const Val* ts = nullptr) {
    auto& T = s.th[s.cur];
    if (T.phase == 0) {
        auto it = s.mtx.find(m); if (it == s.mtx.end() || it->second.owner != s.cur) { G.violation(s, "lock", "condition wait without holding the mutex"); return X_DEAD; }
        Val d; int cnt = it->second.count; it->second.count = 1; unlockMutex(G, s, m, d); (void)cnt;
        if (timed) { T.polls++; if ((int)T.polls > G.opt.maxPolls) { G.st.bounded++; return X_DEAD; } }
        // seenOther counts writes by other threads up to now: a timed wait may time out at any moment, but
        // timing out with nothing changed only repeats the caller's loop, so that is tried once per thread
        T.deadline = 0;
        if (ts) { Val sec, ns; uint64_t p = cz(G, s, *ts); if (!G.load(s, C64(p), F8(), &sec) || !G.load(s, C64(p + 8), F8(), &ns)) return X_DEAD; T.deadline = cz(G, s, sec) * 1000000000ull + cz(G, s, ns); }
        if (s.th.size() < 2) { if (timed) { s.clock = std::max(s.clock, T.deadline); ret = C64(110); T.phase = 0; Val r2; return lockMutex(G, s, m, false, r2, false); } G.violation(s, "deadlock", "condition wait with no other thread"); return X_DEAD; }
        T.phase = 2; T.st = T_COND; T.key = c; T.signaled = false; T.timedWait = timed; s.condq[c].push_back(s.cur);
        return G.switchAway(s) ? X_SWITCHED : X_DEAD;
    }
    // woken: re-acquire
    if (T.phase == 2) { auto& q = s.condq[c]; q.erase(std::remove(q.begin(), q.end(), s.cur), q.end()); ret = C64(0); T.phase = 3; }
    s.schedDone = true; bool sig = T.signaled;
    if (timed && !sig && T.phase == 3) { T.phase = 4; if (G.otherWrites(s, s.cur) <= T.seenOther) T.spont++; s.clock = std::max(s.clock, T.deadline); }
    ExtRes r = lockMutex(G, s, m, false, ret, false); if (r != X_OK) return r;
    s.th[s.cur].phase = 0; s.th[s.cur].seenOther = G.otherWrites(s, s.cur); ret = C64(sig ? 0 : 110); if (!timed) ret = C64(0); return X_OK;
}
EXT(x_cond_wait) { return condWait(G, s, cz(G, s, a[0]), cz(G, s, a[1]), false, ret); }
EXT(x_cond_timedwait) { return condWait(G, s, cz(G, s, a[0]), cz(G, s, a[1]), true, ret, &a[2]); }
EXT(x_cond_clockwait) { return condWait(G, s, cz(G, s, a[0]), cz(G, s, a[1]), true, ret, &a[3]); }
EXT(x_clock) { ret = C64(s.clock); return X_OK; }
EXT(x_cond_signal) {
    uint64_t c = cz(G, s, a[0]); if (!G.schedPoint(s)) return X_SWITCHED; G.noteWrite(s); s.th[s.cur].vc[s.cur]++; ret = C64(0);
    auto& q = s.condq[c];
    for (size_t i = 0; i < q.size(); i++) { int t = q[i]; if (s.th[t].st == T_COND && !s.th[t].signaled) { s.th[t].signaled = true; break; } }
    return X_OK;
}
EXT(x_cond_broadcast) { uint64_t c = cz(G, s, a[0]); if (!G.schedPoint(s)) return X_SWITCHED; G.noteWrite(s); s.th[s.cur].vc[s.cur]++; ret = C64(0); for (int t : s.condq[c]) s.th[t].signaled = true; return X_OK; }

// ---------------------------------------------------------------- floating point and formatting on concrete values
static double D(uint64_t c) { double d; memcpy(&d, &c, 8); return d; }
static uint64_t U(double d) { uint64_t c; memcpy(&c, &d, 8); return c; }
#define MATH1(n, ex) EXT(x_##n) { double x = D(cz(G, s, a[0])); ret = C64(U(ex)); return X_OK; }
MATH1(exp2, exp2(x)) MATH1(log10, log10(x)) MATH1(floor, floor(x)) MATH1(ceil, ceil(x)) MATH1(log2, log2(x)) MATH1(sqrt, sqrt(x)) MATH1(exp, exp(x)) MATH1(log, log(x)) MATH1(fabs, fabs(x)) MATH1(round, round(x)) MATH1(trunc, trunc(x))
EXT(x_pow) { ret = C64(U(pow(D(cz(G, s, a[0])), D(cz(G, s, a[1]))))); return X_OK; }
EXT(x_fmod) { ret = C64(U(fmod(D(cz(G, s, a[0])), D(cz(G, s, a[1]))))); return X_OK; }
EXT(x_ldexp) { ret = C64(U(ldexp(D(cz(G, s, a[0])), (int)cz(G, s, a[1], 32)))); return X_OK; }
struct VaList { Engine& G; State& s; uint64_t va = 0; std::vector<Val>* direct = nullptr; size_t pos = 0; std::vector<uint16_t> w;
    uint64_t next(bool fp) {
        if (direct) { if (pos >= direct->size()) return 0; return G.concretize(s, (*direct)[pos++], 64); }
        // we always place everything in the overflow area: {gp_offset, fp_offset, overflow_arg_area, reg_save_area}
        Val p; if (!G.load(s, C64(va + 8), F8(), &p)) return 0; Val v; uint64_t pp = G.concretize(s, p, 64); if (!G.load(s, C64(pp), F8(), &v)) return 0; Val np = C64(pp + 8); G.store(s, C64(va + 8), F8(), &np); return G.concretize(s, v, 64);
    } };
static bool formatC(Engine& G, State& s, const std::string& f, VaList& va, std::string& out) {
    for (size_t i = 0; i < f.size(); i++) {
        if (f[i] != '%') { out += f[i]; continue; }
        std::string spec = "%"; i++; int lng = 0; bool ld = false;
        while (i < f.size() && strchr("-+ #0123456789.*hlzjtL", f[i])) {
            if (f[i] == '*') spec += std::to_string((int)va.next(false)); else if (strchr("hlzjtL", f[i])) { if (f[i] == 'l' || f[i] == 'z' || f[i] == 'j' || f[i] == 't') lng = 1; if (f[i] == 'L') ld = true; } else spec += f[i];
            i++;
        }
        if (i >= f.size()) return true;
        char c = f[i]; char b[1024];
        if (c == '%') { out += '%'; continue; }
        if (ld) { G.inconclusive(s, "long double printf"); return false; }
        if (strchr("di", c)) { int64_t v = (int64_t)va.next(false); if (!lng) v = (int)v; snprintf(b, sizeof b, (spec + "lld").c_str(), (long long)v); out += b; }
        else if (strchr("uxXo", c)) { uint64_t v = va.next(false); if (!lng) v = (uint32_t)v; snprintf(b, sizeof b, (spec + "ll" + c).c_str(), (unsigned long long)v); out += b; }
        else if (strchr("eEfFgGaA", c)) { snprintf(b, sizeof b, (spec + c).c_str(), D(va.next(true))); out += b; }
        else if (c == 'c') { out += (char)va.next(false); }
        else if (c == 'p') { snprintf(b, sizeof b, "0x%llx", (unsigned long long)va.next(false)); out += b; }
        else if (c == 's') {
            uint64_t p = va.next(false); size_t dot = spec.find('.'); long prec = -1; if (dot != std::string::npos) prec = atol(spec.c_str() + dot + 1);
            std::string t; uint32_t id; uint64_t off;
            for (long k = 0; prec < 0 || k < prec; k++) { if (!G.range(s, p + k, 1, false, id, off)) return false; uint8_t ch = (uint8_t)cz(G, s, G.byteAt(s.mem.get(id), off), 8); if (!ch) break; t += (char)ch; }
            long width = 0; const char* q = spec.c_str() + 1; bool left = false; while (*q && strchr("-+ #0", *q)) { if (*q == '-') left = true; q++; } width = atol(q);
            while (!left && (long)t.size() < width) t = " " + t; while (left && (long)t.size() < width) t += " ";
            out += t;
        } else { G.inconclusive(s, std::string("printf conversion ") + c); return false; }
        if (s.dead) return false;
    }
    return true;
}
static ExtRes emitTo(Engine& G, State& s, uint64_t buf, uint64_t n, const std::string& out, Val& ret) {
    if (n) { uint64_t k = std::min<uint64_t>(out.size(), n - 1); uint32_t id; uint64_t off; if (!G.range(s, buf, k + 1, true, id, off)) return X_DEAD; Obj* o = s.mem.wr(id); for (uint64_t i = 0; i < k; i++) G.setByte(o, off + i, C64((uint8_t)out[i])); G.setByte(o, off + k, C64(0)); }
    ret = C64((uint32_t)out.size()); return X_OK;
}
EXT(x_snprintf) {
    VaList va{G, s}; std::vector<Val> rest(a.begin() + 3, a.end()); va.direct = &rest; std::string out, f = G.cstr(s, cz(G, s, a[2])); if (s.dead) return X_DEAD;
    if (!formatC(G, s, f, va, out)) return X_DEAD;
    return emitTo(G, s, cz(G, s, a[0]), cz(G, s, a[1]), out, ret);
}
EXT(x_vsnprintf) {
    VaList va{G, s}; va.va = cz(G, s, a[3]); std::string out, f = G.cstr(s, cz(G, s, a[2])); if (s.dead) return X_DEAD;
    if (!formatC(G, s, f, va, out)) return X_DEAD;
    return emitTo(G, s, cz(G, s, a[0]), cz(G, s, a[1]), out, ret);
}
EXT(x_strtod) {
    uint64_t p = cz(G, s, a[0]), e = cz(G, s, a[1]); std::string t = G.cstr(s, p); if (s.dead) return X_DEAD; char* end; double d = strtod(t.c_str(), &end);
    if (e) { Val v = C64(p + (end - t.c_str())); if (!G.store(s, C64(e), F8(), &v)) return X_DEAD; } ret = C64(U(d)); return X_OK;
}
EXT(x_typeid) { ret = C64((uint32_t)G.typeId(cz(G, s, a[0]))); return X_OK; }

// ---------------------------------------------------------------- intrinsics
EXT(x_bsr64) { uint64_t v = cz(G, s, a[0]); ret = C64(v ? 63 - __builtin_clzll(v) : 0); return X_OK; }
static unsigned W(const Inst& I, unsigned k = 0) { return I.call->args[k].w; }
static Val bin(Engine& G, Op o, const Val& x, const Val& y, unsigned w) { return fromE(mkBin(o, toE(x, w), toE(y, w))); }
EXT(i_umax) { unsigned w = W(I); E x = toE(a[0], w), y = toE(a[1], w); ret = fromE(mkIte(mkBin(ULT, x, y), y, x)); return X_OK; }
EXT(i_umin) { unsigned w = W(I); E x = toE(a[0], w), y = toE(a[1], w); ret = fromE(mkIte(mkBin(ULT, x, y), x, y)); return X_OK; }
EXT(i_smax) { unsigned w = W(I); E x = toE(a[0], w), y = toE(a[1], w); ret = fromE(mkIte(mkBin(SLT, x, y), y, x)); return X_OK; }
EXT(i_smin) { unsigned w = W(I); E x = toE(a[0], w), y = toE(a[1], w); ret = fromE(mkIte(mkBin(SLT, x, y), x, y)); return X_OK; }
EXT(i_abs) { unsigned w = W(I); E x = toE(a[0], w); ret = fromE(mkIte(mkBin(SLT, x, mkConst(0, w)), mkBin(SUB, mkConst(0, w), x), x)); return X_OK; }
EXT(i_ctlz) { unsigned w = W(I); E x = toE(a[0], w);
    if (!x->isC() && w >= 16 && w <= 64 && !(x->vs->size() == 1 && g_vars[(*x->vs)[0]].w <= 8)) {   // case split on the magnitude, one path per result
        unsigned k = 0; uint64_t v = G.wit(s, x); while (k < w && !(v >> (w - 1 - k) & 1)) k++;
        E y = x->op == OR && x->b->isC() && x->b->c == 1 ? x->a : x;
        if (k > 0) { if (k == w) G.decide(s, mkEq(x, mkConst(0, w))); else G.decide(s, mkBin(ULT, y, mkConst((u128)1 << (w - k), w))); }
        if (k < w && !(y != x && k == w - 1)) G.decide(s, mkBin(ULE, mkConst((u128)1 << (w - 1 - k), w), y));
        ret = C64(k); return X_OK;
    }
    E r = mkConst(w, w); for (unsigned i = 0; i < w; i++) r = mkIte(mkExtract(x, i, 1), mkConst(w - 1 - i, w), r); ret = fromE(r); return X_OK; }
EXT(i_cttz) { unsigned w = W(I); E x = toE(a[0], w), r = mkConst(w, w); for (unsigned i = w; i-- > 0;) r = mkIte(mkExtract(x, i, 1), mkConst(i, w), r); ret = fromE(r); return X_OK; }
EXT(i_ctpop) { unsigned w = W(I); E x = toE(a[0], w), r = mkConst(0, w); for (unsigned i = 0; i < w; i++) r = mkBin(ADD, r, mkZext(mkExtract(x, i, 1), w)); ret = fromE(r); return X_OK; }
EXT(i_bswap) { unsigned w = W(I); E x = toE(a[0], w), r = nullptr; for (unsigned i = 0; i < w / 8; i++) { E b = mkExtract(x, 8 * i, 8); r = r ? mkConcat(r, b) : b; } ret = fromE(r); return X_OK; }
static ExtRes fsh(Engine& G, State& s, const Inst& I, std::vector<Val>& a, Val& ret, bool left) {
    unsigned w = W(I); uint64_t c = cz(G, s, a[2], w) % w; E x = toE(a[0], w), y = toE(a[1], w);
    if (!c) { ret = left ? a[0] : a[1]; return X_OK; }
    E L = mkConst(left ? c : w - c, w), R = mkConst(left ? w - c : c, w);
    ret = fromE(mkBin(OR, mkBin(SHL, x, L), mkBin(LSHR, y, R))); return X_OK;
}
EXT(i_fshl) { return fsh(G, s, I, a, ret, true); }
EXT(i_fshr) { return fsh(G, s, I, a, ret, false); }
static void ovf(Engine& G, const Inst& I, std::vector<Val>& a, Val& ret, Op o, bool sgn) {
    unsigned w = W(I); E x = toE(a[0], w), y = toE(a[1], w); E r = mkBin(o, x, y); ret = fromE(r);
    if (w <= 64) {
        unsigned W2 = o == MUL ? 2 * w : w + 1;
        E X = sgn ? mkSext(x, W2) : mkZext(x, W2), Y = sgn ? mkSext(y, W2) : mkZext(y, W2), R = mkBin(o, X, Y), T = sgn ? mkSext(r, W2) : mkZext(r, W2);
        if (o == MUL && !sgn && y->isC()) { // x*y overflows iff x > max/y
            g_ret2 = y->c ? fromE(mkBin(ULT, mkConst(mask(w) / y->c, w), x)) : C64(0); return; }
        g_ret2 = fromE(mkNot(mkEq(R, T)));
    } else g_ret2 = C64(0);
}
EXT(i_uaddo) { ovf(G, I, a, ret, ADD, false); return X_OK; }
EXT(i_saddo) { ovf(G, I, a, ret, ADD, true); return X_OK; }
EXT(i_usubo) { ovf(G, I, a, ret, SUB, false); return X_OK; }
EXT(i_ssubo) { ovf(G, I, a, ret, SUB, true); return X_OK; }
EXT(i_umulo) { ovf(G, I, a, ret, MUL, false); return X_OK; }
EXT(i_smulo) { ovf(G, I, a, ret, MUL, true); return X_OK; }
EXT(i_usubsat) { unsigned w = W(I); E x = toE(a[0], w), y = toE(a[1], w); ret = fromE(mkIte(mkBin(ULT, x, y), mkConst(0, w), mkBin(SUB, x, y))); return X_OK; }
EXT(i_uaddsat) { unsigned w = W(I); E x = toE(a[0], w), y = toE(a[1], w); E r = mkBin(ADD, x, y); ret = fromE(mkIte(mkBin(ULT, r, x), mkConst(mask(w), w), r)); return X_OK; }
EXT(i_id) { ret = a[0]; return X_OK; }
EXT(i_objsize) { ret = C64(~0ull & m64(I.src->getType()->getIntegerBitWidth())); return X_OK; }
EXT(i_false) { ret = C64(0); return X_OK; }
EXT(i_trap) { G.violation(s, "abort", "trap instruction"); return X_DEAD; }
EXT(i_tls) {
    auto* gv = cast<GlobalVariable>(cast<CallBase>(I.src)->getArgOperand(0)->stripPointerCasts());
    auto& T = s.th[s.cur]; uint32_t ix = G.tlsIdx.at(gv); auto it = T.tls.find(ix); uint32_t id;
    if (it == T.tls.end()) {
        uint64_t sz = G.DL->getTypeAllocSize(gv->getValueType()); id = G.alloc(s, sz, O_TLS, strdup(gv->getName().str().c_str()), 0);
        if (gv->hasInitializer()) G.writeInit(s.mem.wr(id), 0, gv->getInitializer()); s.th[s.cur].tls[ix] = id;
    } else id = it->second;
    ret = C64(s.mem.get(id)->base()); return X_OK;
}
EXT(i_vastart) {
    uint64_t p = cz(G, s, a[0]); Frame& f = G.top(s); uint64_t n = f.varargs.size();
    uint32_t id = G.alloc(s, n * 8 + 8, O_STACK, "variadic arguments"); G.top(s).allocas.push_back(id); Obj* o = s.mem.wr(id); Frame& g = G.top(s);
    for (uint64_t i = 0; i < n; i++) { Val v = g.varargs[i]; if (!isC(v)) v = fromE(mkZext(v.e, 64)); G.wrv(s, o, i * 8, 8, 64, v); }
    Val v1 = C64(48 | (176ull << 32)), v2 = C64(o->base()), v3 = C64(o->base());
    if (!G.store(s, C64(p), F8(), &v1) || !G.store(s, C64(p + 8), F8(), &v2) || !G.store(s, C64(p + 16), F8(), &v3)) return X_DEAD;
    return X_OK;
}
EXT(i_vacopy) { uint64_t d = cz(G, s, a[0]), p = cz(G, s, a[1]); return copyMem(G, s, d, p, 24) ? X_OK : X_DEAD; }
EXT(i_fmuladd) { ret = C64(U(D(cz(G, s, a[0])) * D(cz(G, s, a[1])) + D(cz(G, s, a[2])))); return X_OK; }
EXT(i_copysign) { ret = C64(U(copysign(D(cz(G, s, a[0])), D(cz(G, s, a[1]))))); return X_OK; }
EXT(i_isfpclass) {
    double d = D(cz(G, s, a[0])); unsigned m = (unsigned)cz(G, s, a[1], 32); bool neg = std::signbit(d); unsigned c;
    switch (std::fpclassify(d)) { case FP_NAN: c = 3; break; case FP_INFINITE: c = neg ? 4 : 512; break; case FP_NORMAL: c = neg ? 8 : 256; break; case FP_SUBNORMAL: c = neg ? 16 : 128; break; default: c = neg ? 32 : 64; }
    ret = C64((m & c) != 0); return X_OK;
}
EXT(i_ptrmask) { ret = bin(G, AND, a[0], a[1], 64); return X_OK; }

ExtFn intrinsicHandler(Function* f) {
    switch (f->getIntrinsicID()) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: return x_memcpy;
    case Intrinsic::memset: case Intrinsic::memset_inline: return x_memset;
    case Intrinsic::umax: return i_umax; case Intrinsic::umin: return i_umin; case Intrinsic::smax: return i_smax; case Intrinsic::smin: return i_smin; case Intrinsic::abs: return i_abs;
    case Intrinsic::ctlz: return i_ctlz; case Intrinsic::cttz: return i_cttz; case Intrinsic::ctpop: return i_ctpop; case Intrinsic::bswap: return i_bswap;
    case Intrinsic::fshl: return i_fshl; case Intrinsic::fshr: return i_fshr;
    case Intrinsic::uadd_with_overflow: return i_uaddo; case Intrinsic::sadd_with_overflow: return i_saddo; case Intrinsic::usub_with_overflow: return i_usubo; case Intrinsic::ssub_with_overflow: return i_ssubo; case Intrinsic::umul_with_overflow: return i_umulo; case Intrinsic::smul_with_overflow: return i_smulo;
    case Intrinsic::usub_sat: return i_usubsat; case Intrinsic::uadd_sat: return i_uaddsat;
    case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy: return i_id;
    case Intrinsic::objectsize: return i_objsize; case Intrinsic::is_constant: return i_false; case Intrinsic::trap: case Intrinsic::debugtrap: case Intrinsic::ubsantrap: return i_trap;
    case Intrinsic::eh_typeid_for: return x_typeid; case Intrinsic::threadlocal_address: return i_tls;
    case Intrinsic::vastart: return i_vastart; case Intrinsic::vaend: case Intrinsic::stacksave: return x_nop; case Intrinsic::vacopy: return i_vacopy;
    case Intrinsic::fabs: return x_fabs; case Intrinsic::floor: return x_floor; case Intrinsic::ceil: return x_ceil; case Intrinsic::sqrt: return x_sqrt; case Intrinsic::trunc: return x_trunc; case Intrinsic::round: return x_round;
    case Intrinsic::exp2: return x_exp2; case Intrinsic::pow: return x_pow; case Intrinsic::log10: return x_log10; case Intrinsic::fmuladd: case Intrinsic::fma: return i_fmuladd; case Intrinsic::copysign: return i_copysign; case Intrinsic::is_fpclass: return i_isfpclass;
    case Intrinsic::ptrmask: return i_ptrmask;
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::donothing: return x_nop;
    default: return nullptr;
    }
}
void registerExternals(std::unordered_map<std::string, ExtFn>& t) {
    t["sym_int"] = x_sym_int; t["sym_bytes"] = x_sym_bytes; t["sym_assume"] = x_sym_assume; t["sym_check"] = x_sym_check; t["sym_reach"] = x_sym_reach;
    t["sym_env"] = x_sym_env; t["sym_observe"] = x_sym_observe; t["sym_concrete"] = x_sym_concrete; t["sym_param"] = x_sym_param; t["sym_note"] = x_sym_note; t["sym_trace"] = x_sym_trace;
    t["sym_is_symbolic"] = x_sym_is_symbolic; t["sym_kill"] = x_sym_kill; t["sym_fail"] = x_sym_fail; t["sym_unsupported"] = x_sym_unsupported;
    t["malloc"] = x_malloc; t["calloc"] = x_calloc; t["realloc"] = x_realloc; t["free"] = x_free; t["aligned_alloc"] = x_aligned_alloc; t["posix_memalign"] = x_posix_memalign;
    for (auto n : {"_Znwm", "_ZnwmRKSt9nothrow_t", "_ZnwmSt11align_val_t", "_ZnwmSt11align_val_tRKSt9nothrow_t"}) t[n] = x_new;
    for (auto n : {"_Znam", "_ZnamRKSt9nothrow_t", "_ZnamSt11align_val_t", "_ZnamSt11align_val_tRKSt9nothrow_t"}) t[n] = x_newa;
    for (auto n : {"_ZdlPv", "_ZdlPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdlPvRKSt9nothrow_t", "_ZdlPvSt11align_val_tRKSt9nothrow_t"}) t[n] = x_del;
    for (auto n : {"_ZdaPv", "_ZdaPvm", "_ZdaPvSt11align_val_t", "_ZdaPvmSt11align_val_t", "_ZdaPvRKSt9nothrow_t"}) t[n] = x_dela;
    t["memcpy"] = t["memmove"] = t["__memcpy_chk"] = t["__memmove_chk"] = x_memcpy; t["memset"] = t["__memset_chk"] = x_memset; t["memcmp"] = x_memcmp; t["bcmp"] = x_bcmp;
    t["strlen"] = x_strlen; t["strnlen"] = x_strnlen; t["memchr"] = x_memchr; t["strchr"] = x_strchr; t["strcmp"] = x_strcmp; t["strncmp"] = x_strncmp;
    t["abort"] = x_abort; t["_ZSt9terminatev"] = x_terminate; t["__clang_call_terminate"] = x_terminate; t["__assert_fail"] = x_assert_fail; t["exit"] = t["_exit"] = t["_Exit"] = t["quick_exit"] = x_exit;
    t["__cxa_pure_virtual"] = x_abort;
    t["__symex_unwind"] = x_unwind; t["__symex_thread_create"] = x_thread_create; t["__symex_thread_join"] = x_thread_join; t["__symex_thread_self"] = x_thread_self; t["__symex_yield"] = x_yield; t["__symex_clock"] = x_clock;
    t["pthread_mutex_lock"] = x_mutex_lock; t["pthread_mutex_trylock"] = x_mutex_trylock; t["pthread_mutex_unlock"] = x_mutex_unlock; t["pthread_mutex_destroy"] = x_mutex_destroy;
    t["pthread_mutex_init"] = x_minit;
    t["pthread_mutex_clocklock"] = t["pthread_mutex_timedlock"] = x_mutex_lock;
    t["pthread_spin_init"] = x_spin_init; t["pthread_spin_lock"] = x_spin_lock; t["pthread_spin_trylock"] = x_spin_trylock; t["pthread_spin_unlock"] = x_mutex_unlock; t["pthread_spin_destroy"] = x_mutex_destroy;
    t["pthread_rwlock_rdlock"] = x_rdlock; t["pthread_rwlock_wrlock"] = x_spin_lock; t["pthread_rwlock_unlock"] = x_rwunlock; t["pthread_rwlock_trywrlock"] = x_spin_trylock; t["pthread_rwlock_init"] = x_nop; t["pthread_rwlock_destroy"] = x_mutex_destroy;
    t["pthread_cond_wait"] = x_cond_wait; t["pthread_cond_timedwait"] = x_cond_timedwait; t["pthread_cond_clockwait"] = x_cond_clockwait; t["pthread_cond_signal"] = x_cond_signal; t["pthread_cond_broadcast"] = x_cond_broadcast; t["pthread_cond_init"] = t["pthread_cond_destroy"] = x_nop;
    t["pthread_condattr_init"] = t["pthread_condattr_destroy"] = t["pthread_condattr_setclock"] = x_nop;
    t["__symex_bsr64"] = x_bsr64;
    t["sched_yield"] = t["nanosleep"] = t["usleep"] = t["clock_nanosleep"] = x_yield; t["sleep"] = x_yield;
    t["exp2"] = x_exp2; t["log10"] = x_log10; t["log2"] = x_log2; t["floor"] = x_floor; t["ceil"] = x_ceil; t["sqrt"] = x_sqrt; t["pow"] = x_pow; t["exp"] = x_exp; t["log"] = x_log; t["fabs"] = x_fabs; t["fmod"] = x_fmod; t["ldexp"] = x_ldexp; t["round"] = x_round; t["trunc"] = x_trunc;
    t["snprintf"] = x_snprintf; t["vsnprintf"] = x_vsnprintf; t["strtod"] = x_strtod; t["__symex_typeid"] = x_typeid;
    t["__cxa_atexit"] = t["atexit"] = x_nop;
}
