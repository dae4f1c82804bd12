#include "engine.h"
#include <cstring>
#include <cmath>
#include <llvm/Demangle/Demangle.h>
using namespace llvm;

E toE(const Val& v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }
Val fromE(E e) { Val v; if (e->isC() && e->w <= 64) v.c = (uint64_t)e->c; else v.e = e; return v; }
static inline uint64_t m64(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }

// ------------------------------------------------------------------ solver glue
void Engine::addCons(State& s, E e) {
    if (e->isC()) return;
    if (e->op == AND && e->w == 1) { addCons(s, e->a); addCons(s, e->b); return; }
    if (!s.known.insert(e->id).second) return;
    s.cons.push_back(e);
    if (e->vs->size() == 1) {
        uint32_t v = (*e->vs)[0];
        if (auto* t = truthTable(e)) {
            auto it = s.dom.find(v);
            if (it == s.dom.end()) s.dom[v] = *t; else it->second &= *t;
            return;
        }
        s.entangled.insert(v);
    } else for (uint32_t v : *e->vs) s.entangled.insert(v);
}
void Engine::setWit(State& s, const Model& m) {
    auto w = std::make_shared<Witness>(); w->v = s.wit->v; w->stamp = freshStamp();
    for (auto& kv : m) { if (w->v.size() <= kv.first) w->v.resize(kv.first + 1, 0); w->v[kv.first] = kv.second; }
    s.wit = w;
}
std::vector<E> Engine::slice(State& s, E e) {
    std::set<uint32_t> vars(e->vs->begin(), e->vs->end());
    std::vector<E> out; std::vector<bool> used(s.cons.size(), false); bool ch = true;
    while (ch) {
        ch = false;
        for (size_t i = 0; i < s.cons.size(); i++) if (!used[i]) {
            E c = s.cons[i]; bool hit = false;
            for (uint32_t v : *c->vs) if (vars.count(v)) { hit = true; break; }
            if (hit) { used[i] = true; out.push_back(c); for (uint32_t v : *c->vs) if (vars.insert(v).second) ch = true; }
        }
    }
    return out;
}
// The constraints on one byte-sized variable are kept as a truth table that predicts the answer; the verdict is Z3's
// (cached per set of constraints), and a disagreement between the two is an internal error.
Res Engine::byDomain(State& s, E e, uint32_t v, bool sat) {
    std::vector<E> cs; for (E c : s.cons) if (c->vs->size() == 1 && (*c->vs)[0] == v) cs.push_back(c);
    cs.push_back(e);
    Res r = solve(cs, nullptr);
    if (r == UNKNOWN) inconclusive(s, "solver gave no answer within its limit");
    else if ((r == SAT) != sat) { fprintf(stderr, "symex: domain table and solver disagree on %s\n", exprStr(e).c_str()); abort(); }
    g_sol.domainHits++;
    return r;
}
Res Engine::feasible(State& s, E e, Model* m) {
    if (e->isC()) return e->c ? SAT : UNSAT;
    if (s.known.count(e->id)) return SAT;
    if (e->op == AND && e->w == 1) {
        // cheap refutation by one conjunct
        E k[2] = {e->a, e->b};
        for (E c : k) { if (auto* t = truthTable(c)) { auto it = s.dom.find((*c->vs)[0]); if (it != s.dom.end() && (it->second & *t).none()) return byDomain(s, c, (*c->vs)[0], false); } }
    }
    if (auto* t = truthTable(e)) {
        uint32_t v = (*e->vs)[0]; auto it = s.dom.find(v); TT d = *t; if (it != s.dom.end()) d &= it->second;
        if (d.none()) return byDomain(s, e, v, false);
        if (!s.entangled.count(v)) {
            if (m) { unsigned b = d._Find_first(); m->clear(); m->push_back({v, b}); }
            return byDomain(s, e, v, true);
        }
    }
    auto cs = slice(s, e); cs.push_back(e);
    Res r = solve(cs, m);
    if (r == UNKNOWN) inconclusive(s, "solver gave no answer within its limit");
    return r;
}
bool Engine::must(State& s, E cond) {
    if (cond->isC()) return cond->c;
    if (!wit(s, cond)) return false;
    return feasible(s, mkNot(cond), nullptr) == UNSAT;
}
State* Engine::clone(State& s) { auto* n = new State(s); n->id = nextState++; n->depth++; st.forks++; return n; }
bool Engine::decide(State& s, E cond) {
    if (cond->isC()) return cond->c;
    if (s.known.count(cond->id)) return true;
    E nc = mkNot(cond);
    if (s.known.count(nc->id)) return false;
    bool w = wit(s, cond);
    E other = w ? nc : cond; Model m;
    st.decided++;
    Res r = feasible(s, other, &m);
    if (r == SAT) {
        State* n = clone(s); setWit(*n, m); addCons(*n, other); work.push_back(n);
        addCons(s, w ? cond : nc);
    } else if (r == UNSAT) {
        E k = w ? cond : nc; s.known.insert(k->id);
        // an implied bound on a wide value is kept as a lemma: it lets the solver reason about divisions
        if (k->op >= ULT && k->op <= SLE && (k->a->isC() || k->b->isC()) && k->a->w > 16 && k->vs->size() == 1 && g_vars[(*k->vs)[0]].w > 8) addCons(s, k);
    } else addCons(s, w ? cond : nc);
    return w;
}
uint64_t Engine::concretize(State& s, const Val& v, unsigned w) {
    if (isC(v)) return v.c;
    if (v.e->isC()) return (uint64_t)v.e->c;
    E e = v.e;
    uint64_t x = wit(s, e);
    decide(s, mkEq(e, mkConst(x, e->w)));
    return x;
}

// ------------------------------------------------------------------ reports
static std::string dem(const std::string& n) { return llvm::demangle(n); }
std::vector<std::string> Engine::backtrace(State& s) {
    std::vector<std::string> r;
    if (s.th.empty()) return r;
    auto& stk = s.th[s.cur].stack;
    for (int i = (int)stk.size() - 1; i >= 0 && r.size() < 24; i--) {
        auto& f = *stk[i]; std::string l = dem(f.f->name);
        if (f.pc < (int)f.f->code.size()) if (auto* in = f.f->code[f.pc].src) if (auto& dl = in->getDebugLoc()) l += " at " + dl->getFilename().str() + ":" + std::to_string(dl.getLine());
        r.push_back(l);
    }
    return r;
}
std::vector<std::pair<std::string, std::pair<unsigned, uint64_t>>> Engine::inputsOf(State& s, const std::vector<uint64_t>& v) {
    std::vector<std::pair<std::string, std::pair<unsigned, uint64_t>>> r;
    for (auto& in : s.inputs) r.push_back({in.first, {g_vars[in.second].w, in.second < v.size() ? v[in.second] & m64(g_vars[in.second].w) : 0}});
    return r;
}
static std::string instLoc(const Instruction* in) { if (!in) return "?"; std::string r = dem(in->getFunction()->getName().str()); if (auto& dl = in->getDebugLoc()) r += " " + dl->getFilename().str() + ":" + std::to_string(dl.getLine()); return r; }
void Engine::violation(State& s, const std::string& kind, const std::string& msg) {
    Violation v; v.kind = kind; v.msg = msg; v.stack = backtrace(s); v.inputs = inputsOf(s, s.wit->v); v.sched = s.sched; v.notes = s.notes;
    for (auto& p : s.schedWhere) v.schedWhere.push_back("t" + std::to_string(p.first) + " at " + instLoc(p.second));
    v.where = v.stack.empty() ? "" : v.stack[0];
    bool dup = false;
    for (auto& o : viol) if (o.kind == v.kind && o.msg == v.msg && o.where == v.where) dup = true;
    if (!dup) viol.push_back(v);
    s.dead = true;
    if (opt.stopFirst || viol.size() >= 20) stop = true;
}
void Engine::inconclusive(State& s, const std::string& why) {
    auto b = backtrace(s); std::string m = why + (b.empty() ? "" : " in " + b[0]) + (b.size() > 1 ? " <- " + b[1] : "") + (b.size() > 2 ? " <- " + b[2] : "");
    if (st.inconclusive.size() < 20 && std::find(st.inconclusive.begin(), st.inconclusive.end(), m) == st.inconclusive.end()) st.inconclusive.push_back(m);
    else if (st.inconclusive.empty()) st.inconclusive.push_back(m);
    if (opt.trace) for (auto& l : b) fprintf(stderr, "   %s\n", l.c_str());
}
void Engine::endPath(State& s) {
    st.paths++;
    for (auto& l : s.reachLabels) st.reach[l]++;
    uint64_t k = st.paths; bool take = samples.size() < opt.samples; size_t at = samples.size();
    if (!take && opt.samples) { uint64_t h = (k * 0x9E3779B97F4A7C15ull) ^ (opt.seed * 0xD1B54A32D192ED03ull); h ^= h >> 29; h *= 0xBF58476D1CE4E5B9ull; h ^= h >> 32; if (h % k < opt.samples) { take = true; at = (h >> 20) % opt.samples; } }
    if (!take) return;
    PathSample p; p.inputs = inputsOf(s, s.wit->v); p.sched = s.sched; p.concurrent = s.th.size() > 1;
    for (auto& o : s.obs) {
        std::string h; char b[4];
        for (auto& x : o.bytes) { snprintf(b, 4, "%02x", (unsigned)(isC(x) ? x.c : wit(s, x.e)) & 255); h += b; }
        p.obs.push_back({o.label, h});
    }
    if (at >= samples.size()) samples.push_back(p); else samples[at] = p;
}

// ------------------------------------------------------------------ memory
uint32_t Engine::alloc(State& s, uint64_t size, OKind k, const char* what, uint8_t fill) {
    Obj* o = new Obj; o->id = s.mem.next++; o->size = size; o->kind = k; o->what = what; o->data.assign(size, fill); o->thread = s.cur;
    s.mem.slot(o->id) = ObjPtr(o); return o->id;
}
static std::string hex(uint64_t v) { char b[32]; snprintf(b, 32, "0x%llx", (unsigned long long)v); return b; }
bool Engine::range(State& s, uint64_t addr, uint64_t n, bool write, uint32_t& id, uint64_t& off) {
    if (addr < (1ull << 24)) { violation(s, "memory", std::string("null pointer ") + (write ? "write" : "read") + " at " + hex(addr)); return false; }
    id = (uint32_t)((addr >> 24) - 1);
    Obj* o = (addr >> 56) ? nullptr : s.mem.get(id);
    if (!o) { violation(s, "memory", std::string("wild pointer ") + (write ? "write" : "read") + " at " + hex(addr)); return false; }
    off = addr - o->base();
    if (o->kind == O_FREED) { violation(s, "memory", std::string("use after free of ") + o->what + " (" + (write ? "write" : "read") + ")"); return false; }
    if (off > o->size || n > o->size - off) {
        violation(s, "memory", std::string("out of bounds ") + (write ? "write" : "read") + " of " + std::to_string(n) + " bytes at offset " + std::to_string((int64_t)off) + " of " + o->what + " (size " + std::to_string(o->size) + ")"); return false; }
    if (o->kind == O_FUNC) { violation(s, "memory", "access to code memory"); return false; }
    if (write && o->ro) { violation(s, "memory", std::string("write to constant ") + o->what); return false; }
    return true;
}
// Resolve a possibly symbolic pointer for an access of n bytes.
bool Engine::resolve(State& s, const Val& p, uint64_t n, bool write, uint32_t& id, Val& off) {
    st.memObl++;
    if (isC(p)) { uint64_t o; if (!range(s, p.c, n, write, id, o)) return false; off = C64(o); return true; }
    for (;;) {
        uint64_t a = wit(s, p.e);
        uint32_t oid = (uint32_t)((a >> 24) - 1);
        Obj* o = a < (1ull << 24) || (a >> 56) ? nullptr : s.mem.get(oid);
        if (!o || o->kind == O_FREED || o->kind == O_FUNC || n > o->size || a - o->base() > o->size - n) {
            // this witness is out of bounds: a definite violation for these inputs
            uint64_t dummy; if (range(s, a, n, write, id, dummy)) inconclusive(s, "resolve"); return false;
        }
        E offE = mkBin(SUB, p.e, mkConst(o->base(), 64));
        E in = mkBin(ULE, offE, mkConst(o->size - n, 64));
        decide(s, in);   // witness satisfies `in`; sibling gets the complement
        id = oid; off = fromE(offE);
        if (write && o->ro) { violation(s, "memory", std::string("write to constant ") + o->what); return false; }
        return true;
    }
}
Val Engine::rd(State& s, Obj* o, uint64_t off, unsigned bytes, unsigned w) {
    bool sym = false;
    if (o->sym) for (unsigned i = 0; i < bytes; i++) if ((*o->sym)[off + i]) { sym = true; break; }
    if (!sym) {
        if (bytes <= 8) { uint64_t x = 0; memcpy(&x, &o->data[off], bytes); return C64(x & m64(w)); }
        u128 x = 0; for (unsigned i = 0; i < bytes; i++) x |= (u128)o->data[off + i] << (8 * i);
        Val v; v.e = mkConst(x, w); return v;
    }
    E e = nullptr;
    for (unsigned i = 0; i < bytes; i++) { E b = (*o->sym)[off + i]; if (!b) b = mkConst(o->data[off + i], 8); e = e ? mkConcat(b, e) : b; }
    if (w < e->w) e = mkExtract(e, 0, w);
    return fromE(e);
}
void Engine::setByte(Obj* o, uint64_t off, const Val& v) {
    if (isC(v)) { o->data[off] = (uint8_t)v.c; if (o->sym) (*o->sym)[off] = nullptr; }
    else if (v.e->isC()) { o->data[off] = (uint8_t)v.e->c; if (o->sym) (*o->sym)[off] = nullptr; }
    else { if (!o->sym) o->sym.reset(new std::vector<E>(o->size, nullptr)); (*o->sym)[off] = v.e; }
}
void Engine::wrv(State& s, Obj* o, uint64_t off, unsigned bytes, unsigned w, const Val& v) {
    if (isC(v)) {
        uint64_t x = v.c; memcpy(&o->data[off], &x, std::min(bytes, 8u));
        if (bytes > 8) memset(&o->data[off + 8], 0, bytes - 8);
        if (o->sym) for (unsigned i = 0; i < bytes; i++) (*o->sym)[off + i] = nullptr;
        return;
    }
    E e = v.e; if (e->w < bytes * 8) e = mkZext(e, bytes * 8);
    for (unsigned i = 0; i < bytes; i++) setByte(o, off + i, fromE(mkExtract(e, 8 * i, 8)));
}
static E buildIte(E idx, const std::vector<std::pair<uint64_t, E>>& runs, size_t lo, size_t hi) {
    if (hi - lo == 1) return runs[lo].second;
    size_t mid = (lo + hi) / 2;
    return mkIte(mkBin(ULT, idx, mkConst(runs[mid].first, idx->w)), buildIte(idx, runs, lo, mid), buildIte(idx, runs, mid, hi));
}
// set of feasible offsets (superset), as candidates
static bool candidates(State& s, E off, uint64_t maxOff, std::vector<uint64_t>& out, unsigned limit) {
    if (off->vs->size() == 1) {
        uint32_t v = (*off->vs)[0];
        if (g_vars[v].w <= 8) {
            std::vector<uint64_t> asg(v + 1, 0); auto it = s.dom.find(v); std::set<uint64_t> r;
            for (unsigned i = 0; i < (1u << g_vars[v].w); i++) { if (it != s.dom.end() && !it->second[i]) continue; asg[v] = i; uint64_t x = (uint64_t)evalExpr(off, asg, freshStamp()); if (x <= maxOff) r.insert(x); }
            out.assign(r.begin(), r.end()); return true;
        }
    }
    // stride from trailing constant zeros
    uint64_t stride = 1; E e = off; uint64_t add = 0;
    if (e->op == ADD && e->b->isC()) { add = (uint64_t)e->b->c; e = e->a; }
    { E t = e; while (t->op == ZEXT) t = t->a; if (t->op == CONCAT) { E l = t; while (l->op == CONCAT) l = l->b; if (l->isC() && l->c == 0) stride = 1ull << l->w; } else if (t->op == MUL && t->b->isC()) stride = (uint64_t)t->b->c; }
    u128 lo = e->lo, hi = e->hi;
    if (lo + add > maxOff) { lo = 0; add = (uint64_t)off->lo; if (e != off) { lo = off->lo; add = 0; stride = 1; hi = off->hi; } }
    uint64_t first = (uint64_t)((lo + stride - 1) / stride) * stride;
    for (u128 x = first; x <= hi; x += stride) { uint64_t y = (uint64_t)x + add; if (y > maxOff) break; out.push_back(y); if (out.size() > limit) return false; }
    return true;
}
Val Engine::rdSym(State& s, Obj* o, E off, unsigned bytes, unsigned w) {
    std::vector<uint64_t> cand;
    if (!candidates(s, off, o->size - bytes, cand, 8192) || cand.empty()) {
        uint64_t x = concretize(s, fromE(off), 64); return rd(s, o, x, bytes, w);
    }
    std::vector<std::pair<uint64_t, E>> runs;
    for (uint64_t c : cand) { E v = toE(rd(s, o, c, bytes, w), w); if (runs.empty() || runs.back().second != v) runs.push_back({c, v}); }
    // strip high bits of the index expression when it is a zero extension
    return fromE(buildIte(off, runs, 0, runs.size()));
}
bool Engine::access(State& s, Obj* o, uint64_t off, uint64_t n, bool write, bool atomic) {
    if (!opt.races || s.th.size() < 2 || o->kind == O_FUNC || (o->ro) || s.th[s.cur].env) return true;
    if (!o->sh) o->sh.reset(new Shadow);
    int t = s.cur; auto& T = s.th[t]; auto& vc = T.vc;
    for (uint64_t i = off; i < off + n; i++) {
        Cell& c = o->sh->cells[(uint32_t)i];
        std::string why;
        if (c.wt >= 0 && c.wt != t && c.wc > vc[c.wt]) why = "write by thread " + std::to_string(c.wt);
        if (!atomic) for (int k = 0; k < MAXT; k++) if (k != t && c.aw[k] > vc[k]) why = "atomic write by thread " + std::to_string(k);
        if (write) for (int k = 0; k < MAXT; k++) if (k != t) {
            if (c.r[k] > vc[k]) why = "read by thread " + std::to_string(k);
            if (!atomic && c.ar[k] > vc[k]) why = "atomic read by thread " + std::to_string(k);
        }
        if (!why.empty()) {
            violation(s, "race", std::string("data race: ") + (atomic ? "atomic " : "") + (write ? "write" : "read") + " by thread " + std::to_string(t) + " of " + o->what + "+" + std::to_string(i) + " is unordered with an earlier " + why);
            return false;
        }
        if (atomic) { if (write) c.aw[t] = vc[t]; else c.ar[t] = vc[t]; }
        else if (write) { c.wt = t; c.wc = vc[t]; }
        else c.r[t] = vc[t];
    }
    return true;
}
static bool acq(int o) { return o == 4 || o == 5 || o == 6 || o == 7; }   // AtomicOrdering: 2 monotonic 4 acquire 5 release 6 acqrel 7 seqcst
static bool isAcq(int o) { return o == 4 || o == 6 || o == 7; }
static bool isRel(int o) { return o == 5 || o == 6 || o == 7; }
static void joinVC(VC& a, const VC& b) { for (int i = 0; i < MAXT; i++) a[i] = std::max(a[i], b[i]); }
static void atomicLoadSync(State& s, uint64_t addr, int ord) {
    s.th[s.cur].looks++;
    auto it = s.rel.find(addr); if (it == s.rel.end()) return;
    if (isAcq(ord)) joinVC(s.th[s.cur].vc, it->second); else joinVC(s.th[s.cur].acqPending, it->second);
}
static void atomicStoreSync(State& s, uint64_t addr, int ord, bool rmw) {
    auto& T = s.th[s.cur];
    if (isRel(ord)) { if (rmw) joinVC(s.rel[addr], T.vc); else s.rel[addr] = T.vc; T.vc[s.cur]++; }
    else if (T.hasRelFence) { if (rmw) joinVC(s.rel[addr], T.relFence); else s.rel[addr] = T.relFence; }
    else if (!rmw) s.rel[addr] = VC{};
}
bool Engine::load(State& s, const Val& p, const std::vector<Field>& fs, Val* out, bool atomic, int ord) {
    if (fs.empty()) return true;
    uint64_t n = 0; for (auto& f : fs) n = std::max<uint64_t>(n, f.off + f.bytes);
    uint32_t id; Val off; if (!resolve(s, p, n, false, id, off)) return false;
    Obj* o = s.mem.get(id);
    if (s.th.size() > 1 && (atomic || o->kind == O_HEAP || o->kind == O_GLOBAL)) s.th[s.cur].looks++;
    if (opt.races && s.th.size() > 1) { o = s.mem.wr(id); if (isC(off)) { if (!access(s, o, off.c, n, false, atomic)) return false; if (atomic) atomicLoadSync(s, o->base() + off.c, ord); } else if (!access(s, o, 0, o->size, false, false)) return false; }
    for (size_t i = 0; i < fs.size(); i++)
        out[i] = isC(off) ? rd(s, o, off.c + fs[i].off, fs[i].bytes, fs[i].w) : rdSym(s, o, mkBin(ADD, off.e, mkConst(fs[i].off, 64)), fs[i].bytes, fs[i].w);
    return !s.dead;
}
bool Engine::store(State& s, const Val& p, const std::vector<Field>& fs, const Val* in, bool atomic, int ord) {
    if (fs.empty()) return true;
    uint64_t n = 0; for (auto& f : fs) n = std::max<uint64_t>(n, f.off + f.bytes);
    uint32_t id; Val off; if (!resolve(s, p, n, true, id, off)) return false;
    if (!isC(off)) {
        std::vector<uint64_t> cand; Obj* o = s.mem.get(id);
        if (fs.size() == 1 && fs[0].bytes == 1 && off.e->vs->size() == 1 && g_vars[(*off.e->vs)[0]].w <= 8 && candidates(s, off.e, o->size - 1, cand, 256)) {
            o = s.mem.wr(id);
            if (!access(s, o, 0, o->size, true, false)) return false;
            E v = toE(in[0], fs[0].w); if (v->w < 8) v = mkZext(v, 8);
            for (uint64_t c : cand) { Val old = byteAt(o, c); setByte(o, c, fromE(mkIte(mkEq(off.e, mkConst(c, 64)), v, toE(old, 8)))); }
            return true;
        }
        off = C64(concretize(s, off, 64));
    }
    Obj* o = s.mem.wr(id);
    if (opt.races && s.th.size() > 1) { if (!access(s, o, off.c, n, true, atomic)) return false; if (atomic) { atomicStoreSync(s, o->base() + off.c, ord, false); noteWrite(s); } }
    for (size_t i = 0; i < fs.size(); i++) wrv(s, o, off.c + fs[i].off, fs[i].bytes, fs[i].w, in[i]);
    return true;
}
bool Engine::freeMem(State& s, uint64_t addr, uint8_t fn) {
    if (!addr) return true;
    uint32_t id = (uint32_t)((addr >> 24) - 1); Obj* o = (addr >> 56) || addr < (1ull << 24) ? nullptr : s.mem.get(id);
    if (!o) { violation(s, "memory", "free of wild pointer " + hex(addr)); return false; }
    if (o->kind == O_FREED) { violation(s, "memory", std::string("double free of ") + o->what); return false; }
    if (o->kind != O_HEAP || addr != o->base()) { violation(s, "memory", std::string("invalid free inside ") + o->what); return false; }
    if (o->allocFn != fn) { violation(s, "memory", "allocation and deallocation functions do not match"); return false; }
    if (opt.races && s.th.size() > 1 && o->sh) {
        // every earlier access must be ordered before the free
        auto& vc = s.th[s.cur].vc; int t = s.cur;
        for (auto& kv : o->sh->cells) { Cell& c = kv.second; bool bad = c.wt >= 0 && c.wt != t && c.wc > vc[c.wt];
            for (int k = 0; k < MAXT; k++) if (k != t && (c.r[k] > vc[k] || c.ar[k] > vc[k] || c.aw[k] > vc[k])) bad = true;
            if (bad) { violation(s, "race", std::string("data race: free of ") + o->what + " unordered with an access at offset " + std::to_string(kv.first)); return false; } }
    }
    Obj* n = new Obj; n->id = id; n->size = o->size; n->kind = O_FREED; n->what = o->what; n->site = o->site;
    s.mem.slot(id) = ObjPtr(n); return true;
}
std::string Engine::cstr(State& s, uint64_t a) {
    std::string r; uint32_t id; uint64_t off;
    for (;; a++) { if (!range(s, a, 1, false, id, off)) return r; Val v = byteAt(s.mem.get(id), off); uint8_t c = isC(v) ? v.c : (uint8_t)concretize(s, v, 8); if (!c) return r; r += (char)c; }
}

// ------------------------------------------------------------------ execution
static inline Val getv(const Frame& f, int op) { return op >= 0 ? f.regs[op] : f.f->consts[~op]; }

bool Engine::goEdge(State& s, Frame& f, const Edge& e) {
    if (e.copies.size() == 1) f.regs[e.copies[0].first] = getv(f, e.copies[0].second);
    else if (!e.copies.empty()) {
        Val tmp[64]; std::vector<Val> big; Val* t = tmp; if (e.copies.size() > 64) { big.resize(e.copies.size()); t = big.data(); }
        for (size_t i = 0; i < e.copies.size(); i++) t[i] = getv(f, e.copies[i].second);
        for (size_t i = 0; i < e.copies.size(); i++) f.regs[e.copies[i].first] = t[i];
    }
    f.pc = f.f->blockPc[e.target]; return true;
}
bool Engine::enter(State& s, DFunc* d, std::vector<Val>& args, const CallInfo* ci) {
    if (!d->decoded) decode(d);
    d->execs++;
    auto& T = s.th[s.cur];
    if (T.stack.size() > 2000) { violation(s, "stack", "unbounded recursion"); return false; }
    auto nf_ = std::make_shared<Frame>(); nf_->f = d; nf_->regs.resize(d->nslots);
    size_t k = 0;
    for (size_t i = 0; i < d->params.size(); i++) for (int j = 0; j < d->params[i].second; j++) { if (k < args.size()) nf_->regs[d->params[i].first + j] = args[k++]; }
    if (d->f->isVarArg() && ci) {
        for (size_t i = ci->fixedArgs; i < ci->args.size(); i++) for (int j = 0; j < ci->args[i].n; j++) { nf_->varargs.push_back(args[ci->args[i].first + j - 0]); nf_->varargW.push_back(ci->args[i].k == K_F64 ? 0 : 64); }
    }
    T.stack.push_back(nf_);
    return true;
}
void Engine::doReturn(State& s, std::vector<Val>& rv) {
    auto& T = s.th[s.cur];
    {
        auto fr = T.stack.back(); T.stack.pop_back();
        for (uint32_t id : fr->allocas) {
            Obj* o = s.mem.get(id); Obj* n = new Obj; n->id = id; n->size = o->size; n->kind = O_FREED; n->what = o->what;
            s.mem.slot(id) = ObjPtr(n);
        }
    }
    if (T.stack.empty()) return;
    Frame& f = top(s); const Inst& I = f.f->code[f.pc];
    for (int i = 0; i < I.n && i < (int)rv.size(); i++) f.regs[I.dst + i] = rv[i];
    if (I.op == I_CALL && I.call->invoke) goEdge(s, f, I.call->normal); else f.pc++;
}
int Engine::typeId(uint64_t ti) { static std::map<uint64_t, int> ids; auto it = ids.find(ti); if (it != ids.end()) return it->second; int n = ids.size() + 1; ids[ti] = n; return n; }

static uint64_t rd64(Engine& E_, State& s, uint64_t a) { uint32_t id; uint64_t off; if (!E_.range(s, a, 8, false, id, off)) return 0; Val v = E_.rd(s, s.mem.get(id), off, 8, 64); return isC(v) ? v.c : 0; }
static uint32_t rd32(Engine& E_, State& s, uint64_t a) { uint32_t id; uint64_t off; if (!E_.range(s, a, 4, false, id, off)) return 0; Val v = E_.rd(s, s.mem.get(id), off, 4, 32); return isC(v) ? v.c : 0; }
static bool sameType(Engine& g, State& s, uint64_t a, uint64_t b) {
    if (a == b) return true;
    uint64_t na = rd64(g, s, a + 8), nb = rd64(g, s, b + 8);
    if (na == nb) return true;
    return g.cstr(s, na) == g.cstr(s, nb);
}
// does an object of type `thrown` match handler `want`?  adj: offset of the base subobject
bool Engine::typeMatch(State& s, uint64_t thrown, uint64_t want, uint64_t& adj, uint64_t obj) {
    if (!want) return true;
    if (sameType(*this, s, thrown, want)) return true;
    uint64_t vp = rd64(*this, s, thrown);
    auto it = gByAddr.end(); std::string kind;
    { uint32_t id = (uint32_t)((vp >> 24) - 1); Obj* o = s.mem.get(id); if (o) kind = o->what; }
    if (kind == "_ZTVN10__cxxabiv120__si_class_type_infoE") return typeMatch(s, rd64(*this, s, thrown + 16), want, adj, obj);
    if (kind == "_ZTVN10__cxxabiv121__vmi_class_type_infoE") {
        uint32_t n = rd32(*this, s, thrown + 20);
        for (uint32_t i = 0; i < n; i++) {
            uint64_t base = rd64(*this, s, thrown + 24 + 16 * i); int64_t fl = (int64_t)rd64(*this, s, thrown + 32 + 16 * i);
            if (!(fl & 2)) continue;   // public
            int64_t off = fl >> 8; uint64_t a2 = adj;
            if (fl & 1) { if (!obj) continue; uint64_t vt = rd64(*this, s, obj + adj); off = (int64_t)rd64(*this, s, vt + off); }
            a2 += off;
            if (typeMatch(s, base, want, a2, obj)) { adj = a2; return true; }
        }
        return false;
    }
    if (kind == "_ZTVN10__cxxabiv119__pointer_type_infoE") {
        // only nullptr/void* and qualification conversions: treat `T*` -> `const T*`/`void*` by pointee comparison
        uint64_t wvp = rd64(*this, s, want); uint32_t id = (uint32_t)((wvp >> 24) - 1); Obj* o = s.mem.get(id);
        if (!o || std::string(o->what) != kind) return false;
        uint64_t wp = rd64(*this, s, want + 24); std::string nm = cstr(s, rd64(*this, s, wp + 8));
        return nm == "v" || sameType(*this, s, rd64(*this, s, thrown + 24), wp);
    }
    return false;
}
// Exception header layout (see rt): at exn-64: {tinfo, dtor, refs, handlers, next, adjusted, ...}
bool Engine::unwind(State& s, uint64_t exn) {
    auto& T = s.th[s.cur];
    uint64_t hdr = exn - 64, ti = rd64(*this, s, hdr); if (s.dead) return false;
    // search phase
    int found = -1, sel = 0; uint64_t obj = rd64(*this, s, hdr + 48), adjusted; if (s.dead) return false; if (!obj) obj = exn; adjusted = obj;   // a dependent exception refers to its object
    for (int i = (int)T.stack.size() - 1; i >= 0; i--) {
        Frame& f = *T.stack[i]; const Inst& I = f.f->code[f.pc];
        if (I.op != I_CALL || !I.call->invoke) continue;
        const Inst& L = f.f->code[f.f->blockPc[I.call->unwind.target]];
        if (L.op != I_LPAD) { inconclusive(s, "invoke without landingpad"); s.dead = true; return false; }
        for (auto& c : L.clauses) {
            if (!c.filter) {
                uint64_t adj = 0;
                if (typeMatch(s, ti, c.ti, adj, obj)) { found = i; sel = c.ti ? typeId(c.ti) : typeId(0); adjusted = obj + adj; break; }
            } else {
                bool ok = false; for (uint64_t t : c.filt) { uint64_t adj = 0; if (typeMatch(s, ti, t, adj, obj)) ok = true; }
                if (!ok) { found = i; sel = -1; break; }
            }
        }
        if (s.dead) return false;
        if (found >= 0) break;
    }
    if (found < 0) {
        std::string n = cstr(s, rd64(*this, s, ti + 8));
        violation(s, "terminate", "uncaught exception of type " + dem("_ZTI" + n)); return false;
    }
    {   // pointer exceptions are caught by value of the pointer
        uint64_t vp = rd64(*this, s, ti); Obj* o = s.mem.get((uint32_t)((vp >> 24) - 1));
        if (o && std::string(o->what) == "_ZTVN10__cxxabiv119__pointer_type_infoE") adjusted = rd64(*this, s, obj);
    }
    { uint32_t id; uint64_t off; if (!range(s, hdr + 40, 8, true, id, off)) return false; wrv(s, s.mem.wr(id), off, 8, 64, C64(adjusted)); }
    while (true) {
        int i = (int)T.stack.size() - 1;
        Frame& f = top(s); const Inst& I = f.f->code[f.pc];
        bool land = false; int thisSel = 0;
        if (I.op == I_CALL && I.call->invoke) {
            const Inst& L = f.f->code[f.f->blockPc[I.call->unwind.target]];
            if (i == found) { land = true; thisSel = sel; } else if (L.cleanup) land = true;
        }
        if (land) {
            const Edge e = I.call->unwind; goEdge(s, f, e);
            f.lpExn = exn; f.lpSel = thisSel; return true;
        }
        for (uint32_t id : f.allocas) { Obj* o = s.mem.get(id); Obj* n = new Obj; n->id = id; n->size = o->size; n->kind = O_FREED; n->what = o->what; s.mem.slot(id) = ObjPtr(n); }
        T.stack.pop_back();
        if (T.stack.empty()) { inconclusive(s, "unwound whole stack"); s.dead = true; return false; }
    }
}

static double asD(uint64_t c, unsigned w) { if (w == 32) { float f; uint32_t x = (uint32_t)c; memcpy(&f, &x, 4); return f; } double d; memcpy(&d, &c, 8); return d; }
static uint64_t fromD(double d, unsigned w) { if (w == 32) { float f = (float)d; uint32_t x; memcpy(&x, &f, 4); return x; } uint64_t c; memcpy(&c, &d, 8); return c; }

bool Engine::doCall(State& s, const Inst& I, Frame& f) {
    auto& ci = *I.call;
    std::vector<Val> args; args.reserve(I.ops.size());
    for (int o : I.ops) args.push_back(getv(f, o));
    DFunc* d = ci.df; ExtFn h = ci.handler; bool ext = ci.ext; const Function* fn = ci.fn;
    if (!fn && !h) {
        Val c = getv(f, ci.calleeOp); uint64_t a = concretize(s, c, 64);
        auto it = byAddr.find(a);
        if (it == byAddr.end()) { violation(s, "memory", "call through invalid function pointer " + hex(a)); return false; }
        d = it->second; fn = d->f; ext = d->ext;
        static std::unordered_map<std::string, ExtFn> tab; if (tab.empty()) registerExternals(tab);
        auto e = tab.find(d->name); if (e != tab.end()) { h = e->second; ext = true; } else h = nullptr;
    }
    if (ext && fn && !args.empty() && isC(args[0]) && args[0].c > 11000000 && fn->getName() == "_Znwm" && opt.params.count("huge_new_fails")) {   // allocation failure on request
        if (auto* t = fn->getParent()->getFunction("rt_throw_bad_alloc")) { d = getFn(const_cast<Function*>(t)); fn = d->f; ext = false; }
    }
    if (ext) {
        if (!h) { inconclusive(s, "unsupported external function " + fn->getName().str()); s.dead = true; return false; }
        Val ret; size_t depth = s.th[s.cur].stack.size(); int cur = s.cur;
        ExtRes r = h(*this, s, I, args, ret);
        if (s.dead || r == X_DEAD) { s.dead = true; return false; }
        if (r == X_RETRY || r == X_SWITCHED) return true;
        (void)depth; (void)cur;
        Frame& f2 = top(s);
        if (I.n == 1) f2.regs[I.dst] = ret;
        else if (I.n > 1) {
            // multi-value results are left in the state's scratch by intrinsics (overflow arithmetic): encoded in ret pair
            extern Val g_ret2; f2.regs[I.dst] = ret; f2.regs[I.dst + 1] = g_ret2;
        }
        if (ci.invoke) goEdge(s, f2, ci.normal); else f2.pc++;
        return true;
    }
    for (auto& A : ci.args) if (A.byval) {
        uint64_t src = concretize(s, args[A.first], 64); uint32_t id; uint64_t off; if (!range(s, src, A.byval, false, id, off)) return false;
        uint32_t n = alloc(s, A.byval, O_HEAP, "byval argument"); Obj* o = s.mem.wr(n); Obj* so = s.mem.get(id); o->kind = O_STACK;
        for (uint64_t i = 0; i < A.byval; i++) setByte(o, i, byteAt(so, off + i));
        args[A.first] = C64(o->base());
    }
    return enter(s, d, args, &ci);
}

bool Engine::step(State& s) {
    Frame& f = top(s);
    const Inst& I = f.f->code[f.pc];
    s.steps++; st.steps++;
    switch (I.op) {
    case I_BIN: {
        int n = I.n; unsigned w = I.w;
        for (int i = 0; i < n; i++) {
            Val a = getv(f, I.ops[i]), b = getv(f, I.ops[n + i]); Op o = (Op)I.sub;
            if (isC(a) && isC(b) && w <= 64) {
                uint64_t x = a.c, y = b.c, r = 0, m = m64(w);
                switch (o) {
                case ADD: r = x + y; break; case SUB: r = x - y; break; case MUL: r = x * y; break;
                case AND: r = x & y; break; case OR: r = x | y; break; case XOR: r = x ^ y; break;
                case SHL: r = y >= w ? 0 : x << y; break; case LSHR: r = y >= w ? 0 : x >> y; break;
                default: { bool ok; if ((o == UDIV || o == SDIV || o == UREM || o == SREM) && !y) { violation(s, "arith", "division by zero"); return false; } r = (uint64_t)evalConcreteBin(o, x, y, w, ok); }
                }
                f.regs[I.dst + i] = C64(r & m);
            } else {
                E x = toE(a, w), y = toE(b, w);
                if ((o == UDIV || o == SDIV || o == UREM || o == SREM) && !y->isC()) {
                    if (!decide(s, mkNot(mkEq(y, mkConst(0, w))))) { violation(s, "arith", "division by zero"); return false; }
                } else if ((o == UDIV || o == SDIV || o == UREM || o == SREM) && y->c == 0) { violation(s, "arith", "division by zero"); return false; }
                if ((o == SHL || o == LSHR || o == ASHR) && !y->isC() && w > 1) { uint64_t c = concretize(s, b, w); y = mkConst(c, w); }
                f.regs[I.dst + i] = fromE(mkBin(o, x, y));
            }
        }
        f.pc++; return true;
    }
    case I_ICMP: {
        for (int i = 0; i < I.n; i++) {
            Val a = getv(f, I.ops[i]), b = getv(f, I.ops[I.n + i]); unsigned w = I.w;
            if (isC(a) && isC(b)) {
                uint64_t x = a.c, y = b.c; int64_t sxx = (int64_t)sx(x, w), syy = (int64_t)sx(y, w); bool r = false;
                switch (I.sub) {
                case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break;
                case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break; case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break;
                case CmpInst::ICMP_SGT: r = sxx > syy; break; case CmpInst::ICMP_SGE: r = sxx >= syy; break; case CmpInst::ICMP_SLT: r = sxx < syy; break; case CmpInst::ICMP_SLE: r = sxx <= syy; break;
                }
                f.regs[I.dst + i] = C64(r);
            } else {
                E x = toE(a, w), y = toE(b, w), r = nullptr;
                switch (I.sub) {
                case CmpInst::ICMP_EQ: r = mkEq(x, y); break; case CmpInst::ICMP_NE: r = mkNot(mkEq(x, y)); break;
                case CmpInst::ICMP_UGT: r = mkBin(ULT, y, x); break; case CmpInst::ICMP_UGE: r = mkBin(ULE, y, x); break; case CmpInst::ICMP_ULT: r = mkBin(ULT, x, y); break; case CmpInst::ICMP_ULE: r = mkBin(ULE, x, y); break;
                case CmpInst::ICMP_SGT: r = mkBin(SLT, y, x); break; case CmpInst::ICMP_SGE: r = mkBin(SLE, y, x); break; case CmpInst::ICMP_SLT: r = mkBin(SLT, x, y); break; default: r = mkBin(SLE, x, y); break;
                }
                f.regs[I.dst + i] = fromE(r);
            }
        }
        f.pc++; return true;
    }
    case I_ZEXT: for (int i = 0; i < I.n; i++) { Val a = getv(f, I.ops[i]); if (isC(a) && I.w2 <= 64) f.regs[I.dst + i] = a; else f.regs[I.dst + i] = fromE(mkZext(toE(a, I.w), I.w2)); } f.pc++; return true;
    case I_SEXT: for (int i = 0; i < I.n; i++) { Val a = getv(f, I.ops[i]); if (isC(a) && I.w2 <= 64) f.regs[I.dst + i] = C64((uint64_t)sx(a.c, I.w) & m64(I.w2)); else f.regs[I.dst + i] = fromE(mkSext(toE(a, I.w), I.w2)); } f.pc++; return true;
    case I_TRUNC: for (int i = 0; i < I.n; i++) { Val a = getv(f, I.ops[i]); if (isC(a)) f.regs[I.dst + i] = C64(a.c & m64(I.w2)); else f.regs[I.dst + i] = fromE(mkExtract(a.e, 0, I.w2)); } f.pc++; return true;
    case I_MOVE: {
        if (I.n == 1) f.regs[I.dst] = getv(f, I.ops[0]);
        else { std::vector<Val> t; for (int i = 0; i < I.n; i++) t.push_back(getv(f, I.ops[i])); for (int i = 0; i < I.n; i++) f.regs[I.dst + i] = t[i]; }
        f.pc++; return true;
    }
    case I_EXTELT: { uint64_t ix = concretize(s, getv(f, I.ops.back()), 64); f.regs[I.dst] = getv(f, I.ops[ix % (I.ops.size() - 1)]); f.pc++; return true; }
    case I_INSELT: { uint64_t ix = concretize(s, getv(f, I.ops.back()), 64); Val v = getv(f, I.ops[I.n]); for (int i = 0; i < I.n; i++) f.regs[I.dst + i] = (uint64_t)i == ix ? v : getv(f, I.ops[i]); f.pc++; return true; }
    case I_FBIN: {
        if (I.w > 64) { inconclusive(s, "long double arithmetic"); s.dead = true; return false; }
        for (int i = 0; i < I.n; i++) {
            double x = asD(concretize(s, getv(f, I.ops[i]), I.w), I.w), y = asD(concretize(s, getv(f, I.ops[I.n + i]), I.w), I.w), r;
            switch (I.sub) { case 0: r = x + y; break; case 1: r = x - y; break; case 2: r = x * y; break; case 3: r = x / y; break; case 4: r = fmod(x, y); break; default: r = -x; }
            f.regs[I.dst + i] = C64(fromD(r, I.w));
        }
        f.pc++; return true;
    }
    case I_FCMP: {
        if (I.w > 64) { inconclusive(s, "long double comparison"); s.dead = true; return false; }
        for (int i = 0; i < I.n; i++) {
            double x = asD(concretize(s, getv(f, I.ops[i]), I.w), I.w), y = asD(concretize(s, getv(f, I.ops[I.n + i]), I.w), I.w);
            bool un = std::isnan(x) || std::isnan(y), r = false;
            bool o = !un;
            switch (I.sub) {
            case CmpInst::FCMP_FALSE: r = false; break; case CmpInst::FCMP_OEQ: r = o && x == y; break; case CmpInst::FCMP_OGT: r = o && x > y; break; case CmpInst::FCMP_OGE: r = o && x >= y; break;
            case CmpInst::FCMP_OLT: r = o && x < y; break; case CmpInst::FCMP_OLE: r = o && x <= y; break; case CmpInst::FCMP_ONE: r = o && x != y; break; case CmpInst::FCMP_ORD: r = o; break;
            case CmpInst::FCMP_UNO: r = un; break; case CmpInst::FCMP_UEQ: r = un || x == y; break; case CmpInst::FCMP_UGT: r = un || x > y; break; case CmpInst::FCMP_UGE: r = un || x >= y; break;
            case CmpInst::FCMP_ULT: r = un || x < y; break; case CmpInst::FCMP_ULE: r = un || x <= y; break; case CmpInst::FCMP_UNE: r = un || x != y; break; default: r = true;
            }
            f.regs[I.dst + i] = C64(r);
        }
        f.pc++; return true;
    }
    case I_FCAST: {
        if (I.w > 64 || I.w2 > 64) { inconclusive(s, "long double conversion"); s.dead = true; return false; }
        for (int i = 0; i < I.n; i++) {
            uint64_t a = concretize(s, getv(f, I.ops[i]), I.w), r = 0;
            switch (I.sub) {
            case 0: r = (uint64_t)asD(a, I.w) & m64(I.w2); break;
            case 1: r = (uint64_t)(int64_t)asD(a, I.w) & m64(I.w2); break;
            case 2: r = I.w2 == 32 ? ({ float q = (float)a; uint32_t x; memcpy(&x, &q, 4); (uint64_t)x; }) : fromD((double)a, 64); break;
            case 3: r = I.w2 == 32 ? ({ float q = (float)(int64_t)sx(a, I.w); uint32_t x; memcpy(&x, &q, 4); (uint64_t)x; }) : fromD((double)(int64_t)sx(a, I.w), 64); break;
            default: r = fromD(asD(a, I.w), I.w2);
            }
            f.regs[I.dst + i] = C64(r);
        }
        f.pc++; return true;
    }
    case I_LOAD: {
        if (I.visible && !schedPoint(s)) return true;
        Frame& g = top(s);
        if (I.n == 1) { Val v; if (!load(s, getv(g, I.ops[0]), I.fields, &v, I.visible, I.ord)) return false; Frame& h = top(s); h.regs[I.dst] = v; h.pc++; return true; }
        std::vector<Val> v(I.n); if (!load(s, getv(g, I.ops[0]), I.fields, v.data(), I.visible, I.ord)) return false;
        Frame& h = top(s); for (int i = 0; i < I.n; i++) h.regs[I.dst + i] = v[i]; h.pc++; return true;
    }
    case I_STORE: {
        if (I.visible && !schedPoint(s)) return true;
        Frame& g = top(s); size_t n = I.fields.size();
        if (n == 1) { Val v = getv(g, I.ops[1]); if (!store(s, getv(g, I.ops[0]), I.fields, &v, I.visible, I.ord)) return false; }
        else { std::vector<Val> v; for (size_t i = 0; i < n; i++) v.push_back(getv(g, I.ops[1 + i])); if (!store(s, getv(g, I.ops[0]), I.fields, v.data(), I.visible, I.ord)) return false; }
        top(s).pc++; return true;
    }
    case I_GEP: {
        Val p = getv(f, I.ops[0]);
        uint64_t c = I.imm; E sym = p.e; if (!sym) c += p.c;
        for (size_t i = 0; i < I.gep.size(); i++) {
            Val x = getv(f, I.gep[i].first);
            if (isC(x)) c += (uint64_t)((int64_t)sx(x.c, I.gepw[i]) * I.gep[i].second);
            else { E e = mkSext(x.e, 64); if (x.e->w > 64) e = mkExtract(x.e, 0, 64); e = mkBin(MUL, e, mkConst((u128)(uint64_t)I.gep[i].second, 64)); sym = sym ? mkBin(ADD, sym, e) : e; }
        }
        f.regs[I.dst] = sym ? fromE(mkBin(ADD, sym, mkConst(c, 64))) : C64(c);
        f.pc++; return true;
    }
    case I_ALLOCA: {
        uint64_t n = concretize(s, getv(f, I.ops[0]), 64) * I.imm;
        if (n > 11000000) { violation(s, "memory", "huge stack allocation"); return false; }
        uint32_t id = alloc(s, n, O_STACK, "stack variable", 0xA7); Frame& g = top(s); g.allocas.push_back(id);
        g.regs[I.dst] = C64(s.mem.get(id)->base()); g.pc++; return true;
    }
    case I_BR: return goEdge(s, f, I.e0);
    case I_CBR: {
        Val c = getv(f, I.ops[0]); bool t = isC(c) ? c.c & 1 : decide(s, c.e);
        Frame& g = top(s); return goEdge(s, g, t ? I.e0 : I.e1);
    }
    case I_SWITCH: {
        Val c = getv(f, I.ops[0]);
        if (isC(c)) { for (auto& k : I.cases) if (k.first == c.c) return goEdge(s, f, k.second); return goEdge(s, f, I.e0); }
        // group cases by edge target + identical copies would be possible; decide one by one, the witness case first
        uint64_t w = wit(s, c.e); const Edge* hit = nullptr;
        for (auto& k : I.cases) if (k.first == w) hit = &k.second;
        if (hit) {
            E any = mkFalse(); for (auto& k : I.cases) if (k.second.target == hit->target && k.second.copies == hit->copies) any = mkOr(any, mkEq(c.e, mkConst(k.first, I.w)));
            decide(s, any); return goEdge(s, top(s), *hit);
        }
        E none = mkTrue(); for (auto& k : I.cases) if (!(k.second.target == I.e0.target && k.second.copies == I.e0.copies)) none = mkAnd(none, mkNot(mkEq(c.e, mkConst(k.first, I.w))));
        decide(s, none); return goEdge(s, top(s), I.e0);
    }
    case I_RET: {
        std::vector<Val> rv; for (int o : I.ops) rv.push_back(getv(f, o));
        doReturn(s, rv);
        if (s.th[s.cur].stack.empty()) { if (initPhase) return true; threadExit(s); }
        return !s.dead;
    }
    case I_CALL: return doCall(s, I, f);
    case I_LPAD: {
        f.regs[I.dst] = C64(f.lpExn); f.regs[I.dst + 1] = C64((uint32_t)f.lpSel); f.pc++; return true;
    }
    case I_RESUME: {
        uint64_t exn = concretize(s, getv(f, I.ops[0]), 64);
        auto& T = s.th[s.cur]; auto fr = T.stack.back(); T.stack.pop_back();
        for (uint32_t id : fr->allocas) { Obj* o = s.mem.get(id); Obj* n = new Obj; n->id = id; n->size = o->size; n->kind = O_FREED; n->what = o->what; s.mem.slot(id) = ObjPtr(n); }
        if (T.stack.empty()) { violation(s, "terminate", "exception escaped a thread"); return false; }
        return unwind(s, exn);
    }
    case I_UNREACH: violation(s, "unreachable", "execution reached an unreachable instruction (undefined behaviour)"); return false;
    case I_SELECT: {
        for (int i = 0; i < I.n; i++) {
            Val c = getv(f, I.ops[i]), a = getv(f, I.ops[I.n + i]), b = getv(f, I.ops[2 * I.n + i]);
            if (isC(c)) f.regs[I.dst + i] = (c.c & 1) ? a : b;
            else f.regs[I.dst + i] = fromE(mkIte(c.e, toE(a, I.fields[i].w), toE(b, I.fields[i].w)));
        }
        f.pc++; return true;
    }
    case I_CMPXCHG: {
        if (!schedPoint(s)) return true;
        Frame& g = top(s); Val p = getv(g, I.ops[0]); Val old;
        uint64_t a = concretize(s, p, 64);
        if (!load(s, C64(a), I.fields, &old, true, 2)) return false;
        Val exp = getv(g, I.ops[1]), nw = getv(g, I.ops[2]); unsigned w = I.fields[0].w;
        bool eq = isC(old) && isC(exp) ? old.c == exp.c : decide(s, mkEq(toE(old, w), toE(exp, w)));
        if (s.th.size() > 1) atomicLoadSync(s, a, eq ? I.ord : I.sub2);
        if (eq) {
            uint32_t id; uint64_t off; if (!range(s, a, I.fields[0].bytes, true, id, off)) return false;
            Obj* o = s.mem.wr(id); if (!access(s, o, off, I.fields[0].bytes, true, true)) return false;
            if (s.th.size() > 1) { atomicStoreSync(s, a, I.ord, true); noteWrite(s); }
            wrv(s, o, off, I.fields[0].bytes, w, nw);
        }
        Frame& h = top(s); h.regs[I.dst] = old; h.regs[I.dst + 1] = C64(eq); h.pc++; return true;
    }
    case I_RMW: {
        if (!schedPoint(s)) return true;
        Frame& g = top(s); uint64_t a = concretize(s, getv(g, I.ops[0]), 64); Val old; unsigned w = I.fields[0].w;
        if (!load(s, C64(a), I.fields, &old, true, 2)) return false;
        Val v = getv(g, I.ops[1]); E x = toE(old, w), y = toE(v, w), r = nullptr;
        switch (I.sub) {
        case AtomicRMWInst::Xchg: r = y; break; case AtomicRMWInst::Add: r = mkBin(ADD, x, y); break; case AtomicRMWInst::Sub: r = mkBin(SUB, x, y); break;
        case AtomicRMWInst::And: r = mkBin(AND, x, y); break; case AtomicRMWInst::Or: r = mkBin(OR, x, y); break; case AtomicRMWInst::Xor: r = mkBin(XOR, x, y); break;
        case AtomicRMWInst::Max: r = mkIte(mkBin(SLT, x, y), y, x); break; case AtomicRMWInst::Min: r = mkIte(mkBin(SLT, y, x), y, x); break;
        case AtomicRMWInst::UMax: r = mkIte(mkBin(ULT, x, y), y, x); break; case AtomicRMWInst::UMin: r = mkIte(mkBin(ULT, y, x), y, x); break;
        default: inconclusive(s, "atomicrmw op"); s.dead = true; return false;
        }
        if (s.th.size() > 1) atomicLoadSync(s, a, I.ord);
        uint32_t id; uint64_t off; if (!range(s, a, I.fields[0].bytes, true, id, off)) return false;
        Obj* o = s.mem.wr(id); if (!access(s, o, off, I.fields[0].bytes, true, true)) return false;
        if (s.th.size() > 1) { atomicStoreSync(s, a, I.ord, true); noteWrite(s); }
        wrv(s, o, off, I.fields[0].bytes, w, fromE(r));
        Frame& h = top(s); h.regs[I.dst] = old; h.pc++; return true;
    }
    case I_FENCE: {
        auto& T = s.th[s.cur];
        if (isAcq(I.ord)) joinVC(T.vc, T.acqPending);
        if (isRel(I.ord)) { T.relFence = T.vc; T.hasRelFence = true; T.vc[s.cur]++; }
        f.pc++; return true;
    }
    default: {
        std::string t; raw_string_ostream os(t); if (I.src) I.src->print(os);
        inconclusive(s, "unsupported instruction" + os.str()); s.dead = true; return false;
    }
    }
}

// ------------------------------------------------------------------ threads
bool Engine::enabled(State& s, int t) {
    auto& T = s.th[t];
    switch (T.st) {
    case T_RUN: return true;
    case T_DONE: return false;
    case T_MUTEX: { auto it = s.mtx.find(T.key); return it == s.mtx.end() || (it->second.owner < 0 && it->second.readers == 0); }
    case T_RWLOCK: { auto it = s.mtx.find(T.key); return it == s.mtx.end() || it->second.owner < 0; }
    case T_JOIN: return s.th[T.key].st == T_DONE;
    case T_COND: return T.signaled || (T.timedWait && (otherWrites(s, t) > T.seenOther || T.spont < 1));
    case T_YIELD: return otherWrites(s, t) > T.seenOther;
    }
    return false;
}
// Called before a visible operation of the current thread; true: go ahead.
bool Engine::schedPoint(State& s) {
    if (s.th.size() < 2 || s.th[s.cur].env) return true;
    if (s.schedDone) { s.schedDone = false; return true; }
    st.schedPoints++;
    if (s.preempts >= opt.preempt) return true;
    for (size_t t = 0; t < s.th.size(); t++) if ((int)t != s.cur && enabled(s, t)) {
        State* n = clone(s); n->preempts++; n->sched.push_back((int)t);
        { auto& st_ = n->th[n->cur].stack; const Instruction* in = st_.empty() ? nullptr : st_.back()->f->code[st_.back()->pc].src; n->schedWhere.push_back({n->cur, in}); }
        n->cur = (int)t; n->th[t].st = T_RUN; n->schedDone = true; work.push_back(n);
    }
    return true;
}
// The current thread cannot continue: pick any enabled thread (forking over the choice).
bool Engine::switchAway(State& s, bool) {
    std::vector<int> en; for (size_t t = 0; t < s.th.size(); t++) if (enabled(s, t)) en.push_back((int)t);
    if (en.empty()) {
        bool allDone = true; std::string d; for (size_t t = 0; t < s.th.size(); t++) { auto& T = s.th[t]; if (T.st != T_DONE) { allDone = false; static const char* N[] = {"running", "waiting for a mutex", "waiting on a condition", "joining", "polling without progress", "done", "rwlock"}; d += " thread " + std::to_string(t) + " " + N[T.st] + (T.st == T_JOIN ? " thread " + std::to_string(T.key) : "") + ";"; } }
        if (!allDone) violation(s, "deadlock", "no thread can make progress:" + d);
        s.dead = true; return false;
    }
    const Instruction* in = nullptr; { auto& st_ = s.th[s.cur].stack; if (!st_.empty()) in = st_.back()->f->code[st_.back()->pc].src; }
    int from = s.cur;
    for (size_t k = 1; k < en.size(); k++) {
        State* n = clone(s); n->sched.push_back(en[k]); n->schedWhere.push_back({from, in}); n->cur = en[k]; if (n->th[en[k]].st != T_COND) n->th[en[k]].st = T_RUN; else n->th[en[k]].st = T_RUN; n->schedDone = true; work.push_back(n);
    }
    s.sched.push_back(en[0]); s.schedWhere.push_back({from, in}); s.cur = en[0]; s.th[en[0]].st = T_RUN; s.schedDone = true;
    return true;
}
int Engine::createThread(State& s, uint64_t fn, uint64_t arg) {
    int id = s.th.size();
    if (id >= MAXT) { inconclusive(s, "too many threads"); s.dead = true; return -1; }
    Thread T; T.vc = s.th[s.cur].vc; T.vc[id] = 1; s.th[s.cur].vc[s.cur]++; noteWrite(s);
    s.th.push_back(T);
    auto it = byAddr.find(fn); if (it == byAddr.end()) { violation(s, "memory", "thread start routine is not a function"); return -1; }
    DFunc* d = it->second; if (!d->decoded) decode(d);
    auto fr = std::make_shared<Frame>(); fr->f = d; fr->regs.resize(d->nslots); if (!d->params.empty()) fr->regs[d->params[0].first] = C64(arg);
    s.th[id].stack.push_back(fr);
    return id;
}
void Engine::threadExit(State& s) {
    s.th[s.cur].st = T_DONE; noteWrite(s);
    if (s.cur == 0) {
        bool pending = false; for (auto& T : s.th) if (T.st != T_DONE) pending = true;
        (void)pending; endPath(s); s.dead = true; return;
    }
    switchAway(s);
}

// ------------------------------------------------------------------ driver loops
void Engine::exec(State* s) {
    uint64_t n = 0;
    while (!s->dead) {
        Frame& f = *s->th[s->cur].stack.back(); f.f->covered[f.pc] = true;
        if (!step(*s)) { s->dead = true; break; }
        if (s->steps > opt.maxSteps) { if (s->th.size() == 1) violation(*s, "nontermination", "path exceeded the step budget"); else inconclusive(*s, "path exceeded the step budget"); s->dead = true; break; }
        if ((++n & 0xffff) == 0 && elapsed() > opt.maxTime) { inconclusive(*s, "time budget exhausted"); stop = true; break; }
    }
    delete s;
}
