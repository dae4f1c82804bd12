#pragma once
#include "core.h"
#include <chrono>
struct Options {
    std::string bc, entry, out; uint64_t seed = 1; double maxTime = 600; uint64_t maxPaths = 10000000, maxSteps = 50000000; int jobs = 1;
    int preempt = 2; int maxPolls = 4; unsigned enumLimit = 4096; unsigned samples = 40; bool trace = false; bool races = false; std::map<std::string, int64_t> params;
    bool stopFirst = true; unsigned solverTimeout = 60000; std::vector<int> forceSched; bool smtDump = false;
    uint64_t maxMemMB = 3000;
};
struct Violation { std::string kind, msg, where; std::vector<std::string> stack; std::vector<std::pair<std::string, std::pair<unsigned, uint64_t>>> inputs; std::vector<int> sched; std::vector<std::string> schedWhere; std::vector<std::string> notes; };
struct PathSample { std::vector<std::pair<std::string, std::pair<unsigned, uint64_t>>> inputs; std::vector<std::pair<std::string, std::string>> obs; std::vector<int> sched; bool concurrent=false; };
struct Stats {
    uint64_t paths = 0, pruned = 0, steps = 0, forks = 0, checks = 0, checksSolver = 0, memObl = 0, assumeKilled = 0, bounded = 0, decided=0, schedPoints=0, races=0;
    std::vector<std::string> inconclusive; std::map<std::string, uint64_t> reach; std::map<std::string, uint64_t> checkCount;
};
struct Engine {
    Options opt; std::unique_ptr<llvm::Module> M; const llvm::DataLayout* DL = nullptr;
    std::unordered_map<const llvm::Function*, DFunc*> funcs;
    std::unordered_map<const llvm::GlobalValue*, uint64_t> gaddr;
    std::unordered_map<uint64_t, DFunc*> byAddr; std::unordered_map<uint64_t, const llvm::GlobalValue*> gByAddr;
    std::unordered_map<const llvm::GlobalVariable*, uint32_t> tlsIdx; std::vector<const llvm::GlobalVariable*> tlsVars;
    std::deque<State*> work; std::vector<Violation> viol; std::vector<PathSample> samples; Stats st; uint64_t nextState = 1;
    std::chrono::steady_clock::time_point t0; bool stop = false; bool initPhase = false;
    Mem initMem;
    std::set<std::string> sharedAtomics;
    // --- decode
    DFunc* getFn(const llvm::Function* f);
    void decode(DFunc* d);
    void flat(llvm::Type* t, uint64_t off, std::vector<Field>& out);
    unsigned nf(llvm::Type* t);
    void constVals(const llvm::Constant* c, std::vector<Val>& out);
    u128 constInt(const llvm::Constant* c);
    void writeInit(Obj* o, uint64_t off, const llvm::Constant* c);
    void setupGlobals();
    // --- state ops
    State* clone(State& s);
    bool decide(State& s, E cond);                 // returns direction of the current state
    bool must(State& s, E cond);                   // is cond valid on this path?
    Res feasible(State& s, E e, Model* m);
    Res byDomain(State& s, E e, uint32_t v, bool sat);
    void addCons(State& s, E e);
    void setWit(State& s, const Model& m);
    uint64_t wit(State& s, E e) { return (uint64_t)evalExpr(e, s.wit->v, s.wit->stamp); }
    uint64_t concretize(State& s, const Val& v, unsigned w);
    std::vector<E> slice(State& s, E e);
    // --- memory
    uint32_t alloc(State& s, uint64_t size, OKind k, const char* what, uint8_t fill = 0xA5);
    uint64_t mallocAddr(State& s, uint64_t size, uint8_t fn);
    bool resolve(State& s, const Val& p, uint64_t n, bool write, uint32_t& id, Val& off);
    bool load(State& s, const Val& p, const std::vector<Field>& fs, Val* out, bool atomic = false, int ord = 0);
    bool store(State& s, const Val& p, const std::vector<Field>& fs, const Val* in, bool atomic = false, int ord = 0);
    Val rd(State& s, Obj* o, uint64_t off, unsigned bytes, unsigned w);
    Val rdSym(State& s, Obj* o, E off, unsigned bytes, unsigned w);
    void wrv(State& s, Obj* o, uint64_t off, unsigned bytes, unsigned w, const Val& v);
    Val byteAt(Obj* o, uint64_t off) { Val v; v.c = o->data[off]; if (o->sym) v.e = (*o->sym)[off]; return v; }
    void setByte(Obj* o, uint64_t off, const Val& v);
    bool range(State& s, uint64_t addr, uint64_t n, bool write, uint32_t& id, uint64_t& off);   // concrete range check
    bool access(State& s, Obj* o, uint64_t off, uint64_t n, bool write, bool atomic);            // race detector; false if race reported
    std::string cstr(State& s, uint64_t addr);
    bool freeMem(State& s, uint64_t addr, uint8_t fn);
    // --- execution
    void run();
    void exec(State* s);
    bool step(State& s);
    bool doCall(State& s, const Inst& I, Frame& f);
    bool enter(State& s, DFunc* d, std::vector<Val>& args, const CallInfo* ci);
    void doReturn(State& s, std::vector<Val>& rv);
    bool unwind(State& s, uint64_t exn);
    bool typeMatch(State& s, uint64_t thrown, uint64_t want, uint64_t& adj, uint64_t obj);
    int typeId(uint64_t ti);
    bool goEdge(State& s, Frame& f, const Edge& e);
    Val toFloat(State& s, const Val& v, unsigned w);
    // --- threads
    bool schedPoint(State& s);
    bool enabled(State& s, int t);
    bool switchAway(State& s, bool preempt = false);
    int createThread(State& s, uint64_t fn, uint64_t arg);
    void threadExit(State& s);
    void noteWrite(State& s) { s.th[s.cur].writes++; }
    uint64_t otherWrites(State& s, int t) { uint64_t n = 0; for (size_t i = 0; i < s.th.size(); i++) if ((int)i != t) n += s.th[i].writes; return n; }
    // --- results
    void violation(State& s, const std::string& kind, const std::string& msg);
    void inconclusive(State& s, const std::string& why);
    void endPath(State& s);
    void killState(State& s) { s.dead = true; }
    Frame& top(State& s) { auto& p = s.th[s.cur].stack.back(); if (p.use_count() > 1) p = std::make_shared<Frame>(*p); return *p; }
    std::vector<std::string> backtrace(State& s);
    std::vector<std::pair<std::string, std::pair<unsigned, uint64_t>>> inputsOf(State& s, const std::vector<uint64_t>& v);
    bool runCtors(State& s);
    double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }
};
void registerExternals(std::unordered_map<std::string, ExtFn>& t);
ExtFn intrinsicHandler(llvm::Function* f);
E toE(const Val& v, unsigned w);
Val fromE(E e);
static inline bool isC(const Val& v) { return !v.e; }
