#include "engine.h"
#include <llvm/IRReader/IRReader.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/ReplaceConstant.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <atomic>
#include <cstring>
#include <thread>
using namespace llvm;

struct Shared { std::atomic<int> active, stop, seq, failed; };
static Shared* g_sh;
static std::string js(const std::string& s) {
    std::string r = "\""; char b[8];
    for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; }
    return r + "\"";
}
typedef std::vector<std::pair<std::string, std::pair<unsigned, uint64_t>>> Inputs;
static std::string jin(const Inputs& v) { std::string r = "["; for (auto& p : v) { if (r.size() > 1) r += ","; r += "[" + js(p.first) + "," + std::to_string(p.second.first) + ",\"" + std::to_string(p.second.second) + "\"]"; } return r + "]"; }
template<class T> static std::string jnum(const std::vector<T>& v) { std::string r = "["; for (auto x : v) { if (r.size() > 1) r += ","; r += std::to_string(x); } return r + "]"; }
static std::string jstr(const std::vector<std::string>& v) { std::string r = "["; for (auto& x : v) { if (r.size() > 1) r += ","; r += js(x); } return r + "]"; }
static std::string jmap(const std::map<std::string, uint64_t>& m) { std::string r = "{"; for (auto& k : m) { if (r.size() > 1) r += ","; r += js(k.first) + ":" + std::to_string(k.second); } return r + "}"; }

static void writeOut(Engine& G, const std::string& path) {
    FILE* f = fopen(path.c_str(), "w"); if (!f) { perror("symex: out"); exit(3); }
    auto& st = G.st; std::string o = "{";
    auto num = [&](const char* k, uint64_t v) { o += js(k) + ":" + std::to_string(v) + ","; };
    num("paths", st.paths); num("steps", st.steps); num("forks", st.forks); num("checks", st.checks); num("checks_solver", st.checksSolver); num("mem_obligations", st.memObl);
    num("assume_killed", st.assumeKilled); num("bounded", st.bounded); num("decided", st.decided); num("sched_points", st.schedPoints); num("states_left", G.work.size());
    num("queries", g_sol.queries); num("q_sat", g_sol.sat); num("q_unsat", g_sol.unsat); num("q_unknown", g_sol.unknown); num("q_cache", g_sol.cacheHits); num("q_domain", g_sol.domainHits); num("q_tabulated", g_sol.tabulated); num("exprs", exprCount());
    o += "\"solver_s\":" + std::to_string(g_sol.time) + ",\"solver_max_s\":" + std::to_string(g_sol.maxTime) + ",\"wall_s\":" + std::to_string(G.elapsed()) + ",";
    o += "\"inconclusive\":" + jstr(st.inconclusive) + ",\"reach\":" + jmap(st.reach) + ",\"check_count\":" + jmap(st.checkCount) + ",";
    o += "\"violations\":[";
    for (size_t i = 0; i < G.viol.size(); i++) { auto& v = G.viol[i]; if (i) o += ",";
        o += "{\"kind\":" + js(v.kind) + ",\"msg\":" + js(v.msg) + ",\"where\":" + js(v.where) + ",\"stack\":" + jstr(v.stack) + ",\"inputs\":" + jin(v.inputs) + ",\"sched\":" + jnum(v.sched) + ",\"sched_where\":" + jstr(v.schedWhere) + ",\"notes\":" + jstr(v.notes) + "}"; }
    o += "],\"samples\":[";
    for (size_t i = 0; i < G.samples.size(); i++) { auto& p = G.samples[i]; if (i) o += ",";
        o += "{\"inputs\":" + jin(p.inputs) + ",\"sched\":" + jnum(p.sched) + ",\"concurrent\":" + (p.concurrent ? "true" : "false") + ",\"obs\":["; 
        for (size_t j = 0; j < p.obs.size(); j++) { if (j) o += ","; o += "[" + js(p.obs[j].first) + "," + js(p.obs[j].second) + "]"; } o += "]}"; }
    o += "],\"functions\":{"; bool first = true;
    for (auto& kv : G.funcs) { auto* d = kv.second; if (!d->execs) continue; size_t c = 0; for (bool b : d->covered) c += b; std::string file; if (auto* sp = d->f->getSubprogram()) file = sp->getFilename().str();
        if (file.find("/repo/") == std::string::npos) continue;
        if (!first) o += ","; first = false; o += js(llvm::demangle(d->name)) + ":[" + js(file) + "," + std::to_string(c) + "," + std::to_string(d->code.size()) + "]"; }
    o += "}}";
    fwrite(o.data(), 1, o.size(), f); fputc('\n', f); fclose(f);
}

bool Engine::runCtors(State& s) {
    initPhase = true;
    auto* g = M->getGlobalVariable("llvm.global_ctors"); std::vector<std::pair<uint64_t, Function*>> v;
    if (g && g->hasInitializer()) if (auto* ca = dyn_cast<ConstantArray>(g->getInitializer()))
        for (auto& op : ca->operands()) { auto* cs = cast<ConstantStruct>(op); auto* f = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts()); if (f) v.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), f}); }
    std::stable_sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first < b.first; });
    for (auto& p : v) {
        std::vector<Val> none; if (!enter(s, getFn(p.second), none, nullptr)) return false;
        while (!s.dead && !s.th[0].stack.empty()) { Frame& f = *s.th[0].stack.back(); f.f->covered[f.pc] = true; if (!step(s)) break; }
        if (s.dead || !s.th[0].stack.empty()) return false;
    }
    initPhase = false; return true;
}

void Engine::run() {
    std::vector<pid_t> kids; uint64_t iter = 0;
    while (!work.empty() && !stop) {
        if (g_sh && g_sh->stop.load()) break;
        if (elapsed() > opt.maxTime) { st.inconclusive.push_back("time budget exhausted with " + std::to_string(work.size()) + " states left"); break; }
        if (st.paths > opt.maxPaths) { st.inconclusive.push_back("path budget exhausted"); break; }
        if (g_sh && work.size() >= 2 && (iter++ & 3) == 0) {
            int a = g_sh->active.load();
            if (a < opt.jobs && g_sh->active.compare_exchange_strong(a, a + 1)) {
                int id = ++g_sh->seq; fflush(nullptr); pid_t p = fork();
                if (p == 0) {
                    std::deque<State*> mine; for (size_t i = 0; i < work.size(); i++) if (i % 2 == 0) mine.push_back(work[i]);
                    work = mine; kids.clear(); viol.clear(); samples.clear(); Stats z; st = z; g_sol = SolverStats(); for (auto& kv : funcs) { kv.second->execs = 0; std::fill(kv.second->covered.begin(), kv.second->covered.end(), false); }
                    { static std::string base; if (base.empty()) base = opt.out; opt.out = base + "." + std::to_string(id); } opt.samples = std::max(4u, opt.samples / 4); opt.seed += id;
                } else if (p > 0) {
                    std::deque<State*> mine; for (size_t i = 0; i < work.size(); i++) if (i % 2 == 1) mine.push_back(work[i]);
                    work = mine; kids.push_back(p);
                } else --g_sh->active;
                continue;
            }
        }
        State* s = work.back(); work.pop_back();
        exec(s);
        if (stop && !viol.empty() && opt.stopFirst && g_sh) g_sh->stop = 1;
    }
    writeOut(*this, opt.out);
    if (g_sh) --g_sh->active;
    int bad = 0;
    for (pid_t k : kids) { int stt; if (waitpid(k, &stt, 0) < 0 || !WIFEXITED(stt) || WEXITSTATUS(stt) != 0) bad = 1; }
    if (bad && g_sh) g_sh->failed = 1;
    fflush(nullptr);
    _exit(bad ? 3 : 0);
}

// Every use of a thread-local variable goes through llvm.threadlocal.address (clang's own initialisation code names it directly).
static void lowerThreadLocals(Module& M) {
    std::vector<Constant*> tl; for (auto& g : M.globals()) if (g.isThreadLocal()) tl.push_back(&g);
    convertUsersOfConstantsToInstructions(tl);
    for (auto* c : tl) {
        std::vector<Use*> us; for (auto& u : c->uses()) us.push_back(&u);
        for (auto* u : us) {
            auto* i = dyn_cast<Instruction>(u->getUser()); if (!i) continue;
            if (auto* ii = dyn_cast<IntrinsicInst>(i)) if (ii->getIntrinsicID() == Intrinsic::threadlocal_address) continue;
            Instruction* at = i; if (auto* p = dyn_cast<PHINode>(i)) at = p->getIncomingBlock(*u)->getTerminator();
            IRBuilder<> b(at); u->set(b.CreateThreadLocalAddress(c));
        }
    }
}
static int realMain(int argc, char** argv) {
    Engine G; Options& o = G.opt;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
        if (a == "--entry") o.entry = nx(); else if (a == "--out") o.out = nx(); else if (a == "--seed") o.seed = stoull(nx()); else if (a == "--max-time") o.maxTime = stod(nx());
        else if (a == "--max-paths") o.maxPaths = stoull(nx()); else if (a == "--max-steps") o.maxSteps = stoull(nx()); else if (a == "--jobs") o.jobs = stoi(nx()); else if (a == "--preempt") o.preempt = stoi(nx());
        else if (a == "--max-polls") o.maxPolls = stoi(nx()); else if (a == "--samples") o.samples = stoi(nx()); else if (a == "--trace") o.trace = true; else if (a == "--races") o.races = true; else if (a == "--all") o.stopFirst = false;
        else if (a == "--solver-timeout") o.solverTimeout = stoi(nx());
        else if (a == "-p") { std::string kv = nx(); auto e = kv.find('='); o.params[kv.substr(0, e)] = stoll(kv.substr(e + 1)); }
        else o.bc = a;
    }
    g_solverTimeoutMs = o.solverTimeout;
    LLVMContext ctx; SMDiagnostic err; G.M = parseIRFile(o.bc, err, ctx);
    if (!G.M) { fprintf(stderr, "symex: cannot read %s\n", o.bc.c_str()); return 3; }
    lowerThreadLocals(*G.M); G.DL = &G.M->getDataLayout(); G.t0 = std::chrono::steady_clock::now();
    G.setupGlobals();
    auto* s = new State; s->mem = G.initMem; G.initMem = Mem(); s->wit = std::make_shared<Witness>(); s->wit->stamp = freshStamp(); s->th.resize(1); s->th[0].vc[0] = 1;
    if (!G.runCtors(*s)) { fprintf(stderr, "symex: static initialisation failed\n"); for (auto& i : G.st.inconclusive) fprintf(stderr, "  %s\n", i.c_str()); for (auto& v : G.viol) { fprintf(stderr, "  %s: %s\n", v.kind.c_str(), v.msg.c_str()); for (auto& l : v.stack) fprintf(stderr, "     %s\n", l.c_str()); } fflush(nullptr); _exit(3); }
    if (getenv("SYMEX_V")) fprintf(stderr, "init done: %.2fs, %llu steps, %u objects\n", G.elapsed(), (unsigned long long)G.st.steps, s->mem.next);
    auto* ef = G.M->getFunction(o.entry); if (!ef || ef->isDeclaration()) { fprintf(stderr, "symex: no entry %s\n", o.entry.c_str()); return 3; }
    std::vector<Val> none; G.enter(*s, G.getFn(ef), none, nullptr); G.work.push_back(s);
    G.st.steps = 0; s->steps = 0;
    if (o.jobs > 1) { g_sh = (Shared*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); new (g_sh) Shared; g_sh->active = 1; g_sh->stop = 0; g_sh->seq = 0; g_sh->failed = 0; }
    G.run();
    return 0;
}
int main(int argc, char** argv) {
    struct rlimit rl; getrlimit(RLIMIT_STACK, &rl);
    if (rl.rlim_cur != RLIM_INFINITY && rl.rlim_cur < (1ull << 30) && !getenv("SYMEX_STK")) { rl.rlim_cur = std::min<rlim_t>(rl.rlim_max, 1ull << 30); if (!setrlimit(RLIMIT_STACK, &rl)) { setenv("SYMEX_STK", "1", 1); execv("/proc/self/exe", argv); } }
    return realMain(argc, argv);
}
