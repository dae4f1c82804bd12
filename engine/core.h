#pragma once
#include "expr.h"
#include "solver.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Operator.h>
#include <array>
#include <deque>
#include <unordered_map>

struct Val { uint64_t c = 0; E e = nullptr; };
static inline Val C64(uint64_t v) { Val r; r.c = v; return r; }

// ---------------------------------------------------------------- decoded code
enum IOp : uint8_t { I_BIN, I_ICMP, I_ZEXT, I_SEXT, I_TRUNC, I_MOVE, I_FBIN, I_FCMP, I_FCAST, I_LOAD, I_STORE, I_GEP,
    I_ALLOCA, I_BR, I_CBR, I_SWITCH, I_RET, I_CALL, I_RESUME, I_UNREACH, I_LPAD, I_SELECT, I_CMPXCHG, I_RMW, I_FENCE,
    I_EXTELT, I_INSELT, I_UNSUP };
enum FK : uint8_t { K_INT, K_F32, K_F64, K_F80 };
struct Field { uint64_t off; uint16_t w; uint16_t bytes; FK k; };
struct Edge { int block = 0; int target = 0; std::vector<std::pair<int, int>> copies; };
struct DFunc;
struct Arg { int first; int n; uint64_t byval; uint16_t w; FK k; };
struct State; struct Engine; struct Inst;
enum ExtRes { X_OK, X_RETRY, X_SWITCHED, X_DEAD };
typedef ExtRes (*ExtFn)(Engine&, State&, const Inst&, std::vector<Val>&, Val& ret);
struct CallInfo {
    llvm::Function* fn = nullptr; DFunc* df = nullptr; int calleeOp = 0; std::vector<Arg> args;
    bool invoke = false; Edge normal, unwind; bool ext = false; ExtFn handler = nullptr; int retN = 0; unsigned fixedArgs = 0;
};
struct Clause { bool filter; uint64_t ti; std::vector<uint64_t> filt; };
struct Inst {
    IOp op; uint8_t sub = 0; uint8_t sub2 = 0; bool visible = false; uint8_t ord = 0;
    uint16_t w = 0, w2 = 0; int dst = -1; int n = 0;
    std::vector<int> ops; uint64_t imm = 0;
    std::vector<Field> fields;                       // load/store
    std::vector<std::pair<int, int64_t>> gep; std::vector<uint16_t> gepw;
    Edge e0, e1; std::vector<std::pair<uint64_t, Edge>> cases;
    std::shared_ptr<CallInfo> call;
    std::vector<Clause> clauses; bool cleanup = false;
    const llvm::Instruction* src = nullptr;
};
struct DFunc {
    llvm::Function* f; std::string name; bool decoded = false; int nslots = 0; std::vector<Inst> code; std::vector<int> blockPc;
    std::vector<std::pair<int, int>> params; uint64_t execs = 0; bool ext = false; std::vector<Val> consts;
    std::vector<bool> covered; bool nounwind=false;
};

// ---------------------------------------------------------------- memory
enum OKind : uint8_t { O_GLOBAL, O_HEAP, O_STACK, O_FUNC, O_FREED, O_TLS };
static const int MAXT = 5;
typedef std::array<uint32_t, MAXT> VC;
struct Cell { int8_t wt = -1; uint32_t wc = 0; VC r{}; VC aw{}; VC ar{}; };
struct Shadow { std::unordered_map<uint32_t, Cell> cells; };
struct Obj {
    int rc = 0; uint32_t id = 0; uint64_t size = 0; OKind kind = O_HEAP; bool ro = false; uint8_t allocFn = 0; int thread = 0;
    const char* what = ""; uint64_t site = 0; uint64_t freeSite = 0;
    std::vector<uint8_t> data; std::unique_ptr<std::vector<E>> sym; std::unique_ptr<Shadow> sh;
    uint64_t base() const { return ((uint64_t)(id + 1) << 24) + 0x400000; }
};
struct ObjPtr {
    Obj* p = nullptr;
    ObjPtr() {} ObjPtr(Obj* o) : p(o) { if (p) p->rc++; }
    ObjPtr(const ObjPtr& o) : p(o.p) { if (p) p->rc++; }
    ObjPtr(ObjPtr&& o) noexcept : p(o.p) { o.p = nullptr; }
    ObjPtr& operator=(ObjPtr o) { std::swap(p, o.p); return *this; }
    ~ObjPtr() { if (p && --p->rc == 0) delete p; }
};
struct Chunk { std::array<ObjPtr, 64> o; };
struct Mem {
    std::vector<std::shared_ptr<Chunk>> ch; uint32_t next = 0;
    Obj* get(uint32_t id) const { uint32_t c = id >> 6; if (c >= ch.size() || !ch[c]) return nullptr; return ch[c]->o[id & 63].p; }
    ObjPtr& slot(uint32_t id) {
        uint32_t c = id >> 6; if (c >= ch.size()) ch.resize(c + 1);
        if (!ch[c]) ch[c] = std::make_shared<Chunk>();
        else if (ch[c].use_count() > 1) ch[c] = std::make_shared<Chunk>(*ch[c]);
        return ch[c]->o[id & 63];
    }
    Obj* wr(uint32_t id) {
        ObjPtr& s = slot(id); Obj* o = s.p;
        if (o->rc > 1) {
            Obj* n = new Obj; n->id = o->id; n->size = o->size; n->kind = o->kind; n->ro = o->ro; n->allocFn = o->allocFn; n->thread = o->thread;
            n->what = o->what; n->site = o->site; n->freeSite = o->freeSite; n->data = o->data;
            if (o->sym) n->sym.reset(new std::vector<E>(*o->sym));
            if (o->sh) n->sh.reset(new Shadow(*o->sh));
            s = ObjPtr(n); return n;
        }
        return o;
    }
};

// ---------------------------------------------------------------- state
struct Frame {
    DFunc* f; int pc = 0; std::vector<Val> regs; std::vector<uint32_t> allocas; std::vector<Val> varargs; std::vector<uint16_t> varargW;
    uint64_t lpExn = 0; int lpSel = 0;
};
typedef std::shared_ptr<Frame> FrameP;
enum TStat : uint8_t { T_RUN, T_MUTEX, T_COND, T_JOIN, T_YIELD, T_DONE, T_RWLOCK };
struct Thread {
    std::vector<FrameP> stack; TStat st = T_RUN; uint64_t key = 0; int phase = 0; bool timedWait = false; unsigned spont = 0; uint64_t deadline = 0; bool signaled = false;
    std::map<uint32_t, uint32_t> tls; VC vc{}; VC acqPending{}; VC relFence{}; bool hasRelFence = false;
    uint64_t seenOther = 0; uint64_t writes = 0; unsigned polls = 0, idle = 0, env = 0; uint64_t looks = 0, lookedAt = 0; uint32_t allocSeq = 0;
};
struct Mutex { int owner = -1; int count = 0; VC vc{}; int readers = 0; };
struct Witness { std::vector<uint64_t> v; uint64_t stamp; };
struct ObsRec { std::string label; std::vector<Val> bytes; };
struct State {
    uint64_t id = 0;
    Mem mem; std::vector<Thread> th; int cur = 0;
    std::vector<E> cons; std::unordered_set<uint32_t> known; std::set<uint32_t> entangled; std::map<uint32_t, TT> dom;
    std::shared_ptr<Witness> wit;
    std::map<std::string, unsigned> symCount; std::vector<std::pair<std::string, uint32_t>> inputs;  // order of creation
    std::vector<ObsRec> obs;
    std::map<uint64_t, Mutex> mtx; std::map<uint64_t, VC> rel; std::map<uint64_t, std::vector<int>> condq;
    bool schedDone = false; int preempts = 0; std::vector<int> sched; std::vector<std::pair<int,const llvm::Instruction*>> schedWhere;
    uint64_t clock = 1000000;   // virtual monotonic clock (ns): a timed wait that times out moves it to its deadline
    uint64_t steps = 0; unsigned depth = 0; bool dead = false; int checksPassed = 0; bool reached = false;
    std::set<std::string> reachLabels;
    std::vector<std::string> notes;
};
