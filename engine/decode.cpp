#include "engine.h"
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Module.h>
using namespace llvm;

static uint16_t tyW(const DataLayout* DL, Type* t) {
    if (t->isPointerTy()) return 64;
    if (t->isIntegerTy()) return t->getIntegerBitWidth();
    if (t->isFloatTy()) return 32;
    if (t->isDoubleTy()) return 64;
    if (t->isX86_FP80Ty()) return 80;
    return (uint16_t)DL->getTypeSizeInBits(t);
}
void Engine::flat(Type* t, uint64_t off, std::vector<Field>& out) {
    if (t->isVoidTy() || t->isTokenTy() || t->isLabelTy() || t->isMetadataTy()) return;
    if (auto* st = dyn_cast<StructType>(t)) {
        const StructLayout* sl = DL->getStructLayout(st);
        for (unsigned i = 0; i < st->getNumElements(); i++) flat(st->getElementType(i), off + sl->getElementOffset(i), out);
        return;
    }
    if (auto* at = dyn_cast<ArrayType>(t)) {
        uint64_t sz = DL->getTypeAllocSize(at->getElementType());
        for (uint64_t i = 0; i < at->getNumElements(); i++) flat(at->getElementType(), off + i * sz, out);
        return;
    }
    if (auto* vt = dyn_cast<FixedVectorType>(t)) {
        uint64_t sz = DL->getTypeStoreSize(vt->getElementType());
        for (uint64_t i = 0; i < vt->getNumElements(); i++) flat(vt->getElementType(), off + i * sz, out);
        return;
    }
    Field f; f.off = off; f.w = tyW(DL, t); f.bytes = (uint16_t)DL->getTypeStoreSize(t);
    f.k = t->isFloatTy() ? K_F32 : t->isDoubleTy() ? K_F64 : t->isX86_FP80Ty() ? K_F80 : K_INT;
    out.push_back(f);
}
unsigned Engine::nf(Type* t) { std::vector<Field> v; flat(t, 0, v); return v.size(); }

u128 Engine::constInt(const Constant* c) {
    if (auto* ci = dyn_cast<ConstantInt>(c)) {
        const APInt& a = ci->getValue(); u128 r = a.getRawData()[0];
        if (a.getNumWords() > 1) r |= (u128)a.getRawData()[1] << 64;
        return r & mask(a.getBitWidth());
    }
    if (auto* cf = dyn_cast<ConstantFP>(c)) { APInt a = cf->getValueAPF().bitcastToAPInt(); u128 r = a.getRawData()[0]; if (a.getNumWords() > 1) r |= (u128)a.getRawData()[1] << 64; return r; }
    if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return 0;
    if (auto* ga = dyn_cast<GlobalAlias>(c)) return constInt(ga->getAliasee());
    if (auto* gv = dyn_cast<GlobalValue>(c)) {
        auto it = gaddr.find(gv); if (it != gaddr.end()) return it->second;
        errs() << "symex: no address for global " << gv->getName() << "\n"; abort();
    }
    if (auto* ce = dyn_cast<ConstantExpr>(c)) {
        unsigned w = tyW(DL, ce->getType());
        switch (ce->getOpcode()) {
        case Instruction::GetElementPtr: {
            auto* g = cast<GEPOperator>(ce); APInt off(64, 0);
            if (!g->accumulateConstantOffset(*DL, off)) { errs() << "symex: gep constexpr\n"; abort(); }
            return (u128)((uint64_t)constInt(cast<Constant>(g->getPointerOperand())) + (uint64_t)off.getSExtValue());
        }
        case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast:
        case Instruction::Trunc: return constInt(ce->getOperand(0)) & mask(w);
        case Instruction::Add: return (constInt(ce->getOperand(0)) + constInt(ce->getOperand(1))) & mask(w);
        case Instruction::Sub: return (constInt(ce->getOperand(0)) - constInt(ce->getOperand(1))) & mask(w);
        case Instruction::Mul: return (constInt(ce->getOperand(0)) * constInt(ce->getOperand(1))) & mask(w);
        case Instruction::And: return constInt(ce->getOperand(0)) & constInt(ce->getOperand(1));
        case Instruction::Or: return constInt(ce->getOperand(0)) | constInt(ce->getOperand(1));
        case Instruction::Xor: return constInt(ce->getOperand(0)) ^ constInt(ce->getOperand(1));
        case Instruction::ICmp: {
            u128 a = constInt(ce->getOperand(0)), b = constInt(ce->getOperand(1));
            switch (ce->getPredicate()) { case CmpInst::ICMP_EQ: return a == b; case CmpInst::ICMP_NE: return a != b; case CmpInst::ICMP_ULT: return a < b; case CmpInst::ICMP_UGT: return a > b; default: break; }
            break;
        }
        default: break;
        }
    }
    std::string s; raw_string_ostream os(s); c->print(os);
    fprintf(stderr, "symex: unsupported constant %s\n", os.str().c_str()); abort();
}
void Engine::constVals(const Constant* c, std::vector<Val>& out) {
    Type* t = c->getType();
    if (t->isStructTy() || t->isArrayTy() || t->isVectorTy()) {
        if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) {
            std::vector<Field> fs; flat(t, 0, fs);
            for (auto& f : fs) { Val v; if (f.w > 64) v.e = mkConst(0, f.w); out.push_back(v); }
            return;
        }
        unsigned n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
        for (unsigned i = 0; i < n; i++) constVals(c->getAggregateElement(i), out);
        return;
    }
    if (t->isMetadataTy() || t->isTokenTy()) return;
    unsigned w = tyW(DL, t); u128 x = constInt(c); Val v;
    if (w > 64) v.e = mkConst(x, w); else v.c = (uint64_t)x;
    out.push_back(v);
}
void Engine::writeInit(Obj* o, uint64_t off, const Constant* c) {
    Type* t = c->getType();
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c) || isa<ConstantPointerNull>(c)) return;
    if (auto* cds = dyn_cast<ConstantDataSequential>(c)) {
        StringRef raw = cds->getRawDataValues(); memcpy(o->data.data() + off, raw.data(), raw.size()); return;
    }
    if (auto* st = dyn_cast<StructType>(t)) {
        const StructLayout* sl = DL->getStructLayout(st);
        for (unsigned i = 0; i < st->getNumElements(); i++) writeInit(o, off + sl->getElementOffset(i), c->getAggregateElement(i));
        return;
    }
    if (auto* at = dyn_cast<ArrayType>(t)) {
        uint64_t sz = DL->getTypeAllocSize(at->getElementType());
        for (uint64_t i = 0; i < at->getNumElements(); i++) writeInit(o, off + i * sz, c->getAggregateElement((unsigned)i));
        return;
    }
    if (auto* vt = dyn_cast<FixedVectorType>(t)) {
        uint64_t sz = DL->getTypeStoreSize(vt->getElementType());
        for (uint64_t i = 0; i < vt->getNumElements(); i++) writeInit(o, off + i * sz, c->getAggregateElement((unsigned)i));
        return;
    }
    u128 v = constInt(c); unsigned n = DL->getTypeStoreSize(t);
    for (unsigned i = 0; i < n; i++) o->data[off + i] = (uint8_t)(v >> (8 * i));
}

void Engine::setupGlobals() {
    Mem& m = initMem;
    auto newObj = [&](uint64_t size, OKind k, const char* what) {
        Obj* o = new Obj; o->id = m.next++; o->size = size; o->kind = k; o->what = what; o->data.assign(size, 0);
        m.slot(o->id) = ObjPtr(o); return o;
    };
    for (auto& f : *M) {
        Obj* o = newObj(1, O_FUNC, strdup(f.getName().str().c_str())); o->ro = true;
        gaddr[&f] = o->base(); gByAddr[o->base()] = &f; byAddr[o->base()] = getFn(&f);
    }
    std::vector<std::pair<GlobalVariable*, uint32_t>> gs;
    for (auto& g : M->globals()) {
        if (g.getName().starts_with("llvm.")) continue;
        uint64_t sz = g.getValueType()->isSized() ? DL->getTypeAllocSize(g.getValueType()).getFixedValue() : 0;
        if (g.isDeclaration()) { sz = std::max<uint64_t>(sz, 64); if (!g.getName().starts_with("_ZTV") && !g.getName().starts_with("_ZTI") && !g.getName().starts_with("__dso_handle")) fprintf(stderr, "symex: warning: external global %s\n", g.getName().str().c_str()); }
        Obj* o = newObj(sz, O_GLOBAL, strdup(g.getName().str().c_str()));
        gaddr[&g] = o->base(); gByAddr[o->base()] = &g; gs.push_back({&g, o->id});
        if (g.isThreadLocal()) { tlsIdx[&g] = tlsVars.size(); tlsVars.push_back(&g); }
    }
    for (auto& a : M->aliases()) gaddr[&a] = 0;   // resolved through constInt
    for (auto& p : gs) {
        Obj* o = m.slot(p.second).p;
        if (p.first->hasInitializer()) writeInit(o, 0, p.first->getInitializer());
        o->ro = p.first->isConstant();
    }
}

DFunc* Engine::getFn(const Function* f) {
    auto it = funcs.find(f); if (it != funcs.end()) return it->second;
    auto* d = new DFunc; d->f = const_cast<Function*>(f); d->name = f->getName().str(); d->ext = f->isDeclaration();
    funcs[f] = d; return d;
}

static uint8_t binOp(unsigned o) {
    switch (o) {
    case Instruction::Add: return ADD; case Instruction::Sub: return SUB; case Instruction::Mul: return MUL;
    case Instruction::UDiv: return UDIV; case Instruction::SDiv: return SDIV; case Instruction::URem: return UREM; case Instruction::SRem: return SREM;
    case Instruction::Shl: return SHL; case Instruction::LShr: return LSHR; case Instruction::AShr: return ASHR;
    case Instruction::And: return AND; case Instruction::Or: return OR; case Instruction::Xor: return XOR;
    } return 255;
}
static std::unordered_map<std::string, ExtFn>& extTable() { static std::unordered_map<std::string, ExtFn> t; if (t.empty()) registerExternals(t); return t; }

void Engine::decode(DFunc* d) {
    d->decoded = true; Function& F = *d->f;
    std::unordered_map<const Value*, int> slot; std::unordered_map<const BasicBlock*, int> bidx;
    int ns = 0;
    for (auto& a : F.args()) { unsigned n = nf(a.getType()); slot[&a] = ns; d->params.push_back({ns, (int)n}); ns += n; }
    int bi = 0;
    for (auto& B : F) { bidx[&B] = bi++; for (auto& I : B) { unsigned n = nf(I.getType()); slot[&I] = ns; ns += n; } }
    d->nslots = ns;
    std::unordered_map<const Constant*, int> cpool;
    auto op = [&](const Value* v, int part = 0) -> int {
        if (auto* c = dyn_cast<Constant>(v)) {
            auto it = cpool.find(c); int base;
            if (it == cpool.end()) { base = d->consts.size(); cpool[c] = base; constVals(c, d->consts); if ((int)d->consts.size() == base) d->consts.push_back(Val()); }
            else base = it->second;
            return ~(base + part);
        }
        auto it = slot.find(v); if (it == slot.end()) return ~0;
        return it->second + part;
    };
    auto edge = [&](const BasicBlock* from, const BasicBlock* to) {
        Edge e; e.target = bidx[to];
        for (auto& I : *to) {
            auto* p = dyn_cast<PHINode>(&I); if (!p) break;
            unsigned n = nf(p->getType()); const Value* v = p->getIncomingValueForBlock(from);
            for (unsigned k = 0; k < n; k++) e.copies.push_back({slot[p] + (int)k, op(v, k)});
        }
        return e;
    };
    d->blockPc.assign(bi, 0);
    for (auto& B : F) {
        d->blockPc[bidx[&B]] = d->code.size();
        for (auto& I : B) {
            if (isa<PHINode>(I) || isa<DbgInfoIntrinsic>(I)) continue;
            Inst N; N.src = &I; N.dst = slot[&I]; N.n = nf(I.getType());
            Type* T = I.getType();
            auto elems = [&](const Value* v) { for (unsigned k = 0; k < nf(v->getType()); k++) N.ops.push_back(op(v, k)); };
            unsigned bo = binOp(I.getOpcode());
            if (bo != 255) { N.op = I_BIN; N.sub = bo; N.w = tyW(DL, T->getScalarType()); elems(I.getOperand(0)); elems(I.getOperand(1)); }
            else switch (I.getOpcode()) {
            case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem:
                N.op = I_FBIN; N.sub = I.getOpcode() == Instruction::FAdd ? 0 : I.getOpcode() == Instruction::FSub ? 1 : I.getOpcode() == Instruction::FMul ? 2 : I.getOpcode() == Instruction::FDiv ? 3 : 4;
                N.w = tyW(DL, T->getScalarType()); elems(I.getOperand(0)); elems(I.getOperand(1)); break;
            case Instruction::FNeg: N.op = I_FBIN; N.sub = 5; N.w = tyW(DL, T->getScalarType()); elems(I.getOperand(0)); elems(I.getOperand(0)); break;
            case Instruction::ICmp: { N.op = I_ICMP; auto* c = cast<ICmpInst>(&I); N.sub = (uint8_t)c->getPredicate(); N.w = tyW(DL, c->getOperand(0)->getType()->getScalarType()); elems(I.getOperand(0)); elems(I.getOperand(1)); break; }
            case Instruction::FCmp: { N.op = I_FCMP; N.sub = (uint8_t)cast<FCmpInst>(&I)->getPredicate(); N.w = tyW(DL, I.getOperand(0)->getType()->getScalarType()); elems(I.getOperand(0)); elems(I.getOperand(1)); break; }
            case Instruction::ZExt: N.op = I_ZEXT; N.w = tyW(DL, I.getOperand(0)->getType()->getScalarType()); N.w2 = tyW(DL, T->getScalarType()); elems(I.getOperand(0)); break;
            case Instruction::SExt: N.op = I_SEXT; N.w = tyW(DL, I.getOperand(0)->getType()->getScalarType()); N.w2 = tyW(DL, T->getScalarType()); elems(I.getOperand(0)); break;
            case Instruction::Trunc: N.op = I_TRUNC; N.w = tyW(DL, I.getOperand(0)->getType()->getScalarType()); N.w2 = tyW(DL, T->getScalarType()); elems(I.getOperand(0)); break;
            case Instruction::PtrToInt: case Instruction::IntToPtr: {
                unsigned a = tyW(DL, I.getOperand(0)->getType()), b = tyW(DL, T);
                N.op = a == b ? I_MOVE : a < b ? I_ZEXT : I_TRUNC; N.w = a; N.w2 = b; elems(I.getOperand(0)); break; }
            case Instruction::BitCast:
                if (nf(I.getOperand(0)->getType()) == (unsigned)N.n && tyW(DL, I.getOperand(0)->getType()->getScalarType()) == tyW(DL, T->getScalarType())) { N.op = I_MOVE; elems(I.getOperand(0)); }
                else { N.op = I_UNSUP; }
                break;
            case Instruction::AddrSpaceCast: case Instruction::Freeze: N.op = I_MOVE; elems(I.getOperand(0)); break;
            case Instruction::FPToUI: case Instruction::FPToSI: case Instruction::UIToFP: case Instruction::SIToFP: case Instruction::FPTrunc: case Instruction::FPExt:
                N.op = I_FCAST; N.sub = I.getOpcode() - Instruction::FPToUI; N.sub2 = 0;
                switch (I.getOpcode()) { case Instruction::FPToUI: N.sub = 0; break; case Instruction::FPToSI: N.sub = 1; break; case Instruction::UIToFP: N.sub = 2; break; case Instruction::SIToFP: N.sub = 3; break; case Instruction::FPTrunc: N.sub = 4; break; default: N.sub = 5; }
                N.w = tyW(DL, I.getOperand(0)->getType()->getScalarType()); N.w2 = tyW(DL, T->getScalarType()); elems(I.getOperand(0)); break;
            case Instruction::Alloca: {
                auto* a = cast<AllocaInst>(&I); N.op = I_ALLOCA; N.imm = DL->getTypeAllocSize(a->getAllocatedType()); N.ops.push_back(op(a->getArraySize())); N.w = tyW(DL, a->getArraySize()->getType()); break; }
            case Instruction::Load: { auto* l = cast<LoadInst>(&I); N.op = I_LOAD; flat(T, 0, N.fields); N.ops.push_back(op(l->getPointerOperand())); N.visible = l->isAtomic(); N.ord = (uint8_t)l->getOrdering(); break; }
            case Instruction::Store: { auto* l = cast<StoreInst>(&I); N.op = I_STORE; flat(l->getValueOperand()->getType(), 0, N.fields); N.ops.push_back(op(l->getPointerOperand())); elems(l->getValueOperand()); N.visible = l->isAtomic(); N.ord = (uint8_t)l->getOrdering(); break; }
            case Instruction::GetElementPtr: {
                auto* g = cast<GetElementPtrInst>(&I); N.op = I_GEP; N.ops.push_back(op(g->getPointerOperand()));
                if (T->isVectorTy()) { N.op = I_UNSUP; break; }
                int64_t cst = 0;
                for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
                    Value* ix = gi.getOperand();
                    if (StructType* st = gi.getStructTypeOrNull()) { cst += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
                    int64_t sc = DL->getTypeAllocSize(gi.getIndexedType());
                    if (auto* ci = dyn_cast<ConstantInt>(ix)) { cst += sc * ci->getSExtValue(); continue; }
                    N.gep.push_back({op(ix), sc}); N.gepw.push_back(tyW(DL, ix->getType()));
                }
                N.imm = (uint64_t)cst; break; }
            case Instruction::Br: {
                auto* b = cast<BranchInst>(&I);
                if (b->isConditional()) { N.op = I_CBR; N.ops.push_back(op(b->getCondition())); N.e0 = edge(&B, b->getSuccessor(0)); N.e1 = edge(&B, b->getSuccessor(1)); }
                else { N.op = I_BR; N.e0 = edge(&B, b->getSuccessor(0)); }
                break; }
            case Instruction::Switch: {
                auto* s = cast<SwitchInst>(&I); N.op = I_SWITCH; N.ops.push_back(op(s->getCondition())); N.w = tyW(DL, s->getCondition()->getType());
                N.e0 = edge(&B, s->getDefaultDest());
                for (auto& c : s->cases()) N.cases.push_back({c.getCaseValue()->getZExtValue(), edge(&B, c.getCaseSuccessor())});
                break; }
            case Instruction::Ret: N.op = I_RET; if (I.getNumOperands()) elems(I.getOperand(0)); break;
            case Instruction::Unreachable: N.op = I_UNREACH; break;
            case Instruction::Resume: N.op = I_RESUME; elems(I.getOperand(0)); break;
            case Instruction::LandingPad: {
                auto* l = cast<LandingPadInst>(&I); N.op = I_LPAD; N.cleanup = l->isCleanup();
                for (unsigned k = 0; k < l->getNumClauses(); k++) {
                    Clause c; c.filter = l->isFilter(k); c.ti = 0;
                    if (!c.filter) c.ti = (uint64_t)constInt(l->getClause(k));
                    else { auto* arr = l->getClause(k); unsigned n = cast<ArrayType>(arr->getType())->getNumElements(); for (unsigned j = 0; j < n; j++) c.filt.push_back((uint64_t)constInt(arr->getAggregateElement(j))); }
                    N.clauses.push_back(c);
                }
                break; }
            case Instruction::Select: {
                auto* s = cast<SelectInst>(&I); N.op = I_SELECT;
                bool vc = s->getCondition()->getType()->isVectorTy();
                std::vector<Field> fs; flat(T, 0, fs); N.fields = fs;
                for (int k = 0; k < N.n; k++) N.ops.push_back(op(s->getCondition(), vc ? k : 0));
                elems(s->getTrueValue()); elems(s->getFalseValue()); break; }
            case Instruction::ExtractValue: {
                auto* e = cast<ExtractValueInst>(&I); N.op = I_MOVE; Type* t = e->getAggregateOperand()->getType(); unsigned pos = 0;
                for (unsigned ix : e->indices()) {
                    for (unsigned k = 0; k < ix; k++) pos += nf(t->isStructTy() ? t->getStructElementType(k) : t->getArrayElementType());
                    t = t->isStructTy() ? t->getStructElementType(ix) : t->getArrayElementType();
                }
                for (int k = 0; k < N.n; k++) N.ops.push_back(op(e->getAggregateOperand(), pos + k)); break; }
            case Instruction::InsertValue: {
                auto* e = cast<InsertValueInst>(&I); N.op = I_MOVE; Type* t = T; unsigned pos = 0;
                for (unsigned ix : e->indices()) {
                    for (unsigned k = 0; k < ix; k++) pos += nf(t->isStructTy() ? t->getStructElementType(k) : t->getArrayElementType());
                    t = t->isStructTy() ? t->getStructElementType(ix) : t->getArrayElementType();
                }
                unsigned m = nf(t);
                for (int k = 0; k < N.n; k++) N.ops.push_back(k >= (int)pos && k < (int)(pos + m) ? op(e->getInsertedValueOperand(), k - pos) : op(e->getAggregateOperand(), k)); break; }
            case Instruction::ExtractElement: N.op = I_EXTELT; elems(I.getOperand(0)); N.ops.push_back(op(I.getOperand(1))); break;
            case Instruction::InsertElement: N.op = I_INSELT; elems(I.getOperand(0)); N.ops.push_back(op(I.getOperand(1))); N.ops.push_back(op(I.getOperand(2))); break;
            case Instruction::ShuffleVector: {
                auto* s = cast<ShuffleVectorInst>(&I); N.op = I_MOVE; int n0 = nf(s->getOperand(0)->getType());
                for (int m : s->getShuffleMask()) N.ops.push_back(m < 0 ? op(s->getOperand(0), 0) : m < n0 ? op(s->getOperand(0), m) : op(s->getOperand(1), m - n0)); break; }
            case Instruction::AtomicCmpXchg: { auto* c = cast<AtomicCmpXchgInst>(&I); N.op = I_CMPXCHG; N.visible = true; N.ord = (uint8_t)c->getSuccessOrdering(); N.sub2 = (uint8_t)c->getFailureOrdering(); flat(c->getCompareOperand()->getType(), 0, N.fields); N.ops = {op(c->getPointerOperand()), op(c->getCompareOperand()), op(c->getNewValOperand())}; break; }
            case Instruction::AtomicRMW: { auto* c = cast<AtomicRMWInst>(&I); N.op = I_RMW; N.visible = true; N.ord = (uint8_t)c->getOrdering(); N.sub = (uint8_t)c->getOperation(); flat(c->getValOperand()->getType(), 0, N.fields); N.ops = {op(c->getPointerOperand()), op(c->getValOperand())}; break; }
            case Instruction::Fence: N.op = I_FENCE; N.ord = (uint8_t)cast<FenceInst>(&I)->getOrdering(); break;
            case Instruction::Call: case Instruction::Invoke: {
                auto* cb = cast<CallBase>(&I); auto ci = std::make_shared<CallInfo>();
                N.op = I_CALL; N.call = ci; ci->retN = N.n;
                if (auto* iv = dyn_cast<InvokeInst>(&I)) { ci->invoke = true; ci->normal = edge(&B, iv->getNormalDest()); ci->unwind = edge(&B, iv->getUnwindDest()); }
                ci->fixedArgs = cb->getFunctionType()->getNumParams();
                if (cb->isInlineAsm()) {
                    auto* ia = cast<InlineAsm>(cb->getCalledOperand());
                    ci->handler = nullptr; ci->ext = true;
                    StringRef as = StringRef(ia->getAsmString()).trim(" \t\n;");
                    if (as.empty() || as == "nop") { N.op = I_MOVE; N.n = 0; break; }
                    if (as == "pause") ci->handler = extTable()["sched_yield"];      // spin-wait hint: another thread may run
                    else if (as.starts_with("bsrq") && !as.contains(';') && cb->arg_size() == 1) ci->handler = extTable()["__symex_bsr64"];
                    else { N.op = I_UNSUP; break; }
                }
                if (!cb->isInlineAsm()) {
                Value* cv = cb->getCalledOperand()->stripPointerCasts();
                if (auto* al = dyn_cast<GlobalAlias>(cv)) cv = al->getAliaseeObject();
                ci->fn = dyn_cast<Function>(cv);
                if (ci->fn) {
                    if (ci->fn->isIntrinsic()) {
                        if (!ci->invoke)
                        switch (ci->fn->getIntrinsicID()) {
                        case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::assume: case Intrinsic::stackrestore: case Intrinsic::prefetch: case Intrinsic::var_annotation:
                            continue;
                        default: break;
                        }
                        ci->ext = true; ci->handler = intrinsicHandler(ci->fn);
                    } else {
                        auto& t = extTable(); auto it = t.find(ci->fn->getName().str());
                        if (it != t.end()) { ci->ext = true; ci->handler = it->second; }
                        else if (ci->fn->isDeclaration()) { ci->ext = true; }
                        else ci->df = getFn(ci->fn);
                    }
                } else { ci->calleeOp = op(cb->getCalledOperand()); }
                }
                for (unsigned a = 0; a < cb->arg_size(); a++) {
                    Value* v = cb->getArgOperand(a); Arg A; A.first = N.ops.size();
                    if (v->getType()->isMetadataTy()) { A.n = 0; A.byval = 0; A.w = 0; A.k = K_INT; ci->args.push_back(A); continue; }
                    elems(v); A.n = N.ops.size() - A.first; A.byval = cb->isByValArgument(a) ? (uint64_t)DL->getTypeAllocSize(cb->getParamByValType(a)) : 0;
                    std::vector<Field> fs; flat(v->getType(), 0, fs); A.w = fs.empty() ? 64 : fs[0].w; A.k = fs.empty() ? K_INT : fs[0].k; ci->args.push_back(A);
                }
                break; }
            default: N.op = I_UNSUP; break;
            }
            d->code.push_back(std::move(N));
        }
    }
    d->covered.assign(d->code.size(), false);
}
