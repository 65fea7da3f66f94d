// symx: symbolic execution of LLVM IR.  One process explores the paths of one harness (optionally one partition of them).
#include "exec.h"
#include <llvm/Bitcode/BitcodeReader.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/CFG.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <algorithm>
#include <chrono>
#include <cmath>
#include <cstdio>
#include <cstdarg>
#include <fstream>
#include <functional>
#include <sys/resource.h>

using namespace llvm;
static const DataLayout* DL; static Module* M;
static std::map<std::string, long> g_params;
static uint64_t g_maxSteps = 5000000, g_maxPaths = ~0ull; static double g_timeLimit = 1e9; static unsigned g_partN = 1, g_partI = 0; static int g_partD = 0;
static unsigned g_maxSamples = 40; static unsigned g_maxErrors = 12; static bool g_trace = false, g_mergeOn = true;
static std::chrono::steady_clock::time_point g_t0;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - g_t0).count(); }

double timeLeft() { return g_timeLimit - now(); }
struct Stats { uint64_t paths = 0, assumeKilled = 0, forks = 0, steps = 0, checksConst = 0, checksSolver = 0, merges = 0, mergeFail = 0, dropped = 0, limited = 0, inconclusive = 0, undefReads = 0, modelForks = 0; } g_st;
static std::map<std::string, uint64_t> g_covers; static std::set<std::string> g_limits; static std::map<std::string, uint64_t> g_checkMsgs;
struct ErrRec { std::string kind, msg, where; std::vector<std::pair<std::string, long>> inputs; };
static std::vector<ErrRec> g_errors; static std::map<std::string, unsigned> g_errCount;
struct SampleRec { std::vector<std::pair<std::string, long>> inputs, obs; bool undef; };
static std::vector<SampleRec> g_samples; static uint64_t g_rng = 88172645463325252ull;
static uint64_t rnd() { g_rng ^= g_rng << 13; g_rng ^= g_rng >> 7; g_rng ^= g_rng << 17; return g_rng; }
[[noreturn]] static void fatal(const std::string& m) { fprintf(stderr, "symx: %s\n", m.c_str()); exit(3); }

// ---------------------------------------------------------------- globals, functions
static std::vector<Obj*> g_globals; static std::unordered_map<const GlobalValue*, uint64_t> g_gaddr; static std::map<uint64_t, Fn*> g_fnAt; static std::unordered_map<const Function*, Fn*> g_fns; static std::map<uint64_t, const GlobalVariable*> g_gvAt;
static std::vector<std::string> g_files; static std::map<std::pair<std::string, unsigned>, int> g_lineIds; static std::vector<uint8_t> g_lineHit; static std::vector<std::pair<std::string, unsigned>> g_lines; static std::set<std::string> g_encoded;
static uint64_t mask64(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static unsigned widthOf(Type* T) { if (T->isPointerTy()) return 64; if (T->isIntegerTy()) return T->getIntegerBitWidth(); if (T->isDoubleTy()) return 64; if (T->isFloatTy()) return 32; if (T->isX86_FP80Ty()) return 80; return 0; }
static void flat(Type* T, uint64_t off, std::vector<std::pair<unsigned, uint64_t>>& out) {
    if (auto* S = dyn_cast<StructType>(T)) { auto* SL = DL->getStructLayout(S); for (unsigned i = 0; i < S->getNumElements(); i++) flat(S->getElementType(i), off + SL->getElementOffset(i), out); return; }
    if (auto* A = dyn_cast<ArrayType>(T)) { uint64_t es = DL->getTypeAllocSize(A->getElementType()); for (unsigned i = 0; i < A->getNumElements(); i++) flat(A->getElementType(), off + i * es, out); return; }
    if (auto* Vt = dyn_cast<FixedVectorType>(T)) { uint64_t es = DL->getTypeSizeInBits(Vt->getElementType()) / 8; for (unsigned i = 0; i < Vt->getNumElements(); i++) flat(Vt->getElementType(), off + i * es, out); return; }
    unsigned w = widthOf(T); if (!w) { std::string s; raw_string_ostream os(s); T->print(os); fatal("unsupported type " + os.str()); }
    out.push_back({w, off});
}
static unsigned slots(Type* T) { if (T->isVoidTy()) return 0; if (widthOf(T)) return 1; std::vector<std::pair<unsigned, uint64_t>> v; flat(T, 0, v); return v.size(); }
static uint64_t addrOf(const GlobalValue* G) {
    if (auto* A = dyn_cast<GlobalAlias>(G)) { auto* b = A->getAliaseeObject(); return addrOf(b); }
    auto it = g_gaddr.find(G); if (it == g_gaddr.end()) fatal("no address for " + G->getName().str()); return it->second;
}
static V constSlot(const Constant* C, unsigned slot);
static uint64_t constVal(const Constant* C) { V v = constSlot(C, 0); if (v.e) fatal("wide constant"); return v.c; }
static V constSlot(const Constant* C, unsigned slot) {
    Type* T = C->getType();
    if (isa<UndefValue>(C) || isa<ConstantAggregateZero>(C) || isa<ConstantPointerNull>(C)) { if (widthOf(T) > 64) return V{0, mkConst(0, widthOf(T))}; return VC(0); }
    if (auto* I = dyn_cast<ConstantInt>(C)) { unsigned w = I->getBitWidth(); if (w <= 64) return VC(I->getZExtValue()); if (w > 128) fatal("wide int"); u128 x = I->getValue().getRawData()[1]; x = (x << 64) | I->getValue().getRawData()[0]; return V{0, mkConst(x, w)}; }
    if (auto* F = dyn_cast<ConstantFP>(C)) { if (T->isX86_FP80Ty()) return VC(0); return VC(F->getValueAPF().bitcastToAPInt().getZExtValue()); }
    if (auto* G = dyn_cast<GlobalValue>(C)) return VC(addrOf(G));
    if (auto* S = dyn_cast<ConstantStruct>(C)) { unsigned i = 0; for (; i < S->getNumOperands(); i++) { unsigned n = slots(S->getOperand(i)->getType()); if (slot < n) return constSlot(S->getOperand(i), slot); slot -= n; } fatal("slot"); }
    if (auto* A = dyn_cast<ConstantArray>(C)) { unsigned n = slots(A->getType()->getElementType()); return constSlot(A->getOperand(slot / n), slot % n); }
    if (auto* A = dyn_cast<ConstantVector>(C)) { return constSlot(A->getOperand(slot), 0); }
    if (auto* A = dyn_cast<ConstantDataSequential>(C)) return constSlot(A->getElementAsConstant(slot), 0);
    if (auto* X = dyn_cast<ConstantExpr>(C)) {
        switch (X->getOpcode()) {
        case Instruction::GetElementPtr: { APInt off(64, 0); auto* G = cast<GEPOperator>(X); if (!G->accumulateConstantOffset(*DL, off)) fatal("const gep"); return VC(constVal(cast<Constant>(G->getPointerOperand())) + off.getZExtValue()); }
        case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast: return VC(constVal(X->getOperand(0)) & mask64(widthOf(T)));
        case Instruction::Trunc: return VC(constVal(X->getOperand(0)) & mask64(widthOf(T)));
        case Instruction::Add: return VC((constVal(X->getOperand(0)) + constVal(X->getOperand(1))) & mask64(widthOf(T)));
        case Instruction::Sub: return VC((constVal(X->getOperand(0)) - constVal(X->getOperand(1))) & mask64(widthOf(T)));
        default: fatal(std::string("constant expression ") + X->getOpcodeName());
        }
    }
    std::string s; raw_string_ostream os(s); C->print(os); fatal("constant " + os.str());
}
static void initGlobal(std::vector<uint8_t>& b, uint64_t off, const Constant* C) {
    Type* T = C->getType(); uint64_t sz = DL->getTypeStoreSize(T);
    if (isa<UndefValue>(C) || isa<ConstantAggregateZero>(C)) return;
    if (auto* D = dyn_cast<ConstantDataSequential>(C)) { auto r = D->getRawDataValues(); memcpy(&b[off], r.data(), r.size()); return; }
    if (auto* S = dyn_cast<ConstantStruct>(C)) { auto* SL = DL->getStructLayout(S->getType()); for (unsigned i = 0; i < S->getNumOperands(); i++) initGlobal(b, off + SL->getElementOffset(i), S->getOperand(i)); return; }
    if (auto* A = dyn_cast<ConstantArray>(C)) { uint64_t es = DL->getTypeAllocSize(A->getType()->getElementType()); for (unsigned i = 0; i < A->getNumOperands(); i++) initGlobal(b, off + i * es, A->getOperand(i)); return; }
    V v = constSlot(C, 0); u128 x = v.e ? v.e->c : (u128)v.c; for (uint64_t i = 0; i < sz && i < 16; i++) b[off + i] = (uint8_t)(x >> (8 * i));
}
static std::set<std::string> g_extGlobals;
static int builtinId(const std::string& n);
static void setupGlobals() {
    uint64_t fa = 0x10000; for (Function& F : *M) { Fn* f = new Fn; f->F = &F; f->name = F.getName().str(); f->addr = fa; fa += 16; g_gaddr[&F] = f->addr; g_fnAt[f->addr] = f; g_fns[&F] = f; f->merge = F.hasFnAttribute("symx-merge"); f->builtin = builtinId(f->name); }
    uint64_t ga = 0x10000000; for (GlobalVariable& G : M->globals()) { uint64_t sz = G.getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(G.getValueType()) : 64; if (G.isDeclaration()) sz = std::max<uint64_t>(sz, 64); g_gaddr[&G] = ga; Obj* o = new Obj; o->base = ga; o->size = sz; o->kind = 0; o->ro = G.isConstant() && !G.isDeclaration(); o->b.assign(sz, 0); g_globals.push_back(o); g_gvAt[ga] = &G; ga = (ga + sz + 0x10000 + 63) & ~63ull; if (G.isDeclaration()) g_extGlobals.insert(G.getName().str()); }
    size_t i = 0; for (GlobalVariable& G : M->globals()) { Obj* o = g_globals[i++]; if (G.hasInitializer()) initGlobal(o->b, 0, G.getInitializer()); }
}

// ---------------------------------------------------------------- translation
enum { I_ = 1000 };
static int lineId(const Instruction& I) {
    const DebugLoc& d = I.getDebugLoc(); if (!d) return -1; auto* sc = dyn_cast<DIScope>(d.getScope()); if (!sc) return -1; StringRef f = sc->getFilename(); if (!f.contains("/sources/")) return -1;
    auto key = std::make_pair(f.substr(f.rfind('/') + 1).str(), d.getLine()); auto it = g_lineIds.find(key); if (it != g_lineIds.end()) return it->second;
    int id = g_lines.size(); g_lines.push_back(key); g_lineHit.push_back(0); g_lineIds[key] = id;
    return id;
}
static void noteScopes(const Instruction& I) {
    const DILocation* d = I.getDebugLoc(); for (; d; d = d->getInlinedAt()) { auto* sp = d->getScope()->getSubprogram(); if (sp && sp->getFilename().contains("/sources/")) { std::string n = demangle((sp->getLinkageName().empty() ? sp->getName() : sp->getLinkageName()).str()); g_encoded.insert(n); } }
}
static std::unordered_map<const Instruction*, int> g_insLine;
struct Tr {
    Fn& f; std::map<const BasicBlock*, int> bbId;
    Opd op(const Value* v, unsigned slot = 0) {
        if (auto* C = dyn_cast<Constant>(v)) return Opd{-1, constSlot(C, slot)};
        auto it = f.reg.find(v); if (it == f.reg.end()) { if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) return Opd{-1, VC(0)}; fatal("operand without register in " + f.name); } return Opd{it->second + (int)slot, VC(0)};
    }
    int edge(const BasicBlock* from, const BasicBlock* to) {
        Edge e; e.bb = bbId[to]; for (auto& p : to->phis()) { auto* in = p.getIncomingValueForBlock(from); unsigned n = slots(p.getType()); for (unsigned s = 0; s < n; s++) e.moves.push_back({f.reg[&p] + (int)s, op(in, s)}); }
        f.edges.push_back(e); return f.edges.size() - 1;
    }
    void run() {
        Function& F = *f.F; unsigned n = 0; f.nargs = 0;
        for (auto& A : F.args()) { f.reg[&A] = n; n += slots(A.getType()); } f.nargs = n;
        int b = 0; for (auto& BB : F) { bbId[&BB] = b++; for (auto& I : BB) if (!I.getType()->isVoidTy()) { f.reg[&I] = n; n += slots(I.getType()); } }
        f.nregs = n; f.blk.resize(b);
        if (!F.getReturnType()->isVoidTy()) { std::vector<std::pair<unsigned, uint64_t>> v; flat(F.getReturnType(), 0, v); for (auto& p : v) f.retW.push_back(p.first); }
        for (auto& BB : F) { auto& out = f.blk[bbId[&BB]].ins; for (auto& I : BB) { noteScopes(I); if (isa<PHINode>(I) || isa<DbgInfoIntrinsic>(I)) continue; one(I, out); } }
        f.translated = true;
    }
    void one(Instruction& I, std::vector<Ins>& out) {
        Ins x; x.I = &I; x.op = I.getOpcode(); x.sub = 0; Type* T = I.getType(); if (!T->isVoidTy()) { x.dst = f.reg[&I]; x.ns = slots(T); x.w = widthOf(T); }
        x.k.clear(); int ln = lineId(I); g_insLine[&I] = ln;
        if (T->isVectorTy() || (I.getNumOperands() && I.getOperand(0)->getType()->isVectorTy())) { if (!isa<LoadInst>(I) && !isa<StoreInst>(I)) x.op = I_ + 1; }
        switch (x.op) {
        case I_ + 1: break; // unsupported when executed
        case Instruction::Load: { x.a = {op(cast<LoadInst>(I).getPointerOperand())}; std::vector<std::pair<unsigned, uint64_t>> v; flat(T, 0, v); for (auto& p : v) { x.kw.push_back(p.first); x.k.push_back(p.second); } x.sub = T->isPointerTy(); break; }
        case Instruction::Store: { auto& S = cast<StoreInst>(I); Type* VT = S.getValueOperand()->getType(); x.a = {op(S.getPointerOperand())}; std::vector<std::pair<unsigned, uint64_t>> v; flat(VT, 0, v); for (unsigned s = 0; s < v.size(); s++) { x.kw.push_back(v[s].first); x.k.push_back(v[s].second); x.a.push_back(op(S.getValueOperand(), s)); } x.sub = VT->isPointerTy(); break; }
        case Instruction::AtomicRMW: { auto& R = cast<AtomicRMWInst>(I); x.a = {op(R.getPointerOperand()), op(R.getValOperand())}; x.sub = R.getOperation(); break; }
        case Instruction::AtomicCmpXchg: { auto& R = cast<AtomicCmpXchgInst>(I); x.a = {op(R.getPointerOperand()), op(R.getCompareOperand()), op(R.getNewValOperand())}; x.w2 = widthOf(R.getCompareOperand()->getType()); x.sub = R.getCompareOperand()->getType()->isPointerTy(); break; }
        case Instruction::Fence: break;
        case Instruction::Alloca: { auto& A = cast<AllocaInst>(I); x.k = {DL->getTypeAllocSize(A.getAllocatedType())}; x.a = {op(A.getArraySize())}; x.w2 = widthOf(A.getArraySize()->getType()); break; }
        case Instruction::GetElementPtr: { auto& G = cast<GetElementPtrInst>(I); x.a = {op(G.getPointerOperand())}; int64_t c = 0; for (auto it = gep_type_begin(G); it != gep_type_end(G); ++it) { if (auto* S = it.getStructTypeOrNull()) c += DL->getStructLayout(S)->getElementOffset(cast<ConstantInt>(it.getOperand())->getZExtValue()); else { uint64_t es = it.getSequentialElementStride(*DL); if (auto* C = dyn_cast<ConstantInt>(it.getOperand())) c += C->getSExtValue() * (int64_t)es; else { x.a.push_back(op(it.getOperand())); x.k.push_back(es); x.kw.push_back(widthOf(it.getOperand()->getType())); } } } x.k.push_back((uint64_t)c); break; }
        case Instruction::Br: { auto& B = cast<BranchInst>(I); if (B.isConditional()) { x.a = {op(B.getCondition())}; x.e = {edge(&*B.getParent(), B.getSuccessor(0)), edge(&*B.getParent(), B.getSuccessor(1))}; } else x.e = {edge(B.getParent(), B.getSuccessor(0))}; break; }
        case Instruction::Switch: { auto& S = cast<SwitchInst>(I); x.a = {op(S.getCondition())}; x.w2 = widthOf(S.getCondition()->getType()); x.e.push_back(edge(S.getParent(), S.getDefaultDest())); for (auto& c : S.cases()) { x.k.push_back(c.getCaseValue()->getZExtValue()); x.e.push_back(edge(S.getParent(), c.getCaseSuccessor())); } break; }
        case Instruction::Ret: { if (I.getNumOperands()) { unsigned n = slots(I.getOperand(0)->getType()); for (unsigned s = 0; s < n; s++) x.a.push_back(op(I.getOperand(0), s)); } break; }
        case Instruction::Call: case Instruction::Invoke: {
            auto& C = cast<CallBase>(I); if (C.isInlineAsm()) { x.op = I_ + 2; for (unsigned i = 0; i < C.arg_size(); i++) x.a.push_back(op(C.getArgOperand(i))); break; }
            Function* G = C.getCalledFunction(); if (!G) if (auto* A = dyn_cast<GlobalAlias>(C.getCalledOperand()->stripPointerCasts())) G = dyn_cast<Function>(A->getAliaseeObject());
            if (G) { x.callee = g_fns[G]; if (G->isIntrinsic()) { x.sub = G->getIntrinsicID(); x.builtin = -2; } else if (x.callee->builtin >= 0) x.builtin = x.callee->builtin; } else x.a.push_back(op(C.getCalledOperand()));
            for (unsigned i = 0; i < C.arg_size(); i++) { Value* A = C.getArgOperand(i); if (A->getType()->isMetadataTy()) { x.a.push_back({-1, VC(0)}); x.kw.push_back(0); continue; } unsigned n = slots(A->getType()); for (unsigned s = 0; s < n; s++) { x.a.push_back(op(A, s)); std::vector<std::pair<unsigned, uint64_t>> v; flat(A->getType(), 0, v); x.kw.push_back(v[s].first); x.k.push_back(C.isByValArgument(i) ? (uint64_t)DL->getTypeAllocSize(C.getParamByValType(i)) : 0); } }
            if (auto* Iv = dyn_cast<InvokeInst>(&I)) x.e = {edge(Iv->getParent(), Iv->getNormalDest()), edge(Iv->getParent(), Iv->getUnwindDest())};
            break; }
        case Instruction::ExtractValue: case Instruction::InsertValue: {
            auto offOf = [&](Type* A, ArrayRef<unsigned> idx) { unsigned o = 0; for (unsigned i : idx) { if (auto* S = dyn_cast<StructType>(A)) { for (unsigned j = 0; j < i; j++) o += slots(S->getElementType(j)); A = S->getElementType(i); } else { auto* Ar = cast<ArrayType>(A); o += i * slots(Ar->getElementType()); A = Ar->getElementType(); } } return o; };
            if (auto* E_ = dyn_cast<ExtractValueInst>(&I)) { unsigned o = offOf(E_->getAggregateOperand()->getType(), E_->getIndices()); for (unsigned s = 0; s < x.ns; s++) x.a.push_back(op(E_->getAggregateOperand(), o + s)); }
            else { auto& V_ = cast<InsertValueInst>(I); unsigned o = offOf(V_.getType(), V_.getIndices()), n = slots(V_.getInsertedValueOperand()->getType()); for (unsigned s = 0; s < x.ns; s++) x.a.push_back(s >= o && s < o + n ? op(V_.getInsertedValueOperand(), s - o) : op(V_.getAggregateOperand(), s)); }
            x.op = Instruction::ExtractValue; break; }
        case Instruction::Select: { x.a = {op(I.getOperand(0))}; std::vector<std::pair<unsigned, uint64_t>> v; flat(T, 0, v); for (unsigned s = 0; s < x.ns; s++) { x.a.push_back(op(I.getOperand(1), s)); x.a.push_back(op(I.getOperand(2), s)); x.kw.push_back(v[s].first); } break; }
        case Instruction::LandingPad: break;
        case Instruction::Freeze: { for (unsigned s = 0; s < x.ns; s++) x.a.push_back(op(I.getOperand(0), s)); x.op = Instruction::ExtractValue; break; }
        case Instruction::ICmp: case Instruction::FCmp: x.sub = cast<CmpInst>(I).getPredicate(); x.w2 = widthOf(I.getOperand(0)->getType()); x.a = {op(I.getOperand(0)), op(I.getOperand(1))}; break;
        case Instruction::Resume: x.a = {op(I.getOperand(0), 0)}; break;
        case Instruction::Unreachable: break;
        default:
            for (unsigned i = 0; i < I.getNumOperands(); i++) x.a.push_back(op(I.getOperand(i)));
            if (I.getNumOperands()) x.w2 = widthOf(I.getOperand(0)->getType());
            break;
        }
        out.push_back(std::move(x));
    }
};
static void translate(Fn* f) { if (!f->translated) { Tr t{*f, {}}; t.run(); } }

// ---------------------------------------------------------------- states
static std::vector<State*> g_work; static std::vector<State*>* g_cur = &g_work;
static State* cloneState(const State& s) { State* n = new State(s); for (Obj* o : n->mem) o->rc++; pcRef(n->pc); return n; }
static void freeObj(Obj* o) { if (--o->rc == 0) delete o; }
static void killState(State* s) { for (Obj* o : s->mem) freeObj(o); pcUnref(s->pc); delete s; }
static void addPC1(State& s, E e) { if (e->isConst()) return; if (e->k == K_AND && e->w == 1) { addPC1(s, e->kid[0]); addPC1(s, e->kid[1]); return; }
    for (PC* p = s.pc; p; p = p->parent) if (p->e == e) return;
    PC* n = new PC{e, s.pc, s.pc ? s.pc->depth + 1 : 1, 1}; s.pc = n; }
static int known(State& s, E e) { E n = mkNot(e); for (PC* p = s.pc; p; p = p->parent) { if (p->e == e) return 1; if (p->e == n) return 0; } for (E i : s.implied) { if (i == e) return 1; if (i == n) return 0; } return -1; }
// e simplified with the equalities of the path condition
static E under(State& s, E e) { std::unordered_map<E, E> m; std::vector<PC*> ps; for (PC* p = s.pc; p; p = p->parent) ps.push_back(p); for (size_t i = ps.size(); i-- > 0;) factSubst(ps[i]->e, m); for (int r = 0; r < 4; r++) { std::unordered_map<E, E> t = m; E n = substE(e, t); if (n == e) break; e = n; } return e; }
static inline u128 evalM(State& s, E e) { return evalExpr(e, s.model); }
static std::string where(State& s) {
    std::string r; int cnt = 0; for (size_t i = s.st.size(); i-- > 0 && cnt < 8;) { Frame& f = s.st[i]; auto& ins = f.f->blk[f.bb].ins[f.ip]; const DILocation* d = ins.I->getDebugLoc(); bool any = false; for (; d && cnt < 8; d = d->getInlinedAt()) { StringRef fn = d->getFilename(); if (fn.contains("/sources/") || fn.contains("harness")) { r += (r.empty() ? "" : " < ") + fn.substr(fn.rfind('/') + 1).str() + ":" + std::to_string(d->getLine()); cnt++; any = true; } } if (!any && i + 1 == s.st.size()) r = "[" + demangle(f.f->name).substr(0, 80) + "]"; }
    return r;
}
static std::vector<std::pair<std::string, long>> inputsOf(State& s, const std::vector<uint64_t>& m) { std::vector<std::pair<std::string, long>> r; for (auto& n : s.inputs) r.push_back({n.name, (long)(n.v.e ? (uint64_t)evalExpr(n.v.e, m) : n.v.c)}); return r; }
static void report(State& s, const char* kind, const std::string& msg, const std::vector<uint64_t>& model) {
    if (s.merging) return;
    if (g_partN > 1 && s.forks < g_partD && (s.hash % g_partN) != g_partI) return;
    if (!strcmp(kind, "engine")) { g_st.limited++; g_limits.insert(msg); }
    std::string w = where(s); std::string key = std::string(kind) + "|" + msg + "|" + w.substr(0, w.find(" < ")); unsigned n = g_errCount[key]++;
    if (n >= 4 || g_errors.size() >= g_maxErrors * 8) return;
    g_errors.push_back({kind, msg, w, inputsOf(s, model)});
    if (g_trace) { fprintf(stderr, "ERROR %s: %s at %s\n", kind, msg.c_str(), w.c_str()); for (auto& p : g_errors.back().inputs) fprintf(stderr, "   %s=%ld", p.first.c_str(), p.second); fprintf(stderr, "\n"); }
}
struct Dead {};   // the current state is finished
static void mixHash(State& s, uint64_t v) { s.hash = (s.hash ^ v) * 1099511628211ull; s.hash ^= s.hash >> 29; }
static bool partKeep(State& s) { return g_partN <= 1 || s.merging || s.forks != g_partD || (s.hash % g_partN) == g_partI; }
static bool detPhase(State& s) { return g_partN > 1 && s.forks < g_partD && !s.merging; }
static void didFork(State& s, uint64_t v) { if (s.merging) return; if (s.forks < g_partD) { mixHash(s, v); s.forks++; if (!partKeep(s)) throw Dead(); } else s.forks++; }
static void pushState(State* n, uint64_t v) { g_st.forks++; try { didFork(*n, v); } catch (Dead&) { killState(n); return; } g_cur->push_back(n); }
static Sat query(State& s, E extra, std::vector<uint64_t>& m) { Sat r = solverCheck(s.pc, extra, m); if (r == Sat::Unknown) { g_st.inconclusive++; g_limits.insert("solver timeout at " + where(s)); } return r; }
// Which way does cond go?  Both feasible: the other side is queued and re-executes the instruction.
static bool decide(State& s, E cond) {
    if (cond->isConst()) return cond->c != 0;
    int k = known(s, cond); if (k >= 0) return k;
    bool v = evalM(s, cond) != 0; E alt = v ? mkNot(cond) : cond; std::vector<uint64_t> m = s.model;
    Sat r = query(s, alt, m);
    if (r == Sat::Yes) { State* n = cloneState(s); addPC1(*n, alt); n->model = m; addPC1(s, v ? cond : mkNot(cond)); pushState(n, !v); didFork(s, v); }
    else s.implied.push_back(v ? cond : mkNot(cond));
    return v;
}
static uint64_t minFeasible(State& s, E e) { // deterministic choice used while partitioning
    std::vector<uint64_t> m = s.model; uint64_t hi = (uint64_t)evalM(s, e), lo = (uint64_t)e->ulo;
    while (lo < hi) { uint64_t mid = lo + (hi - lo) / 2; E c = mkUle(e, mkConst(mid, e->w)); if (c->isConst() ? c->c : query(s, c, m) == Sat::Yes) { if (!c->isConst()) hi = (uint64_t)evalExpr(e, m); else hi = mid; if (hi > mid) hi = mid; } else lo = mid + 1; }
    return lo;
}
static uint64_t concretize(State& s, V v, unsigned w) {
    if (!v.e) return v.c; E e = v.e;
    for (auto& p : s.eqs) if (p.first == e) return p.second;
    uint64_t x; std::vector<uint64_t> m = s.model;
    if (detPhase(s)) { x = minFeasible(s, e); if ((uint64_t)evalM(s, e) != x) { std::vector<uint64_t> m2 = s.model; E q = mkEq(e, mkConst(x, w)); if (query(s, q, m2) != Sat::Yes) throw Dead(); s.model = m2; m = m2; } }
    else x = (uint64_t)evalM(s, e);
    E eq = mkEq(e, mkConst(x, w)); if (eq->isConst()) return x;
    Sat r = query(s, mkNot(eq), m);
    if (r == Sat::Yes) { g_st.modelForks++; State* n = cloneState(s); addPC1(*n, mkNot(eq)); n->model = m; addPC1(s, eq); s.eqs.push_back({e, x}); pushState(n, 0x1234567); didFork(s, x); }
    else s.eqs.push_back({e, x});
    return x;
}

// ---------------------------------------------------------------- memory
static Obj* findIn(const std::vector<Obj*>& v, uint64_t a, size_t* pos = nullptr) { size_t lo = 0, hi = v.size(); while (lo < hi) { size_t m = (lo + hi) / 2; if (v[m]->base <= a) lo = m + 1; else hi = m; } if (!lo) return nullptr; Obj* o = v[lo - 1]; if (a - o->base > o->size) return nullptr; if (pos) *pos = lo - 1; return o; }
static Obj* findObj(State& s, uint64_t a) { if (Obj* o = findIn(s.mem, a)) return o; return findIn(g_globals, a); }
static Obj* writable(State& s, Obj* o) {
    if (s.merging && o->base < s.mergeBase) throw std::string("write in merged call");
    if (o->kind == 0) { size_t p; if (Obj* x = findIn(s.mem, o->base, &p)) { if (x->base == o->base) { if (x->rc > 1) { Obj* n = new Obj(*x); n->rc = 1; freeObj(x); s.mem[p] = n; return n; } return x; } }
        Obj* n = new Obj(*o); n->rc = 1; auto it = std::lower_bound(s.mem.begin(), s.mem.end(), n->base, [](Obj* a, uint64_t b) { return a->base < b; }); s.mem.insert(it, n); return n; }
    if (o->rc > 1) { size_t p; Obj* x = findIn(s.mem, o->base, &p); Obj* n = new Obj(*x); n->rc = 1; freeObj(x); s.mem[p] = n; return n; }
    return o;
}
static uint64_t newObj(State& s, uint64_t size, uint8_t kind, uint8_t how = 0) {
    Obj* o = new Obj; o->base = s.next; o->size = size; o->kind = kind; o->how = how; o->b.assign(size, 0); if (size) o->s.assign(size, UNINIT); s.next += (size + 0x1000000000ull + 0xffffffull) & ~0xffffffull; s.mem.push_back(o); return o->base;
}
[[noreturn]] static void err(State& s, const char* kind, const std::string& msg) { if (s.merging) throw std::string("error in merged call"); report(s, kind, msg, s.model); throw Dead(); }
static void delObj(State& s, uint64_t a, int how) {
    if (!a) return; size_t p; Obj* o = findIn(s.mem, a, &p); if (!o || o->base != a || o->kind != 2) err(s, "memory", "free of an invalid or already freed pointer");
    if (o->how != how) err(s, "memory", "mismatched deallocation");
    if (s.merging && o->base < s.mergeBase) throw std::string("free in merged call");
    freeObj(o); s.mem.erase(s.mem.begin() + p);
}
static std::string objDesc(Obj* o) { static const char* n[] = {"global", "stack", "heap", "exception"}; return std::string(n[o->kind]) + " object of " + std::to_string(o->size) + " bytes"; }
static V loadObj(State& s, Obj* o, uint64_t off, unsigned w) {
    unsigned n = (w + 7) / 8;
    if (o->s.empty()) { if (w > 64) { u128 x = 0; for (unsigned i = 0; i < n; i++) x |= (u128)o->b[off + i] << (8 * i); return V{0, mkConst(x, w)}; } uint64_t x = 0; memcpy(&x, &o->b[off], n); return VC(x & mask64(w)); }
    bool any = false, un = false; for (unsigned i = 0; i < n; i++) { E e = o->s[off + i]; if (e) { any = true; if (e == UNINIT) un = true; } }
    if (!any) { if (w > 64) { u128 x = 0; for (unsigned i = 0; i < n; i++) x |= (u128)o->b[off + i] << (8 * i); return V{0, mkConst(x, w)}; } uint64_t x = 0; memcpy(&x, &o->b[off], n); return VC(x & mask64(w)); }
    E r = nullptr;
    { E e = o->s[off]; if (n > 1 && e && e != UNINIT && e->k == K_EXTRACT && e->w == 8 && e->kid[0]->w >= e->c + 8 * n) { bool all = true; for (unsigned i = 1; i < n && all; i++) { E f = o->s[off + i]; all = f && f != UNINIT && f->k == K_EXTRACT && f->w == 8 && f->kid[0] == e->kid[0] && f->c == e->c + 8 * i; } if (all) { r = mkExtract(e->kid[0], (unsigned)e->c, w); return w > 64 ? V{0, r} : L(r); } } }
    for (unsigned i = 0; i < n; i++) { E e = o->s[off + i]; if (e && e != UNINIT && e->k == K_EXTRACT && e->w == 8) e = mkExtract(e->kid[0], (unsigned)e->c, 8); if (e == UNINIT) { E u = mkVar("undef" + std::to_string(s.undef++), 8, 0, 255, true); g_st.undefReads++; e = u; while (s.model.size() <= (size_t)u->c) s.model.push_back(0); Obj* wo = s.merging && o->base < s.mergeBase ? nullptr : writable(s, o); if (wo) { wo->s[off + i] = u; o = wo; } } else if (!e) e = mkConst(o->b[off + i], 8); r = r ? mkConcat(e, r) : e; }
    (void)un; if (r->w > w) r = mkExtract(r, 0, w); if (w > 64) return V{0, r}; return L(r);
}
static void storeObj(Obj* o, uint64_t off, V v, unsigned w) {
    unsigned n = (w + 7) / 8;
    if (!v.e || v.e->isConst()) { u128 x = v.e ? v.e->c : (u128)v.c; for (unsigned i = 0; i < n; i++) o->b[off + i] = (uint8_t)(x >> (8 * i)); if (!o->s.empty()) for (unsigned i = 0; i < n; i++) o->s[off + i] = nullptr; return; }
    E e = v.e; if (e->w < n * 8) e = mkZExt(e, n * 8); if (o->s.empty()) o->s.assign(o->size, nullptr);
    // kept as plain byte extracts of the whole value, so that a later load of the whole value finds it again
    if (n > 1 && e->uhi > 0xffff && (e->k == K_SUM || e->k == K_ITE || e->k == K_TAB || e->k == K_SREM || e->k == K_SDIV || e->k == K_SEXT)) { for (unsigned i = 0; i < n; i++) o->s[off + i] = mkRawExtract(e, 8 * i, 8); return; }
    for (unsigned i = 0; i < n; i++) { E x = mkExtract(e, 8 * i, 8); if (x->isConst()) { o->b[off + i] = (uint8_t)x->c; o->s[off + i] = nullptr; } else o->s[off + i] = x; }
}
static Obj* access(State& s, uint64_t a, uint64_t n, bool write) {
    Obj* o = findObj(s, a);
    if (!o) err(s, "memory", std::string(write ? "write" : "read") + (a < 4096 ? " through a null pointer" : " outside every live object (freed, wild or far out of bounds)"));
    if (n > o->size || a - o->base > o->size - n) err(s, "memory", std::string(write ? "write" : "read") + " past the end of a " + objDesc(o));
    if (write) { if (o->ro) err(s, "memory", "write to constant memory"); return writable(s, o); }
    return o;
}
// candidates for a symbolic address; forks so that afterwards the address stays inside one object
struct Cand { uint64_t a; E cond; };
static bool linear(E a, uint64_t& c0, uint64_t& g) { if (a->k != K_SUM) { c0 = 0; g = 1; return false; } c0 = (uint64_t)a->c; i128 G = 0; for (unsigned i = 0; i < a->n; i++) { i128 x = sxt(a->coef[i], 64); if (x < 0) x = -x; while (x) { i128 t = G % x; G = x; x = t; } } if (!a->nsw) G &= -G; g = G > 0 && G < ((i128)1 << 40) ? (uint64_t)G : 1; return true; } // a sum that may wrap keeps only residues modulo powers of two
static void resolve(State& s, E a, uint64_t n, bool write, Obj*& o, uint64_t& lo, uint64_t& hi, uint64_t& step) {
    o = nullptr; if (a->uhi - a->ulo < ((u128)1 << 32)) { o = findObj(s, (uint64_t)a->ulo); if (o && (uint64_t)a->uhi + n > o->base + o->size) o = nullptr; }
    uint64_t c0, g; linear(a, c0, g);
    if (o) { lo = (uint64_t)a->ulo; hi = (uint64_t)a->uhi; }
    else {
        uint64_t m = detPhase(s) ? minFeasible(s, a) : (uint64_t)evalM(s, a); o = findObj(s, m);
        E in = nullptr;
        if (o && m + n <= o->base + o->size) { E x = mkSub(a, mkConst(o->base, 64)); in = mkUle(x, mkConst(o->size - n, 64)); }
        else { // the model leads outside: report it, then continue with the addresses inside (if any)
            if (s.merging) throw std::string("error in merged call");
            std::vector<uint64_t> mm = s.model; if (detPhase(s)) query(s, mkEq(a, mkConst(m, 64)), mm);
            report(s, "memory", std::string(write ? "write" : "read") + (o ? " past the end of a " + objDesc(o) : std::string(" outside every live object (out of bounds, freed or null)")), mm);
            // an object the address can refer to: by the constant part
            Obj* b = findObj(s, c0); if (!b) throw Dead(); o = b; in = mkUle(mkSub(a, mkConst(o->base, 64)), mkConst(o->size >= n ? o->size - n : 0, 64));
            std::vector<uint64_t> m2 = s.model; if (query(s, in, m2) != Sat::Yes) throw Dead(); s.model = m2; addPC1(s, in); }
        if (!in->isConst()) { int k = known(s, in); if (k < 0) { std::vector<uint64_t> m2 = s.model; if (detPhase(s) && !evalM(s, in)) { std::vector<uint64_t> m3 = s.model; if (query(s, in, m3) == Sat::Yes) s.model = m3; } E out = mkNot(in); Sat r = query(s, out, m2); if (r == Sat::Yes) { State* nn = cloneState(s); addPC1(*nn, out); nn->model = m2; addPC1(s, in); pushState(nn, 0x777); didFork(s, 0x778); } else s.implied.push_back(in); } }
        u128 l = std::max<u128>(a->ulo, o->base), h = std::min<u128>(a->uhi, o->base + o->size - n); lo = (uint64_t)l; hi = (uint64_t)h;
    }
    if (g > 1) { auto res = [&](uint64_t x) { i128 d = ((i128)x - (int64_t)c0) % (i128)g; return (uint64_t)(d < 0 ? d + g : d); }; uint64_t r = res(lo); if (r) lo += g - r; hi -= res(hi); }
    step = g;
}
static V loadSym(State& s, E a, unsigned w, bool isPtr) {
    unsigned n = (w + 7) / 8; if (isPtr) { uint64_t c = concretize(s, V{0, a}, 64); Obj* o = access(s, c, n, false); return loadObj(s, o, c - o->base, w); }
    // few address values (e.g. a choice between two objects)
    if (a->k == K_SUM && a->n == 1 && a->kid[0]->w == 64) { E t = a->kid[0]; if (t->uhi - t->ulo <= 3 && sxt(a->coef[0], 64) != 1) { E r = nullptr; bool ok = true; std::vector<std::pair<uint64_t, E>> cs; for (u128 v = t->ulo; v <= t->uhi; v++) { uint64_t ad = (uint64_t)(a->c + a->coef[0] * v); Obj* o = findObj(s, ad); if (!o || ad + n > o->base + o->size) { ok = false; break; } cs.push_back({ad, mkEq(t, mkConst(v, 64))}); }
            if (ok) { for (auto& c : cs) { Obj* o = findObj(s, c.first); V x = loadObj(s, o, c.first - o->base, w); r = r ? mkIte(c.second, X(x, w), r) : X(x, w); } return w > 64 ? V{0, r} : L(r); } } }
    if (a->k == K_ITE) { std::vector<std::pair<E, uint64_t>> leaves; bool ok = true; std::vector<E> conds; std::function<E(E, int)> rec = [&](E x, int d) -> E { if (!ok) return nullptr; if (x->isConst()) { Obj* o = findObj(s, (uint64_t)x->c); if (!o || (uint64_t)x->c + n > o->base + o->size) { ok = false; return nullptr; } V v = loadObj(s, o, (uint64_t)x->c - o->base, w); return X(v, w); } if (x->k == K_ITE && d < 6) { E p = rec(x->kid[1], d + 1), q = rec(x->kid[2], d + 1); return ok ? mkIte(x->kid[0], p, q) : nullptr; } ok = false; return nullptr; }; E r = rec(a, 0); if (ok) return w > 64 ? V{0, r} : L(r); }
    Obj* o; uint64_t lo, hi, st; resolve(s, a, n, false, o, lo, hi, st);
    uint64_t cnt = lo > hi ? 0 : (hi - lo) / st + 1; if (!cnt) throw Dead();
    if (cnt > 1024) { uint64_t c = concretize(s, V{0, a}, 64); Obj* o2 = access(s, c, n, false); return loadObj(s, o2, c - o2->base, w); }
    bool conc = w <= 64; if (conc && !o->s.empty()) for (uint64_t x = lo; x <= hi && conc; x += st) for (unsigned i = 0; i < n; i++) if (o->s[x - o->base + i]) { conc = false; break; }
    E d = mkSub(a, mkConst(lo, 64)); E idx = d; if (st > 1) { idx = mkUDiv(d, mkConst(st, 64)); }
    if (conc) {
        std::vector<uint64_t> v; for (uint64_t x = lo; x <= hi; x += st) v.push_back(loadObj(s, o, x - o->base, w).c);
        if (idx->slo >= 0 && idx->shi < (i128)cnt) return L(mkTab(idx, 0, v, w));
        // the range analysis does not know the bound: clamp through the path condition, values outside are irrelevant
        E r = mkConst(v[0], w); for (size_t i = 1; i < v.size(); i++) if (v[i] != v[0]) r = mkIte(mkEq(idx, mkConst(i, 64)), mkConst(v[i], w), r); return L(r);
    }
    if (cnt > 64) { uint64_t c = concretize(s, V{0, a}, 64); Obj* o2 = access(s, c, n, false); return loadObj(s, o2, c - o2->base, w); }
    E r = nullptr; for (uint64_t i = 0; i < cnt; i++) { uint64_t x = lo + i * st; o = findObj(s, x); V v = loadObj(s, o, x - o->base, w); E e = X(v, w); r = r ? mkIte(mkEq(idx, mkConst(i, 64)), e, r) : e; }
    return w > 64 ? V{0, r} : L(r);
}
static void storeSym(State& s, E a, V v, unsigned w, bool isPtr) {
    unsigned n = (w + 7) / 8; bool conc = isPtr; Obj* o; uint64_t lo, hi, st = 1, cnt = 0;
    if (!conc) { resolve(s, a, n, true, o, lo, hi, st); cnt = lo > hi ? 0 : (hi - lo) / st + 1; if (!cnt) throw Dead(); if (cnt > 48 || w > 64 || st % n) conc = true; if (!conc && !o->s.empty()) for (uint64_t x = lo; x <= hi && !conc; x += st) for (unsigned i = 0; i < n; i++) if (o->s[x - o->base + i] == UNINIT) conc = true; }
    if (conc) { uint64_t c = concretize(s, V{0, a}, 64); Obj* o2 = access(s, c, n, true); storeObj(o2, c - o2->base, v, w); return; }
    o = access(s, lo, n, true); E d = mkSub(a, mkConst(lo, 64)); E idx = st > 1 ? mkUDiv(d, mkConst(st, 64)) : d;
    for (uint64_t i = 0; i < cnt; i++) { uint64_t off = lo + i * st - o->base; V old = loadObj(s, o, off, w); E e = mkIte(mkEq(idx, mkConst(i, 64)), X(v, w), X(old, w)); storeObj(o, off, L(e), w); }
}
static V load(State& s, V a, unsigned w, bool isPtr) { if (a.e) return loadSym(s, a.e, w, isPtr); Obj* o = access(s, a.c, (w + 7) / 8, false); return loadObj(s, o, a.c - o->base, w); }
static void store(State& s, V a, V v, unsigned w, bool isPtr) { if (a.e) { storeSym(s, a.e, v, w, isPtr); return; } Obj* o = access(s, a.c, (w + 7) / 8, true); storeObj(o, a.c - o->base, v, w); }
static std::string cstr(State& s, uint64_t a) { std::string r; for (;;) { Obj* o = access(s, a, 1, false); V v = loadObj(s, o, a - o->base, 8); if (v.e) err(s, "engine", "symbolic string given to a host function"); if (!v.c) return r; r += (char)v.c; a++; if (r.size() > 4096) return r; } }
static void memCopy(State& s, uint64_t d, uint64_t c, uint64_t n, bool move) {
    if (!n) return; Obj* so = access(s, c, n, false); std::vector<uint8_t> b(so->b.begin() + (c - so->base), so->b.begin() + (c - so->base) + n); std::vector<E> e; if (!so->s.empty()) e.assign(so->s.begin() + (c - so->base), so->s.begin() + (c - so->base) + n);
    if (!move && d != c && d < c + n && c < d + n) err(s, "memory", "memcpy between overlapping ranges");
    Obj* o = access(s, d, n, true); uint64_t off = d - o->base; memcpy(&o->b[off], b.data(), n);
    if (!e.empty()) { if (o->s.empty()) { bool any = false; for (E x : e) if (x) any = true; if (any) o->s.assign(o->size, nullptr); } if (!o->s.empty()) std::copy(e.begin(), e.end(), o->s.begin() + off); } else if (!o->s.empty()) std::fill(o->s.begin() + off, o->s.begin() + off + n, nullptr);
}
static void memSet(State& s, uint64_t d, V v, uint64_t n) {
    if (!n) return; Obj* o = access(s, d, n, true); uint64_t off = d - o->base; if (v.e) { E x = v.e->w > 8 ? mkExtract(v.e, 0, 8) : v.e; for (uint64_t i = 0; i < n; i++) storeObj(o, off + i, L(x), 8); return; }
    memset(&o->b[off], (int)(v.c & 255), n); if (!o->s.empty()) std::fill(o->s.begin() + off, o->s.begin() + off + n, nullptr);
}

// ---------------------------------------------------------------- values
static inline V get(Frame& f, const Opd& o) { return o.reg >= 0 ? f.r[o.reg] : o.c; }
static inline void set(Frame& f, const Ins& i, V v) { f.r[i.dst] = v; }
static inline V norm(E e) { return e->w > 64 ? V{0, e} : L(e); }
static V binop(State& s, unsigned op, unsigned w, V a, V b) {
    if (!a.e && !b.e) {
        uint64_t m = mask64(w), x = a.c, y = b.c; int64_t sx = (int64_t)(x << (64 - w)) >> (64 - w), sy = (int64_t)(y << (64 - w)) >> (64 - w);
        switch (op) {
        case Instruction::Add: return VC((x + y) & m); case Instruction::Sub: return VC((x - y) & m); case Instruction::Mul: return VC((x * y) & m);
        case Instruction::And: return VC(x & y); case Instruction::Or: return VC(x | y); case Instruction::Xor: return VC(x ^ y);
        case Instruction::Shl: return VC(y >= w ? 0 : (x << y) & m); case Instruction::LShr: return VC(y >= w ? 0 : x >> y); case Instruction::AShr: return VC((uint64_t)(sx >> (y >= w ? w - 1 : y)) & m);
        case Instruction::UDiv: case Instruction::URem: if (!y) err(s, "arith", "integer division by zero"); return VC(op == Instruction::UDiv ? x / y : x % y);
        case Instruction::SDiv: case Instruction::SRem: if (!y) err(s, "arith", "integer division by zero"); if (sy == -1) { if (x == (1ull << (w - 1))) err(s, "arith", "signed division overflow"); return VC(op == Instruction::SDiv ? (0 - x) & m : 0); } return VC((uint64_t)(op == Instruction::SDiv ? sx / sy : sx % sy) & m);
        }
    }
    E x = X(a, w), y = X(b, w);
    if (op == Instruction::UDiv || op == Instruction::URem || op == Instruction::SDiv || op == Instruction::SRem) {
        if (y->isConst() && !y->c) err(s, "arith", "integer division by zero");
        if (!y->isConst() && y->ulo == 0) { E z = mkEq(y, mkConst(0, w)); if (decide(s, z)) err(s, "arith", "integer division by zero"); }
        if (op == Instruction::SDiv || op == Instruction::SRem) { i128 mn = -((i128)1 << (w - 1)); if (x->slo == mn && y->slo <= -1 && y->shi >= -1) { E z = mkAnd(mkEq(x, mkConst((u128)mn, w)), mkEq(y, mkConst(maskw(w), w))); if (decide(s, z)) err(s, "arith", "signed division overflow"); } }
    }
    switch (op) {
    case Instruction::Add: return norm(mkAdd(x, y)); case Instruction::Sub: return norm(mkSub(x, y)); case Instruction::Mul: return norm(mkMul(x, y));
    case Instruction::And: return norm(mkAnd(x, y)); case Instruction::Or: return norm(mkOr(x, y)); case Instruction::Xor: return norm(mkXor(x, y));
    case Instruction::Shl: return norm(mkShl(x, y)); case Instruction::LShr: return norm(mkLShr(x, y)); case Instruction::AShr: return norm(mkAShr(x, y));
    case Instruction::UDiv: return norm(mkUDiv(x, y)); case Instruction::URem: return norm(mkURem(x, y)); case Instruction::SDiv: return norm(mkSDiv(x, y)); case Instruction::SRem: return norm(mkSRem(x, y));
    }
    fatal("binop");
}
static V icmp(unsigned pred, unsigned w, V a, V b) {
    if (!a.e && !b.e) { uint64_t x = a.c, y = b.c; int64_t sx = (int64_t)(x << (64 - w)) >> (64 - w), sy = (int64_t)(y << (64 - w)) >> (64 - w);
        switch (pred) { case CmpInst::ICMP_EQ: return VC(x == y); case CmpInst::ICMP_NE: return VC(x != y); case CmpInst::ICMP_UGT: return VC(x > y); case CmpInst::ICMP_UGE: return VC(x >= y); case CmpInst::ICMP_ULT: return VC(x < y); case CmpInst::ICMP_ULE: return VC(x <= y); case CmpInst::ICMP_SGT: return VC(sx > sy); case CmpInst::ICMP_SGE: return VC(sx >= sy); case CmpInst::ICMP_SLT: return VC(sx < sy); default: return VC(sx <= sy); } }
    E x = X(a, w), y = X(b, w);
    switch (pred) { case CmpInst::ICMP_EQ: return L(mkEq(x, y)); case CmpInst::ICMP_NE: return L(mkNot(mkEq(x, y))); case CmpInst::ICMP_UGT: return L(mkUlt(y, x)); case CmpInst::ICMP_UGE: return L(mkUle(y, x)); case CmpInst::ICMP_ULT: return L(mkUlt(x, y)); case CmpInst::ICMP_ULE: return L(mkUle(x, y)); case CmpInst::ICMP_SGT: return L(mkSlt(y, x)); case CmpInst::ICMP_SGE: return L(mkSle(y, x)); case CmpInst::ICMP_SLT: return L(mkSlt(x, y)); default: return L(mkSle(x, y)); }
}
static V fcmp(unsigned pred, unsigned w, V a, V b) {
    E x = X(a, w), y = X(b, w); E nan = mkOr(mkFIsNan(x), mkFIsNan(y));
    auto eq = [&] { return mkFCmp(K_FEQ, x, y); }; auto lt = [&] { return mkFCmp(K_FLT, x, y); }; auto le = [&] { return mkFCmp(K_FLE, x, y); }; auto gt = [&] { return mkFCmp(K_FLT, y, x); }; auto ge = [&] { return mkFCmp(K_FLE, y, x); };
    switch (pred) {
    case CmpInst::FCMP_FALSE: return VC(0); case CmpInst::FCMP_TRUE: return VC(1);
    case CmpInst::FCMP_OEQ: return L(eq()); case CmpInst::FCMP_OGT: return L(gt()); case CmpInst::FCMP_OGE: return L(ge()); case CmpInst::FCMP_OLT: return L(lt()); case CmpInst::FCMP_OLE: return L(le()); case CmpInst::FCMP_ONE: return L(mkAnd(mkNot(nan), mkNot(eq())));
    case CmpInst::FCMP_ORD: return L(mkNot(nan)); case CmpInst::FCMP_UNO: return L(nan); case CmpInst::FCMP_UEQ: return L(mkOr(nan, eq())); case CmpInst::FCMP_UGT: return L(mkNot(le())); case CmpInst::FCMP_UGE: return L(mkNot(lt())); case CmpInst::FCMP_ULT: return L(mkNot(ge())); case CmpInst::FCMP_ULE: return L(mkNot(gt())); default: return L(mkNot(eq()));
    }
}

// ---------------------------------------------------------------- exceptions
static std::map<std::string, std::string> g_tiBase = {{"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"}, {"_ZTISt17bad_function_call", "_ZTISt9exception"}, {"_ZTISt8bad_cast", "_ZTISt9exception"}, {"_ZTINSt8ios_base7failureB5cxx11E", "_ZTISt13runtime_error"}};
static bool tiMatches(uint64_t thrown, uint64_t want) {
    for (int d = 0; d < 10; d++) { if (thrown == want) return true; auto it = g_gvAt.find(thrown); if (it == g_gvAt.end()) return false; const GlobalVariable* G = it->second;
        if (G->hasInitializer()) { auto* S = dyn_cast<ConstantStruct>(G->getInitializer()); if (!S || S->getNumOperands() < 3) return false; thrown = constVal(S->getOperand(2)); }
        else { auto b = g_tiBase.find(G->getName().str()); if (b == g_tiBase.end()) return false; auto* B = M->getGlobalVariable(b->second, true); if (!B) return false; thrown = addrOf(B); } }
    return false;
}
static int selOf(uint64_t ti) { static std::map<uint64_t, int> m; auto it = m.find(ti); if (it != m.end()) return it->second; int v = m.size() + 1; m[ti] = v; return v; }
static std::string tiName(uint64_t ti) { auto it = g_gvAt.find(ti); return it == g_gvAt.end() ? "?" : demangle(it->second->getName().str()); }
static void popFrame(State& s) { Frame& f = s.st.back(); for (uint64_t a : f.allocas) { size_t p; Obj* o = findIn(s.mem, a, &p); if (o && o->base == a) { freeObj(o); s.mem.erase(s.mem.begin() + p); } } s.st.pop_back(); }
static void takeEdge(State& s, Fn* fn, int e) {
    Frame& f = s.st.back(); Edge& E_ = fn->edges[e]; if (E_.moves.size() == 1) f.r[E_.moves[0].first] = get(f, E_.moves[0].second); else if (!E_.moves.empty()) { static std::vector<V> t; t.clear(); for (auto& m : E_.moves) t.push_back(get(f, m.second)); for (size_t i = 0; i < t.size(); i++) f.r[E_.moves[i].first] = t[i]; }
    f.bb = E_.bb; f.ip = 0;
}
// s.st.back() is the frame of the call that throws
static void unwind(State& s, uint64_t exc, uint64_t ti, bool first) {
    if (s.merging) throw std::string("throw in merged call");
    int handler = -1; int sel = 0;
    for (size_t i = s.st.size(); i-- > 0 && handler < 0;) {
        Frame& f = s.st[i]; Ins& ins = f.f->blk[f.bb].ins[f.ip];
        if (ins.op == Instruction::Invoke) { auto* lp = cast<InvokeInst>(ins.I)->getLandingPadInst(); for (unsigned c = 0; c < lp->getNumClauses(); c++) { if (lp->isCatch(c)) { auto* C = lp->getClause(c); uint64_t t = C->isNullValue() ? 0 : constVal(C); if (!t || tiMatches(ti, t)) { handler = i; sel = selOf(t); break; } } else { handler = i; sel = -1; break; } } }
        if (handler < 0 && (f.f->F->doesNotThrow())) break;
    }
    if (handler < 0) { std::string what; err(s, "exception", "exception " + tiName(ti) + " is not caught (std::terminate)"); }
    while (true) { Frame& f = s.st.back(); Ins& ins = f.f->blk[f.bb].ins[f.ip]; int idx = s.st.size() - 1; if (ins.op == Instruction::Invoke) { auto* lp = cast<InvokeInst>(ins.I)->getLandingPadInst(); if (idx == handler || lp->isCleanup()) { s.pendingExc = exc; s.pendingSel = idx == handler ? sel : 0; takeEdge(s, f.f, ins.e[1]); return; } } if (idx == handler) fatal("unwind"); popFrame(s); }
}
static Exc* findExc(State& s, uint64_t a) { for (auto& e : s.excs) if (e.addr == a) return &e; return nullptr; }

#include "builtins.inc"

// ---------------------------------------------------------------- one instruction
static uint64_t g_fnDummy;
static bool tryMerge(State& s, Ins& I, Fn* callee, std::vector<V>& args);
static void enter(State& s, Fn* callee, std::vector<V>& args) {
    if (callee->F->isDeclaration()) err(s, "engine", "call of the unmodelled external function " + demangle(callee->name));
    translate(callee); if (s.st.size() > 400) err(s, "limit", "call depth above 400");
    callee->calls++; Frame f; f.f = callee; f.r.resize(callee->nregs, VC(0)); for (size_t i = 0; i < args.size() && i < callee->nargs; i++) f.r[i] = args[i]; for (size_t i = callee->nargs; i < args.size(); i++) f.va.push_back(args[i]);
    s.st.push_back(std::move(f));
}
static void advance(State& s) { Frame& f = s.st.back(); Ins& ins = f.f->blk[f.bb].ins[f.ip]; if (ins.op == Instruction::Invoke) takeEdge(s, f.f, ins.e[0]); else f.ip++; }
// returns true when the state ended normally (return from the outermost or merged frame); ret receives the value
static bool step(State& s, V& ret) {
    Frame& f = s.st.back(); Ins& I = f.f->blk[f.bb].ins[f.ip];
    switch (I.op) {
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
        set(f, I, binop(s, I.op, I.w, get(f, I.a[0]), get(f, I.a[1]))); f.ip++; return false;
    case Instruction::ICmp: set(f, I, icmp(I.sub, I.w2, get(f, I.a[0]), get(f, I.a[1]))); f.ip++; return false;
    case Instruction::FCmp: set(f, I, fcmp(I.sub, I.w2, get(f, I.a[0]), get(f, I.a[1]))); f.ip++; return false;
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: { Kind k = I.op == Instruction::FAdd ? K_FADD : I.op == Instruction::FSub ? K_FSUB : I.op == Instruction::FMul ? K_FMUL : K_FDIV; set(f, I, L(mkF2(k, X(get(f, I.a[0]), I.w), X(get(f, I.a[1]), I.w)))); f.ip++; return false; }
    case Instruction::FNeg: set(f, I, L(mkF1(K_FNEG, X(get(f, I.a[0]), I.w)))); f.ip++; return false;
    case Instruction::FRem: { V a = get(f, I.a[0]), b = get(f, I.a[1]); if (a.e || b.e) err(s, "engine", "symbolic frem"); double x, y; memcpy(&x, &a.c, 8); memcpy(&y, &b.c, 8); double r = std::fmod(x, y); uint64_t c; memcpy(&c, &r, 8); set(f, I, VC(c)); f.ip++; return false; }
    case Instruction::Trunc: { V a = get(f, I.a[0]); set(f, I, a.e ? norm(mkExtract(a.e, 0, I.w)) : VC(a.c & mask64(I.w))); f.ip++; return false; }
    case Instruction::ZExt: { V a = get(f, I.a[0]); set(f, I, a.e || I.w > 64 ? norm(mkZExt(X(a, I.w2), I.w)) : a); f.ip++; return false; }
    case Instruction::SExt: { V a = get(f, I.a[0]); if (a.e || I.w > 64) set(f, I, norm(mkSExt(X(a, I.w2), I.w))); else set(f, I, VC((uint64_t)((int64_t)(a.c << (64 - I.w2)) >> (64 - I.w2)) & mask64(I.w))); f.ip++; return false; }
    case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: { V a = get(f, I.a[0]); if (I.w < I.w2) a = a.e ? L(mkExtract(a.e, 0, I.w)) : VC(a.c & mask64(I.w)); else if (a.e && I.w > I.w2) a = L(mkZExt(a.e, I.w)); set(f, I, a); f.ip++; return false; }
    case Instruction::SIToFP: set(f, I, L(mkFConv(K_SI2F, X(get(f, I.a[0]), I.w2), I.w))); f.ip++; return false;
    case Instruction::UIToFP: set(f, I, L(mkFConv(K_UI2F, X(get(f, I.a[0]), I.w2), I.w))); f.ip++; return false;
    case Instruction::FPToSI: set(f, I, L(mkFConv(K_F2SI, X(get(f, I.a[0]), I.w2), I.w))); f.ip++; return false;
    case Instruction::FPToUI: set(f, I, L(mkFConv(K_F2UI, X(get(f, I.a[0]), I.w2), I.w))); f.ip++; return false;
    case Instruction::FPExt: if (I.w > 64) err(s, "engine", "long double"); set(f, I, L(mkFConv(K_FEXT, X(get(f, I.a[0]), I.w2), I.w))); f.ip++; return false;
    case Instruction::FPTrunc: if (I.w2 > 64) err(s, "engine", "long double"); set(f, I, L(mkFConv(K_FTRUNC, X(get(f, I.a[0]), I.w2), I.w))); f.ip++; return false;
    case Instruction::Select: { V c = get(f, I.a[0]); for (unsigned i = 0; i < I.ns; i++) { V a = get(f, I.a[1 + 2 * i]), b = get(f, I.a[2 + 2 * i]); f.r[I.dst + i] = c.e ? norm(mkIte(c.e, X(a, I.kw[i]), X(b, I.kw[i]))) : c.c ? a : b; } f.ip++; return false; }
    case Instruction::ExtractValue: for (unsigned i = 0; i < I.ns; i++) { static V t[64]; if (I.ns > 64) fatal("aggregate"); t[i] = get(f, I.a[i]); if (i + 1 == I.ns) for (unsigned j = 0; j < I.ns; j++) f.r[I.dst + j] = t[j]; } f.ip++; return false;
    case Instruction::GetElementPtr: {
        V p = get(f, I.a[0]); uint64_t c = I.k.back(); bool sym = p.e; for (size_t i = 1; i < I.a.size(); i++) if (get(f, I.a[i]).e) sym = true;
        if (!sym) { uint64_t x = p.c + c; for (size_t i = 1; i < I.a.size(); i++) { V v = get(f, I.a[i]); unsigned w = I.kw[i - 1]; int64_t sv = (int64_t)(v.c << (64 - w)) >> (64 - w); x += (uint64_t)sv * I.k[i - 1]; } set(f, I, VC(x)); }
        else { E x = mkAdd(X(p, 64), mkConst(c, 64)); for (size_t i = 1; i < I.a.size(); i++) { E v = X(get(f, I.a[i]), I.kw[i - 1]); if (v->w < 64) v = mkSExt(v, 64); else if (v->w > 64) v = mkExtract(v, 0, 64); x = mkAdd(x, mkScale(v, I.k[i - 1])); } set(f, I, L(x)); }
        f.ip++; return false; }
    case Instruction::Load: { V a = get(f, I.a[0]); if (I.kw.size() == 1) { V v = load(s, a, I.kw[0], I.sub); s.st.back().r[I.dst] = v; } else { if (a.e) a = VC(concretize(s, a, 64)); for (size_t i = 0; i < I.kw.size(); i++) f.r[I.dst + i] = load(s, VC(a.c + I.k[i]), I.kw[i], false); } f.ip++; return false; }
    case Instruction::Store: { V a = get(f, I.a[0]); if (I.kw.size() == 1) store(s, a, get(f, I.a[1]), I.kw[0], I.sub); else { if (a.e) a = VC(concretize(s, a, 64)); for (size_t i = 0; i < I.kw.size(); i++) store(s, VC(a.c + I.k[i]), get(f, I.a[1 + i]), I.kw[i], false); } f.ip++; return false; }
    case Instruction::Fence: f.ip++; return false;
    case Instruction::AtomicRMW: {  // one thread
        V a = get(f, I.a[0]), n = get(f, I.a[1]); V o = load(s, a, I.w, false); E x = X(o, I.w), y = X(n, I.w), r = nullptr;
        switch (I.sub) { case AtomicRMWInst::Add: r = mkAdd(x, y); break; case AtomicRMWInst::Sub: r = mkSub(x, y); break; case AtomicRMWInst::And: r = mkAnd(x, y); break; case AtomicRMWInst::Or: r = mkOr(x, y); break; case AtomicRMWInst::Xor: r = mkXor(x, y); break; case AtomicRMWInst::Xchg: r = y; break; default: err(s, "engine", "unsupported atomic operation"); }
        store(s, a, L(r), I.w, false); set(s.st.back(), I, o); s.st.back().ip++; return false; }
    case Instruction::AtomicCmpXchg: {
        V a = get(f, I.a[0]), c = get(f, I.a[1]), n = get(f, I.a[2]); V o = load(s, a, I.w2, I.sub); E q = mkEq(X(o, I.w2), X(c, I.w2));
        store(s, a, L(mkIte(q, X(n, I.w2), X(o, I.w2))), I.w2, I.sub); Frame& g = s.st.back(); g.r[I.dst] = o; g.r[I.dst + 1] = L(q); g.ip++; return false; }
    case Instruction::Alloca: { uint64_t n = concretize(s, get(f, I.a[0]), I.w2) * I.k[0]; uint64_t a = newObj(s, n, 1); f.allocas.push_back(a); set(f, I, VC(a)); f.ip++; return false; }
    case Instruction::Br: { if (I.a.empty()) { takeEdge(s, f.f, I.e[0]); return false; } V c = get(f, I.a[0]); bool t = c.e ? decide(s, c.e) : c.c; takeEdge(s, f.f, t ? I.e[0] : I.e[1]); return false; }
    case Instruction::Switch: { V c = get(f, I.a[0]); if (c.e) { for (size_t i = 0; i < I.k.size(); i++) { if (decide(s, mkEq(c.e, mkConst(I.k[i], I.w2)))) { takeEdge(s, f.f, I.e[i + 1]); return false; } } takeEdge(s, f.f, I.e[0]); return false; } for (size_t i = 0; i < I.k.size(); i++) if (I.k[i] == c.c) { takeEdge(s, f.f, I.e[i + 1]); return false; } takeEdge(s, f.f, I.e[0]); return false; }
    case Instruction::Ret: {
        V t[64]; unsigned n = I.a.size(); if (n > 64) fatal("ret"); for (unsigned i = 0; i < n; i++) t[i] = get(f, I.a[i]);
        if (n) ret = t[0]; popFrame(s); if (s.st.size() <= s.stopDepth) return true;
        Frame& c = s.st.back(); Ins& ci = c.f->blk[c.bb].ins[c.ip]; if (ci.dst >= 0 && ci.ns == n) for (unsigned i = 0; i < n; i++) c.r[ci.dst + i] = t[i];
        advance(s); return false; }
    case Instruction::Call: case Instruction::Invoke: {
        if (I.builtin == -2) { intrinsic(s, I); return false; }
        if (I.builtin >= 0) { builtin(s, I, I.builtin, 0); return false; }
        Fn* callee = I.callee; unsigned base = 0; if (!callee) { base = 1; uint64_t t = concretize(s, get(f, I.a[0]), 64); auto it = g_fnAt.find(t); if (it == g_fnAt.end()) err(s, "memory", "call through an invalid function pointer"); callee = it->second; if (callee->builtin >= 0) { builtin(s, I, callee->builtin, 1); return false; } }
        std::vector<V> args; args.reserve(I.a.size()); for (size_t i = base; i < I.a.size(); i++) { V v = get(f, I.a[i]); uint64_t bv = I.k.size() > i - base ? I.k[i - base] : 0; if (bv) { uint64_t src = concretize(s, v, 64); uint64_t n = newObj(s, bv, 1); s.st.back().allocas.push_back(n); memCopy(s, n, src, bv, false); v = VC(n); } args.push_back(v); }
        if (callee->merge && g_mergeOn && !s.merging) { bool sym = true; if (sym && tryMerge(s, I, callee, args)) return false; }
        enter(s, callee, args); return false; }
    case Instruction::LandingPad: f.r[I.dst] = VC(s.pendingExc); f.r[I.dst + 1] = VC((uint64_t)(uint32_t)s.pendingSel); f.ip++; return false;
    case Instruction::Resume: { uint64_t e = get(f, I.a[0]).c; Exc* x = findExc(s, e); if (!x) fatal("resume"); popFrame(s); if (s.st.empty()) fatal("resume at the bottom"); unwind(s, e, x->ti, false); return false; }
    case Instruction::Unreachable: err(s, "abort", "unreachable code is reached");
    case I_ + 2: f.ip++; return false; // empty inline asm (optimisation barrier)
    default: err(s, "engine", std::string("unsupported instruction ") + I.I->getOpcodeName());
    }
}

// ---------------------------------------------------------------- merged calls of pure functions
struct Leaf { std::vector<E> pcs; V v; };
static E buildTree(std::vector<Leaf*>& ls, size_t d, unsigned w) {
    bool same = true; for (auto* l : ls) if (X(l->v, w) != X(ls[0]->v, w)) same = false; if (same) return X(ls[0]->v, w);
    // the first constraint on which the leaves differ
    std::vector<Leaf*> a, b; E c = nullptr; while (true) { c = nullptr; bool all = true; for (auto* l : ls) { if (l->pcs.size() <= d) throw std::string("merge tree"); if (!c) c = l->pcs[d]; else if (l->pcs[d] != c) all = false; } if (!all) break; d++; }
    E nc = mkNot(c); for (auto* l : ls) { if (l->pcs[d] == c) a.push_back(l); else if (l->pcs[d] == nc) b.push_back(l); else throw std::string("merge tree"); }
    return mkIte(c, buildTree(a, d + 1, w), buildTree(b, d + 1, w));
}
static void finishStep(State& s);
static bool tryMerge(State& s, Ins& I, Fn* callee, std::vector<V>& args) {
    std::vector<State*> work; auto* saved = g_cur; std::vector<Leaf> leaves; bool ok = true; std::string why;
    State* n = cloneState(s); n->merging = true; n->mergeBase = n->next; n->implied = s.implied; int depth0 = s.pc ? s.pc->depth : 0; size_t before = s.st.size();
    g_cur = &work;
    try { enter(*n, callee, args); n->stopDepth = before; work.push_back(n); } catch (Dead&) { ok = false; killState(n); } catch (std::string& w) { ok = false; why = w; killState(n); }
    uint64_t steps = 0;
    while (ok && !work.empty()) {
        State* t = work.back(); work.pop_back(); V r = VC(0); bool dead = false;
        try { while (!step(*t, r)) { t->steps++; g_st.steps++; if (++steps > 200000) throw std::string("merge limit"); } } catch (Dead&) { dead = true; } catch (std::string& w) { ok = false; why = w; }
        if (ok && !dead) { Leaf l; l.v = r; for (PC* p = t->pc; p && p->depth > depth0; p = p->parent) l.pcs.push_back(p->e); std::reverse(l.pcs.begin(), l.pcs.end()); leaves.push_back(l); if (leaves.size() > 96) { ok = false; why = "too many leaves"; } }
        else if (dead) { ok = false; why = "dead"; }
        killState(t);
    }
    for (State* t : work) killState(t); g_cur = saved;
    if (!ok) { g_st.mergeFail++; if (g_trace) fprintf(stderr, "merge of %s failed: %s\n", callee->name.c_str(), why.c_str()); return false; }
    try {
        V v; if (leaves.size() == 1) v = leaves[0].v; else { std::vector<Leaf*> p; for (auto& l : leaves) p.push_back(&l); v = norm(buildTree(p, 0, I.w)); g_st.merges++; }
        Frame& f = s.st.back(); if (I.dst >= 0 && I.ns == 1) f.r[I.dst] = v; advance(s); return true;
    } catch (std::string& w) { g_st.mergeFail++; return false; }
}

// ---------------------------------------------------------------- driver
static void sample(State& s) {
    SampleRec r; r.inputs = inputsOf(s, s.model); r.undef = false; for (auto& o : s.obs) { long v = (long)(o.v.e ? (uint64_t)evalM(s, o.v.e) : o.v.c); if (o.v.e) for (uint32_t q : exprVars(o.v.e)) if (g_vars[q].undef) r.undef = true; r.obs.push_back({o.name, v}); }
    if (g_samples.size() < g_maxSamples) g_samples.push_back(r); else { uint64_t i = rnd() % g_st.paths; if (i < g_maxSamples) g_samples[i] = r; }
}
static void jstr(FILE* o, const std::string& s) { fputc('"', o); for (unsigned char c : s) { if (c == '"' || c == '\\') { fputc('\\', o); fputc(c, o); } else if (c < 32) fprintf(o, "\\u%04x", c); else fputc(c, o); } fputc('"', o); }
static void output(const char* path, const std::string& status) {
    FILE* o = fopen(path, "w"); if (!o) fatal("cannot write output"); struct rusage ru; getrusage(RUSAGE_SELF, &ru);
    fprintf(o, "{\"status\":\"%s\",\"wall_s\":%.3f,\"max_rss_mb\":%ld,\"paths\":%lu,\"assume_killed\":%lu,\"forks\":%lu,\"steps\":%lu,\"checks_simplifier\":%lu,\"checks_solver\":%lu,\"merges\":%lu,\"merge_fail\":%lu,\"limited\":%lu,\"inconclusive\":%lu,\"undef_reads\":%lu,\"exprs\":%zu,", status.c_str(), now(), ru.ru_maxrss / 1024, g_st.paths, g_st.assumeKilled, g_st.forks, g_st.steps, g_st.checksConst, g_st.checksSolver, g_st.merges, g_st.mergeFail, g_st.limited, g_st.inconclusive, g_st.undefReads, exprCount());
    fprintf(o, "\"queries\":%lu,\"sat\":%lu,\"unsat\":%lu,\"unknown\":%lu,\"fallback\":%lu,\"cached\":%lu,\"solver_s\":%.3f,\"max_query_s\":%.3f,\n\"limits\":[", g_sstats.queries, g_sstats.sat, g_sstats.unsat, g_sstats.unknown, g_sstats.fallback, g_sstats.cached, g_sstats.time, g_sstats.maxTime);
    bool c = false; for (auto& l : g_limits) { if (c) fputc(',', o); c = true; jstr(o, l); } fprintf(o, "],\n\"covers\":{"); c = false; for (auto& p : g_covers) { if (c) fputc(',', o); c = true; jstr(o, p.first); fprintf(o, ":%lu", p.second); }
    fprintf(o, "},\n\"checks\":{"); c = false; for (auto& p : g_checkMsgs) { if (c) fputc(',', o); c = true; jstr(o, p.first); fprintf(o, ":%lu", p.second); }
    fprintf(o, "},\n\"functions\":["); c = false; for (auto& p : g_encoded) { if (c) fputc(',', o); c = true; jstr(o, p); }
    fprintf(o, "],\n\"lines\":{"); std::map<std::string, std::set<unsigned>> lh; for (size_t i = 0; i < g_lines.size(); i++) if (g_lineHit[i]) lh[g_lines[i].first].insert(g_lines[i].second); c = false; for (auto& p : lh) { if (c) fputc(',', o); c = true; jstr(o, p.first); fprintf(o, ":["); bool d = false; for (unsigned n : p.second) { fprintf(o, "%s%u", d ? "," : "", n); d = true; } fprintf(o, "]"); }
    fprintf(o, "},\n\"errors\":["); c = false; for (auto& e : g_errors) { if (c) fputc(',', o); c = true; fprintf(o, "{\"kind\":"); jstr(o, e.kind); fprintf(o, ",\"msg\":"); jstr(o, e.msg); fprintf(o, ",\"where\":"); jstr(o, e.where); fprintf(o, ",\"inputs\":["); bool d = false; for (auto& p : e.inputs) { if (d) fputc(',', o); d = true; fprintf(o, "["); jstr(o, p.first); fprintf(o, ",%ld]", p.second); } fprintf(o, "]}"); }
    fprintf(o, "],\n\"samples\":["); c = false; for (auto& e : g_samples) { if (c) fputc(',', o); c = true; fprintf(o, "{\"undef\":%d,\"inputs\":[", e.undef); bool d = false; for (auto& p : e.inputs) { if (d) fputc(',', o); d = true; fprintf(o, "["); jstr(o, p.first); fprintf(o, ",%ld]", p.second); } fprintf(o, "],\"obs\":["); d = false; for (auto& p : e.obs) { if (d) fputc(',', o); d = true; fprintf(o, "["); jstr(o, p.first); fprintf(o, ",%ld]", p.second); } fprintf(o, "]}"); }
    fprintf(o, "]}\n"); fclose(o);
}
static bool runState(State* s) { // runs one state to its end
    V r = VC(0);
    try {
        while (true) {
            Frame& f = s->st.back(); Ins& I = f.f->blk[f.bb].ins[f.ip]; int ln = g_insLine[I.I]; if (ln >= 0) g_lineHit[ln] = 1;
            s->steps++; g_st.steps++; f.f->steps++;
            if (s->steps > g_maxSteps) { report(*s, "hang", "no end after " + std::to_string(g_maxSteps) + " instructions", s->model); g_st.limited++; break; }
            if ((g_st.steps & 0xfff) == 0 && now() > g_timeLimit) { g_st.limited++; g_limits.insert("time limit"); killState(s); return false; }
            if (step(*s, r)) { if (g_partN > 1 && s->forks < g_partD && (s->hash % g_partN) != g_partI) { g_st.dropped++; break; } g_st.paths++; sample(*s); break; }
        }
    } catch (Dead&) {} catch (std::string& w) { fatal("unexpected: " + w); }
    killState(s); return true;
}
std::unique_ptr<Module> loadAndOptimize(LLVMContext& C, const std::vector<std::string>& files, const std::string& dump);
int main(int argc, char** argv) {
    g_t0 = std::chrono::steady_clock::now(); std::vector<std::string> files; std::string out = "/dev/stdout", dump; std::string entry = "harness"; unsigned soft = 200, hard = 120000;
    for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&] { return std::string(argv[++i]); };
        if (a == "-o") out = nx(); else if (a == "-p") { std::string p = nx(); size_t e = p.find('='); g_params[p.substr(0, e)] = atol(p.c_str() + e + 1); } else if (a == "--max-steps") g_maxSteps = atoll(nx().c_str()); else if (a == "--max-paths") g_maxPaths = atoll(nx().c_str()); else if (a == "--time") g_timeLimit = atof(nx().c_str()); else if (a == "--part") { std::string p = nx(); sscanf(p.c_str(), "%u/%u", &g_partI, &g_partN); } else if (a == "--depth") g_partD = atoi(nx().c_str()); else if (a == "--samples") g_maxSamples = atoi(nx().c_str()); else if (a == "--trace") g_trace = true; else if (a == "--no-merge") g_mergeOn = false; else if (a == "--dump") dump = nx(); else if (a == "--entry") entry = nx(); else if (a == "--soft") soft = atoi(nx().c_str()); else if (a == "--hard") hard = atoi(nx().c_str()); else if (a == "--errors") g_maxErrors = atoi(nx().c_str()); else if (a == "--seed") g_rng ^= (uint64_t)atoll(nx().c_str()) * 0x9E3779B97F4A7C15ull; else files.push_back(a); }
    LLVMContext C; auto mod = loadAndOptimize(C, files, dump); M = mod.get(); DL = &M->getDataLayout(); if (files.empty() || !M) fatal("no module"); if (!dump.empty()) return 0;
    setupGlobals(); solverInit(soft, hard);
    State* s = new State; V r;
    // global constructors, then the harness
    std::vector<std::pair<uint64_t, Function*>> ctors; if (auto* G = M->getGlobalVariable("llvm.global_ctors")) if (auto* A = dyn_cast<ConstantArray>(G->getInitializer())) for (auto& o : A->operands()) { auto* S = cast<ConstantStruct>(o); if (auto* F = dyn_cast<Function>(S->getOperand(1))) ctors.push_back({constVal(S->getOperand(0)), F}); }
    std::stable_sort(ctors.begin(), ctors.end(), [](auto& a, auto& b) { return a.first < b.first; });
    try { for (auto& c : ctors) { std::vector<V> no; enter(*s, g_fns[c.second], no); while (!step(*s, r)) {} } } catch (Dead&) { for (auto& e : g_errors) fprintf(stderr, "%s %s %s\n", e.kind.c_str(), e.msg.c_str(), e.where.c_str()); fatal("a global constructor failed"); }
    Function* H = M->getFunction(entry); if (!H || H->isDeclaration()) fatal("no function " + entry); std::vector<V> no; s->steps = 0; enter(*s, g_fns[H], no); g_work.push_back(s);
    std::string status = "complete";
    while (!g_work.empty()) { State* t = g_work.back(); g_work.pop_back(); if (!runState(t)) { status = "timeout"; break; } if (g_st.paths >= g_maxPaths) { status = "path-limit"; break; } if (g_errors.size() >= g_maxErrors) { status = "errors"; break; } }
    if (status != "complete") g_st.limited += g_work.size();
    if (status == "complete" && g_st.inconclusive) status = "inconclusive";
    if (status == "complete" && g_st.limited) status = "limited";
    output(out.c_str(), status);
    if (g_trace) fprintf(stderr, "paths %lu queries %lu solver %.2fs steps %lu wall %.2fs\n", g_st.paths, g_sstats.queries, g_sstats.time, g_st.steps, now());
    fflush(nullptr); _exit(0);
}
