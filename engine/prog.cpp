// Loads LLVM bitcode and turns each function into a flat instruction array.
#include "prog.h"
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/PassManager.h>
#include <llvm/IR/Verifier.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Transforms/Utils/Mem2Reg.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/Support/raw_ostream.h>
using namespace llvm;

Expr UNDEF_EXPR;
Module* M;
const DataLayout* DL;
std::unordered_map<const Function*, Fn*> fnOf;
std::unordered_map<uint64_t, Fn*> fnAt;
std::vector<Val> consts;
std::unordered_map<const GlobalValue*, uint64_t> gaddr;
std::vector<std::string> siteName;
static std::unordered_map<std::string, uint32_t> siteIdx;
static LLVMContext ctxt;
static std::set<const Function*> rtFns;

uint32_t siteOf(const std::string& d) {
    auto it = siteIdx.find(d);
    if (it != siteIdx.end()) return it->second;
    siteName.push_back(d);
    return siteIdx[d] = siteName.size() - 1;
}
std::string fnName(const Function* F) { return demangle(F->getName().str()); }
std::string locOf(const Instruction* I) {
    if (!I) return "?";
    DebugLoc d = I->getDebugLoc();
    std::string r = fnName(I->getFunction());
    if (d) { r += " ("; r += d->getFilename().str(); r += ":" + std::to_string(d.getLine()) + ")"; }
    return r;
}
bool inRepo(const Function* F) {
    auto* sp = F->getSubprogram();
    if (!sp) return false;
    std::string f = sp->getFilename().str();
    if (f.compare(0, 5, "/usr/") == 0) return false;
    return f.find("/amtl/") != std::string::npos || f.find("amtl/") == 0;
}

void loadProgram(const std::vector<std::string>& files) {
    std::unique_ptr<Module> mod;
    for (size_t i = 0; i < files.size(); i++) {
        SMDiagnostic err;
        auto m = parseIRFile(files[i], err, ctxt);
        if (!m) { err.print("amsym", errs()); exit(3); }
        bool rt = files[i].find("runtime") != std::string::npos;
        // Rounding intrinsics become calls of the models in runtime.cpp.
        if (!rt) for (const char* n : {"trunc", "floor", "ceil", "round", "rint", "nearbyint"}) for (int w : {32, 64})
            if (Function* I = m->getFunction(std::string("llvm.") + n + ".f" + std::to_string(w)))
                I->replaceAllUsesWith(m->getOrInsertFunction(std::string(n) + (w == 32 ? "f" : ""), I->getFunctionType()).getCallee());
        std::vector<std::string> names;
        if (rt) for (auto& F : *m) if (!F.isDeclaration()) names.push_back(F.getName().str());
        if (!mod) mod = std::move(m);
        else if (Linker::linkModules(*mod, std::move(m), rt ? Linker::LinkOnlyNeeded : Linker::None)) { fprintf(stderr, "link failed\n"); exit(3); }
        if (rt) for (auto& n : names) if (auto* f = mod->getFunction(n)) if (!f->isDeclaration() && (f->getSubprogram() && f->getSubprogram()->getFilename().contains("runtime"))) rtFns.insert(f);
    }
    M = mod.release();
    DL = &M->getDataLayout();
    PassBuilder pb;
    LoopAnalysisManager lam; FunctionAnalysisManager fam; CGSCCAnalysisManager cam; ModuleAnalysisManager mam;
    pb.registerModuleAnalyses(mam); pb.registerCGSCCAnalyses(cam); pb.registerFunctionAnalyses(fam); pb.registerLoopAnalyses(lam);
    pb.crossRegisterProxies(lam, fam, cam, mam);
    FunctionPassManager fpm;
    fpm.addPass(PromotePass());
    for (auto& F : *M) if (!F.isDeclaration()) fpm.run(F, fam);
    // harness overrides: X -> __wrap_X
    std::vector<std::pair<Function*, Function*>> wraps;
    for (auto& F : *M) if (F.getName().starts_with("__wrap_")) {
        if (Function* O = M->getFunction(F.getName().substr(7))) wraps.push_back({O, &F});
        std::string real = "__real_" + F.getName().substr(7).str();
        if (Function* R = M->getFunction(real)) if (Function* O = M->getFunction(F.getName().substr(7))) {
            // __real_X means X: swapped after the wrap below
            (void)R; (void)O;
        }
    }
    for (auto& w : wraps) {
        std::string real = "__real_" + w.first->getName().str();
        w.first->replaceAllUsesWith(w.second);
        if (Function* R = M->getFunction(real)) if (R->getType() == w.first->getType()) R->replaceAllUsesWith(w.first);
    }
    uint64_t fa = 0x400000;
    for (auto& F : *M) {
        Fn* f = new Fn;
        f->F = &F;
        f->repo = inRepo(&F);
        f->rt = rtFns.count(&F);
        fnOf[&F] = f;
        gaddr[&F] = fa;
        fnAt[fa] = f;
        fa += 16;
    }
}

static uint64_t alignAddr(uint64_t a, uint64_t al) {   // aligned to al but to no larger power of two
    if (al < 1) al = 1;
    a = (a + al - 1) / al * al;
    if (!(a & al)) a += al;
    return a;
}
uint64_t exactAlign(uint64_t a, uint64_t al) { return alignAddr(a, al); }

static void storeConst(Obj* o, uint64_t off, const Constant* C);
static void initObj(Obj* o, uint64_t size) { o->size = size; o->b.assign(size, 0); }

void layoutGlobals(State& s) {
    uint64_t a = 0x10000000;
    std::vector<GlobalVariable*> gs;
    for (auto& G : M->globals()) {
        if (G.getName().starts_with("llvm.")) continue;
        uint64_t sz = DL->getTypeAllocSize(G.getValueType());
        uint64_t al = G.getAlign() ? G.getAlign()->value() : DL->getABITypeAlign(G.getValueType()).value();
        a = alignAddr(a, al);
        gaddr[&G] = a;
        a += std::max<uint64_t>(sz, 1) + 32;
        gs.push_back(&G);
    }
    for (auto& A : M->aliases()) {
        const GlobalObject* o = A.getAliaseeObject();
        if (o && gaddr.count(o)) {
            gaddr[&A] = gaddr[o];
        }
    }
    for (auto* G : gs) {
        Obj* o = new Obj;
        initObj(o, DL->getTypeAllocSize(G->getValueType()));
        o->kind = OK::Global;
        o->v = G;
        o->readonly = G->isConstant() && G->hasInitializer();
        o->site = siteOf("global " + demangle(G->getName().str()));
        if (!G->hasInitializer()) { o->opaque = true; if (o->size < 4096) { o->size = 4096; o->b.assign(4096, 0); } }
        s.mem.push_back({gaddr[G], Ref<Obj>(o)});
    }
    for (auto* G : gs) if (G->hasInitializer()) {
        for (auto& sl : s.mem) if (sl.addr == gaddr[G]) { storeConst(sl.o.p, 0, G->getInitializer()); break; }
    }
    s.bump = 0x7f0000000000ull;
}

static void storeConst(Obj* o, uint64_t off, const Constant* C) {
    if (C->isNullValue() || isa<ConstantAggregateZero>(C)) return;
    if (isa<UndefValue>(C)) return;   // statics: zero
    Type* T = C->getType();
    if (auto* cs = dyn_cast<ConstantStruct>(C)) {
        auto* sl = DL->getStructLayout(cs->getType());
        for (unsigned i = 0; i < cs->getNumOperands(); i++) storeConst(o, off + sl->getElementOffset(i), cs->getOperand(i));
        return;
    }
    if (auto* ca = dyn_cast<ConstantArray>(C)) {
        uint64_t es = DL->getTypeAllocSize(ca->getType()->getElementType());
        for (unsigned i = 0; i < ca->getNumOperands(); i++) storeConst(o, off + i * es, ca->getOperand(i));
        return;
    }
    if (auto* cd = dyn_cast<ConstantDataSequential>(C)) {
        uint64_t es = DL->getTypeAllocSize(cd->getElementType());
        for (unsigned i = 0; i < cd->getNumElements(); i++) storeConst(o, off + i * es, cd->getElementAsConstant(i));
        return;
    }
    uint64_t n = DL->getTypeStoreSize(T);
    Val v = constVal(C);
    if (v.e == UNDEF_E) return;
    if (v.a) { fprintf(stderr, "amsym: unsupported constant initialiser\n"); exit(3); }
    u128 x = v.e ? v.e->val : (u128)v.c;
    for (uint64_t i = 0; i < n; i++) o->b[off + i] = (uint8_t)(x >> (8 * i));
}

static std::unordered_map<const Constant*, Val> cmemo;
Val constVal(const Constant* C) {
    auto it = cmemo.find(C);
    if (it != cmemo.end()) return it->second;
    Val r;
    Type* T = C->getType();
    if (auto* ci = dyn_cast<ConstantInt>(C)) {
        if (ci->getBitWidth() <= 64) r = Val::C(ci->getZExtValue());
        else {
            const APInt& v = ci->getValue();
            u128 x = v.getRawData()[0];
            if (v.getNumWords() > 1) x |= (u128)v.getRawData()[1] << 64;
            r.e = mkConst(x, ci->getBitWidth());
        }
    } else if (auto* cf = dyn_cast<ConstantFP>(C)) {
        APInt v = cf->getValueAPF().bitcastToAPInt();
        if (v.getBitWidth() <= 64) r = Val::C(v.getZExtValue());
        else { u128 x = v.getRawData()[0]; x |= (u128)v.getRawData()[1] << 64; r.e = mkConst(x & maskw(v.getBitWidth()), v.getBitWidth()); }
    } else if (isa<ConstantPointerNull>(C)) r = Val::C(0);
    else if (isa<UndefValue>(C) || isa<ConstantAggregateZero>(C)) {
        if (T->isStructTy() || T->isArrayTy() || T->isVectorTy()) {
            Agg* a = new Agg;
            unsigned n = T->isStructTy() ? T->getStructNumElements() : T->isArrayTy() ? T->getArrayNumElements() : cast<FixedVectorType>(T)->getNumElements();
            for (unsigned i = 0; i < n; i++) {
                Type* et = T->isStructTy() ? T->getStructElementType(i) : T->isArrayTy() ? T->getArrayElementType() : cast<FixedVectorType>(T)->getElementType();
                a->v.push_back(constVal(isa<UndefValue>(C) ? (Constant*)UndefValue::get(et) : Constant::getNullValue(et)));
            }
            r.a = Ref<Agg>(a);
        } else r = isa<UndefValue>(C) ? Val::U() : Val::C(0);
    } else if (auto* gv = dyn_cast<GlobalValue>(C)) {
        auto g = gaddr.find(gv);
        if (g == gaddr.end()) {
            if (auto* al = dyn_cast<GlobalAlias>(gv)) { r = constVal(al->getAliasee()); }
            else { fprintf(stderr, "amsym: no address for %s\n", gv->getName().str().c_str()); exit(3); }
        } else r = Val::C(g->second);
    } else if (isa<ConstantStruct>(C) || isa<ConstantArray>(C) || isa<ConstantVector>(C)) {
        Agg* a = new Agg;
        for (unsigned i = 0; i < C->getNumOperands(); i++) a->v.push_back(constVal(cast<Constant>(C->getOperand(i))));
        r.a = Ref<Agg>(a);
    } else if (auto* cd = dyn_cast<ConstantDataSequential>(C)) {
        Agg* a = new Agg;
        for (unsigned i = 0; i < cd->getNumElements(); i++) a->v.push_back(constVal(cd->getElementAsConstant(i)));
        r.a = Ref<Agg>(a);
    } else if (auto* ce = dyn_cast<ConstantExpr>(C)) {
        auto op = [&](unsigned i) { return constVal(ce->getOperand(i)).c; };
        unsigned w = T->isPointerTy() ? 64 : T->getIntegerBitWidth();
        uint64_t m = w >= 64 ? ~0ull : (1ull << w) - 1;
        switch (ce->getOpcode()) {
        case Instruction::GetElementPtr: {
            APInt off(64, 0);
            if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) { fprintf(stderr, "amsym: non-constant GEP\n"); exit(3); }
            r = Val::C(op(0) + off.getZExtValue());
            break;
        }
        case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: case Instruction::Trunc: r = Val::C(op(0) & m); break;
        case Instruction::Add: r = Val::C((op(0) + op(1)) & m); break;
        case Instruction::Sub: r = Val::C((op(0) - op(1)) & m); break;
        case Instruction::And: r = Val::C(op(0) & op(1)); break;
        case Instruction::ICmp:
            if (ce->getPredicate() == CmpInst::ICMP_EQ) r = Val::C(op(0) == op(1));
            else if (ce->getPredicate() == CmpInst::ICMP_NE) r = Val::C(op(0) != op(1));
            else { fprintf(stderr, "amsym: constant icmp\n"); exit(3); }
            break;
        default: fprintf(stderr, "amsym: constant expression %s\n", ce->getOpcodeName()); exit(3);
        }
    } else { std::string t; raw_string_ostream os(t); C->print(os); fprintf(stderr, "amsym: constant %s\n", t.c_str()); exit(3); }
    cmemo[C] = r;
    return r;
}

static unsigned widthOf(Type* T) {
    if (T->isPointerTy()) return 64;
    if (T->isIntegerTy()) return T->getIntegerBitWidth();
    if (T->isFloatTy()) return 32;
    if (T->isDoubleTy()) return 64;
    if (T->isX86_FP80Ty()) return 80;
    if (T->isHalfTy()) return 16;
    if (T->isFP128Ty()) return 128;
    return 0;
}

static const std::unordered_map<std::string, int>& builtinTable() {
    static const std::unordered_map<std::string, int> t = {
        {"amsym_symbolic", B_symbolic}, {"amsym_assume", B_assume}, {"amsym_assert", B_assert}, {"amsym_observe", B_observe}, {"amsym_cover", B_cover}, {"amsym_finish", B_finish},
        {"amsym_check_leaks", B_leaks}, {"amsym_param", B_param}, {"amsym_thread_create", B_thread_create}, {"amsym_thread_join", B_thread_join},
        {"amsym_thread_self", B_thread_self}, {"amsym_sync", B_sync}, {"amsym_mutex_lock", B_mutex_lock}, {"amsym_mutex_trylock", B_mutex_trylock},
        {"amsym_mutex_unlock", B_mutex_unlock}, {"amsym_mutex_owner", B_mutex_owner}, {"amsym_yield", B_yield}, {"amsym_heap_live", B_heap_live}, {"amsym_alloc_count", B_alloc_count},
        {"amsym_is_native", B_is_native}, {"amsym_mark_heap", B_mark_heap}, {"amsym_valid", B_valid}, {"amsym_range", B_range}, {"amsym_note", B_note},
        {"malloc", B_malloc}, {"free", B_free}, {"calloc", B_calloc}, {"realloc", B_realloc}, {"aligned_alloc", B_aligned_alloc}, {"posix_memalign", B_posix_memalign},
        {"_Znwm", B_new}, {"_Znam", B_newarr}, {"_ZnwmRKSt9nothrow_t", B_new}, {"_ZnamRKSt9nothrow_t", B_newarr},
        {"_ZnwmSt11align_val_t", B_new_al}, {"_ZnamSt11align_val_t", B_newarr_al}, {"_ZnwmSt11align_val_tRKSt9nothrow_t", B_new_al},
        {"_ZdlPv", B_del}, {"_ZdlPvm", B_del}, {"_ZdlPvSt11align_val_t", B_del}, {"_ZdlPvmSt11align_val_t", B_del}, {"_ZdlPvRKSt9nothrow_t", B_del},
        {"_ZdaPv", B_delarr}, {"_ZdaPvm", B_delarr}, {"_ZdaPvSt11align_val_t", B_delarr}, {"_ZdaPvRKSt9nothrow_t", B_delarr},
        {"memcpy", B_memcpy}, {"memmove", B_memmove}, {"memset", B_memset},
        {"abort", B_abort}, {"__assert_fail", B_assert_fail}, {"__cxa_pure_virtual", B_purevirt}, {"_ZSt9terminatev", B_abort}, {"__clang_call_terminate", B_abort},
        {"exit", B_exit}, {"_exit", B_exit}, {"__cxa_atexit", B_ret0}, {"__stack_chk_fail", B_abort}, {"_ZSt21__glibcxx_assert_failPKciS0_S0_", B_assert_fail},
    };
    return t;
}

static int intrinsicBuiltin(Intrinsic::ID id) {
    switch (id) {
    case Intrinsic::memcpy: case Intrinsic::memcpy_inline: return B_memcpy;
    case Intrinsic::memmove: return B_memmove;
    case Intrinsic::memset: case Intrinsic::memset_inline: return B_memset;
    case Intrinsic::lifetime_start: return B_lifetime_start;
    case Intrinsic::lifetime_end: return B_lifetime_end;
    case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::assume: case Intrinsic::donothing:
    case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch: case Intrinsic::invariant_start: case Intrinsic::invariant_end:
    case Intrinsic::stackrestore: case Intrinsic::vaend: case Intrinsic::var_annotation: case Intrinsic::dbg_assign: return B_nop;
    case Intrinsic::stacksave: return B_stacksave;
    case Intrinsic::vastart: return B_va_start;
    case Intrinsic::vacopy: return B_va_copy;
    case Intrinsic::ctlz: return B_ctlz; case Intrinsic::cttz: return B_cttz; case Intrinsic::ctpop: return B_ctpop;
    case Intrinsic::bswap: return B_bswap; case Intrinsic::bitreverse: return B_bitreverse;
    case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group:
    case Intrinsic::ssa_copy: case Intrinsic::annotation: case Intrinsic::ptr_annotation: return B_expect;
    case Intrinsic::objectsize: return B_objectsize;
    case Intrinsic::is_constant: return B_isconst;
    case Intrinsic::sadd_with_overflow: return B_sadd_o; case Intrinsic::uadd_with_overflow: return B_uadd_o;
    case Intrinsic::ssub_with_overflow: return B_ssub_o; case Intrinsic::usub_with_overflow: return B_usub_o;
    case Intrinsic::smul_with_overflow: return B_smul_o; case Intrinsic::umul_with_overflow: return B_umul_o;
    case Intrinsic::smax: return B_smax; case Intrinsic::smin: return B_smin; case Intrinsic::umax: return B_umax; case Intrinsic::umin: return B_umin;
    case Intrinsic::abs: return B_abs; case Intrinsic::trap: case Intrinsic::debugtrap: case Intrinsic::ubsantrap: return B_trap;
    case Intrinsic::fshl: return B_fshl; case Intrinsic::fshr: return B_fshr;
    case Intrinsic::uadd_sat: return B_uadd_sat; case Intrinsic::usub_sat: return B_usub_sat; case Intrinsic::sadd_sat: return B_sadd_sat; case Intrinsic::ssub_sat: return B_ssub_sat;
    case Intrinsic::ptrmask: return B_ptrmask; case Intrinsic::fabs: return B_fabs; case Intrinsic::is_fpclass: return B_isfpclass; case Intrinsic::copysign: return B_copysign;
    case Intrinsic::threadlocal_address: return B_tls; case Intrinsic::fmuladd: return B_fmuladd;
    default: return B_none;
    }
}

int builtinOf(const Function* F) {
    if (F->isIntrinsic()) return intrinsicBuiltin(F->getIntrinsicID());
    if (!F->isDeclaration()) return B_none;
    auto& t = builtinTable();
    auto it = t.find(F->getName().str());
    if (it != t.end()) return it->second;
    if (F->getName().starts_with("_ZSt") && F->getName().contains("__throw_")) return B_throw;
    return B_none;
}

Fn* getFn(Function* F) {
    auto it = fnOf.find(F);
    Fn* f;
    if (it == fnOf.end()) { f = new Fn; f->F = F; fnOf[F] = f; }
    else f = it->second;
    if (f->compiled || F->isDeclaration()) return f;
    f->compiled = true;
    std::unordered_map<const Value*, int> slot;
    int n = 0;
    for (auto& A : F->args()) slot[&A] = n++;
    for (auto& B : *F) for (auto& I : B) if (!I.getType()->isVoidTy()) slot[&I] = n++;
    f->nslots = n;
    static std::unordered_map<const Constant*, int> cidx;
    auto opnd = [&](Value* v) -> Opnd {
        if (auto* c = dyn_cast<Constant>(v)) {
            auto k = cidx.find(c);
            if (k == cidx.end()) { consts.push_back(constVal(c)); k = cidx.emplace(c, (int)consts.size() - 1).first; }
            return Opnd{~k->second};
        }
        if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) return Opnd{~0};
        auto s = slot.find(v);
        if (s == slot.end()) { fprintf(stderr, "amsym: operand without slot in %s\n", fnName(F).c_str()); exit(3); }
        return Opnd{s->second};
    };
    if (consts.empty()) consts.push_back(Val::C(0));
    std::unordered_map<const BasicBlock*, uint32_t> start;
    // first pass: assign pcs (phis are not emitted)
    uint32_t pc = 0;
    for (auto& B : *F) { start[&B] = pc; for (auto& I : B) { if (isa<PHINode>(I)) continue; if (auto* ci = dyn_cast<CallInst>(&I)) if (ci->getCalledFunction() && intrinsicBuiltin(ci->getCalledFunction()->getIntrinsicID()) == B_nop && ci->getType()->isVoidTy()) continue; pc++; } }
    auto edge = [&](const BasicBlock* from, BasicBlock* to) {
        Edge e;
        e.pc = start[to];
        for (auto& P : to->phis()) e.mv.push_back({slot[&P], opnd(P.getIncomingValueForBlock(from))});
        return e;
    };
    for (auto& B : *F) for (auto& I : B) {
        if (isa<PHINode>(I)) continue;
        if (auto* ci = dyn_cast<CallInst>(&I)) if (ci->getCalledFunction() && intrinsicBuiltin(ci->getCalledFunction()->getIntrinsicID()) == B_nop && ci->getType()->isVoidTy()) continue;
        Inst x;
        x.op = IC::Unsup;
        x.I = &I;
        x.ty = I.getType();
        x.w = widthOf(I.getType());
        if (!I.getType()->isVoidTy()) x.dst = slot[&I];
        if (auto* bo = dyn_cast<BinaryOperator>(&I)) {
            x.op = IC::Bin; x.sub = bo->getOpcode();
            x.a = opnd(bo->getOperand(0)); x.b = opnd(bo->getOperand(1));
            if (auto* ob = dyn_cast<OverflowingBinaryOperator>(bo)) { x.nsw = ob->hasNoSignedWrap(); x.nuw = ob->hasNoUnsignedWrap(); }
            if (x.w == 0) x.op = IC::Unsup;
        } else if (auto* ic = dyn_cast<ICmpInst>(&I)) {
            x.op = IC::Cmp; x.sub = ic->getPredicate(); x.sw = widthOf(ic->getOperand(0)->getType());
            x.a = opnd(ic->getOperand(0)); x.b = opnd(ic->getOperand(1));
            if (!x.sw) x.op = IC::Unsup;
        } else if (auto* fc = dyn_cast<FCmpInst>(&I)) {
            x.op = IC::FCmp; x.sub = fc->getPredicate(); x.sw = widthOf(fc->getOperand(0)->getType());
            x.a = opnd(fc->getOperand(0)); x.b = opnd(fc->getOperand(1));
        } else if (auto* c = dyn_cast<CastInst>(&I)) {
            x.op = IC::Cast; x.sub = c->getOpcode(); x.sw = widthOf(c->getSrcTy()); x.a = opnd(c->getOperand(0));
            if (!x.sw || !x.w) x.op = IC::Unsup;
        } else if (auto* l = dyn_cast<LoadInst>(&I)) {
            x.op = IC::Load; x.a = opnd(l->getPointerOperand()); x.align = l->getAlign().value(); x.vol = l->isVolatile(); x.atomic = l->isAtomic(); x.ord = l->getOrdering();
        } else if (auto* st = dyn_cast<StoreInst>(&I)) {
            x.op = IC::Store; x.a = opnd(st->getValueOperand()); x.b = opnd(st->getPointerOperand()); x.ty = st->getValueOperand()->getType(); x.w = widthOf(x.ty);
            x.align = st->getAlign().value(); x.vol = st->isVolatile(); x.atomic = st->isAtomic(); x.ord = st->getOrdering();
        } else if (auto* al = dyn_cast<AllocaInst>(&I)) {
            x.op = IC::Alloca; x.a = opnd(al->getArraySize()); x.align = al->getAlign().value(); x.goff = DL->getTypeAllocSize(al->getAllocatedType());
        } else if (auto* g = dyn_cast<GetElementPtrInst>(&I)) {
            x.op = IC::Gep; x.a = opnd(g->getPointerOperand());
            for (auto ti = gep_type_begin(g), te = gep_type_end(g); ti != te; ++ti) {
                Value* ix = ti.getOperand();
                if (StructType* stt = ti.getStructTypeOrNull()) { x.goff += DL->getStructLayout(stt)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
                uint64_t es = DL->getTypeAllocSize(ti.getIndexedType());
                if (auto* ci2 = dyn_cast<ConstantInt>(ix)) { x.goff += es * ci2->getSExtValue(); continue; }
                x.gep.push_back({opnd(ix), es, widthOf(ix->getType())});
            }
            if (!x.w) x.op = IC::Unsup;
        } else if (auto* br = dyn_cast<BranchInst>(&I)) {
            if (br->isUnconditional()) { x.op = IC::Br; x.edges.push_back(edge(&B, br->getSuccessor(0))); }
            else { x.op = IC::CondBr; x.a = opnd(br->getCondition()); x.edges.push_back(edge(&B, br->getSuccessor(0))); x.edges.push_back(edge(&B, br->getSuccessor(1))); }
        } else if (auto* sw = dyn_cast<SwitchInst>(&I)) {
            x.op = IC::Switch; x.a = opnd(sw->getCondition()); x.sw = widthOf(sw->getCondition()->getType());
            x.edges.push_back(edge(&B, sw->getDefaultDest()));
            for (auto& cs : sw->cases()) { x.edges.push_back(edge(&B, cs.getCaseSuccessor())); x.cases.push_back({(u128)cs.getCaseValue()->getZExtValue(), (int)x.edges.size() - 1}); }
        } else if (auto* rt = dyn_cast<ReturnInst>(&I)) {
            x.op = IC::Ret; x.sub = rt->getReturnValue() != nullptr;
            if (rt->getReturnValue()) x.a = opnd(rt->getReturnValue());
        } else if (isa<UnreachableInst>(I)) x.op = IC::Unreachable;
        else if (auto* cb = dyn_cast<CallInst>(&I)) {
            x.op = IC::Call;
            Value* cv = cb->getCalledOperand()->stripPointerCasts();
            if (auto* ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliasee()->stripPointerCasts();
            if (isa<InlineAsm>(cv)) x.op = cb->getType()->isVoidTy() ? IC::Nop : IC::Unsup;
            else if (auto* cf = dyn_cast<Function>(cv)) { x.callee = cf; x.builtin = builtinOf(cf); x.fn = fnOf.count(cf) ? fnOf[cf] : nullptr; }
            else x.a = opnd(cv);
            for (auto& A : cb->args()) x.args.push_back(opnd(A.get()));
        } else if (auto* se = dyn_cast<SelectInst>(&I)) {
            x.op = IC::Select; x.a = opnd(se->getCondition()); x.b = opnd(se->getTrueValue()); x.c = opnd(se->getFalseValue());
            if (se->getCondition()->getType()->isVectorTy()) x.op = IC::Unsup;
        } else if (auto* ev = dyn_cast<ExtractValueInst>(&I)) {
            x.op = IC::ExtractV; x.a = opnd(ev->getAggregateOperand()); x.idx.assign(ev->idx_begin(), ev->idx_end());
        } else if (auto* iv = dyn_cast<InsertValueInst>(&I)) {
            x.op = IC::InsertV; x.a = opnd(iv->getAggregateOperand()); x.b = opnd(iv->getInsertedValueOperand()); x.idx.assign(iv->idx_begin(), iv->idx_end());
        } else if (auto* cx = dyn_cast<AtomicCmpXchgInst>(&I)) {
            x.op = IC::Cmpxchg; x.a = opnd(cx->getPointerOperand()); x.b = opnd(cx->getCompareOperand()); x.c = opnd(cx->getNewValOperand());
            x.ty = cx->getCompareOperand()->getType(); x.w = widthOf(x.ty); x.ord = cx->getSuccessOrdering(); x.atomic = true; x.sub = (uint8_t)cx->getFailureOrdering();
        } else if (auto* rm = dyn_cast<AtomicRMWInst>(&I)) {
            x.op = IC::Rmw; x.a = opnd(rm->getPointerOperand()); x.b = opnd(rm->getValOperand()); x.sub = rm->getOperation(); x.ord = rm->getOrdering(); x.atomic = true;
        } else if (auto* fe = dyn_cast<FenceInst>(&I)) { x.op = IC::Fence; x.ord = fe->getOrdering(); }
        else if (auto* un = dyn_cast<UnaryOperator>(&I)) { x.op = IC::FNeg; x.a = opnd(un->getOperand(0)); }
        else if (auto* fz = dyn_cast<FreezeInst>(&I)) { x.op = IC::Freeze; x.a = opnd(fz->getOperand(0)); }
        else if (auto* ee = dyn_cast<ExtractElementInst>(&I)) { if (isa<ConstantInt>(ee->getIndexOperand())) { x.op = IC::ExtractV; x.a = opnd(ee->getVectorOperand()); x.idx.push_back(cast<ConstantInt>(ee->getIndexOperand())->getZExtValue()); } }
        else if (auto* ie = dyn_cast<InsertElementInst>(&I)) { if (isa<ConstantInt>(ie->getOperand(2))) { x.op = IC::InsertV; x.a = opnd(ie->getOperand(0)); x.b = opnd(ie->getOperand(1)); x.idx.push_back(cast<ConstantInt>(ie->getOperand(2))->getZExtValue()); } }
        f->code.push_back(std::move(x));
    }
    if (f->code.size() != pc) { fprintf(stderr, "amsym: pc mismatch in %s\n", fnName(F).c_str()); exit(3); }
    return f;
}

// Writes the linked program with a call of amsym_sp() before every operation at which the executor may switch threads,
// so that a schedule can be replayed deterministically by real threads.
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/IR/IRBuilder.h>
void instrumentProgram(const std::string& out, const std::string& sanitize) {
    FunctionCallee sp = M->getOrInsertFunction("amsym_sp", Type::getVoidTy(ctxt));
    for (auto& F : *M) {
        if (F.isDeclaration()) continue;
        if (rtFns.count(&F)) continue;
        if (sanitize == "thread") F.addFnAttr(Attribute::SanitizeThread);
        if (sanitize == "address") F.addFnAttr(Attribute::SanitizeAddress);
        std::vector<Instruction*> at;
        for (auto& B : F) for (auto& I : B) {
            bool v = false;
            if (auto* l = dyn_cast<LoadInst>(&I)) v = l->isAtomic() || l->isVolatile();
            else if (auto* st = dyn_cast<StoreInst>(&I)) v = st->isAtomic() || st->isVolatile();
            else v = isa<AtomicCmpXchgInst>(I) || isa<AtomicRMWInst>(I);
            if (v) at.push_back(&I);
        }
        for (auto* I : at) { IRBuilder<> b(I); b.CreateCall(sp); }
    }
    for (auto* F : rtFns) { auto* f = const_cast<Function*>(F); if (!f->getName().starts_with("amsym_")) { f->setName("amsymrt_" + f->getName().str()); f->setComdat(nullptr); } }
    std::error_code ec;
    raw_fd_ostream os(out, ec);
    WriteBitcodeToFile(*M, os);
}
