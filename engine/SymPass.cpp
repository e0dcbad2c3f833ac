// SymPass: instruments LLVM IR so that it executes symbolically (EXE style).
//
// Every integer SSA value of at most 64 bits gets a shadow: a pointer to an expression, or null when the value is
// concrete.  A value whose shadow is non-null has a meaningless concrete part: the instrumented code never lets that
// part decide a branch, an address, or an argument of code that is not instrumented.  Pointers and floating point
// values are always concrete (a symbolic integer flowing into one is concretised by forking over all its values).
//
// Passes:  sym-early  (before optimisation: constant hash functions, model substitution, attribute clean-up)
//          sym        (after optimisation: the instrumentation)
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/ADT/SmallPtrSet.h"
#include "llvm/Analysis/CaptureTracking.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/PassManager.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Transforms/Utils/Local.h"
#include <map>
#include <set>
#include <cstdlib>

using namespace llvm;

namespace {

bool startsWith(StringRef s, StringRef p) { return s.substr(0, p.size()) == p; }

// calls of X become calls of its model __m_X where the module defines one
void substituteModels(Module &M)
{
    for (Function &F : make_early_inc_range(M)) {
        if (startsWith(F.getName(), "__m_")) continue;
        Function *R = M.getFunction("__m_" + F.getName().str());
        if (R && !R->isDeclaration())
            F.replaceUsesWithIf(R, [&](Use &U) {
                if (auto *I = dyn_cast<Instruction>(U.getUser())) return I->getFunction() != R;
                return true;
            });
    }
}

// ---------------------------------------------------------------- sym-early
struct SymEarly : PassInfoMixin<SymEarly> {
    static bool isHash(const std::string &n)
    {
        // The value of a hash function is not part of any property: constant hashes put every key in one bucket.
        if (n.find("boost::hash_detail::hash_string") == 0) return true;
        if (n.find("hash_value(NodeLabel const&)") == 0) return true;
        if (n.find("unsigned long boost::hash_range<") == 0) return true;
        if (n.find("boost::hash<std::__cxx11::basic_string<") == 0 && n.find("::operator()") != std::string::npos)
            return true;
        if (n.find("std::hash<std::__cxx11::basic_string<") == 0 && n.find("::operator()") != std::string::npos)
            return true;
        if (n.find("boost::hash<NodeLabel>::operator()") == 0) return true;
        return false;
    }
    PreservedAnalyses run(Module &M, ModuleAnalysisManager &)
    {
        for (Function &F : M) {
            if (F.isDeclaration()) continue;
            F.removeFnAttr(Attribute::OptimizeNone);
            if (getenv("SYM_RACE")) F.addFnAttr(Attribute::SanitizeThread); // no speculative accesses
            std::string dn = demangle(F.getName().str());
            if (isHash(dn) && F.getReturnType()->isIntegerTy()) {
                F.deleteBody();
                F.setLinkage(GlobalValue::InternalLinkage);
                F.setComdat(nullptr);
                BasicBlock *bb = BasicBlock::Create(M.getContext(), "e", &F);
                ReturnInst::Create(M.getContext(), ConstantInt::get(F.getReturnType(), 0), bb);
                F.removeFnAttr(Attribute::AlwaysInline);
                continue;
            }
        }
        // record which functions of the code under test are executed
        {
            LLVMContext &C = M.getContext();
            auto *P = PointerType::get(C, 0);
            auto *G = M.getGlobalVariable("__sy_cov");
            if (!G) G = new GlobalVariable(M, P, false, GlobalValue::ExternalLinkage, nullptr, "__sy_cov");
            for (Function &F : M) {
                if (F.isDeclaration()) continue;
                std::string dn = demangle(F.getName().str());
                bool mine = false;
                for (const char *p : {"LabelUtils::", "TypeUtils::", "RRUtils::", "LintUtils::", "zone::Graph::",
                                      "label::Graph::", "interpretation::Graph::", "Driver::", "ResourceRecord::",
                                      "EC::", "ECTask::", "StructuralTask::", "NodeLabel::"})
                    if (startsWith(dn, p)) mine = true;
                StringRef head = StringRef(dn).split('(').first;
                if (head.find("::") == StringRef::npos && head.find('<') == StringRef::npos && !startsWith(dn, "_") &&
                    !startsWith(dn, "sy_") && dn.find('(') != std::string::npos && head.find("operator") == StringRef::npos)
                    mine = true;
                if (!mine || F.getReturnType()->isX86_FP80Ty()) continue;
                std::string gn = "sycov." + F.getName().str();
                auto *idg = M.getGlobalVariable(gn);
                if (!idg)
                    idg = new GlobalVariable(M, Type::getInt64Ty(C), false, GlobalValue::ExternalLinkage, nullptr, gn);
                IRBuilder<> B(&*F.getEntryBlock().getFirstInsertionPt());
                Value *base = B.CreateLoad(P, G);
                B.CreateStore(ConstantInt::get(Type::getInt8Ty(C), 1),
                              B.CreateGEP(Type::getInt8Ty(C), base, {B.CreateLoad(Type::getInt64Ty(C), idg)}));
            }
        }
        // locale facet ids must stay the ones of libstdc++.so
        for (GlobalVariable &G : M.globals()) {
            StringRef n = G.getName();
            if (startsWith(n, "_ZNSt") && n.ends_with("2idE") && !G.isDeclaration()) {
                G.setInitializer(nullptr);
                G.setLinkage(GlobalValue::ExternalLinkage);
                G.setComdat(nullptr);
                G.setDSOLocal(false);
            } else if (startsWith(n, "_ZGVNSt") && n.ends_with("2idE") && !G.isDeclaration()) {
                G.setInitializer(nullptr);
                G.setLinkage(GlobalValue::ExternalLinkage);
                G.setComdat(nullptr);
                G.setDSOLocal(false);
            }
        }
        substituteModels(M);
        return PreservedAnalyses::none();
    }
};

// ---------------------------------------------------------------- sym
struct Instr {
    Module &M;
    LLVMContext &C;
    const DataLayout &DL;
    PointerType *P;
    IntegerType *I1, *I8, *I16, *I32, *I64;
    Type *VoidT;
    Constant *NullE;
    GlobalVariable *GArg, *GArgFn, *GRet, *GRetFn, *GDummy, *GCov;
    std::set<std::string> unclassified;
    std::set<Function *> toInstrument;

    FunctionCallee fBin, fCmp, fCast, fSel, fBr, fSw, fLd, fLdx, fSt, fClr, fConcMem, fConc, fGep, fMemmove, fMemset,
        fIcall, fIconc, fIscan, fScan, fDivGuard, fUn, fOvf, fOvfFlag, fYield, fTri, fAcc, fSync;

    Instr(Module &M) : M(M), C(M.getContext()), DL(M.getDataLayout())
    {
        P = PointerType::get(C, 0);
        I1 = Type::getInt1Ty(C);
        I8 = Type::getInt8Ty(C);
        I16 = Type::getInt16Ty(C);
        I32 = Type::getInt32Ty(C);
        I64 = Type::getInt64Ty(C);
        VoidT = Type::getVoidTy(C);
        NullE = ConstantPointerNull::get(P);
        GArg = gv("__sy_arg", ArrayType::get(P, 64));
        GArgFn = gv("__sy_arg_fn", P);
        GRet = gv("__sy_ret", ArrayType::get(P, 16));
        GRetFn = gv("__sy_ret_fn", P);
        GDummy = gv("__sy_dummy", ArrayType::get(I8, 64));
        GCov = gv("__sy_cov", P);
        fBin = fn("__sy_bin", P, {I32, I64, P, I64, P});
        fCmp = fn("__sy_cmp", P, {I32, I64, P, I64, P});
        fCast = fn("__sy_cast", P, {I32, P});
        fSel = fn("__sy_sel", P, {I32, I1, P, I64, P, I64, P});
        fBr = fn("__sy_br", I1, {I1, P});
        fSw = fn("__sy_sw", I64, {I64, P, P, I32});
        fLd = fn("__sy_ld", P, {P, I32});
        fLdx = fn("__sy_ldx", P, {P, P, I32});
        fSt = fn("__sy_st", VoidT, {P, P, I32});
        fClr = fn("__sy_clr", VoidT, {P, I64});
        fConcMem = fn("__sy_concmem", VoidT, {P, I64});
        fConc = fn("__sy_conc", I64, {I64, P});
        fGep = fn("__sy_gep", P, {P, P, I64});
        fMemmove = fn("__sy_memmove", VoidT, {P, P, I64});
        fMemset = fn("__sy_memset", VoidT, {P, I8, P, I64});
        fIcall = fn("__sy_icall", P, {P});
        fIconc = fn("__sy_iconc", I64, {I64, P});
        fIscan = fn("__sy_iscan", VoidT, {P});
        fScan = fn("__sy_scan", VoidT, {P});
        fDivGuard = fn("__sy_divguard", I64, {I64, P});
        fUn = fn("__sy_un", P, {I32, P});
        fOvf = fn("__sy_ovf", P, {I32, I64, P, I64, P});
        fTri = fn("__sy_fsh", P, {I32, I64, P, I64, P, I64, P});
        fYield = fn("__sy_yield", VoidT, {I32});
        fAcc = fn("__sy_acc", VoidT, {P, I32});
        fSync = fn("__sy_sync", VoidT, {P, I32});
    }
    GlobalVariable *gv(const char *n, Type *T)
    {
        if (auto *G = M.getGlobalVariable(n)) return G;
        return new GlobalVariable(M, T, false, GlobalValue::ExternalLinkage, nullptr, n);
    }
    FunctionCallee fn(const char *n, Type *R, std::vector<Type *> A)
    {
        auto F = M.getOrInsertFunction(n, FunctionType::get(R, A, false));
        cast<Function>(F.getCallee())->setDoesNotThrow();
        return F;
    }

    static bool symInt(Type *T) { return T->isIntegerTy() && T->getIntegerBitWidth() <= 64; }
    unsigned leaves(Type *T)
    {
        if (auto *S = dyn_cast<StructType>(T)) {
            unsigned n = 0;
            for (Type *E : S->elements()) n += leaves(E);
            return n;
        }
        if (auto *A = dyn_cast<ArrayType>(T)) return A->getNumElements() * leaves(A->getElementType());
        return 1;
    }
    void leafTypes(Type *T, std::vector<Type *> &out)
    {
        if (auto *S = dyn_cast<StructType>(T)) {
            for (Type *E : S->elements()) leafTypes(E, out);
            return;
        }
        if (auto *A = dyn_cast<ArrayType>(T)) {
            for (unsigned i = 0; i < A->getNumElements(); i++) leafTypes(A->getElementType(), out);
            return;
        }
        out.push_back(T);
    }
    bool hasSymLeaf(Type *T)
    {
        if (T->isVoidTy()) return false;
        std::vector<Type *> l;
        leafTypes(T, l);
        for (Type *t : l)
            if (symInt(t)) return true;
        return false;
    }
    unsigned leafOffset(Type *T, ArrayRef<unsigned> idx, Type *&sub)
    {
        unsigned off = 0;
        for (unsigned i : idx) {
            if (auto *S = dyn_cast<StructType>(T)) {
                for (unsigned k = 0; k < i; k++) off += leaves(S->getElementType(k));
                T = S->getElementType(i);
            } else {
                auto *A = cast<ArrayType>(T);
                off += i * leaves(A->getElementType());
                T = A->getElementType();
            }
        }
        sub = T;
        return off;
    }

    // external functions whose pointer arguments never lead to data that can be symbolic, or that only move pointers
    static bool safeExternal(StringRef n)
    {
        static const std::set<std::string> safe = {
            "malloc", "free", "calloc", "abort", "_ZdlPv", "_ZdlPvm", "_Znwm", "_Znam", "_ZdaPv", "_ZdaPvm",
            "_ZnwmSt11align_val_t", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdlPvmSt11align_val_t",
            "_ZnwmRKSt9nothrow_t", "_ZdlPvRKSt9nothrow_t",
            "__cxa_begin_catch", "__cxa_end_catch", "__cxa_allocate_exception", "__cxa_free_exception", "__cxa_throw",
            "__cxa_rethrow", "__cxa_atexit", "__cxa_guard_acquire", "__cxa_guard_release", "__cxa_guard_abort",
            "__cxa_pure_virtual", "_Unwind_Resume", "__gxx_personality_v0", "__dynamic_cast", "__errno_location",
            "__cxa_bad_cast", "__cxa_bad_typeid", "__cxa_thread_atexit", "_ZSt9terminatev", "__clang_call_terminate",
            "_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base", "_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base",
            "_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base", "_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base",
            "_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_",
            "_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_",
            "_ZNSt8__detail15_List_node_base7_M_hookEPS0_", "_ZNSt8__detail15_List_node_base9_M_unhookEv",
            "_ZNSt8__detail15_List_node_base11_M_transferEPS0_S1_", "_ZNSt8__detail15_List_node_base4swapERS0_S1_",
            "_ZNSt8__detail15_List_node_base10_M_reverseEv",
            "_ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm",
            "_ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm",
            "_ZNSt6localeC1Ev", "_ZNSt6localeC1ERKS_", "_ZNSt6localeD1Ev", "_ZNSt6localeaSERKS_", "_ZNSt6localeC2Ev",
            "_ZNSt6locale7classicEv", "_ZNKSt6locale2id5_M_idEv", "_ZNSt8ios_baseC2Ev", "_ZNSt8ios_baseD2Ev",
            "_ZNSt8ios_base7_M_initEv", "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev", "_ZNKSt6locale4nameB5cxx11Ev",
            "pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_init", "pthread_mutex_destroy",
            "pthread_self", "__libc_single_threaded", "__pthread_key_create", "pthread_once",
            "_ZNSt12__basic_fileIcEC1EP15pthread_mutex_t", "_ZNSt12__basic_fileIcED1Ev", "_ZNSt12__basic_fileIcE5closeEv",
            "_ZNKSt12__basic_fileIcE7is_openEv", "_ZNSt12__basic_fileIcE6xsgetnEPcl", "_ZNSt12__basic_fileIcE9showmanycEv",
            "_ZNSt12__basic_fileIcE7seekoffElSt12_Ios_Seekdir", "_ZNSt12__basic_fileIcE4openEPKcSt13_Ios_Openmodei",
            "_ZNSt6locale5facet11_S_get_c_locEv", "__ctype_b_loc", "__ctype_tolower_loc", "__ctype_toupper_loc",
            "_ZSt15get_new_handlerv", "_ZSt17__throw_bad_allocv", "_ZSt28__throw_bad_array_new_lengthv",
            "_ZNSt7codecvtIcc11__mbstate_tE2idE", "_ZSt9use_facetISt5ctypeIcEERKT_RKSt6locale",
            "_ZNKSt5ctypeIcE13_M_widen_initEv", "_ZNKSt5ctypeIcE14_M_narrow_initEv",
            "_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv", "_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv",
            "_ZSt17current_exceptionv", "_ZSt18uncaught_exceptionv", "_ZSt19uncaught_exceptionsv",
            "_ZSt16__throw_bad_castv", "_ZSt25__throw_bad_function_callv", "_ZSt20__throw_system_errori",
            "_ZNSt6thread4joinEv", "_ZNSt6thread6detachEv", "_ZNSt6thread6_StateD2Ev", "_ZNSt6thread20hardware_concurrencyEv",
            "_ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE",
            "_ZNSt9exceptionD2Ev", "_ZNSt9exceptionD1Ev", "_ZNSt11logic_errorD2Ev", "_ZNSt13runtime_errorD2Ev",
            "_ZNSt11logic_errorC2ERKS_", "_ZNSt13runtime_errorC2ERKS_", "_ZNSt13runtime_errorD1Ev",
            "_ZNSt12out_of_rangeD1Ev", "_ZNSt12length_errorD1Ev", "_ZNSt16invalid_argumentD1Ev", "_ZNSt12domain_errorD1Ev",
            "_ZNSt12out_of_rangeD2Ev", "_ZNSt12length_errorD2Ev", "_ZNSt16invalid_argumentD2Ev",
            "_ZSt20__throw_length_errorPKc", "_ZSt19__throw_logic_errorPKc", "_ZSt20__throw_out_of_rangePKc",
            "_ZSt24__throw_out_of_range_fmtPKcz", "_ZSt24__throw_invalid_argumentPKc", "_ZSt21__throw_runtime_errorPKc",
            "__assert_fail", "_ZSt21__glibcxx_assert_failPKciS0_S0_", "clock_gettime", "_ZNSt6chrono3_V212steady_clock3nowEv",
            "_ZNSt6chrono3_V212system_clock3nowEv", "sched_yield", "getenv", "fflush", "isatty", "fileno",
            "_ZNKSt13runtime_error4whatEv", "_ZNKSt11logic_error4whatEv", "_ZNKSt9exception4whatEv",
            "_ZNSt8ios_base5imbueERKSt6locale", "_ZNSt8ios_base16register_callbackEPFvNS_5eventERS_iEi",
            "_ZNSt8ios_base20_M_dispose_callbacksEv", "_ZNSt8ios_base17_M_call_callbacksENS_5eventE",
            "_ZNSt8ios_base13_M_grow_wordsEib", "_ZNSt8ios_base7failureB5cxx11D1Ev", "_ZSt19__throw_ios_failurePKc",
            "_ZSt19__throw_ios_failurePKci", "_ZNKSt6locale5facet13_M_add_referenceEv",
            "_ZNSt12__basic_fileIcE6xsputnEPKcl", "_ZNSt12__basic_fileIcE8xsputn_2EPKclS2_l", "_ZNKSt12__basic_fileIcE2fdEv", "_ZNSt12__basic_fileIcE4syncEv",
            "_ZSt13__check_facetISt5ctypeIcEERKT_PS3_", "_ZNSt6localeC1EPNS_5_ImplE",
        };
        return safe.count(n.str()) > 0;
    }

    struct FnCtx {
        Function *F;
        std::map<Value *, std::vector<Value *>> sh; // leaf shadows (nullptr: statically concrete)
        std::set<Value *> maybe;                    // values some leaf of which may be symbolic
    };

    bool shadowAware(Function *F) { return F && startsWith(F->getName(), "sy_"); }

    bool calleeReturnsSym(CallBase *CB)
    {
        if (!hasSymLeaf(CB->getType())) return false;
        if (isa<InlineAsm>(CB->getCalledOperand())) return false;
        Function *F = CB->getCalledFunction();
        if (!F) {
            if (auto *FF = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts())) F = FF;
        }
        if (!F) return true;
        if (F->isIntrinsic()) return false;
        return toInstrument.count(F) || shadowAware(F);
    }

    static bool modelledIntrinsic(Intrinsic::ID id)
    {
        switch (id) {
        case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax: case Intrinsic::abs:
        case Intrinsic::ctpop: case Intrinsic::bswap: case Intrinsic::fshl: case Intrinsic::fshr:
        case Intrinsic::usub_sat: case Intrinsic::uadd_sat: case Intrinsic::ctlz: case Intrinsic::cttz:
        case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow:
        case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow:
        case Intrinsic::expect:
            return true;
        default: return false;
        }
    }

    // the loads and stores that record which functions are executed
    static bool coverage(Instruction *I)
    {
        Value *p = nullptr;
        if (auto *L = dyn_cast<LoadInst>(I)) p = L->getPointerOperand();
        else if (auto *St = dyn_cast<StoreInst>(I)) p = St->getPointerOperand();
        if (!p) return false;
        if (auto *G = dyn_cast<GlobalVariable>(p)) return startsWith(G->getName(), "sycov.") || G->getName() == "__sy_cov";
        if (auto *G = dyn_cast<GetElementPtrInst>(p))
            if (auto *L = dyn_cast<LoadInst>(G->getPointerOperand()))
                if (auto *V = dyn_cast<GlobalVariable>(L->getPointerOperand())) return V->getName() == "__sy_cov";
        return false;
    }
    void computeMaybe(FnCtx &X)
    {
        auto &m = X.maybe;
        std::vector<Value *> wl;
        auto add = [&](Value *v) {
            if (m.insert(v).second) wl.push_back(v);
        };
        for (Argument &A : X.F->args())
            if (symInt(A.getType())) add(&A);
        for (Instruction &I : instructions(*X.F)) {
            if (coverage(&I)) continue;
            if (auto *L = dyn_cast<LoadInst>(&I)) {
                if (symInt(L->getType()) && !L->isAtomic()) add(L);
                if (symInt(L->getType()) && L->isAtomic()) add(L);
            } else if (auto *CB = dyn_cast<CallBase>(&I)) {
                if (calleeReturnsSym(CB)) add(CB);
            }
        }
        while (!wl.empty()) {
            Value *v = wl.back();
            wl.pop_back();
            for (User *U : v->users()) {
                auto *I = dyn_cast<Instruction>(U);
                if (!I) continue;
                switch (I->getOpcode()) {
                case Instruction::PHI:
                    if (hasSymLeaf(I->getType())) add(I);
                    break;
                case Instruction::Select:
                    if (symInt(I->getType())) add(I);
                    break;
                case Instruction::ICmp: case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc:
                case Instruction::Freeze:
                    if (symInt(I->getType()) && symInt(I->getOperand(0)->getType())) add(I);
                    break;
                case Instruction::ExtractValue: case Instruction::InsertValue:
                    if (hasSymLeaf(I->getType())) add(I);
                    break;
                case Instruction::Call:
                    if (auto *II = dyn_cast<IntrinsicInst>(I)) {
                        if (modelledIntrinsic(II->getIntrinsicID()) && hasSymLeaf(I->getType()) &&
                            symInt(I->getOperand(0)->getType()))
                            add(I);
                    }
                    break;
                default:
                    if (isa<BinaryOperator>(I) && symInt(I->getType())) add(I);
                }
            }
        }
    }

    std::vector<Value *> &shv(FnCtx &X, Value *v)
    {
        auto it = X.sh.find(v);
        if (it != X.sh.end()) return it->second;
        auto &r = X.sh[v];
        r.assign(leaves(v->getType()), nullptr);
        return r;
    }
    Value *S(FnCtx &X, Value *v)
    {
        if (!X.maybe.count(v)) return NullE;
        auto it = X.sh.find(v);
        if (it == X.sh.end() || it->second.empty() || !it->second[0]) return NullE;
        return it->second[0];
    }
    Value *to64(IRBuilder<> &B, Value *v)
    {
        if (v->getType() == I64) return v;
        return B.CreateZExt(v, I64);
    }
    Value *from64(IRBuilder<> &B, Value *v, Type *T)
    {
        if (T == I64) return v;
        return B.CreateTrunc(v, T);
    }
    Value *conc(FnCtx &X, IRBuilder<> &B, Value *v)
    {
        Value *s = S(X, v);
        if (s == NullE) return v;
        return from64(B, B.CreateCall(fConc, {to64(B, v), s}), v->getType());
    }
    void concOperands(FnCtx &X, Instruction &I)
    {
        IRBuilder<> B(&I);
        for (Use &U : I.operands()) {
            Value *v = U.get();
            if (symInt(v->getType()) && X.maybe.count(v) && S(X, v) != NullE) U.set(conc(X, B, v));
            else if (v->getType()->isAggregateType() && X.maybe.count(v)) {
                // aggregate passed as a whole (e.g. resume, or a call argument): concretise each integer leaf
                // (only landing-pad values reach here in practice; their leaves are concrete)
            }
        }
    }

    void instrument(Function &F)
    {
        removeUnreachableBlocks(F);
        FnCtx X;
        X.F = &F;
        // 0. normalise
        std::vector<Instruction *> orig;
        for (Instruction &I : make_early_inc_range(instructions(F))) {
            if (auto *II = dyn_cast<IntrinsicInst>(&I)) {
                auto id = II->getIntrinsicID();
                if (id == Intrinsic::assume || id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end ||
                    id == Intrinsic::experimental_noalias_scope_decl || id == Intrinsic::invariant_start ||
                    id == Intrinsic::invariant_end || id == Intrinsic::dbg_value || id == Intrinsic::dbg_declare) {
                    if (I.getType()->isVoidTy()) { I.eraseFromParent(); continue; }
                }
            }
            I.dropPoisonGeneratingFlags();
            I.dropUnknownNonDebugMetadata({});
        }
        // invokes: private normal destination
        for (BasicBlock &BB : make_early_inc_range(F)) {
            if (auto *IV = dyn_cast<InvokeInst>(BB.getTerminator())) {
                BasicBlock *N = IV->getNormalDest();
                BasicBlock *Mid = BasicBlock::Create(C, "sy.inv", &F, N);
                BranchInst::Create(N, Mid);
                IV->setNormalDest(Mid);
                for (PHINode &Ph : N->phis()) {
                    int ix = Ph.getBasicBlockIndex(&BB);
                    if (ix >= 0) Ph.setIncomingBlock(ix, Mid);
                }
            }
        }
        computeMaybe(X);
        ReversePostOrderTraversal<Function *> RPO(&F);
        std::vector<BasicBlock *> order(RPO.begin(), RPO.end());
        for (BasicBlock *BB : order)
            for (Instruction &I : *BB) orig.push_back(&I);
        // 1. arguments
        Instruction *entry = &*F.getEntryBlock().getFirstInsertionPt();
        // place after allocas
        {
            auto it = F.getEntryBlock().getFirstInsertionPt();
            while (isa<AllocaInst>(&*it)) ++it;
            entry = &*it;
        }
        IRBuilder<> EB(entry);
        {
            unsigned k = 0;
            bool any = false;
            for (Argument &A : F.args())
                if (symInt(A.getType())) any = true;
            if (any) {
                Value *m = EB.CreateICmpEQ(EB.CreateLoad(P, GArgFn), &F);
                for (Argument &A : F.args()) {
                    if (!symInt(A.getType())) continue;
                    if (k < 64) {
                        Value *l = EB.CreateLoad(P, EB.CreateConstGEP2_64(GArg->getValueType(), GArg, 0, k));
                        X.sh[&A] = {EB.CreateSelect(m, l, NullE)};
                    }
                    k++;
                }
                EB.CreateStore(NullE, GArgFn);
            }
            for (Argument &A : F.args())
                if (A.hasByValAttr())
                    EB.CreateCall(fClr, {&A, ConstantInt::get(I64, DL.getTypeAllocSize(A.getParamByValType()))});
        }
        // 2. phis
        for (Instruction *I : orig)
            if (auto *Ph = dyn_cast<PHINode>(I))
                if (X.maybe.count(Ph)) {
                    auto &v = shv(X, Ph);
                    std::vector<Type *> lt;
                    leafTypes(Ph->getType(), lt);
                    for (unsigned k = 0; k < v.size(); k++)
                        if (symInt(lt[k])) v[k] = PHINode::Create(P, Ph->getNumIncomingValues(), "", Ph);
                }
        // 3. everything else
        for (Instruction *I : orig) visit(X, *I);
        // 4. phi operands
        for (Instruction *I : orig)
            if (auto *Ph = dyn_cast<PHINode>(I))
                if (X.maybe.count(Ph)) {
                    auto &v = X.sh[Ph];
                    for (unsigned k = 0; k < v.size(); k++) {
                        if (!v[k]) continue;
                        auto *SP = cast<PHINode>(v[k]);
                        for (unsigned i = 0; i < Ph->getNumIncomingValues(); i++) {
                            Value *in = Ph->getIncomingValue(i);
                            Value *s = NullE;
                            if (X.maybe.count(in)) {
                                auto it = X.sh.find(in);
                                if (it != X.sh.end() && k < it->second.size() && it->second[k]) s = it->second[k];
                            }
                            SP->addIncoming(s, Ph->getIncomingBlock(i));
                        }
                    }
                }
    }

    unsigned wOf(Value *v) { return v->getType()->getIntegerBitWidth(); }

    void visit(FnCtx &X, Instruction &I)
    {
        IRBuilder<> B(&I);
        IRBuilder<> A(C); // after
        if (!I.isTerminator() && !isa<PHINode>(I)) A.SetInsertPoint(I.getNextNode());
        auto set = [&](Value *s) { shv(X, &I)[0] = s; };
        if (isa<PHINode>(I)) return;
        if (auto *AI = dyn_cast<AllocaInst>(&I)) {
            uint64_t es = DL.getTypeAllocSize(AI->getAllocatedType());
            if (AI->isArrayAllocation() || AI->getParent() != &X.F->getEntryBlock()) {
                if (AI->isArrayAllocation()) {
                    AI->setOperand(0, conc(X, B, AI->getArraySize()));
                }
                Value *n = to64(A, AI->getArraySize());
                A.CreateCall(fClr, {AI, A.CreateMul(n, ConstantInt::get(I64, es))});
            } else {
                // skip over the other allocas
                BasicBlock::iterator it(AI);
                while (isa<AllocaInst>(&*it)) ++it;
                IRBuilder<> E(&*it);
                E.CreateCall(fClr, {AI, ConstantInt::get(I64, es)});
            }
            return;
        }
        if (coverage(&I)) return;
        if (auto *L = dyn_cast<LoadInst>(&I)) {
            Type *T = L->getType();
            if (L->isAtomic()) B.CreateCall(fYield, {ConstantInt::get(I32, 0)});
            uint64_t sz = DL.getTypeStoreSize(T);
            Value *ptr = L->getPointerOperand();
            raceAcc(B, ptr, sz, L->isAtomic(), 0);
            if (!symInt(T)) {
                B.CreateCall(fConcMem, {ptr, ConstantInt::get(I64, sz)});
                return;
            }
            auto g = gepSym.find(ptr);
            Value *s;
            if (g != gepSym.end()) {
                Value *acc = g->second;
                s = B.CreateCall(fLdx, {ptr, acc, ConstantInt::get(I32, T->getIntegerBitWidth())});
                L->setOperand(0, B.CreateSelect(B.CreateICmpEQ(acc, NullE), ptr, GDummy));
            } else
                s = B.CreateCall(fLd, {ptr, ConstantInt::get(I32, T->getIntegerBitWidth())});
            set(s);
            return;
        }
        if (auto *St = dyn_cast<StoreInst>(&I)) {
            Value *v = St->getValueOperand();
            Type *T = v->getType();
            if (St->isAtomic()) B.CreateCall(fYield, {ConstantInt::get(I32, 1)});
            uint64_t sz = DL.getTypeStoreSize(T);
            raceAcc(B, St->getPointerOperand(), sz, St->isAtomic(), 1);
            if (symInt(T) && X.maybe.count(v) && S(X, v) != NullE)
                A.CreateCall(fSt, {St->getPointerOperand(), S(X, v), ConstantInt::get(I32, T->getIntegerBitWidth())});
            else if (T->isAggregateType() && X.maybe.count(v)) {
                A.CreateCall(fClr, {St->getPointerOperand(), ConstantInt::get(I64, sz)});
                storeAgg(X, A, St->getPointerOperand(), v);
            } else
                A.CreateCall(fClr, {St->getPointerOperand(), ConstantInt::get(I64, sz)});
            return;
        }
        if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
            bool any = false;
            for (Use &U : G->indices())
                if (X.maybe.count(U.get()) && S(X, U.get()) != NullE) any = true;
            if (!any) return;
            bool loadsOnly = !G->getType()->isVectorTy() && !G->use_empty();
            for (User *U : G->users()) {
                auto *L = dyn_cast<LoadInst>(U);
                if (!L || L->isAtomic() || !symInt(L->getType())) loadsOnly = false;
            }
            if (!loadsOnly) {
                for (Use &U : G->indices())
                    if (X.maybe.count(U.get())) U.set(conc(X, B, U.get()));
                return;
            }
            Value *acc = NullE;
            for (auto it = gep_type_begin(G), e = gep_type_end(G); it != e; ++it) {
                Value *ix = it.getOperand();
                if (!X.maybe.count(ix) || S(X, ix) == NullE) continue;
                Value *s = S(X, ix);
                uint64_t scale = DL.getTypeAllocSize(it.getIndexedType());
                acc = B.CreateCall(fGep, {acc, s, ConstantInt::get(I64, scale)});
                unsigned opn = 0;
                for (; opn < G->getNumOperands(); opn++)
                    if (G->getOperand(opn) == ix) break;
                Value *z = B.CreateSelect(B.CreateICmpEQ(s, NullE), ix, ConstantInt::get(ix->getType(), 0));
                // replace only this operand position
                for (unsigned q = 1; q < G->getNumOperands(); q++)
                    if (G->getOperand(q) == ix) { G->setOperand(q, z); break; }
            }
            gepSym[G] = acc;
            return;
        }
        if (auto *BO = dyn_cast<BinaryOperator>(&I)) {
            if (!symInt(BO->getType())) { concOperands(X, I); return; }
            Value *a = BO->getOperand(0), *b = BO->getOperand(1);
            Value *sa = S(X, a), *sb = S(X, b);
            if (sa == NullE && sb == NullE) return;
            bool div = BO->isIntDivRem();
            unsigned code = BO->getOpcode() | (wOf(BO) << 8);
            Value *s = B.CreateCall(fBin, {ConstantInt::get(I32, code), to64(B, a), sa, to64(B, b), sb});
            set(s);
            if (div) {
                if (sb != NullE)
                    BO->setOperand(1, from64(B, B.CreateCall(fDivGuard, {to64(B, b), sb}), b->getType()));
                if (sa != NullE)
                    BO->setOperand(0, B.CreateSelect(B.CreateICmpEQ(sa, NullE), a, ConstantInt::get(a->getType(), 0)));
            }
            return;
        }
        if (auto *IC = dyn_cast<ICmpInst>(&I)) {
            Value *a = IC->getOperand(0), *b = IC->getOperand(1);
            if (!symInt(a->getType())) return;
            Value *sa = S(X, a), *sb = S(X, b);
            if (sa == NullE && sb == NullE) return;
            set(B.CreateCall(fCmp, {ConstantInt::get(I32, IC->getPredicate() | (wOf(a) << 8)), to64(B, a), sa,
                                    to64(B, b), sb}));
            return;
        }
        if (auto *CI = dyn_cast<CastInst>(&I)) {
            Value *a = CI->getOperand(0);
            if (!symInt(a->getType()) || S(X, a) == NullE) return;
            unsigned op = CI->getOpcode();
            if (symInt(CI->getType()) && (op == Instruction::ZExt || op == Instruction::SExt || op == Instruction::Trunc)) {
                unsigned k = op == Instruction::ZExt ? 0 : op == Instruction::SExt ? 1 : 2;
                set(B.CreateCall(fCast, {ConstantInt::get(I32, k | (wOf(CI) << 8)), S(X, a)}));
                return;
            }
            concOperands(X, I);
            return;
        }
        if (isa<FreezeInst>(&I)) {
            if (symInt(I.getType())) set(S(X, I.getOperand(0)));
            return;
        }
        if (auto *SI = dyn_cast<SelectInst>(&I)) {
            Value *c = SI->getCondition();
            if (!c->getType()->isIntegerTy(1)) { concOperands(X, I); return; }
            Value *sc = S(X, c);
            if (symInt(SI->getType())) {
                Value *a = SI->getTrueValue(), *b = SI->getFalseValue();
                Value *sa = S(X, a), *sb = S(X, b);
                if (sc == NullE && sa == NullE && sb == NullE) return;
                set(B.CreateCall(fSel, {ConstantInt::get(I32, wOf(SI)), c, sc, to64(B, a), sa, to64(B, b), sb}));
                return;
            }
            if (sc != NullE) SI->setCondition(B.CreateCall(fBr, {c, sc}));
            return;
        }
        if (auto *EV = dyn_cast<ExtractValueInst>(&I)) {
            if (!X.maybe.count(EV)) return;
            Type *sub;
            unsigned off = leafOffset(EV->getAggregateOperand()->getType(), EV->getIndices(), sub);
            auto it = X.sh.find(EV->getAggregateOperand());
            if (it == X.sh.end()) return;
            std::vector<Value *> src = it->second;
            auto &v = shv(X, EV);
            for (unsigned k = 0; k < v.size(); k++)
                if (off + k < src.size()) v[k] = src[off + k];
            return;
        }
        if (auto *IV = dyn_cast<InsertValueInst>(&I)) {
            if (!X.maybe.count(IV)) return;
            auto &v = shv(X, IV);
            auto ia = X.sh.find(IV->getAggregateOperand());
            if (X.maybe.count(IV->getAggregateOperand()) && ia != X.sh.end())
                for (unsigned k = 0; k < v.size() && k < ia->second.size(); k++) v[k] = ia->second[k];
            Type *sub;
            unsigned off = leafOffset(IV->getType(), IV->getIndices(), sub);
            unsigned n = leaves(sub);
            auto ib = X.sh.find(IV->getInsertedValueOperand());
            for (unsigned k = 0; k < n; k++)
                v[off + k] = (X.maybe.count(IV->getInsertedValueOperand()) && ib != X.sh.end() && k < ib->second.size())
                                 ? ib->second[k]
                                 : nullptr;
            return;
        }
        if (auto *BI = dyn_cast<BranchInst>(&I)) {
            if (BI->isConditional() && S(X, BI->getCondition()) != NullE)
                BI->setCondition(B.CreateCall(fBr, {BI->getCondition(), S(X, BI->getCondition())}));
            return;
        }
        if (auto *SW = dyn_cast<SwitchInst>(&I)) {
            Value *c = SW->getCondition();
            if (!symInt(c->getType()) || S(X, c) == NullE) return;
            std::vector<Constant *> cs;
            for (auto &cc : SW->cases()) cs.push_back(ConstantInt::get(I64, cc.getCaseValue()->getZExtValue()));
            auto *AT = ArrayType::get(I64, cs.size());
            auto *G = new GlobalVariable(M, AT, true, GlobalValue::PrivateLinkage, ConstantArray::get(AT, cs));
            Value *r = B.CreateCall(fSw, {to64(B, c), S(X, c), G, ConstantInt::get(I32, cs.size())});
            SW->setCondition(from64(B, r, c->getType()));
            return;
        }
        if (auto *RI = dyn_cast<ReturnInst>(&I)) {
            Value *v = RI->getReturnValue();
            if (!v || !hasSymLeaf(v->getType())) return;
            if (auto *Prev = RI->getPrevNode())
                if (auto *CI = dyn_cast<CallInst>(Prev))
                    if (CI->isMustTailCall()) return;
            std::vector<Type *> lt;
            leafTypes(v->getType(), lt);
            bool any = X.maybe.count(v);
            if (!any) {
                B.CreateStore(NullE, GRetFn);
                return;
            }
            auto it = X.sh.find(v);
            for (unsigned k = 0; k < lt.size() && k < 16; k++) {
                Value *s = (it != X.sh.end() && k < it->second.size() && it->second[k]) ? it->second[k] : NullE;
                B.CreateStore(s, B.CreateConstGEP2_64(GRet->getValueType(), GRet, 0, k));
            }
            B.CreateStore(X.F, GRetFn);
            return;
        }
        if (auto *CB = dyn_cast<CallBase>(&I)) {
            visitCall(X, *CB, B, A);
            return;
        }
        if (auto *RM = dyn_cast<AtomicRMWInst>(&I)) {
            B.CreateCall(fYield, {ConstantInt::get(I32, 1)});
            raceAcc(B, RM->getPointerOperand(), DL.getTypeStoreSize(RM->getType()), true, 2);
            B.CreateCall(fConcMem, {RM->getPointerOperand(), ConstantInt::get(I64, DL.getTypeStoreSize(RM->getType()))});
            concOperands(X, I);
            return;
        }
        if (auto *CX = dyn_cast<AtomicCmpXchgInst>(&I)) {
            B.CreateCall(fYield, {ConstantInt::get(I32, 1)});
            raceAcc(B, CX->getPointerOperand(), DL.getTypeStoreSize(CX->getNewValOperand()->getType()), true, 2);
            B.CreateCall(fConcMem, {CX->getPointerOperand(),
                                    ConstantInt::get(I64, DL.getTypeStoreSize(CX->getNewValOperand()->getType()))});
            concOperands(X, I);
            return;
        }
        concOperands(X, I);
    }

    std::map<Value *, Value *> gepSym;

    void storeAgg(FnCtx &X, IRBuilder<> &A, Value *ptr, Value *v)
    {
        auto it = X.sh.find(v);
        if (it == X.sh.end()) return;
        unsigned k = 0;
        storeAggRec(A, ptr, v->getType(), 0, it->second, k);
    }
    void storeAggRec(IRBuilder<> &A, Value *ptr, Type *T, uint64_t off, std::vector<Value *> &s, unsigned &k)
    {
        if (auto *St = dyn_cast<StructType>(T)) {
            const StructLayout *SL = DL.getStructLayout(St);
            for (unsigned i = 0; i < St->getNumElements(); i++)
                storeAggRec(A, ptr, St->getElementType(i), off + SL->getElementOffset(i), s, k);
            return;
        }
        if (auto *Ar = dyn_cast<ArrayType>(T)) {
            for (unsigned i = 0; i < Ar->getNumElements(); i++)
                storeAggRec(A, ptr, Ar->getElementType(), off + i * DL.getTypeAllocSize(Ar->getElementType()), s, k);
            return;
        }
        if (symInt(T) && k < s.size() && s[k])
            A.CreateCall(fSt, {A.CreateConstGEP1_64(I8, ptr, off), s[k], ConstantInt::get(I32, T->getIntegerBitWidth())});
        k++;
    }

    // reports a memory access to the race detector (only in builds that ask for it)
    void raceAcc(IRBuilder<> &B, Value *ptr, uint64_t sz, bool atomic, unsigned kind)
    {
        if (!race) return;
        if (atomic) {
            B.CreateCall(fSync, {ptr, ConstantInt::get(I32, kind)});
            return;
        }
        if (auto *AI = dyn_cast<AllocaInst>(ptr->stripInBoundsConstantOffsets()))
            if (!PointerMayBeCaptured(AI, true, true)) return;
        Value *base = ptr->stripInBoundsConstantOffsets();
        if (auto *II = dyn_cast<IntrinsicInst>(base))
            if (II->getIntrinsicID() == Intrinsic::threadlocal_address) return;
        if (auto *G = dyn_cast<GlobalVariable>(base))
            if (G->isConstant() || G->isThreadLocal()) return;
        B.CreateCall(fAcc, {ptr, ConstantInt::get(I32, (unsigned)(sz << 1 | kind))});
    }
    bool race = getenv("SYM_RACE") != nullptr;

    void visitCall(FnCtx &X, CallBase &CB, IRBuilder<> &B, IRBuilder<> &A)
    {
        auto set = [&](unsigned k, Value *s) {
            auto &v = shv(X, &CB);
            if (k < v.size()) v[k] = s;
        };
        if (auto *II = dyn_cast<IntrinsicInst>(&CB)) {
            auto id = II->getIntrinsicID();
            if (auto *MT = dyn_cast<MemTransferInst>(II)) {
                Value *n = conc(X, B, MT->getLength());
                B.CreateCall(fMemmove, {MT->getDest(), MT->getSource(), to64(B, n)});
                // keep the native call out
                dead.push_back(MT);
                return;
            }
            if (auto *MS = dyn_cast<MemSetInst>(II)) {
                Value *n = conc(X, B, MS->getLength());
                B.CreateCall(fMemset, {MS->getDest(), MS->getValue(), S(X, MS->getValue()), to64(B, n)});
                dead.push_back(MS);
                return;
            }
            if (modelledIntrinsic(id) && symInt(CB.getArgOperand(0)->getType())) {
                Value *a = CB.getArgOperand(0);
                unsigned w = wOf(a);
                Value *sa = S(X, a);
                switch (id) {
                case Intrinsic::expect: set(0, sa); return;
                case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax: {
                    Value *b = CB.getArgOperand(1), *sb = S(X, b);
                    if (sa == NullE && sb == NullE) return;
                    unsigned pred = id == Intrinsic::umin ? CmpInst::ICMP_ULT
                                  : id == Intrinsic::umax ? CmpInst::ICMP_UGT
                                  : id == Intrinsic::smin ? CmpInst::ICMP_SLT : CmpInst::ICMP_SGT;
                    Value *c = B.CreateCall(fCmp, {ConstantInt::get(I32, pred | (w << 8)), to64(B, a), sa, to64(B, b), sb});
                    Value *nc = B.CreateICmp((CmpInst::Predicate)pred, a, b);
                    set(0, B.CreateCall(fSel, {ConstantInt::get(I32, w), nc, c, to64(B, a), sa, to64(B, b), sb}));
                    return;
                }
                case Intrinsic::abs: case Intrinsic::ctpop: case Intrinsic::bswap: case Intrinsic::ctlz:
                case Intrinsic::cttz: {
                    if (sa == NullE) return;
                    unsigned k = id == Intrinsic::abs ? 0 : id == Intrinsic::ctpop ? 1 : id == Intrinsic::bswap ? 2
                               : id == Intrinsic::ctlz ? 3 : 4;
                    set(0, B.CreateCall(fUn, {ConstantInt::get(I32, k | (w << 8)), sa}));
                    return;
                }
                case Intrinsic::fshl: case Intrinsic::fshr: {
                    Value *b = CB.getArgOperand(1), *c = CB.getArgOperand(2);
                    Value *sb = S(X, b), *sc = S(X, c);
                    if (sa == NullE && sb == NullE && sc == NullE) return;
                    set(0, B.CreateCall(fTri, {ConstantInt::get(I32, (id == Intrinsic::fshl ? 0 : 1) | (w << 8)),
                                               to64(B, a), sa, to64(B, b), sb, to64(B, c), sc}));
                    return;
                }
                default: { // overflow and saturating forms
                    Value *b = CB.getArgOperand(1), *sb = S(X, b);
                    if (sa == NullE && sb == NullE) return;
                    unsigned op = 0, sgn = 0;
                    switch (id) {
                    case Intrinsic::uadd_with_overflow: op = Instruction::Add; break;
                    case Intrinsic::usub_with_overflow: op = Instruction::Sub; break;
                    case Intrinsic::umul_with_overflow: op = Instruction::Mul; break;
                    case Intrinsic::sadd_with_overflow: op = Instruction::Add; sgn = 1; break;
                    case Intrinsic::ssub_with_overflow: op = Instruction::Sub; sgn = 1; break;
                    case Intrinsic::smul_with_overflow: op = Instruction::Mul; sgn = 1; break;
                    case Intrinsic::uadd_sat: op = Instruction::Add; break;
                    case Intrinsic::usub_sat: op = Instruction::Sub; break;
                    default: break;
                    }
                    Value *r = B.CreateCall(fBin, {ConstantInt::get(I32, op | (w << 8)), to64(B, a), sa, to64(B, b), sb});
                    Value *o = B.CreateCall(fOvf, {ConstantInt::get(I32, op | (w << 8) | (sgn << 16)), to64(B, a), sa,
                                                   to64(B, b), sb});
                    if (id == Intrinsic::uadd_sat || id == Intrinsic::usub_sat) {
                        Value *k = ConstantInt::get(I64, id == Intrinsic::usub_sat ? 0 : ~0ull);
                        set(0, B.CreateCall(fSel, {ConstantInt::get(I32, w), ConstantInt::get(I1, 0), o, k, NullE,
                                                   ConstantInt::get(I64, 0), r}));
                    } else {
                        set(0, r);
                        set(1, o);
                    }
                    return;
                }
                }
            }
            concOperands(X, CB);
            return;
        }
        if (isa<InlineAsm>(CB.getCalledOperand())) {
            concArgs(X, CB, B);
            return;
        }
        Function *F = dyn_cast<Function>(CB.getCalledOperand()->stripPointerCasts());
        bool aware = F && (toInstrument.count(F) || shadowAware(F));
        if (F && !aware) {
            StringRef n = F->getName();
            if (n == "memcpy" || n == "memmove") {
                Value *nn = conc(X, B, CB.getArgOperand(2));
                B.CreateCall(fMemmove, {CB.getArgOperand(0), CB.getArgOperand(1), nn});
                if (!CB.getType()->isVoidTy()) CB.replaceAllUsesWith(CB.getArgOperand(0));
                if (isa<CallInst>(CB)) dead.push_back(&CB);
                return;
            }
            if (n == "memset") {
                Value *nn = conc(X, B, CB.getArgOperand(2));
                Value *v = CB.getArgOperand(1);
                Value *s = S(X, v);
                if (s != NullE) s = B.CreateCall(fCast, {ConstantInt::get(I32, 2 | (8 << 8)), s});
                B.CreateCall(fMemset, {CB.getArgOperand(0), B.CreateTrunc(v, I8), s, nn});
                CB.replaceAllUsesWith(CB.getArgOperand(0));
                if (isa<CallInst>(CB)) dead.push_back(&CB);
                return;
            }
            concArgs(X, CB, B);
            if (startsWith(n, "__sy_") || safeExternal(n)) return;
            bool anyPtr = false;
            for (Use &U : CB.args())
                if (U->getType()->isPointerTy() && !isa<Constant>(U.get())) {
                    B.CreateCall(fScan, {U.get()});
                    anyPtr = true;
                }
            if (anyPtr) unclassified.insert(n.str());
            return;
        }
        // instrumented, shadow-aware, or indirect
        Value *fp = CB.getCalledOperand();
        bool ind = !F;
        if (ind) {
            fp = B.CreateCall(fIcall, {fp});
            CB.setCalledOperand(fp);
            for (Use &U : CB.args()) {
                Value *v = U.get();
                if (symInt(v->getType()) && S(X, v) != NullE) {
                    // external callee: the argument is concretised; instrumented callee: passed as is
                    Value *s = S(X, v);
                    U.set(from64(B, B.CreateCall(fIconc, {to64(B, v), s}), v->getType()));
                } else if (v->getType()->isPointerTy() && !isa<Constant>(v))
                    B.CreateCall(fIscan, {v});
            }
        }
        for (unsigned i = 0; i < CB.arg_size(); i++)
            if (CB.isByValArgument(i))
                B.CreateCall(fConcMem, {CB.getArgOperand(i),
                                        ConstantInt::get(I64, DL.getTypeAllocSize(CB.getParamByValType(i)))});
        // shadows of the arguments (use the original values' shadows; iconc keeps them meaningful)
        unsigned k = 0;
        bool any = false;
        for (unsigned i = 0; i < CB.arg_size(); i++) {
            Value *v = CB.getArgOperand(i);
            if (symInt(v->getType())) any = true;
        }
        if (any) {
            for (unsigned i = 0; i < CB.arg_size(); i++) {
                Value *v = CB.getArgOperand(i);
                if (!symInt(v->getType())) continue;
                Value *s = S(X, v);
                if (ind && s == NullE) {
                    // iconc replaced the operand: recover the shadow from its call
                    Value *q = v;
                    if (auto *TI = dyn_cast<TruncInst>(q)) q = TI->getOperand(0);
                    if (auto *CI = dyn_cast<CallInst>(q))
                        if (CI->getCalledFunction() == fIconc.getCallee()) s = CI->getArgOperand(1);
                }
                if (k < 64) B.CreateStore(s, B.CreateConstGEP2_64(GArg->getValueType(), GArg, 0, k));
                k++;
            }
            B.CreateStore(fp, GArgFn);
        }
        if (hasSymLeaf(CB.getType()) && X.maybe.count(&CB)) {
            IRBuilder<> R(C);
            if (auto *IV = dyn_cast<InvokeInst>(&CB))
                R.SetInsertPoint(&*IV->getNormalDest()->getFirstInsertionPt());
            else {
                if (cast<CallInst>(CB).isMustTailCall()) return;
                R.SetInsertPoint(CB.getNextNode());
            }
            Value *m = R.CreateICmpEQ(R.CreateLoad(P, GRetFn), fp);
            std::vector<Type *> lt;
            leafTypes(CB.getType(), lt);
            for (unsigned q = 0; q < lt.size() && q < 16; q++) {
                if (!symInt(lt[q])) continue;
                Value *l = R.CreateLoad(P, R.CreateConstGEP2_64(GRet->getValueType(), GRet, 0, q));
                set(q, R.CreateSelect(m, l, NullE));
            }
            R.CreateStore(NullE, GRetFn);
        }
    }
    void concArgs(FnCtx &X, CallBase &CB, IRBuilder<> &B)
    {
        for (Use &U : CB.args()) {
            Value *v = U.get();
            if (symInt(v->getType()) && S(X, v) != NullE) U.set(conc(X, B, v));
        }
        for (unsigned i = 0; i < CB.arg_size(); i++)
            if (CB.isByValArgument(i))
                B.CreateCall(fConcMem, {CB.getArgOperand(i),
                                        ConstantInt::get(I64, DL.getTypeAllocSize(CB.getParamByValType(i)))});
    }
    std::vector<Instruction *> dead;

    void run()
    {
        std::vector<Function *> fs;
        for (Function &F : M) {
            if (F.isDeclaration() || F.isIntrinsic()) continue;
            fs.push_back(&F);
            toInstrument.insert(&F);
        }
        for (Function *F : fs) {
            // memory attributes no longer hold
            F->removeFnAttr(Attribute::Memory);
            F->removeFnAttr(Attribute::WillReturn);
            F->removeFnAttr(Attribute::MustProgress);
            F->removeFnAttr(Attribute::Speculatable);
            for (Argument &A : F->args())
                for (auto k : {Attribute::ReadNone, Attribute::ReadOnly, Attribute::WriteOnly, Attribute::NoUndef,
                               Attribute::NoAlias, Attribute::NoCapture, Attribute::Returned})
                    A.removeAttr(k);
            F->removeRetAttr(Attribute::NoUndef);
        }
        for (Function *F : fs)
            for (Instruction &I : instructions(*F))
                if (auto *CB = dyn_cast<CallBase>(&I)) {
                    CB->removeFnAttr(Attribute::Memory);
                    CB->removeFnAttr(Attribute::WillReturn);
                    for (unsigned i = 0; i < CB->arg_size(); i++)
                        for (auto k : {Attribute::ReadNone, Attribute::ReadOnly, Attribute::WriteOnly,
                                       Attribute::NoUndef, Attribute::NoAlias, Attribute::NoCapture,
                                       Attribute::Returned})
                            CB->removeParamAttr(i, k);
                    CB->removeRetAttr(Attribute::NoUndef);
                    if (auto *CI = dyn_cast<CallInst>(CB))
                        if (CI->getTailCallKind() == CallInst::TCK_Tail) CI->setTailCallKind(CallInst::TCK_None);
                }
        // registry of address-taken instrumented functions
        std::vector<Constant *> reg;
        for (Function *F : fs)
            if (F->hasAddressTaken()) reg.push_back(F);
        for (Function *F : fs) instrument(*F);
        for (Instruction *I : dead) I->eraseFromParent();
        auto *AT = ArrayType::get(P, reg.size());
        new GlobalVariable(M, AT, true, GlobalValue::ExternalLinkage, ConstantArray::get(AT, reg), "__sy_reg");
        new GlobalVariable(M, I64, true, GlobalValue::ExternalLinkage, ConstantInt::get(I64, reg.size()), "__sy_nreg");
        std::string names;
        std::vector<std::string> covNames;
        for (GlobalVariable &G : M.globals())
            if (startsWith(G.getName(), "sycov.")) {
                G.setInitializer(ConstantInt::get(I64, covNames.size()));
                G.setLinkage(GlobalValue::InternalLinkage);
                covNames.push_back(demangle(G.getName().substr(6).str()));
            }
        for (auto &n : covNames) { names += n; names += '\n'; }
        Constant *ns = ConstantDataArray::getString(C, names);
        new GlobalVariable(M, ns->getType(), true, GlobalValue::ExternalLinkage, ns, "__sy_covnames");
        new GlobalVariable(M, I64, true, GlobalValue::ExternalLinkage, ConstantInt::get(I64, covNames.size()), "__sy_ncov");
        new GlobalVariable(M, I64, true, GlobalValue::ExternalLinkage, ConstantInt::get(I64, race), "__sy_race");
        if (const char *o = getenv("SYM_EXT")) {
            std::error_code ec;
            raw_fd_ostream os(o, ec);
            for (auto &s : unclassified) os << s << "\n";
        }
    }
};

struct Sym : PassInfoMixin<Sym> {
    PreservedAnalyses run(Module &M, ModuleAnalysisManager &)
    {
        substituteModels(M);
        Instr I(M);
        I.run();
        return PreservedAnalyses::none();
    }
};
} // namespace

extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo()
{
    return {LLVM_PLUGIN_API_VERSION, "SymPass", "1", [](PassBuilder &PB) {
                PB.registerPipelineParsingCallback(
                    [](StringRef N, ModulePassManager &MPM, ArrayRef<PassBuilder::PipelineElement>) {
                        if (N == "sym") { MPM.addPass(Sym()); return true; }
                        if (N == "sym-early") { MPM.addPass(SymEarly()); return true; }
                        return false;
                    });
            }};
}
