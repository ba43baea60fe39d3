// SX pass: turns floating-point arithmetic of the real code into calls of the
// symbolic runtime, and redirects external functions to their models.
#include "llvm/IR/PassManager.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/raw_ostream.h"
#include <fstream>
#include <set>
#include <string>
using namespace llvm;

static std::set<std::string> load_list(const char *env){
    std::set<std::string> s;
    const char *f = getenv(env);
    if (!f) return s;
    std::ifstream in(f); std::string l;
    while (std::getline(in,l)) { while(!l.empty() && isspace(l.back())) l.pop_back(); if (!l.empty() && l[0]!='#') s.insert(l); }
    return s;
}

namespace {
struct SX : PassInfoMixin<SX> {
    static bool isRequired(){return true;}
    PreservedAnalyses run(Module &M, ModuleAnalysisManager &) {
        auto models = load_list("SX_MODELS"), safe = load_list("SX_SAFE");
        LLVMContext &C = M.getContext();
        Type *D = Type::getDoubleTy(C), *I32 = Type::getInt32Ty(C), *I64=Type::getInt64Ty(C), *V=Type::getVoidTy(C);
        PointerType *P = PointerType::getUnqual(C);
        auto F2 = [&](const char *n){ return M.getOrInsertFunction(n, D, D, D); };
        auto F1 = [&](const char *n){ return M.getOrInsertFunction(n, D, D); };
        FunctionCallee fadd=F2("sxm_fadd"), fsub=F2("sxm_fsub"), fmul=F2("sxm_fmul"), fdiv=F2("sxm_fdiv"), frem=F2("sxm_fmod");
        FunctionCallee fneg=F1("sxm_fneg");
        FunctionCallee fcmp=M.getOrInsertFunction("sxm_fcmp", I32, I32, D, D);
        FunctionCallee f2si=M.getOrInsertFunction("sxm_fptosi", I64, D), f2ui=M.getOrInsertFunction("sxm_fptoui", I64, D);
        FunctionCallee f2f=M.getOrInsertFunction("sxm_fptrunc", D, D);
        FunctionCallee fpclass=M.getOrInsertFunction("sxm_fpclass", I32, D, I32);
        FunctionCallee i2f=M.getOrInsertFunction("sxm_u64tof", D, I64);
        FunctionCallee cov=M.getOrInsertFunction("sxm_cov", V, P, P);
        FunctionCallee trap=M.getOrInsertFunction("sxm_trap", V, P);
        bool isLib = getenv("SX_COV") != nullptr;

        // 1. function-level: redirect externals
        std::vector<Function*> decls;
        for (Function &F : M) if (F.isDeclaration() && !F.isIntrinsic()) decls.push_back(&F);
        for (Function *F : decls) {
            std::string n = F->getName().str();
            if (n.rfind("\01",0)==0) n = n.substr(1);
            if (n.rfind("__isoc99_",0)==0) n = n.substr(9);
            if (n.rfind("__isoc23_",0)==0) n = n.substr(9);
            if (n.rfind("sxm_",0)==0 || n.rfind("sx_",0)==0 || n.rfind("__asan",0)==0 || n.rfind("__ubsan",0)==0|| n.rfind("__sanitizer",0)==0) continue;
            if (F->use_empty()) continue;
            if (models.count(n)) {
                FunctionCallee r = M.getOrInsertFunction("sxm_"+n, F->getFunctionType());
                F->replaceAllUsesWith(r.getCallee());
            } else if (n.rfind("apop",0)==0 || n.rfind("Apop",0)==0 || safe.count(n)) continue;
            else if (getenv("SX_INTERNAL") ) { // names defined by other modules of the library
                static auto internal = load_list("SX_INTERNAL");
                if (internal.count(n)) continue;
                // trap
                FunctionType *T = F->getFunctionType();
                Function *W = Function::Create(T, GlobalValue::InternalLinkage, "sxtrap_"+n, &M);
                BasicBlock *B = BasicBlock::Create(C, "e", W);
                IRBuilder<> IB(B);
                IB.CreateCall(trap, {IB.CreateGlobalStringPtr(n)});
                IB.CreateUnreachable();
                F->replaceAllUsesWith(W);
                if (getenv("SX_VERBOSE")) errs() << "TRAP " << n << "\n";
            }
        }
        // 2. instruction-level
        for (Function &F : M) {
            if (F.isDeclaration() || F.getName().starts_with("sxtrap_") || F.getName().starts_with("asan.")) continue;
            std::vector<Instruction*> work;
            for (Instruction &I : instructions(F)) work.push_back(&I);
            for (Instruction *I : work) {
                IRBuilder<> B(I);
                Value *R = nullptr;
                auto sc = [&](Type *T){ return T->isDoubleTy(); };
                if (auto *BO = dyn_cast<BinaryOperator>(I)) {
                    Type *T = BO->getType();
                    if (!T->isFPOrFPVectorTy()) continue;
                    if (!sc(T)) {
                        if (T->isFloatTy()) continue; // float arithmetic left native
                        errs() << "SX: unsupported fp type in " << F.getName() << ": " << *I << "\n"; continue; }
                    FunctionCallee f;
                    switch (BO->getOpcode()) {
                        case Instruction::FAdd: f=fadd; break; case Instruction::FSub: f=fsub; break;
                        case Instruction::FMul: f=fmul; break; case Instruction::FDiv: f=fdiv; break;
                        default: f=frem; }
                    R = B.CreateCall(f, {BO->getOperand(0), BO->getOperand(1)});
                } else if (auto *U = dyn_cast<UnaryOperator>(I)) {
                    if (sc(U->getType())) R = B.CreateCall(fneg, {U->getOperand(0)});
                } else if (auto *FC = dyn_cast<FCmpInst>(I)) {
                    if (!sc(FC->getOperand(0)->getType())) continue;
                    R = B.CreateTrunc(B.CreateCall(fcmp, {ConstantInt::get(I32, FC->getPredicate()), FC->getOperand(0), FC->getOperand(1)}), I->getType());
                } else if (isa<FPToSIInst>(I) || isa<FPToUIInst>(I)) {
                    if (!sc(I->getOperand(0)->getType())) continue;
                    Value *c = B.CreateCall(isa<FPToSIInst>(I)?f2si:f2ui, {I->getOperand(0)});
                    R = B.CreateTruncOrBitCast(c, I->getType());
                } else if (isa<UIToFPInst>(I) || isa<SIToFPInst>(I)) {
                    continue;
                } else if (isa<FPTruncInst>(I)) {
                    if (!sc(I->getOperand(0)->getType())) continue;
                    Value *c = B.CreateCall(f2f, {I->getOperand(0)});
                    I->setOperand(0, c); continue;
                } else if (auto *CI = dyn_cast<CallInst>(I)) {
                    Function *Cal = CI->getCalledFunction();
                    if (!Cal || !Cal->isIntrinsic()) continue;
                    switch (Cal->getIntrinsicID()) {
                        case Intrinsic::fabs: { // isinf() and isfinite() compare an absolute value with infinity
                            bool inf=!CI->use_empty(); for(User*U:CI->users()){ auto*FC=dyn_cast<FCmpInst>(U); bool ok=false; if(FC) for(unsigned q=0;q<2;q++) if(auto*K=dyn_cast<ConstantFP>(FC->getOperand(q))) if(K->getValueAPF().isInfinity()) ok=true; inf&=ok; }
                            R=B.CreateCall(F1(inf?"sxm_fabs_inf":"sxm_fabs"),{CI->getArgOperand(0)}); break; }
                        case Intrinsic::sqrt: R=B.CreateCall(F1("sxm_sqrt"),{CI->getArgOperand(0)}); break;
                        case Intrinsic::exp: R=B.CreateCall(F1("sxm_exp"),{CI->getArgOperand(0)}); break;
                        case Intrinsic::log: R=B.CreateCall(F1("sxm_log"),{CI->getArgOperand(0)}); break;
                        case Intrinsic::floor: R=B.CreateCall(F1("sxm_floor"),{CI->getArgOperand(0)}); break;
                        case Intrinsic::ceil: R=B.CreateCall(F1("sxm_ceil"),{CI->getArgOperand(0)}); break;
                        case Intrinsic::pow: R=B.CreateCall(F2("sxm_pow"),{CI->getArgOperand(0),CI->getArgOperand(1)}); break;
                        case Intrinsic::fmuladd: case Intrinsic::fma:
                            R=B.CreateCall(fadd,{B.CreateCall(fmul,{CI->getArgOperand(0),CI->getArgOperand(1)}),CI->getArgOperand(2)}); break;
                        case Intrinsic::is_fpclass:
                            R=B.CreateTrunc(B.CreateCall(fpclass,{CI->getArgOperand(0),CI->getArgOperand(1)}), I->getType()); break;
                        case Intrinsic::minnum: R=B.CreateCall(F2("sxm_fmin"),{CI->getArgOperand(0),CI->getArgOperand(1)}); break;
                        case Intrinsic::maxnum: R=B.CreateCall(F2("sxm_fmax"),{CI->getArgOperand(0),CI->getArgOperand(1)}); break;
                        default:
                            if (CI->getType()->isDoubleTy()) errs() << "SX: unhandled fp intrinsic " << Cal->getName() << " in " << F.getName() << "\n";
                    }
                }
                if (R) { I->replaceAllUsesWith(R); I->eraseFromParent(); }
            }
            if (isLib && !F.getName().starts_with("asan")) {
                GlobalVariable *flag = new GlobalVariable(M, Type::getInt8Ty(C), false, GlobalValue::InternalLinkage, ConstantInt::get(Type::getInt8Ty(C),0), "sxflag");
                IRBuilder<> B(&*F.getEntryBlock().getFirstInsertionPt());
                B.CreateCall(cov, {flag, B.CreateGlobalStringPtr(F.getName())});
            }
        }
        return PreservedAnalyses::none();
    }
};
}
extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo() {
    return {LLVM_PLUGIN_API_VERSION, "sx", "0.1", [](PassBuilder &PB) {
        PB.registerPipelineParsingCallback([](StringRef N, ModulePassManager &MPM, ArrayRef<PassBuilder::PipelineElement>) {
            if (N == "sx") { MPM.addPass(SX()); return true; }
            return false; });
    }};
}
