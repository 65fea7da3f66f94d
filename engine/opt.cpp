// Loads bitcode modules, links them and runs LLVM's own optimiser; pure integer-valued functions with loops are kept
// out of line and marked "symx-merge" (their result is computed as one expression over all their paths).
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Verifier.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Transforms/IPO/Internalize.h>
#include <llvm/Transforms/IPO/GlobalDCE.h>
#include <cstdlib>
using namespace llvm;
std::unique_ptr<Module> loadAndOptimize(LLVMContext& C, const std::vector<std::string>& files, const std::string& dump) {
    std::unique_ptr<Module> M;
    for (auto& f : files) { SMDiagnostic D; auto m = parseIRFile(f, D, C); if (!m) { D.print("symx", errs()); exit(3); } if (!M) M = std::move(m); else if (Linker::linkModules(*M, std::move(m))) { errs() << "link error\n"; exit(3); } }
    if (!M) return M;
    static const char* keep[] = {"harness", "memcpy", "memmove", "memset", "bcmp", "memcmp", "strlen"};
    internalizeModule(*M, [&](const GlobalValue& G) { for (auto k : keep) if (G.getName() == k) return true; return false; });
    LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM; PipelineTuningOptions PTO; PTO.LoopVectorization = false; PTO.SLPVectorization = false; PTO.LoopUnrolling = false; PTO.LoopInterleaving = false;
    PassBuilder PB(nullptr, PTO); PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    { ModulePassManager P; P.addPass(GlobalDCEPass()); if (auto e = PB.parsePassPipeline(P, "cgscc(devirt<4>(function-attrs,function(sroa,early-cse,instcombine<no-verify-fixpoint>,simplifycfg,adce)))")) { errs() << toString(std::move(e)) << "\n"; exit(3); } P.run(*M, MAM); }
    for (Function& F : *M) { if (F.isDeclaration()) continue; bool ret = F.getReturnType()->isIntegerTy() && F.getReturnType()->getIntegerBitWidth() <= 64; if (!ret || !F.onlyReadsMemory() || F.hasFnAttribute(Attribute::NoReturn) || F.hasFnAttribute(Attribute::AlwaysInline)) continue;
        DominatorTree DT(F); LoopInfo LI(DT); bool loop = !LI.empty(); bool mark = F.hasFnAttribute("symx-mergeable"); if (!loop && !mark) continue; F.addFnAttr("symx-merge"); F.addFnAttr(Attribute::NoInline); }
    { ModulePassManager P = PB.buildPerModuleDefaultPipeline(OptimizationLevel::O2); P.run(*M, MAM); }
    if (!dump.empty()) { std::error_code ec; raw_fd_ostream o(dump, ec); M->print(o, nullptr); }
    return M;
}
