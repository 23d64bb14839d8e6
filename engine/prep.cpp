// symx-link: links bitcode, overrides a few functions, internalizes, removes dead code.
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/Bitcode/BitcodeReader.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Verifier.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/FileSystem.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Transforms/IPO/GlobalDCE.h>
#include <llvm/Transforms/IPO/Internalize.h>
#include <llvm/Transforms/Scalar/Scalarizer.h>
#include <llvm/Transforms/Utils/Cloning.h>
using namespace llvm;

static bool is_fn(const Function& f, const char* pre) {
    std::string d = demangle(f.getName().str());
    size_t n = strlen(pre);
    return d.compare(0, n, pre) == 0 && d.size() > n && d[n] == '(';
}
// replace the body of f by a call to rt(args...)
static void forward(Module& M, Function& f, const char* rt, std::vector<unsigned> args) {
    Function* t = M.getFunction(rt);
    if (!t || f.isDeclaration()) return;
    for (unsigned a : args) if (a >= f.arg_size()) return;
    f.deleteBody();
    f.setLinkage(GlobalValue::ExternalLinkage);
    f.setComdat(nullptr);
    IRBuilder<> B(BasicBlock::Create(M.getContext(), "", &f));
    std::vector<Value*> v;
    unsigned i = 0;
    for (unsigned a : args) {
        Value* x = f.getArg(a);
        Type* want = t->getFunctionType()->getParamType(i++);
        if (x->getType() != want) {
            if (want->isIntegerTy() && x->getType()->isIntegerTy()) x = B.CreateZExtOrTrunc(x, want);
            else x = Constant::getNullValue(want);
        }
        v.push_back(x);
    }
    B.CreateCall(t, v);
    B.CreateUnreachable();
    f.removeFnAttr(Attribute::NoUnwind);
    f.removeFnAttr(Attribute::NoReturn);
}

int main(int argc, char** argv) {
    std::vector<std::string> in;
    std::string out;
    bool reloc = false;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "-o") out = argv[++i];
        else if (a == "-r") reloc = true;
        else in.push_back(a);
    }
    LLVMContext ctx;
    auto M = std::make_unique<Module>("linked", ctx);
    Linker L(*M);
    SMDiagnostic err;
    for (auto& f : in) {
        unsigned flags = 0;
        std::string p = f;
        if (p[0] == '@') { p = p.substr(1); flags = Linker::OverrideFromSrc; } // overriding definitions
        auto m = parseIRFile(p, err, ctx);
        if (!m) { err.print("symx-link", errs()); return 1; }
        if (M->getDataLayoutStr().empty()) { M->setDataLayout(m->getDataLayoutStr()); M->setTargetTriple(m->getTargetTriple()); }
        if (L.linkInModule(std::move(m), flags)) { errs() << "link error in " << p << "\n"; return 1; }
    }
    if (!reloc) {
        for (Function& f : *M) {
            if (is_fn(f, "tiro::detail::assert_fail")) forward(*M, f, "symx_rt_assert_fail", {1, 2});
            else if (is_fn(f, "tiro::detail::unreachable")) forward(*M, f, "symx_rt_unreachable", {1});
            else if (is_fn(f, "tiro::detail::throw_error_impl")) forward(*M, f, "symx_rt_throw_error", {1});
        }
        if (GlobalVariable* g = M->getGlobalVariable("llvm.used")) g->eraseFromParent();
        if (GlobalVariable* g = M->getGlobalVariable("llvm.compiler.used")) g->eraseFromParent();
        PassBuilder PB;
        LoopAnalysisManager LAM;
        FunctionAnalysisManager FAM;
        CGSCCAnalysisManager CGAM;
        ModuleAnalysisManager MAM;
        PB.registerModuleAnalyses(MAM);
        PB.registerCGSCCAnalyses(CGAM);
        PB.registerFunctionAnalyses(FAM);
        PB.registerLoopAnalyses(LAM);
        PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
        ModulePassManager MPM;
        MPM.addPass(InternalizePass([](const GlobalValue& g) { return g.getName() == "main"; }));
        MPM.addPass(GlobalDCEPass());
        FunctionPassManager FPM;
        FPM.addPass(ScalarizerPass());
        MPM.addPass(createModuleToFunctionPassAdaptor(std::move(FPM)));
        MPM.run(*M, MAM);
        if (verifyModule(*M, &errs())) return 1;
        for (Function& f : *M)
            if (f.isDeclaration() && !f.isIntrinsic() && getenv("SYMX_UNDEF")) errs() << "U " << f.getName() << "\n";
        for (GlobalVariable& g : M->globals())
            if (g.isDeclaration() && getenv("SYMX_UNDEF")) errs() << "UG " << g.getName() << "\n";
    }
    std::error_code ec;
    raw_fd_ostream os(out, ec, sys::fs::OF_None);
    if (ec) { errs() << "cannot write " << out << "\n"; return 1; }
    WriteBitcodeToFile(*M, os);
    return 0;
}
