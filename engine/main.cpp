// ionsym <bitcode> --out DIR [--entry F] [--case name:p0,p1,...]... [options]
#include "exec.h"
#include <llvm/IRReader/IRReader.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/Support/SourceMgr.h>
#include <sys/resource.h>
#include <fstream>
#include <sstream>
using namespace sym;
int main(int argc, char** argv) {
    struct rlimit rl{RLIM_INFINITY, RLIM_INFINITY};
    (void)rl;
    std::string bc; Options o; std::vector<CaseDef> cases;
    auto addCase = [&](const std::string& x) {
        CaseDef c; size_t p = x.find(':');
        c.name = x.substr(0, p);
        if (p != std::string::npos) { std::stringstream ss(x.substr(p + 1)); std::string t; while (std::getline(ss, t, ',')) c.params.push_back(std::stoll(t)); }
        cases.push_back(c);
    };
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto nx = [&]() { return std::string(argv[++i]); };
        if (a == "--out") o.outDir = nx();
        else if (a == "--entry") o.entry = nx();
        else if (a == "--time") o.timeBudget = std::stod(nx());
        else if (a == "--workers") o.workers = std::stoi(nx());
        else if (a == "--samples") o.samplesPerCase = std::stoi(nx());
        else if (a == "--max-violations") o.maxViolations = std::stoi(nx());
        else if (a == "--seed") o.seed = std::stoull(nx());
        else if (a == "--path-steps") o.maxStepsPerPath = std::stoull(nx());
        else if (a == "--conc-limit") o.concLimit = (unsigned)std::stoul(nx());
        else if (a == "--z3-timeout") g_z3TimeoutMs = (unsigned)std::stoul(nx());
        else if (a == "--case") addCase(nx());
        else if (a == "--cases-file") { std::ifstream f(nx()); std::string l; while (std::getline(f, l)) if (!l.empty()) addCase(l); }
        else if (a == "-v") o.verbose = true;
        else bc = a;
    }
    if (cases.empty()) addCase("default");
    llvm::LLVMContext ctx;
    llvm::SMDiagnostic err;
    auto M = llvm::parseIRFile(bc, err, ctx);
    if (!M) { err.print("ionsym", llvm::errs()); return 2; }
    Exec* e = new Exec(*M, o);
    return e->run(cases);
}
