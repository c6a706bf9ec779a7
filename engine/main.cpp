// sx <module.bc> [--entry f] [--seconds n] [--fix name=lo:hi] [--out file.json] ...
#include "engine.h"
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Transforms/Utils/LowerSwitch.h>
#include <fstream>
#include <iostream>
#include <sstream>
#include <sys/resource.h>
#include <unistd.h>

static std::string js(const std::string& s) { std::string r = "\""; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }
static std::string jmap(const std::map<std::string, long long>& m) { std::string r = "{"; for (auto& x : m) { if (r.size() > 1) r += ", "; r += js(x.first) + ": " + std::to_string(x.second); } return r + "}"; }

static int realMain(int argc, char** argv) {
  Config cfg; std::string file, entry = "sx_main", out; unsigned qms = 60000;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto val = [&]() { return std::string(argv[++i]); };
    if (a == "--entry") entry = val(); else if (a == "--seconds") cfg.maxSeconds = std::stod(val()); else if (a == "--steps") cfg.maxSteps = std::stoull(val());
    else if (a == "--path-steps") cfg.pathSteps = std::stoull(val()); else if (a == "--viol") cfg.maxViol = std::stoi(val()); else if (a == "--out") out = val();
    else if (a == "--preempt") cfg.preempt = std::stoi(val()); else if (a == "--dump") cfg.dump = val(); else if (a == "--stats") cfg.stats = true; else if (a == "--query-ms") qms = std::stoul(val());
    else if (a == "--repo") cfg.repo = val(); else if (a == "--table") gMaxTable = std::stoull(val());
    else if (a == "--seed") cfg.seed = std::stoull(val());
    else if (a == "--fix") { std::string f = val(); size_t e = f.find('='), c = f.find(':', e); long long lo = std::stoll(f.substr(e + 1)), hi = c == std::string::npos ? lo : std::stoll(f.substr(c + 1)); cfg.fix[f.substr(0, e)] = {lo, hi}; }
    else if (a[0] == '-') { std::cerr << "unknown option " << a << "\n"; return 2; } else file = a;
  }
  llvm::LLVMContext ctx; llvm::SMDiagnostic err;
  auto M = llvm::parseIRFile(file, err, ctx);
  if (!M) { err.print("sx", llvm::errs()); return 2; }
  { // switches become comparisons, so that a symbolic value need not be split into single values
    llvm::LoopAnalysisManager la; llvm::FunctionAnalysisManager fa; llvm::CGSCCAnalysisManager ca; llvm::ModuleAnalysisManager ma; llvm::PassBuilder pb;
    pb.registerModuleAnalyses(ma); pb.registerCGSCCAnalyses(ca); pb.registerFunctionAnalyses(fa); pb.registerLoopAnalyses(la); pb.crossRegisterProxies(la, fa, ca, ma);
    llvm::FunctionPassManager fp; fp.addPass(llvm::LowerSwitchPass());
    for (auto& f : *M) if (!f.isDeclaration()) fp.run(f, fa);
  }
  auto t0 = std::chrono::steady_clock::now();
  std::string fatal;
  std::unique_ptr<Engine> en;
  try { en.reset(new Engine(*M, cfg)); en->sol.timeoutMs = qms; en->explore(entry); }
  catch (std::exception& e) { fatal = e.what(); }
  if (!en) { std::cerr << "engine: " << fatal << "\n"; return 2; }
  Engine& g = *en;
  if (!fatal.empty()) g.incomplete = "internal: " + fatal;
  double wall = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  struct rusage ru; getrusage(RUSAGE_SELF, &ru);
  std::ostringstream o;
  o << "{\n \"incomplete\": " << js(g.incomplete) << ",\n \"paths_completed\": " << g.completed << ", \"paths_ended\": " << g.paths << ", \"steps\": " << g.steps << ", \"forks\": " << g.forks << ", \"states_joined\": " << g.cacheCut << ", \"merges\": " << g.merges << ", \"merge_failures\": " << g.mergeFail
    << ",\n \"asserts\": " << g.asserts << ", \"assert_queries\": " << g.assertQueries << ",\n \"queries\": " << g.sol.st.queries << ", \"sat\": " << g.sol.st.sat << ", \"unsat\": " << g.sol.st.unsat << ", \"unknown\": " << g.sol.st.unknown << ", \"cache_hits\": " << g.sol.st.cacheHits << ", \"core_hits\": " << g.sol.st.coreHits << ", \"model_hits\": " << g.sol.st.modelHits
    << ", \"sweeps\": " << g.sol.st.sweeps << ", \"sweep_merged\": " << g.sol.st.sweepMerged << ", \"solver_s\": " << g.sol.st.seconds << ", \"solver_max_s\": " << g.sol.st.maxSeconds << ", \"wall_s\": " << wall << ", \"max_rss_mb\": " << ru.ru_maxrss / 1024 << ", \"exprs\": " << exprCount() << ", \"vars\": " << gVars.size() << ",\n \"reach\": {";
  bool first = true; for (auto& r : g.reach) { o << (first ? "" : ", ") << js(r.first) << ": " << r.second; first = false; }
  o << "},\n \"violations\": ["; first = true;
  for (auto& v : g.viol) { o << (first ? "" : ",") << "\n  {\"kind\": " << js(v.kind) << ", \"msg\": " << js(v.msg) << ", \"where\": " << js(v.where) << ", \"vars\": " << jmap(v.vars) << "}"; first = false; }
  o << "],\n \"samples\": ["; first = true; for (auto& s : g.samples) {
    o << (first ? "" : ",\n  ") << "{\"in\": " << jmap(s.in) << ", \"obs\": ["; first = false; bool f2 = true;
    for (auto& x : s.obs) { char b[32]; snprintf(b, sizeof b, "%016llx", (unsigned long long)(x.second != x.second ? 0x7ff8000000000000ull : x.second == 0 ? 0ull : dblBits(x.second))); o << (f2 ? "" : ", ") << "[" << js(x.first) << ", \"" << b << "\"]"; f2 = false; }
    o << "]}"; }
  o << "],\n \"functions\": ["; first = true; for (auto& f : g.executedRepoFunctions()) { o << (first ? "" : ", ") << js(f); first = false; }
  o << "],\n \"merge_why\": {"; first = true; for (auto& r : g.mergeWhy) { o << (first ? "" : ", ") << js(r.first) << ": " << r.second; first = false; }
  o << "}\n}\n";
  if (!out.empty()) { std::ofstream f(out); f << o.str(); } else std::cout << o.str();
  if (cfg.stats) for (auto& x : g.forkSites) std::cerr << x.second << " " << x.first << "\n";
  return g.viol.empty() ? (g.incomplete.empty() ? 0 : 2) : 1;
}
// the interpreter recurses at joins: run on a big stack
#include <pthread.h>
static int gArgc; static char** gArgv; static int gRet;
static void* tmain(void*) { gRet = realMain(gArgc, gArgv); return nullptr; }
int main(int argc, char** argv) {
  gArgc = argc; gArgv = argv;
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 2048ull << 20);
  pthread_t t; if (pthread_create(&t, &at, tmain, nullptr)) return 2;
  pthread_join(t, nullptr);
  fflush(stdout); _exit(gRet);
}
