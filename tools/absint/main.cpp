#include <unistd.h>
#include "interp.cpp"

static std::string jesc(const std::string& s) { std::string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else if (c >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }

int main(int argc, char** argv) {
  // absint <module.bc> <out.json> <entry-prefix|-> [--repo prefix]... [--list] [--steps N]
  std::vector<std::string> pos; std::vector<std::string> repo; bool list = false; long steps = 0; std::vector<std::string> only;
  for (int i = 1; i < argc; ++i) { std::string a = argv[i]; if (a == "--repo") repo.push_back(argv[++i]); else if (a == "--list") list = true; else if (a == "--steps") steps = atol(argv[++i]); else pos.push_back(a); }
  if (pos.size() < 1) { std::cerr << "usage\n"; return 3; }
  struct rlimit rl; rl.rlim_cur = rl.rlim_max = 1024ul << 20; getrlimit(RLIMIT_STACK, &rl); if (rl.rlim_cur != RLIM_INFINITY && rl.rlim_cur < (1024ul << 20)) { rl.rlim_cur = rl.rlim_max == RLIM_INFINITY || rl.rlim_max > (1024ul << 20) ? (1024ul << 20) : rl.rlim_max; if (!setrlimit(RLIMIT_STACK, &rl) && !getenv("ABSINT_REEXEC")) { setenv("ABSINT_REEXEC", "1", 1); execv("/proc/self/exe", argv); } }
  LLVMContext ctx; SMDiagnostic err; auto M = parseIRFile(pos[0], err, ctx);
  if (!M) { err.print("absint", errs()); return 3; }
  std::vector<const Function*> entries;
  for (auto& F : *M) if (!F.isDeclaration() && F.getName().starts_with("chk_")) entries.push_back(&F);
  std::sort(entries.begin(), entries.end(), [](auto* a, auto* b) { return a->getName() < b->getName(); });
  if (list) { for (auto* e : entries) std::cout << e->getName().str() << "\n"; return 0; }
  if (pos.size() < 3) return 3;
  // select entries: exact name or comma separated list or '-'
  std::set<std::string> sel; { std::stringstream ss(pos[2]); std::string x; while (std::getline(ss, x, ',')) sel.insert(x); }
  std::ofstream out(pos[1]); out << "["; bool first = true;
  for (auto* e : entries) {
    if (!sel.count("-") && !sel.count(e->getName().str())) continue;
    auto t0 = std::chrono::steady_clock::now();
    Interp I(*M); I.repoPrefix = repo.empty() ? std::vector<std::string>{"/repo/"} : repo; if (steps) I.stepLimit = steps;
    EntryResult r; r.name = e->getName().str();
    if (getenv("ABSINT_TRACE")) I.trace = true;
    try {
      // static constructors first
      if (auto* gc = M->getGlobalVariable("llvm.global_ctors")) if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer())) {
        std::vector<std::pair<uint64_t, const Function*>> cs; for (auto& o : ca->operands()) { auto* st = cast<ConstantStruct>(o); cs.push_back({cast<ConstantInt>(st->getOperand(0))->getZExtValue(), cast<Function>(st->getOperand(1)->stripPointerCasts())}); }
        std::stable_sort(cs.begin(), cs.end(), [](auto& a, auto& b) { return a.first < b.first; });
        I.initPhase = true; for (auto& c : cs) { Val v; I.callFunc(c.second, {}, v, 0); } I.initPhase = false; }
      I.res = &r; Val ret; bool alive = I.callFunc(e, {}, ret, 0);
      if (!alive && !I.allowThrow && r.viol.empty()) { Violation v{"throw", "entry never completes [" + I.lastThrow + "]", I.backtrace(), "", "", I.labelStr()}; r.viol.push_back(v); }
    } catch (MemError& x) {
      std::string path; findPath(I.pc, path);
      Violation v{x.kind, x.what(), I.capBT, path, I.capH, I.labelStr()}; r.viol.push_back(v);
    } catch (Undecided& x) { r.undecided = std::string(x.what()) + " | at " + I.capBT + " | harness " + I.capH + " | " + I.labelStr(); }
    catch (std::exception& x) { r.undecided = std::string("internal: ") + x.what() + " | at " + I.capBT; }
    r.steps = I.steps; for (auto& d : I.dfuncs) if (d.inRepo && d.calls) r.funcs.insert(d.name);
    r.secs = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    if (!first) out << ",\n"; first = false;
    out << "{\"entry\":\"" << jesc(r.name) << "\",\"undecided\":\"" << jesc(r.undecided) << "\",\"obligations\":" << r.obligations << ",\"discharged\":" << r.discharged << ",\"symbolic\":" << r.symbolic << ",\"steps\":" << r.steps << ",\"joins\":" << r.joins << ",\"branches\":" << r.branches << ",\"accesses\":" << r.accesses << ",\"widened\":" << r.widened << ",\"shared_writes\":" << I.effWrites << ",\"shared_reads\":" << I.effReads << ",\"secs\":" << r.secs << ",\"rules\":{";
    bool f = true; for (auto& x : r.rules) { if (!f) out << ","; f = false; out << "\"" << jesc(x.first) << "\":" << x.second; }
    out << "},\"funcs\":["; f = true; for (auto& x : r.funcs) { if (!f) out << ","; f = false; out << "\"" << jesc(x) << "\""; }
    out << "],\"violations\":["; f = true;
    for (auto& v : r.viol) { if (!f) out << ","; f = false; out << "{\"kind\":\"" << jesc(v.kind) << "\",\"msg\":\"" << jesc(v.msg) << "\",\"where\":\"" << jesc(v.where) << "\",\"cond\":\"" << jesc(v.cond) << "\",\"claim_at\":\"" << jesc(v.claimAt) << "\",\"instance\":\"" << jesc(v.instance) << "\"}"; }
    out << "]}"; out.flush();
  }
  out << "]\n"; out.close();
  _exit(0);
}
