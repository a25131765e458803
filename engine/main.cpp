#include "engine.h"
#include "llvm/Demangle/Demangle.h"
#include <sys/resource.h>
#include <thread>
#include <unistd.h>
#include <pthread.h>
using namespace llvm;
static std::string js(const std::string& s) { std::string r = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if (c < 32 || c >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }
static int gargc; static char** gargv; static int rc;
static void* run(void*) {
  int argc = gargc; char** argv = gargv; auto* EP = new Engine; Engine& E = *EP; std::vector<std::string> files; std::string entry = "symx_main", out;
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&] { return std::string(argv[++i]); };
    if (a == "--entry") entry = nx(); else if (a == "--out") out = nx(); else if (a == "--max-time") E.opt.maxTime = atof(nx().c_str()); else if (a == "--preempt") E.opt.preemptBound = atoi(nx().c_str());
    else if (a == "--param") { std::string k = nx(); auto p = k.find('='); E.opt.params[k.substr(0, p)] = strtoll(k.c_str() + p + 1, nullptr, 0); }
    else if (a == "--replay") { E.opt.replay = true; FILE* f = fopen(nx().c_str(), "r"); char k[16], v[128]; while (f && fscanf(f, "%15s %127s", k, v) == 2) { if (k[0] == 'i') E.opt.replayIn.push_back(v); else E.opt.replaySched.push_back(atoi(v)); } if (f) fclose(f); }
    else if (a == "--max-steps-path") E.opt.maxStepsPath = atoll(nx().c_str()); else if (a == "-v") E.opt.verbose = true; else if (a == "--max-viol") E.opt.maxViol = atoi(nx().c_str()); else if (a == "--max-mem") E.opt.maxMemMB = atol(nx().c_str());
    else if (a == "--fork") E.opt.forkCmp = atoi(nx().c_str()); else if (a == "--random") E.opt.randomSearch = true; else if (a == "--seed") { E.opt.seed = atoll(nx().c_str()); E.rngs += E.opt.seed * 7919; } else if (a == "--max-samples") E.opt.maxSamples = atoi(nx().c_str()); else if (a == "--solver-timeout") E.solver.timeoutMs = atoi(nx().c_str()); else if (a == "--ite-read") E.opt.iteReadCap = atoi(nx().c_str()); else if (a == "--ite-write") E.opt.iteWriteCap = atoi(nx().c_str()); else if (a == "--max-paths") E.opt.maxPaths = atoll(nx().c_str());
    else files.push_back(a); }
  E.t0 = std::chrono::steady_clock::now(); E.registerHandlers(); E.load(files); E.setupGlobals(); 
  auto dump = [&](bool forced) {
  double el = E.elapsed();
  std::string j = "{";
  auto kv = [&](const char* k, const std::string& v) { if (j.size() > 1) j += ",\n"; j += js(k) + ": " + v; }; auto n = [&](const char* k, double v) { char b[64]; if (v == (long long)v) snprintf(b, 64, "%lld", (long long)v); else snprintf(b, 64, "%.3f", v); kv(k, b); };
  n("paths", E.paths); n("infeasible", E.infeasible); n("forks", E.forks); n("steps", E.steps); n("checks", E.checks); n("checks_solver", E.checksSolver); n("assumes", E.assumes); n("truncated", E.truncated); n("step_limited", E.stepLimited); n("leftover", E.leftover); n("inconclusive", E.inconclusive); n("sched_points", E.schedPoints); n("max_depth", E.maxDepth); n("wall_s", el);
  kv("mem_limited", E.memLimited ? "true" : "false");
  kv("completed", (E.truncated == 0 && E.leftover == 0 && !E.memLimited && E.fatal.empty() && E.inconclusive == 0) ? "true" : "false"); kv("fatal", js(E.fatal));
  auto& st = E.solver.st; { char b[400]; snprintf(b, 400, "{\"queries\": %llu, \"cache\": %llu, \"cores\": %llu, \"order\": %llu, \"model_reuse\": %llu, \"z3\": %llu, \"sat\": %llu, \"unsat\": %llu, \"unknown\": %llu, \"seconds\": %.3f, \"max_query_s\": %.3f}", (unsigned long long)st.queries, (unsigned long long)st.cacheHits, (unsigned long long)st.coreHits, (unsigned long long)st.orderHits, (unsigned long long)st.modelHits, (unsigned long long)st.z3calls, (unsigned long long)st.sat, (unsigned long long)st.unsat, (unsigned long long)st.unknown, st.seconds, st.maxq); kv("solver", b); }
  auto list = [&](const std::set<std::string>& v) { std::string r = "["; for (auto& x : v) { if (r.size() > 1) r += ", "; r += js(x); } return r + "]"; };
  kv("reached", list(E.reachedAll)); kv("unmodelled", list(E.unmodelled)); kv("inconclusive_msgs", list(E.inconclusiveMsgs));
  std::set<std::string> fns; for (auto& [f, x] : E.finfo) if (x->hits) { auto* sp = f->getSubprogram(); if (!sp) continue; std::string fl = sp->getFilename().str(); if (fl.find("/repo/") == std::string::npos) continue; std::string d = demangle(f->getName().str()); size_t p = d.find('('); (void)p; if (d.size() > 160) d = d.substr(0, 160); fns.insert(d + " [" + fl.substr(fl.find("/repo/") + 6) + ":" + std::to_string(sp->getLine()) + "]"); }
  kv("functions", list(fns));
  { std::string r = "{"; for (auto& [k, v] : E.checkCounts) { if (r.size() > 1) r += ", "; r += js(k) + ": " + std::to_string(v); } kv("check_counts", r + "}"); }
  { std::string r = "{"; for (auto& [k, v] : E.knownHits) { if (r.size() > 1) r += ", "; r += js(k) + ": " + std::to_string(v); } kv("known_hits", r + "}"); }
  auto inputs = [&](const std::vector<std::tuple<std::string, unsigned, std::string, bool>>& v) { std::string r = "["; for (auto& [nm, w, x, aux] : v) { if (r.size() > 1) r += ", "; r += "[" + js(nm) + ", " + std::to_string(w) + ", " + js(x) + "]"; } return r + "]"; };
  { std::string r = "["; for (auto& v : E.violations) { if (r.size() > 1) r += ",\n "; std::string sc; for (int t : v.sched) { if (!sc.empty()) sc += ","; sc += std::to_string(t); } r += "{\"key\": " + js(v.key) + ", \"msg\": " + js(v.msg) + ", \"known\": " + (v.known ? "true" : "false") + ", \"count\": " + std::to_string(E.violCount[v.key]) + ", \"trace\": " + js(v.trace) + ", \"sched\": [" + sc + "], \"inputs\": " + inputs(v.inputs) + "}"; } kv("violations", r + "]"); }
  { std::string r = "["; for (auto& x : E.samples) { if (r.size() > 1) r += ",\n "; r += js(x); } kv("samples", r + "]"); }
  { std::string r = "["; for (auto& p : E.psamples) { if (r.size() > 1) r += ",\n "; std::set<std::string> rs(p.reached.begin(), p.reached.end()); std::string os = "["; for (auto& o : p.outs) { if (os.size() > 1) os += ", "; os += js(o); } r += "{\"inputs\": " + inputs(p.inputs) + ", \"reached\": " + list(rs) + ", \"outs\": " + os + "]}"; } kv("path_samples", r + "]"); }
  j += "}\n";
  if (out.empty()) fputs(j.c_str(), stdout); else { FILE* f = fopen(out.c_str(), "w"); fputs(j.c_str(), f); fclose(f); }
  };
  std::thread([&] { while (E.elapsed() < E.opt.maxTime + 45) usleep(200000); E.truncated++; dump(true); _exit(2); }).detach();
  E.runEntry(entry); dump(false);
  rc = E.fatal.empty() ? (E.violations.empty() ? 0 : 1) : 3; fflush(nullptr); _exit(rc); return nullptr;
}
int main(int argc, char** argv) {
  gargc = argc; gargv = argv; pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 2ull << 30); pthread_t t; pthread_create(&t, &at, run, nullptr); pthread_join(t, nullptr); return rc;
}
