#pragma once
#include "expr.h"
#include <unordered_map>
#include <deque>
enum SatRes { UNSAT = 0, SAT = 1, UNKNOWN = 2 };
struct SolverStats { uint64_t queries = 0, cacheHits = 0, coreHits = 0, orderHits = 0, modelHits = 0, z3calls = 0, unknown = 0, sat = 0, unsat = 0; double seconds = 0, maxq = 0; };
struct Solver {
  SolverStats st;
  unsigned timeoutMs = 60000;
  std::string dumpDir; uint64_t dumpN = 0;
  Solver();
  // constraint closure relevant to cond
  void slice(const std::vector<Ex>& pc, Ex cond, std::vector<Ex>& out);
  // is pc & cond satisfiable?  on SAT, `m` receives base overlaid with the slice's assignment
  SatRes sat(const std::vector<Ex>& pc, Ex cond, const Model& base, Model& m);
private:
  SatRes z3check(const std::vector<Ex>& cs, Model& m);
  struct CacheEnt { SatRes r; Model m; };
  std::unordered_map<std::string, CacheEnt> cache;
  std::deque<Model> recent;
};
