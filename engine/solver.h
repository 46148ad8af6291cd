#pragma once
#include "expr.h"
#include <chrono>
#include <functional>
#include <set>

enum class R { SAT, UNSAT, UNKNOWN };

struct Solver {
  Ctx& c;
  z3::context z;
  z3::solver s;
  std::unordered_map<X, z3::expr> tr;
  std::unordered_map<X, std::vector<X>> leavesCache;
  std::vector<X> path;
  size_t asserted = 0;
  std::set<X> declared;
  // model
  bool haveModel = false;
  std::unordered_map<X, i128> mi;
  std::unordered_map<X, mpq_class> mr;
  // stats
  long queries = 0, sat = 0, unsat = 0, unknown = 0, external = 0, modelHits = 0;
  double time = 0, maxTime = 0;
  std::chrono::steady_clock::time_point deadline = std::chrono::steady_clock::time_point::max();
  std::function<std::string()> whereFn;
  unsigned timeoutMs = 20000;
  unsigned extTimeoutS = 60;
  std::string dumpDir;
  long dumpMax = 0, dumped = 0;
  bool reals = false;

  Solver(Ctx& cc);
  void reset();
  void assume(X b);              // add to the path (no check)
  R check(X extra, bool wantModel = true);  // path && extra; on SAT the model (of path && extra) goes to pend*
  void commitModel();            // last SAT model becomes the current model
  const std::vector<X>& leaves(X e);
  z3::expr T(X e);
  z3::expr realCmp(X e);
  void declare(X e, z3::solver& sv, std::set<X>& decl);
  bool evalCur(X b, bool& out);  // evaluate under the current model
  std::unordered_map<X, i128> pi;
  std::unordered_map<X, mpq_class> pr;
  void extract(z3::model m, const std::vector<X>& lv);
  bool guessReal(X extra);
  R ext(const std::string& smt, const char* cmd);
  std::string smt2(X extra, std::vector<X>& lv);
};
