#pragma once
#include <functional>
#include <map>
#include <string>
#include <vector>

#include "real.h"

namespace sym {
struct PathPruned {};
struct Obl {
  long goals = 0, proved = 0, failed = 0, undecided = 0;
  double time = 0;
  std::map<std::string, long> backend;
  std::string detail, undecided_detail, facts;
  int path = 0;
  std::map<std::string, double> cex;
  std::vector<std::pair<std::string, int>> choices;
};
struct ContractStat { int paths = 0, pruned = 0; double time = 0; };
struct Report {
  uint64_t seed = 1;
  long budget = 3000000;
  unsigned z3_ms = 5000;
  int max_paths = 20000;
  double max_s = 600;
  bool truncated = false;
  std::string bounded;              // why the contract is explored with short buffers only
  std::string out;          // where to write what is known so far
  std::map<std::string, Obl> obl;
  std::map<std::string, ContractStat> contracts;
  std::vector<std::pair<std::string, int>> choices;
};
Report& rep();
typedef std::function<double(const std::vector<int>&, const std::vector<double>&)> AppEval;
void define_app(const std::string& fn, AppEval f);
int path_choice(int n);
void path_require(bool cond);
[[noreturn]] void end_path();
void assume_fact(Rel r, Id a, Id b);
void oblige_eq(const std::string& name, const Real& x, const Real& y);
void oblige_rel(const std::string& name, Rel r, const Real& x, const Real& y);
void oblige_true(const std::string& name, bool v, const std::string& detail);
// M (n x n, row major) is symmetric positive semidefinite because it equals W,
// which is so by construction (a sum of congruences, lean/Psd.lean); refuted by
// a sampled point where M is not
void oblige_psd(const std::string& name, int n, const std::vector<Real>& M,
                const std::vector<Real>& W);
bool path_implies(Rel r, const Real& a, const Real& b);
bool same_real(const Real& a, const Real& b);
// false if the two differ at a sampled point of the current path
bool agree_at_points(const Real& a, const Real& b);
void run_contract(const std::string& name, void (*fn)());
void write_report(const std::string& file);
// provided by the harness layer (ghost state of locks and queues)
void reset_ghost();
void ghost_epilogue();
}  // namespace sym
