// CorrectRightInvariant / CorrectLeftInvariant at their contract (proved in
// unit inekf), as seen by a measurement correction: the call is recorded and
// the estimate becomes an arbitrary well-formed one of the same dimension.
#pragma once
#include "drift/filter/inekf/inekf.h"
#include <type_traits>
namespace rec {
struct Call { bool right; MX Z, H, N, X; int err; };
inline std::vector<Call>& calls() { static auto* c = new std::vector<Call>; return *c; }
inline MX& after() { static MX m; return m; }
inline MX& after_P() { static MX m; return m; }
inline VX& after_theta() { static VX m; return m; }
inline void reset() { calls().clear(); }
inline void hit(bool right, const MX& Z, const MX& H, const MX& N, state::RobotState& s, filter::inekf::ErrorType e) {
  calls().push_back({right, Z, H, N, s.get_X(), e == filter::inekf::ErrorType::RightInvariant});
  std::string n = "post" + std::to_string(calls().size());
  int K = s.dimX() - 5;
  after() = spec::group(rot(n + ".R"), mat(n + ".c", 3, 2 + K));
  after_P() = spd(n + ".P", s.dimP());
  after_theta() = vec(n + ".b", s.dimTheta(), -0.5, 0.5);
  s.set_X(after());
  s.set_P(after_P());
  s.set_theta(after_theta());
}
// Z, H, N are the expected blocks of three rows, in any order of the blocks
// and up to the sign of a block.
struct Block { V3 z; MX H; M3 N; };
inline bool differ(const D& a, const D& b) { return !same(a, b); }
inline void model(const std::string& n, const std::vector<Block>& want, bool right, int err) {
  auto& c = calls();
  if (want.empty()) return ok(n + "_correction_count", c.empty(), std::to_string(c.size()) + " corrections instead of none");
  if (c.size() != 1) return ok(n + "_correction_count", false, std::to_string(c.size()) + " corrections instead of 1");
  Call& k = c[0];
  ok(n + "_side", k.right == right && k.err == err);
  int m = 3 * want.size(), d = want[0].H.cols();
  if (k.Z.rows() != m || k.H.rows() != m || k.H.cols() != d || k.N.rows() != m || k.N.cols() != m)
    return ok(n + "_shape", false, "rows " + std::to_string(k.Z.rows()) + " instead of " + std::to_string(m));
  std::vector<int> used(want.size(), 0);
  std::vector<int> at(want.size());
  std::vector<double> sign(want.size(), 1);
  for (size_t b = 0; b < want.size(); ++b) {   // which expected block is block b?
    int hit = -1; double sg = 1;
    for (size_t w = 0; w < want.size() && hit < 0; ++w) {
      if (used[w]) continue;
      for (double f : {1.0, -1.0}) {
        bool eqv = true;
        for (int i = 0; i < 3 && eqv; ++i)
          for (int j = 0; j < d && eqv; ++j)
            if (differ(k.H(3 * b + i, j), D(f) * want[w].H(i, j))) eqv = false;
        if (eqv) { hit = w; sg = f; break; }
      }
    }
    if (hit < 0) {   // no match: report against the first unused block
      for (size_t w = 0; w < want.size(); ++w) if (!used[w]) { hit = w; break; }
    }
    used[hit] = 1; at[b] = hit; sign[b] = sg;
  }
  for (size_t b = 0; b < want.size(); ++b) {
    Block w = want[at[b]];
    D f = sign[b];
    eq(n + "_matrix", MX(k.H.block(3 * b, 0, 3, d)), MX(w.H * f));
    eq(n + "_innovation", MX(k.Z.block(3 * b, 0, 3, 1)), MX(w.z * f));
    for (size_t q = 0; q < want.size(); ++q)
      eq(n + "_noise", MX(k.N.block(3 * b, 3 * q, 3, 3)), q == b ? MX(w.N) : zero(3, 3));
  }
}
}  // namespace rec
namespace filter::inekf {
typedef void (*correct_fn)(const Eigen::MatrixXd&, const Eigen::MatrixXd&, const Eigen::MatrixXd&, RobotState&, ErrorType);
void CorrectRightInvariant(const Eigen::MatrixXd& Z, const Eigen::MatrixXd& H, const Eigen::MatrixXd& N, RobotState& s, ErrorType e) {
  rec::hit(true, Z, H, N, s, e);
}
void CorrectLeftInvariant(const Eigen::MatrixXd& Z, const Eigen::MatrixXd& H, const Eigen::MatrixXd& N, RobotState& s, ErrorType e) {
  rec::hit(false, Z, H, N, s, e);
}
// no compilation (hence no verdict) if the callee's interface changes
static correct_fn callee_r = &CorrectRightInvariant, callee_l = &CorrectLeftInvariant;
}  // namespace filter::inekf
