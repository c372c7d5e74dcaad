// Builders shared by the contracts: arbitrary states, measurements, configurations.
#pragma once
#include "drift/state/robot_state.h"
#include "drift/utils/type_def.h"
#include "drift/filter/base_correction.h"
#include "drift/filter/base_propagation.h"
#include "drift/filter/inekf/inekf.h"
#include "spec.h"
using namespace vc;

namespace build {
// an arbitrary well-formed state with K augmented columns
inline state::RobotState any_state(int K, const std::string& n = "s", bool sym_qc = true) {
  MX X = spec::group(rot(n + ".R"), mat(n + ".c", 3, 2 + K));
  VX th = vec(n + ".b", 6, -0.5, 0.5);
  int d = 15 + 3 * K;
  state::RobotState s(X, th, spd(n + ".P", d));
  if (sym_qc) s.set_continuous_noise_covariance(spd(n + ".Q", d));
  s.set_time(var(n + ".t"));
  s.set_propagate_time(var(n + ".tp"));
  s.set_body_angular_velocity(vec3(n + ".w"));
  return s;
}
struct Snapshot {
  MX X, P, Qc; VX th; D t, tp; V3 w; bool en; int slip; int dimX;
  std::vector<std::shared_ptr<int>> ids;
  Snapshot(state::RobotState& s)
      : X(s.get_X()), P(s.get_P()), Qc(s.get_continuous_noise_covariance()),
        th(s.get_theta()), t(s.get_time()), tp(s.get_propagate_time()),
        w(s.get_body_angular_velocity()), en(s.get_enable_imu_bias_update()),
        slip(s.get_slip_flag()), dimX(s.dimX()), ids(s.column_id_to_corr_map_) {}
};
inline void unchanged(const std::string& n, const Snapshot& o, state::RobotState& s) {
  eq(n, s.get_X(), o.X);
  eq(n, s.get_P(), o.P);
  eq(n, s.get_theta(), o.th);
  eq(n, s.get_continuous_noise_covariance(), o.Qc);
  eq(n, s.get_time(), o.t);
  eq(n, s.get_propagate_time(), o.tp);
}
inline measurement::ImuMeasurement<D> imu(const std::string& n) {
  measurement::ImuMeasurement<D> m;
  V3 w = vec3(n + ".w"), a = vec3(n + ".a", -9, 9);
  m.set_time(var(n + ".t", 0, 2));
  m.set_angular_velocity(w(0), w(1), w(2));
  m.set_lin_acc(a(0), a(1), a(2));
  return m;
}
inline std::string list(const std::string& p, int n) {
  std::string r = "[";
  for (int i = 0; i < n; ++i) r += (i ? ", @" : "@") + p + std::to_string(i);
  return r + "]";
}
// declares the four components of a unit quaternion under yaml names p0..p3
inline M3 quat_yaml(const std::string& p) {
  std::vector<D> q;
#ifdef VC_SYM
  for (int i = 0; i < 4; ++i) q.push_back(sym::symbol(p + std::to_string(i), -0.55, 0.55));
  vc::unit(q);
#else
  double c[4], t = 0;
  for (int i = 0; i < 4; ++i) { c[i] = var(p + std::to_string(i), -1, 1); t += c[i] * c[i]; }
  if (t < 1e-20) { c[0] = t = 1; c[1] = c[2] = c[3] = 0; }
  for (int i = 0; i < 4; ++i) q.push_back(set_var(p + std::to_string(i), c[i] / std::sqrt(t)));
#endif
  return quat_to_rot(q[0], q[1], q[2], q[3]);
}
// a valid extended pose: a rotation above the rows [0 I]
inline void valid_pose(const std::string& n, const MX& X) {
  int k = X.rows();
  if (k < 5 || X.cols() != k) return ok(n + "_shape", false, std::to_string(X.rows()) + "x" + std::to_string(X.cols()));
  M3 R = X.block(0, 0, 3, 3);
  eq(n + "_orthonormal", M3(R * R.transpose()), M3(M3::Identity()));
  eq(n + "_proper", D(R(0, 0) * (R(1, 1) * R(2, 2) - R(1, 2) * R(2, 1)) - R(0, 1) * (R(1, 0) * R(2, 2) - R(1, 2) * R(2, 0))
                      + R(0, 2) * (R(1, 0) * R(2, 1) - R(1, 1) * R(2, 0))), D(1));
  MX low = zero(k - 3, k);
  low.block(0, 3, k - 3, k - 3) = eye(k - 3);
  eq(n + "_lower_rows", MX(X.block(3, 0, k - 3, k)), low);
}
}  // namespace build

// The Lie-group functions at their contracts (proved in unit lie), as seen by
// a caller: exact closed forms of the series, for every argument.
#ifdef STUB_LIE_CLOSED
#ifdef VC_SYM
namespace math { namespace lie_group {
Eigen::Matrix3d Gamma_SO3(const Eigen::Vector3d& w, int m) { return spec::gamma(w, m); }
Eigen::Matrix3d Exp_SO3(const Eigen::Vector3d& w) { return spec::gamma(w, 0); }
Eigen::Matrix3d LeftJacobian_SO3(const Eigen::Vector3d& w) { return spec::gamma(w, 1); }
Eigen::Matrix3d RightJacobian_SO3(const Eigen::Vector3d& w) { return spec::gamma(V3(-w), 1); }
Eigen::MatrixXd Exp_SEK3(const Eigen::VectorXd& v) {
  int K = (v.size() - 3) / 3;
  V3 w = v.head(3);
  MX c(3, K);
  M3 J = spec::gamma(w, 1);
  for (int i = 0; i < K; ++i) c.col(i) = J * V3(v.segment(3 + 3 * i, 3));
  return spec::group(spec::gamma(w, 0), c);
}
}}
#endif
#endif
#ifdef STUB_LIE_APP
#ifdef VC_SYM
namespace math { namespace lie_group {
Eigen::Matrix3d Gamma_SO3(const Eigen::Vector3d& w, int m) { return spec::gamma_app(w, m); }
Eigen::Matrix3d Exp_SO3(const Eigen::Vector3d& w) { return spec::gamma_app(w, 0); }
Eigen::Matrix3d LeftJacobian_SO3(const Eigen::Vector3d& w) { return spec::gamma_app(w, 1); }
Eigen::Matrix3d RightJacobian_SO3(const Eigen::Vector3d& w) { return spec::gamma_app(V3(-w), 1); }
Eigen::MatrixXd Exp_SEK3(const Eigen::VectorXd& v) {
  int K = (v.size() - 3) / 3;
  V3 w = v.head(3);
  MX c(3, K);
  M3 J = spec::gamma_app(w, 1);
  for (int i = 0; i < K; ++i) c.col(i) = J * V3(v.segment(3 + 3 * i, 3));
  return spec::group(spec::gamma_app(w, 0), c);
}
}}
#endif
#endif
