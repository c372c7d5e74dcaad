// C01, C05, C06, C22: the invariant Kalman update.
#ifndef CLOSED_EXP
#define STUB_LIE_APP
#endif
#include "common.h"
#include "inekf_spec.h"
using namespace filter::inekf;

namespace {
ErrorType err(int i) { return i ? ErrorType::RightInvariant : ErrorType::LeftInvariant; }
}  // namespace

CONTRACT(C05_right_observation, "CorrectRightInvariant") {
  // split: K=5 err=2 bias=2 m=2
  int K = choose("K", 5), m = choose("m", 2) ? 3 : 1, e = choose("err", 2), b = choose("bias", 2);
  auto s = build::any_state(K, "s", false);
  s.set_enable_imu_bias_update(b);
  build::Snapshot o(s);
  spec::Kalman k(o, m, e, b, true);
  CorrectRightInvariant(k.Z, k.H, k.N, s, err(e));
  eq("mean", s.get_X(), k.X);
  eq("bias", s.get_theta(), k.theta);
  eq("covariance", s.get_P(), k.P);
  eq("bookkeeping_kept", s.get_time(), o.t);
  eq("bookkeeping_kept", s.get_propagate_time(), o.tp);
  eq("noise_kept", s.get_continuous_noise_covariance(), o.Qc);
}
CONTRACT(C05_left_observation, "CorrectLeftInvariant") {
  // split: K=5 err=2 bias=2 m=2
  int K = choose("K", 5), m = choose("m", 2) ? 3 : 1, e = choose("err", 2), b = choose("bias", 2);
  auto s = build::any_state(K, "s", false);
  s.set_enable_imu_bias_update(b);
  build::Snapshot o(s);
  spec::Kalman k(o, m, e, b, false);
  CorrectLeftInvariant(k.Z, k.H, k.N, s, err(e));
  eq("mean", s.get_X(), k.X);
  eq("bias", s.get_theta(), k.theta);
  eq("covariance", s.get_P(), k.P);
  eq("bookkeeping_kept", s.get_time(), o.t);
  eq("bookkeeping_kept", s.get_propagate_time(), o.tp);
  eq("noise_kept", s.get_continuous_noise_covariance(), o.Qc);
}
// The two parametrisations: same mean, covariances related by the adjoint.
CONTRACT(C06_correction, "CorrectRightInvariant, CorrectLeftInvariant") {
  // split: K=5 bias=2 right_observation=2
  int K = choose("K", 5), m = choose("m", 2) ? 3 : 1, b = choose("bias", 2);
  int right = choose("right_observation", 2);
  auto s = build::any_state(K, "s", false);
  s.set_enable_imu_bias_update(b);
  auto l = s;
  build::Snapshot o(s);
  int d = 15 + 3 * K;
  MX T = eye(d);
  if (right) {        // left covariance arbitrary, right covariance is its image
    T.block(0, 0, d - 6, d - 6) = spec::adjoint(o.X);
    s.set_P(T * o.P * T.transpose());
  } else {
    T.block(0, 0, d - 6, d - 6) = spec::adjoint(spec::group_inv(o.X));
    l.set_P(T * o.P * T.transpose());
  }
  spec::Kalman k(o, m, !right, b, right);   // names for the intermediate quantities
  if (right) {
    CorrectRightInvariant(k.Z, k.H, k.N, s, ErrorType::RightInvariant);
    CorrectRightInvariant(k.Z, k.H, k.N, l, ErrorType::LeftInvariant);
  } else {
    CorrectLeftInvariant(k.Z, k.H, k.N, s, ErrorType::RightInvariant);
    CorrectLeftInvariant(k.Z, k.H, k.N, l, ErrorType::LeftInvariant);
  }
  eq("same_mean", s.get_X(), l.get_X());
  eq("same_bias", s.get_theta(), l.get_theta());
  MX U = eye(d);
  if (right) {
    U.block(0, 0, d - 6, d - 6) = spec::adjoint(spec::group_inv(l.get_X()));
    eq("related_covariance", l.get_P(), MX(U * s.get_P() * U.transpose()));
  } else {
    U.block(0, 0, d - 6, d - 6) = spec::adjoint(l.get_X());
    eq("related_covariance", s.get_P(), MX(U * l.get_P() * U.transpose()));
  }
}
CONTRACT(C22_correction, "CorrectRightInvariant, CorrectLeftInvariant") {
  // split: K=5 right_observation=2 err=2 bias=2
  int K = choose("K", 5), e = choose("err", 2), b = choose("bias", 2), right = choose("right_observation", 2);
  auto s = build::any_state(K, "s", false);
  s.set_enable_imu_bias_update(b);
  build::Snapshot o(s);
  spec::Kalman k(o, 3, e, b, right);
  if (right) CorrectRightInvariant(k.Z, k.H, k.N, s, err(e));
  else CorrectLeftInvariant(k.Z, k.H, k.N, s, err(e));
  psd("semidefinite", s.get_P(), k.P);
}
