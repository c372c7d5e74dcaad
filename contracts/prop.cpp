// C01, C03, C04, C18: IMU propagation.
#define STUB_LIE_CLOSED
#include "drift/filter/inekf/propagation/imu_propagation.h"
#include "common.h"
#include "anybuf.h"
using namespace filter::inekf;

namespace {
struct Rig {
  IMUQueuePtr buf{new IMUQueue};
  std::shared_ptr<std::mutex> mtx{new std::mutex};
  M3 Ri2b;
  V3 ti2b;
  D sg, sa, sbg, sba;
  V3 bg0, ba0;
  bool enable, ori, stat;
  std::shared_ptr<ImuPropagation> p;
  V3 g;
  Rig(ErrorType e, int enable_bias, int use_ori = 0, int statics = 0, int init_size = 0) {
    Ri2b = build::quat_yaml("qi");
    ti2b = vec3("ti");
    sg = pos("sg"); sa = pos("sa"); sbg = pos("sbg"); sba = pos("sba");
    bg0 = vec3("bgp"); ba0 = vec3("bap");
    enable = enable_bias; ori = use_ori; stat = statics;
    std::string y = "settings:\n  static_bias_initialization: " + std::string(stat ? "true" : "false")
        + "\n  init_bias_size: " + std::to_string(init_size)
        + "\n  use_imu_ori_to_init: " + (ori ? "true" : "false")
        + "\n  rotation_imu2body: " + build::list("qi", 4)
        + "\n  translation_imu2body: " + build::list("ti", 3)
        + "\n  enable_imu_bias_update: " + (enable ? "true" : "false")
        + "\nnoises:\n  gyroscope_std: @sg\n  accelerometer_std: @sa\n  gyroscope_bias_std: @sbg\n"
          "  accelerometer_bias_std: @sba\npriors:\n  gyroscope_bias: " + build::list("bgp", 3)
        + "\n  accelerometer_bias: " + build::list("bap", 3) + "\n";
    p = std::make_shared<ImuPropagation>(buf, mtx, e, yaml(y));
    guarded("imu buffer", buf.get(), mtx.get());
    g = V3(D(0), D(0), D(-9.8));
  }
  ImuMeasurementPtr put(const std::string& n) {
    Quiet q;
    auto m = std::make_shared<measurement::ImuMeasurement<D>>(build::imu(n));
    buf->push(m);
    return m;
  }
  // makes m the previous measurement, as initialisation does
  void previous(const ImuMeasurementPtr& m, state::RobotState& s) {
    p->prev_imu_measurement_ = m;
    s.set_enable_imu_bias_update(enable);
  }
  // any number of samples behind those put in
  AnyBuffer<ImuMeasurementPtr> b;
  void more() {
    Quiet q;
    b.behind(buf.get(), "more", [](const std::string& n) { return std::make_shared<measurement::ImuMeasurement<D>>(build::imu(n)); });
  }
};
ErrorType err(int i) { return i ? ErrorType::RightInvariant : ErrorType::LeftInvariant; }
V3 corrected_w(Rig& r, ImuMeasurementPtr m, state::RobotState& s) {
  return V3(r.Ri2b * m->get_angular_velocity() - V3(s.get_theta().head(3)));
}
V3 corrected_a(Rig& r, ImuMeasurementPtr m, state::RobotState& s, const V3& w) {
  return V3(r.Ri2b * m->get_lin_acc() - V3(s.get_theta().segment(3, 3)) - skew(w) * (skew(w) * r.ti2b));
}
}  // namespace

// Mean: closed-form strapdown integration over the elapsed time with the
// previous, bias-corrected, frame-aligned, lever-arm-compensated sample.
CONTRACT(C03_mean, "ImuPropagation::Propagate, ImuPropagation::ImuPropagation") {
  int K = choose("K", 5);
  Rig r(err(choose("err", 2)), choose("bias", 2));
  auto s = build::any_state(K);
  auto m0 = std::make_shared<measurement::ImuMeasurement<D>>(build::imu("m0"));
  r.previous(m0, s);
  auto m1 = r.put("m1");
  r.more();
  build::Snapshot o(s);
  bool ret = r.p->Propagate(s);
  ok("reports_success", ret);
  D dt = m0->get_time() - o.tp;
  state::RobotState so(o.X, o.th, o.P);
  V3 w = corrected_w(r, m0, so), a = corrected_a(r, m0, so, w);
  let("dt", m0->get_time() - o.tp); let("rate", w); let("force", a);
  M3 R = o.X.block(0, 0, 3, 3);
  V3 v = o.X.block(0, 3, 3, 1), p = o.X.block(0, 4, 3, 1), phi = w * dt;
  eq("rotation", s.get_rotation(), M3(R * spec::gamma(phi, 0)));
  eq("velocity", s.get_velocity(), V3(v + (R * spec::gamma(phi, 1) * a + r.g) * dt));
  eq("position", s.get_position(), V3(p + v * dt + (R * spec::gamma(phi, 2) * a + r.g * 0.5) * (dt * dt)));
  MX X = s.get_X();
  eqi("dimension", X.cols(), o.dimX);
  eq("other_columns_and_bottom_rows", MX(X.block(0, 5, o.dimX, K)), MX(o.X.block(0, 5, o.dimX, K)));
  eq("other_columns_and_bottom_rows", MX(X.block(3, 0, o.dimX - 3, o.dimX)), MX(o.X.block(3, 0, o.dimX - 3, o.dimX)));
  eq("biases_kept", s.get_theta(), o.th);
  eq("time", s.get_time(), m0->get_time());
  eq("time", s.get_propagate_time(), m0->get_time());
  ok("consumes_one_and_keeps_it_for_the_next_step",
     r.p->prev_imu_measurement_ == m1 && r.b.rest(1));
}
// The pose stays in the group.
CONTRACT(C01_propagation, "ImuPropagation::Propagate") {
  int K = choose("K", 5);
  Rig r(err(choose("err", 2)), choose("bias", 2));
  auto s = build::any_state(K);
  auto m0 = std::make_shared<measurement::ImuMeasurement<D>>(build::imu("m0"));
  r.previous(m0, s);
  r.put("m1");
  r.more();
  build::Snapshot o(s);
  D dt = m0->get_time() - o.tp;
  state::RobotState so(o.X, o.th, o.P);
  let("dt", m0->get_time() - o.tp); let("rate", corrected_w(r, m0, so));
  r.p->Propagate(s);
  build::valid_pose("pose", s.get_X());
  eq("contact_points_kept", MX(s.get_X().block(0, 5, 3, K)), MX(o.X.block(0, 5, 3, K)));
  ok("dimension_kept", s.dimX() == 5 + K);
}
CONTRACT(C03_empty, "ImuPropagation::Propagate") {
  Rig r(err(choose("err", 2)), choose("bias", 2));
  auto s = build::any_state(1);
  auto m0 = std::make_shared<measurement::ImuMeasurement<D>>(build::imu("m0"));
  r.previous(m0, s);
  build::Snapshot o(s);
  ok("reports_failure", !r.p->Propagate(s));
  build::unchanged("state_unchanged", o, s);
  ok("previous_sample_kept", r.p->prev_imu_measurement_ == m0);
}
// The closed forms solve the strapdown equations R' = R w^, v' = R a + g, p' = v.
CONTRACT(C03_ode, "ImuPropagation::Propagate") {
  if (!symbolic()) { ok("flow", true); return; }
  Rig r(err(choose("err", 2)), 1);
  auto s = build::any_state(0, "s", false);
  auto m0 = std::make_shared<measurement::ImuMeasurement<D>>(build::imu("m0"));
  s.set_propagate_time(D(0));
  m0->set_time(pos("dt"));
  D dt = pos("dt");
  r.previous(m0, s);
  r.put("m1");
  r.more();
  build::Snapshot o(s);
  state::RobotState so(o.X, o.th, o.P);
  V3 w = corrected_w(r, m0, so), a = corrected_a(r, m0, so, w);
  let("dt", m0->get_time() - o.tp); let("rate", w); let("force", a);
  r.p->Propagate(s);
  M3 R = s.get_rotation(), dR;
  V3 v = s.get_velocity(), p = s.get_position(), dv, dp;
  for (int i = 0; i < 3; ++i) {
    for (int j = 0; j < 3; ++j) dR(i, j) = diffby(R(i, j), dt);
    dv(i) = diffby(v(i), dt);
    dp(i) = diffby(p(i), dt);
  }
  eq("attitude_flow", dR, M3(R * skew(w)));
  eq("velocity_flow", dv, V3(R * a + r.g));
  eq("position_flow", dp, v);
}
// Covariance: P+ = Phi P Phi^T + Qd, with the bias block decoupled when bias
// estimation is off.
CONTRACT(C04_covariance, "ImuPropagation::Propagate") {
  // split: K=5
  int K = choose("K", 5), e = choose("err", 2), b = choose("bias", 2);
  Rig r(err(e), b);
  auto s = build::any_state(K);
  auto m0 = std::make_shared<measurement::ImuMeasurement<D>>(build::imu("m0"));
  r.previous(m0, s);
  r.put("m1");
  r.more();
  build::Snapshot o(s);
  state::RobotState so(o.X, o.th, o.P);
  so.set_continuous_noise_covariance(o.Qc);
  D dt = m0->get_time() - o.tp;
  V3 w = corrected_w(r, m0, so), a = corrected_a(r, m0, so, w);
  let("dt", m0->get_time() - o.tp); let("rate", w); let("force", a);
  MX Phi = r.p->StateTransitionMatrix(w, a, dt, so);
  MX Qd = r.p->DiscreteNoiseMatrix(Phi, dt, so);
  let("Phi", Phi); let("Qd", Qd);
  r.p->Propagate(s);
  int d = 15 + 3 * K, n = d - 6;
  MX P = Phi * o.P * Phi.transpose() + Qd;
  if (!b) {
    P.block(0, n, n, 6) = zero(n, 6);
    P.block(n, 0, 6, n) = zero(6, n);
    P.block(n, n, 6, 6) = eye(6);
  }
  eq("congruence_plus_noise", s.get_P(), P);
  eq("symmetric", s.get_P(), MX(s.get_P().transpose()));
  eq("noise_of_other_columns_kept", s.get_continuous_noise_covariance(), o.Qc);
}
// noise of contact points only, as contacts leave it in the estimate
namespace {
MX contact_noise(int K) {
  MX Q = zero(15 + 3 * K, 15 + 3 * K);
  for (int i = 0; i < K; ++i) {
    D c = pos("contact" + std::to_string(i));
    Q.block(9 + 3 * i, 9 + 3 * i, 3, 3) = eye(3) * (c * c);
  }
  return Q;
}
MX full_noise(Rig& r, int K, bool b) {
  MX Q = contact_noise(K);
  int n = 9 + 3 * K;
  for (int i = 0; i < 3; ++i) {
    Q(i, i) = r.sg * r.sg;
    Q(3 + i, 3 + i) = r.sa * r.sa;
    if (b) { Q(n + i, n + i) = r.sbg * r.sbg; Q(n + 3 + i, n + 3 + i) = r.sba * r.sba; }
  }
  return Q;
}
MX lift(const MX& A) {            // biases unchanged
  MX T = eye(A.rows() + 6);
  T.block(0, 0, A.rows(), A.cols()) = A;
  return T;
}
struct Step {                     // one propagation, and its transition matrix by name
  MX Phi, Qd; D dt;
  Step(Rig& r, state::RobotState& s, int K, bool qd) {
    auto m0 = std::make_shared<measurement::ImuMeasurement<D>>(build::imu("m0"));
    r.previous(m0, s);
    r.put("m1");
    r.more();
    state::RobotState so(s.get_X(), s.get_theta(), s.get_P());
    so.set_continuous_noise_covariance(s.get_continuous_noise_covariance());
    dt = m0->get_time() - s.get_propagate_time();
    V3 w = corrected_w(r, m0, so), a = corrected_a(r, m0, so, w);
    let("dt", dt); let("rate", w); let("force", a);
    Phi = r.p->StateTransitionMatrix(w, a, dt, so);
    let("Phi", Phi);
    if (qd) {
      Qd = r.p->DiscreteNoiseMatrix(Phi, dt, so);
      let("Qd", Qd);
    }
    r.p->Propagate(s);
  }
};
}  // namespace
// Discrete noise of conjugate transitions is conjugate: with Phi_R = T1 Phi T0^-1
// and T0 the adjoint of the estimate, Qd_R = T1 Qd_L T1^T.
CONTRACT(C06_noise, "ImuPropagation::DiscreteNoiseMatrix") {
  // split: K=5
  int K = choose("K", 5), b = choose("bias", 2), d = 15 + 3 * K;
  Rig L(err(0), b), R(err(1), b);
  auto s = build::any_state(K, "s", false);
  s.set_continuous_noise_covariance(contact_noise(K));
  MX Phi = mat("Phi", d, d), T1 = lift(spec::adjoint(spec::group(rot("next.R"), mat("next.c", 3, 2 + K))));
  MX A = T1 * Phi, PhiR = A * lift(spec::adjoint(spec::group_inv(s.get_X())));
  let("A", A);
  D dt = pos("dt");
  MX QL = L.p->DiscreteNoiseMatrix(Phi, dt, s), QR = R.p->DiscreteNoiseMatrix(PhiR, dt, s), Q = full_noise(L, K, b);
  eq("left_invariant", QL, MX(Phi * Q * Phi.transpose() * dt));
  eq("right_invariant", QR, MX(A * Q * A.transpose() * dt));     // T1 Qd_L T1^T
}
// Propagation composes transition and noise the same way for both errors, and
// moves the mean the same way: with C06_transition and C06_noise (and
// lean/Conjugate.lean) the covariances stay adjoint-related.
CONTRACT(C06_composition, "ImuPropagation::Propagate") {
  // split: K=5
  int K = choose("K", 5), b = choose("bias", 2), e = choose("err", 2), d = 15 + 3 * K, n = d - 6;
  Rig r(err(e), b), q(err(1 - e), b);
  auto s = build::any_state(K, "s", false);
  s.set_continuous_noise_covariance(contact_noise(K));
  build::Snapshot o(s);
  auto z = s;
  Step t(r, s, K, true);
  MX P = t.Phi * o.P * t.Phi.transpose() + t.Qd;
  if (!b) {
    P.block(0, n, n, 6) = zero(n, 6);
    P.block(n, 0, 6, n) = zero(6, n);
    P.block(n, n, 6, 6) = eye(6);
  }
  eq("covariance", s.get_P(), P);
  auto m0 = std::make_shared<measurement::ImuMeasurement<D>>(build::imu("m0"));
  q.previous(m0, z);
  q.put("m1");
  q.p->Propagate(z);
  eq("same_mean", z.get_X(), s.get_X());
  eq("same_bias", z.get_theta(), s.get_theta());
  eq("same_clock", z.get_propagate_time(), s.get_propagate_time());
  eq("same_clock", z.get_time(), s.get_time());
}
// Whatever the transition: a congruence of the covariance plus one of the noise.
CONTRACT(C22_propagation, "ImuPropagation::Propagate, ImuPropagation::DiscreteNoiseMatrix") {
  int K = choose("K", 5), b = choose("bias", 2), e = choose("err", 2), d = 15 + 3 * K, n = d - 6;
  Rig r(err(e), b);
  auto s = build::any_state(K, "s", false);
  s.set_continuous_noise_covariance(contact_noise(K));
  build::Snapshot o(s);
  D dt = build::imu("m0").get_time() - o.tp;
  assume(dt >= 0);
  Step t(r, s, K, false);
  MX G = eye(d), M = eye(d), E = zero(d, d);
  if (e) G = lift(spec::adjoint(o.X));
  if (!b) { M.block(n, n, 6, 6) = zero(6, 6); E.block(n, n, 6, 6) = eye(6); }
  MX F = t.Phi * G;
  psd("semidefinite", s.get_P(), MX(M * (t.Phi * o.P * t.Phi.transpose() + F * full_noise(r, K, b) * F.transpose() * dt) * M + E));
}
// Discrete noise: Qd = (Phi G) Qc (Phi G)^T dt, G = Adjoint of the state for the
// right-invariant error and identity for the left-invariant error.
CONTRACT(C04_noise, "ImuPropagation::DiscreteNoiseMatrix, ImuPropagation::ImuPropagation") {
  int K = choose("K", 5), e = choose("err", 2), b = choose("bias", 2);
  Rig r(err(e), b);
  auto s = build::any_state(K);
  int d = 15 + 3 * K, n = d - 6;
  MX Phi = mat("Phi", d, d);
  D dt = pos("dt");
  build::Snapshot o(s);
  MX Qd = r.p->DiscreteNoiseMatrix(Phi, dt, s);
  MX Qc = o.Qc;
  Qc.block(0, 0, 3, 3) = eye(3) * (r.sg * r.sg);
  Qc.block(3, 3, 3, 3) = eye(3) * (r.sa * r.sa);
  if (b) {
    Qc.block(n, n, 3, 3) = eye(3) * (r.sbg * r.sbg);
    Qc.block(n + 3, n + 3, 3, 3) = eye(3) * (r.sba * r.sba);
  }
  MX G = eye(d);
  if (e) G.block(0, 0, n, n) = spec::adjoint(o.X);
  eq("discretisation", Qd, MX((Phi * G) * Qc * (Phi * G).transpose() * dt));
}
// Transition matrix: flow of the left-invariant error dynamics, Phi' = A Phi,
// Phi(0) = I, for constant rate and specific force over the step.
CONTRACT(C04_transition_left, "ImuPropagation::StateTransitionMatrix") {
  int K = choose("K", 5);
  Rig r(err(0), 1);
  auto s = build::any_state(K, "s", false);
  V3 w = vec3("w"), a = vec3("a");
  D dt = pos("dt");
  MX Phi = r.p->StateTransitionMatrix(w, a, dt, s);
  int d = 15 + 3 * K, n = d - 6;
  MX A = zero(d, d);
  for (int i = 0; i < n / 3; ++i) A.block(3 * i, 3 * i, 3, 3) = -skew(w);
  A.block(3, 0, 3, 3) = -skew(a);
  A.block(6, 3, 3, 3) = eye(3);
  A.block(0, n, 3, 3) = -eye(3);
  A.block(3, n + 3, 3, 3) = -eye(3);
#ifdef VC_SYM
  MX dPhi(d, d), AP = A * Phi;
  for (int i = 0; i < d; ++i)
    for (int j = 0; j < d; ++j) dPhi(i, j) = diffby(Phi(i, j), dt);
  bool exact = true;
  for (int i = 3; i < 9; ++i)
    for (int j = n; j < n + 3; ++j) exact = exact && sym::agree_at_points(dPhi(i, j), AP(i, j));
  if (!exact) {
    // a rotation below 1e-3 rad: the coupling of the gyro bias to velocity and
    // position may use its Taylor series, to first or higher order in the rate
    V3 phi = w * dt;
    D angle2 = phi(0) * phi(0) + phi(1) * phi(1) + phi(2) * phi(2);
    le("series_for_small_rotations_only", angle2, D(1e-6));
    M3 W = skew(w), Ax = skew(a), Wj = M3::Identity(), V = Ax, U = Ax;
    MX S25 = Ax * (dt * dt * 0.5), S35 = Ax * (dt * dt * dt / 6.0);
    D tj = dt * dt;
    bool found = false;
    MX b25 = Phi.block(3, n, 3, 3), b35 = Phi.block(6, n, 3, 3), g25, g35;
    for (int k = 1; k <= 4 && !found; ++k) {
      tj = tj * dt;
      Wj = (Wj * (-W)).eval();
      V = (Ax * Wj - W * V).eval();
      U = (V - W * U).eval();
      S25 = (S25 + V * (tj / spec::fact(k + 2))).eval();
      S35 = (S35 + U * (tj * dt / spec::fact(k + 3))).eval();
      if (k == 1) g25 = S25, g35 = S35;
      found = true;
      for (int i = 0; i < 9 && found; ++i)
        found = sym::agree_at_points(b25(i / 3, i % 3), S25(i / 3, i % 3)) && sym::agree_at_points(b35(i / 3, i % 3), S35(i / 3, i % 3));
    }
    eq("small_rotation_series", b25, found ? S25 : g25);
    eq("small_rotation_series", b35, found ? S35 : g35);
    for (int i = 0; i < d; ++i)
      for (int j = 0; j < d; ++j)
        if (!(j >= n && j < n + 3 && i >= 3 && i < 9)) eq("flow", dPhi(i, j), AP(i, j));
  } else {
    eq("flow", dPhi, AP);
  }
#else
  // flow by a power series
  MX T = eye(d), S = eye(d);
  for (int k = 1; k < 80; ++k) { T = (T * A * dt / double(k)).eval(); S += T; }
  eq("flow", Phi, S);
#endif
}
CONTRACT(C04_transition_at_zero, "ImuPropagation::StateTransitionMatrix") {
  int e = choose("err", 2), K = choose("K", 5);
  Rig r(err(e), 1);
  auto s = build::any_state(K, "s", false);
#ifdef VC_SYM
  V3 w = vec3("w"), a = vec3("a");
  MX Phi = r.p->StateTransitionMatrix(w, a, pos("dt"), s);
  for (int i = 0; i < Phi.rows(); ++i)
    for (int j = 0; j < Phi.cols(); ++j)
      eq("identity_at_zero", sym::limit0(Phi(i, j), pos("dt")), D(i == j ? 1 : 0));
#else
  V3 w = vec3("w"), a = vec3("a");
  MX Phi = r.p->StateTransitionMatrix(w, a, D(1e-12), s);
  for (int i = 0; i < Phi.rows(); ++i)
    for (int j = 0; j < Phi.cols(); ++j) ok("identity_at_zero", std::fabs(Phi(i, j) - (i == j)) < 1e-8);
#endif
}
// Right-invariant transition = Ad(X+) Phi_L Ad(X)^-1 (bias coordinates fixed).
static void conjugate() {
  int K = choose("K", 5), b = choose("bias", 2);
  Rig L(err(0), b), r(err(1), b);
  auto s = build::any_state(K, "s", false);
  V3 w = vec3("w"), a = vec3("a");
  D dt = pos("dt");
  MX PL = L.p->StateTransitionMatrix(w, a, dt, s), PR = r.p->StateTransitionMatrix(w, a, dt, s);
  int d = 15 + 3 * K, n = d - 6;
  MX X = s.get_X(), Xn = X;
  M3 R = X.block(0, 0, 3, 3);
  V3 v = X.block(0, 3, 3, 1), p = X.block(0, 4, 3, 1), phi = w * dt;
  Xn.block(0, 0, 3, 3) = R * spec::gamma(phi, 0);
  Xn.block(0, 3, 3, 1) = v + (R * spec::gamma(phi, 1) * a + r.g) * dt;
  Xn.block(0, 4, 3, 1) = p + v * dt + (R * spec::gamma(phi, 2) * a + r.g * 0.5) * (dt * dt);
  MX T1 = eye(d), T0 = eye(d);
  T1.block(0, 0, n, n) = spec::adjoint(Xn);
  T0.block(0, 0, n, n) = spec::adjoint(spec::group_inv(X));
  MX want = T1 * PL * T0;
  eq("adjoint_conjugate", PR, want);
}
CONTRACT(C04_transition_right, "ImuPropagation::StateTransitionMatrix") { conjugate(); }
CONTRACT(C06_transition, "ImuPropagation::StateTransitionMatrix") { conjugate(); }
CONTRACT(C04_bias_off, "ImuPropagation::StateTransitionMatrix") {
  int K = choose("K", 5), e = choose("err", 2);
  Rig r(err(e), 0), q(err(e), 1);
  auto s = build::any_state(K, "s", false);
  V3 w = vec3("w"), a = vec3("a");
  D dt = pos("dt");
  MX P0 = r.p->StateTransitionMatrix(w, a, dt, s), P1 = q.p->StateTransitionMatrix(w, a, dt, s);
  int n = 9 + 3 * K;
  eq("no_bias_coupling", MX(P0.block(0, n, n, 6)), zero(n, 6));
  eq("same_motion_block", MX(P0.block(0, 0, n, n)), MX(P1.block(0, 0, n, n)));
}

// ---- initialisation
namespace {
ImuMeasurementPtr oriented(const std::string& n) {
  auto m = std::make_shared<measurement::ImuMeasurement<D>>(build::imu(n));
  auto q = quat(n + ".q");
  m->quaternion_ = Eigen::Quaternion<D>(q[0], q[1], q[2], q[3]);
  return m;
}
bool holds(Rig& r, const std::vector<ImuMeasurementPtr>& m, size_t from) {
  Quiet q;
  auto& it = r.buf->ghost_items();
  if (it.size() != m.size() - from) return false;
  for (size_t i = 0; i < it.size(); ++i) if (it[i] != m[from + i]) return false;
  return true;
}
}  // namespace
// N samples at rest, whatever arrives after them, and calls that find nothing.
CONTRACT(C18_static_bias, "ImuPropagation::InitImuBias, ImuPropagation::get_bias_initialized, ImuPropagation::get_estimate_gyro_bias, ImuPropagation::get_estimate_accel_bias") {
  int N = choose("N", 4), ori = choose("use_orientation", 2);
  Rig r(err(choose("err", 2)), 1, ori, 1, N);
  if (N && flag("early_call")) {
    r.p->InitImuBias();
    ok("waits_for_samples", !r.p->get_bias_initialized());
  }
  for (int i = 0; i < N; ++i) { Quiet q; r.buf->push(oriented("m" + std::to_string(i))); }
  AnyBuffer<ImuMeasurementPtr> b;
  { Quiet q; b.behind(r.buf.get(), "more", &oriented); }
  auto& m = b.seen;
  V3 bg = V3::Zero(), ba = V3::Zero();
  for (int i = 0; i < N; ++i) {
    ok("not_before_all_samples", !r.p->get_bias_initialized());
    ok("one_sample_each", b.rest(i));
    r.p->InitImuBias();
    V3 w = r.Ri2b * m[i]->get_angular_velocity();
    M3 R = ori ? M3(m[i]->get_rotation_matrix()) : M3(M3::Identity());
    bg += w;
    ba += V3(r.Ri2b * m[i]->get_lin_acc() - skew(w) * (skew(w) * r.ti2b) + R.transpose() * r.g);
  }
  r.p->InitImuBias();
  ok("initialised", r.p->get_bias_initialized());
  ok("consumes_exactly_those", b.rest(N));
  if (N) { bg = V3(bg / D(N)); ba = V3(ba / D(N)); }
  else { bg = r.bg0; ba = r.ba0; }
  eq("gyroscope_bias", r.p->get_estimate_gyro_bias(), bg);
  eq("accelerometer_bias", r.p->get_estimate_accel_bias(), ba);
}
CONTRACT(C18_prior, "ImuPropagation::InitImuBias") {
  Rig r(err(choose("err", 2)), choose("bias", 2), choose("use_orientation", 2), 0, choose("N", 3));
  AnyBuffer<ImuMeasurementPtr> b;
  b.open(r.buf.get(), "m", &oriented);
  ok("not_yet", !r.p->get_bias_initialized());
  r.p->InitImuBias();
  ok("initialised", r.p->get_bias_initialized());
  eq("gyroscope_bias", r.p->get_estimate_gyro_bias(), r.bg0);
  eq("accelerometer_bias", r.p->get_estimate_accel_bias(), r.ba0);
  ok("takes_no_sample", b.rest(0));
}
CONTRACT(C18_initial_state, "ImuPropagation::set_initial_state") {
  int ori = choose("use_orientation", 2), K = choose("K", 5), bias = choose("bias", 2), n = choose("n", 3), st = choose("static", 2);
  Rig r(err(choose("err", 2)), bias, ori, st, 1);
  if (st) {                       // biases from a sample at rest
    Quiet q;
    r.buf->push(oriented("rest"));
    r.p->InitImuBias();
    r.p->InitImuBias();
  } else {
    r.p->InitImuBias();
  }
  auto s = build::any_state(K);
  for (int i = 0; i < n; ++i) { auto k = oriented("m" + std::to_string(i)); Quiet q; r.buf->push(k); }
  AnyBuffer<ImuMeasurementPtr> b;
  if (n) { Quiet q; b.behind(r.buf.get(), "more", &oriented); }
  auto& m = b.seen;
  build::Snapshot o(s);
  bool ret = r.p->set_initial_state(s);
  ok("reports", ret == (n > 0));
  if (!n) { build::unchanged("without_data_nothing_changes", o, s); return; }
  V3 bg = r.p->get_estimate_gyro_bias(), ba = r.p->get_estimate_accel_bias();
  M3 R = ori ? M3(m[0]->get_rotation_matrix()) : M3(M3::Identity());
  o.X.block(0, 0, 3, 3) = R;
  o.X.block(0, 4, 3, 1) = V3::Zero();
  eq("pose", s.get_X(), o.X);
  o.th.head(3) = bg;
  o.th.tail(3) = ba;
  eq("biases", s.get_theta(), o.th);
  int d = 15 + 3 * K;
  o.P.block(d - 6, d - 6, 3, 3) = eye(3) * (r.sbg * r.sbg);
  o.P.block(d - 3, d - 3, 3, 3) = eye(3) * (r.sba * r.sba);
  eq("covariance", s.get_P(), o.P);
  eq("time", s.get_time(), m[0]->get_time());
  eq("time", s.get_propagate_time(), m[0]->get_time());
  eq("body_rate", s.get_body_angular_velocity(), V3(r.Ri2b * m[0]->get_angular_velocity() - bg));
  ok("bias_estimation_as_configured", s.get_enable_imu_bias_update() == r.enable);
  ok("consumes_one", b.rest(1));
  eq("noise_kept", s.get_continuous_noise_covariance(), o.Qc);
  // and is the first sample to integrate
  if (n < 2) return;
  build::Snapshot i(s);
  Quiet q;
  m[1]->set_time(m[0]->get_time() + pos("step"));
  bool first = r.p->Propagate(s);
  ok("first_step", first);
  eq("first_step_starts_at_the_sample", s.get_X(), i.X);
  eq("first_step_starts_at_the_sample", s.get_propagate_time(), i.tp);
  { r.buf->ghost_any(nullptr); auto last = oriented("last"); r.buf->push(last); r.buf->push(last); }
  ok("integrates_the_next", r.p->Propagate(s));
  eq("integrates_the_next", s.get_propagate_time(), m[1]->get_time());
}
// A robot at rest whose biases were initialised from its own samples stays at rest.
CONTRACT(C18_rest, "ImuPropagation::InitImuBias, ImuPropagation::set_initial_state, ImuPropagation::Propagate") {
  int ori = choose("use_orientation", 2);
  Rig r(err(choose("err", 2)), 1, ori, 1, 2);
  auto m = oriented("m");
  V3 z = V3::Zero();
  m->set_angular_velocity(z(0), z(1), z(2));
  Quiet q;
  for (int i = 0; i < 2; ++i) { r.buf->push(m); r.p->InitImuBias(); }
  r.p->InitImuBias();
  auto s = build::any_state(0, "s", false);
  s.set_velocity(V3(V3::Zero()));
  r.buf->push(m);
  r.p->set_initial_state(s);
  auto k = std::make_shared<measurement::ImuMeasurement<D>>(*m);
  k->set_time(m->get_time() + pos("step"));
  build::Snapshot o(s);
  r.buf->push(k);
  r.buf->push(k);
  r.p->Propagate(s);
  r.p->Propagate(s);
  eq("stays_at_rest", s.get_X(), o.X);
  eq("time_advances", s.get_propagate_time(), k->get_time());
}
CONTRACT(C01_initial_state, "ImuPropagation::set_initial_state, ImuPropagation::InitImuBias") {
  int ori = choose("use_orientation", 2), K = choose("K", 5), st = choose("static", 2);
  Rig r(err(choose("err", 2)), choose("bias", 2), ori, st, 1);
  std::vector<ImuMeasurementPtr> m;
  for (int i = 0, n = choose("n", 3); i < n; ++i) { m.push_back(oriented("m" + std::to_string(i))); Quiet q; r.buf->push(m.back()); }
  r.p->InitImuBias();
  if (st) r.p->InitImuBias();
  auto s = build::any_state(K);
  MX c = s.get_X().block(0, 5, 3, K);
  r.p->set_initial_state(s);
  build::valid_pose("pose", s.get_X());
  eq("contact_points_kept", MX(s.get_X().block(0, 5, 3, K)), c);
}
CONTRACT(C18_clear, "ImuPropagation::clear") {
  Rig r(err(0), 1);
  std::vector<ImuMeasurementPtr> m;
  for (int i = 0, n = choose("samples", 4); i < n; ++i) { m.push_back(oriented("m" + std::to_string(i))); Quiet q; r.buf->push(m.back()); }
  r.p->clear();
  ok("empties_buffer", holds(r, m, m.size()));
}
CONTRACT(C18_clear_any, "ImuPropagation::clear") {
  Rig r(err(0), 1);
  AnyBuffer<ImuMeasurementPtr> b;
  b.open(r.buf.get(), "m", &oriented);
  emptying("propagation clear", b, r.mtx.get());
  r.p->clear();
  ok("empties_buffer", b.exhausted());
}
// Every key left out in turn, and all of them: documented defaults.
CONTRACT(C18_configuration, "ImuPropagation::ImuPropagation") {
  static const char* key[11] = {"gyroscope_std", "accelerometer_std", "gyroscope_bias_std", "accelerometer_bias_std",
                                "gyroscope_bias", "accelerometer_bias", "rotation_imu2body", "translation_imu2body",
                                "enable_imu_bias_update", "use_imu_ori_to_init", "static_bias_initialization"};
  int missing = choose("missing", 13) - 1, e = choose("err", 2);
  auto has = [&](int k) { return missing != k && missing != 11; };
  std::string st = "settings:\n  x: 1\n", no = "noises:\n  x: 1\n", pr = "priors:\n  x: 1\n";
  D sd[4];
  for (int k = 0; k < 4; ++k) {
    sd[k] = has(k) ? pos(key[k]) : D(0.1);
    if (has(k)) no += std::string("  ") + key[k] + ": @" + key[k] + "\n";
  }
  V3 b[2] = {V3(V3::Zero()), V3(V3::Zero())}, t = V3::Zero();
  for (int k = 4; k < 6; ++k) if (has(k)) {
    b[k - 4] = vec3(key[k]);
    pr += std::string("  ") + key[k] + ": " + build::list(key[k], 3) + "\n";
  }
  M3 R = M3::Identity();
  if (has(6)) { R = build::quat_yaml("qi"); st += "  rotation_imu2body: " + build::list("qi", 4) + "\n"; }
  if (has(7)) { t = vec3("ti"); st += "  translation_imu2body: " + build::list("ti", 3) + "\n"; }
  bool en = has(8) ? flag("enable") : false, ori = has(9) ? flag("orientation") : false, stat = has(10) ? flag("static") : true;
  if (has(8)) st += std::string("  enable_imu_bias_update: ") + (en ? "true\n" : "false\n");
  if (has(9)) st += std::string("  use_imu_ori_to_init: ") + (ori ? "true\n" : "false\n");
  if (has(10)) st += std::string("  static_bias_initialization: ") + (stat ? "true\n" : "false\n");
  IMUQueuePtr buf(new IMUQueue);
  std::shared_ptr<std::mutex> mtx(new std::mutex);
  ImuPropagation p(buf, mtx, err(e), yaml(st + no + pr));
  ok("type", p.get_propagation_type() == PropagationType::IMU);
  ok("buffer", p.get_sensor_data_buffer_ptr() == buf && p.get_mutex_ptr() == mtx);
  eq("prior_biases", p.get_estimate_gyro_bias(), b[0]);
  eq("prior_biases", p.get_estimate_accel_bias(), b[1]);
  auto m = oriented("m");
  buf->push(m);
  p.InitImuBias();                // no samples requested: done at once
  ok("nothing_consumed", buf->size() == 1 && p.get_bias_initialized());
  auto s = build::any_state(0);
  p.set_initial_state(s);
  ok("bias_estimation", s.get_enable_imu_bias_update() == en);
  eq("initial_orientation", s.get_rotation(), ori ? M3(m->get_rotation_matrix()) : M3(M3::Identity()));
  V3 w = R * m->get_angular_velocity() - b[0];
  eq("rotation_to_body", s.get_body_angular_velocity(), w);
  MX P = s.get_P();
  eq("bias_noise", MX(P.block(9, 9, 3, 3)), MX(eye(3) * (sd[2] * sd[2])));
  eq("bias_noise", MX(P.block(12, 12, 3, 3)), MX(eye(3) * (sd[3] * sd[3])));
  MX Q = zero(15, 15), Qc = s.get_continuous_noise_covariance();
  MX Qd = p.DiscreteNoiseMatrix(eye(15), D(1), s), G = eye(15);
  if (e) G.block(0, 0, 9, 9) = spec::adjoint(s.get_X());
  Qc.block(0, 0, 3, 3) = eye(3) * (sd[0] * sd[0]);
  Qc.block(3, 3, 3, 3) = eye(3) * (sd[1] * sd[1]);
  if (en) {
    Qc.block(9, 9, 3, 3) = eye(3) * (sd[2] * sd[2]);
    Qc.block(12, 12, 3, 3) = eye(3) * (sd[3] * sd[3]);
  }
  eq("process_noise", Qd, MX(G * Qc * G.transpose()));
  // lever arm: the velocity gained over a step
  s.set_velocity(V3(V3::Zero()));
  auto k = oriented("k");
  s.set_propagate_time(D(0));
  k->set_time(pos("dt"));
  p.prev_imu_measurement_ = k;
  buf->push(k);
  M3 R0 = s.get_rotation();
  D dt = pos("dt");
  V3 wk = R * k->get_angular_velocity() - b[0], ak = R * k->get_lin_acc() - b[1] - skew(wk) * (skew(wk) * t);
  let("rate", wk); let("force", ak);
  p.Propagate(s);
  eq("lever_arm", s.get_velocity(), V3((R0 * spec::gamma(V3(wk * dt), 1) * ak + V3(D(0), D(0), D(-9.8))) * dt));
}
// Whether samples are averaged when the configuration does not say: yes, if any are requested.
CONTRACT(C18_default_initialization, "ImuPropagation::ImuPropagation, ImuPropagation::InitImuBias") {
  int stat = choose("static", 3), n = choose("size", 3);      // 2: not configured
  std::string st = "settings:\n  init_bias_size: " + std::to_string(n) + "\n";
  if (stat < 2) st += std::string("  static_bias_initialization: ") + (stat ? "true\n" : "false\n");
  IMUQueuePtr buf(new IMUQueue);
  std::shared_ptr<std::mutex> mtx(new std::mutex);
  V3 bg = vec3("bg"), ba = vec3("ba");
  ImuPropagation p(buf, mtx, err(choose("err", 2)), yaml(st + "noises:\n  x: 1\npriors:\n  gyroscope_bias: " + build::list("bg", 3)
                                                        + "\n  accelerometer_bias: " + build::list("ba", 3) + "\n"));
  auto m = oriented("m");
  buf->push(m);
  p.InitImuBias();
  bool average = stat && n;
  ok("samples_consumed", buf->size() == (average ? 0u : 1u));
  ok("initialized", p.get_bias_initialized() == !average);
  if (!average) {
    eq("priors_kept", p.get_estimate_gyro_bias(), bg);
    eq("priors_kept", p.get_estimate_accel_bias(), ba);
  }
}
// Locks, with a sensor thread that may add a sample whenever a lock is taken.
CONTRACT(C19_propagation, "ImuPropagation::Propagate, ImuPropagation::InitImuBias, ImuPropagation::set_initial_state, ImuPropagation::clear") {
  int st = choose("static", 2);
  Rig r(err(choose("err", 2)), 1, 0, st, choose("N", 2));
  auto s = build::any_state(0, "s", false);
  r.previous(oriented("prev"), s);
  for (int i = 0, n = choose("n", 3); i < n; ++i) { auto m = oriented("m" + std::to_string(i)); Quiet q; r.buf->push(m); }
  int added = 0;
  ghost().on_lock = [&](const void* l) {
    if (l == r.mtx.get() && added < 2 && choose("sample_arrives", 2)) r.buf->push(oriented("late" + std::to_string(added++)));
  };
  switch (choose("operation", 4)) {
    case 0: r.p->Propagate(s); break;
    case 1: r.p->InitImuBias(); r.p->InitImuBias(); break;
    case 2: r.p->set_initial_state(s); break;
    case 3: r.p->clear(); break;
  }
  ok("state_reached", true);
}
// The same with buffers of any length and a sensor thread adding any number of samples.
CONTRACT(C19_propagation_any, "ImuPropagation::Propagate, ImuPropagation::InitImuBias, ImuPropagation::set_initial_state, ImuPropagation::clear") {
  int st = choose("static", 2);
  Rig r(err(choose("err", 2)), 1, 0, st, choose("N", 2));
  auto s = build::any_state(0, "s", false);
  r.previous(oriented("prev"), s);
  AnyBuffer<ImuMeasurementPtr> b;
  b.open(r.buf.get(), "m", &oriented);
  ghost().on_lock = [&](const void* l) { if (l == r.mtx.get()) b.reopen(); };
  emptying("propagation clear", b, r.mtx.get());
  switch (choose("operation", 4)) {
    case 0: r.p->Propagate(s); break;
    case 1: r.p->InitImuBias(); r.p->InitImuBias(); break;
    case 2: r.p->set_initial_state(s); break;
    case 3: r.p->clear(); break;
  }
  ok("state_reached", true);
}
