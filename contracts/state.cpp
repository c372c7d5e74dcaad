// C11, C12, C22: the state container.
#include "common.h"

namespace {
MX removed(const MX& m, int at, int n) {   // without rows and columns at..at+n-1
  int d = m.rows();
  MX r(d - n, d - n);
  for (int i = 0, a = 0; i < d; ++i) {
    if (i >= at && i < at + n) continue;
    for (int j = 0, b = 0; j < d; ++j) {
      if (j >= at && j < at + n) continue;
      r(a, b++) = m(i, j);
    }
    ++a;
  }
  return r;
}
void add_ids(state::RobotState& s, int K) {
  while ((int)s.column_id_to_corr_map_.size() < 5 + K) s.column_id_to_corr_map_.push_back(nullptr);
  for (int i = 0; i < K; ++i) s.column_id_to_corr_map_[5 + i] = std::make_shared<int>(5 + i);
}
}  // namespace

CONTRACT(C11_add_aug_state, "RobotState::add_aug_state") {
  int K = choose("K", 5), d = 15 + 3 * K, n = d - 6;
  auto s = build::any_state(K);
  add_ids(s, K);
  build::Snapshot o(s);
  V3 aug = vec3("aug");
  MX P = mat("Pn", d + 3, d + 3);
  M3 N = mat("N", 3, 3);
  auto id = std::make_shared<int>(5 + K);
  int c = s.add_aug_state(aug, P, N, id);
  eqi("index", c, 5 + K);
  MX X = eye(6 + K);
  X.block(0, 0, 5 + K, 5 + K) = o.X;
  X.block(0, 5 + K, 3, 1) = aug;
  eq("pose", s.get_X(), X);
  eq("covariance", s.get_P(), P);
  MX Q = zero(d + 3, d + 3);
  Q.block(0, 0, n, n) = o.Qc.block(0, 0, n, n);
  Q.block(n, n, 3, 3) = N;
  Q.block(n + 3, n + 3, 6, 6) = o.Qc.block(n, n, 6, 6);
  Q.block(0, n + 3, n, 6) = o.Qc.block(0, n, n, 6);
  Q.block(n + 3, 0, 6, n) = o.Qc.block(n, 0, 6, n);
  eq("noise", s.get_continuous_noise_covariance(), Q);
  eq("biases_kept", s.get_theta(), o.th);
  eq("time_kept", s.get_time(), o.t);
  eq("time_kept", s.get_propagate_time(), o.tp);
  auto& m = s.column_id_to_corr_map_;
  ok("association", (int)m.size() == 6 + K && m[5 + K] == id && *id == 5 + K);
  for (int i = 0; i < K; ++i)
    ok("other_associations_kept", (int)m.size() == 6 + K && m[5 + i] == o.ids[5 + i] && *m[5 + i] == 5 + i);
}
CONTRACT(C11_del_aug_state, "RobotState::del_aug_state, RobotState::del_aug_cov, RobotState::del_aug_noise_cov, RobotState::RemoveRowAndColumn") {
  int K = 1 + choose("K", 5), d = 15 + 3 * K, c = choose("col", 5);
  assume(c < K);
  auto s = build::any_state(K);
  add_ids(s, K);
  build::Snapshot o(s);
  s.del_aug_state(5 + c);
  eq("pose", s.get_X(), removed(o.X, 5 + c, 1));
  eq("covariance", s.get_P(), removed(o.P, 9 + 3 * c, 3));
  eq("noise", s.get_continuous_noise_covariance(), removed(o.Qc, 9 + 3 * c, 3));
  eq("biases_kept", s.get_theta(), o.th);
  eq("time_kept", s.get_time(), o.t);
  auto& m = s.column_id_to_corr_map_;
  bool good = (int)m.size() == 4 + K;
  for (int i = 0; good && i < K - 1; ++i) good = m[5 + i] == o.ids[5 + i + (i >= c)] && *m[5 + i] == 5 + i;
  ok("associations_follow_their_columns", good);
}
CONTRACT(C11_readers, "RobotState getters") {
  int K = choose("K", 5), d = 15 + 3 * K, n = d - 6;
  auto s = build::any_state(K);
  build::Snapshot o(s);
  auto b = [&](int i) { return M3(o.P.block(i, i, 3, 3)); };
  eq("rotation", s.get_rotation(), M3(o.X.block(0, 0, 3, 3)));
  eq("velocity", s.get_velocity(), V3(o.X.block(0, 3, 3, 1)));
  eq("position", s.get_position(), V3(o.X.block(0, 4, 3, 1)));
  for (int i = 3; i < 5 + K; ++i) eq("vector", s.get_vector(i), V3(o.X.block(0, i, 3, 1)));
  for (int i = 5; i < 5 + K; ++i) {
    eq("contact_point", s.get_aug_state(i), V3(o.X.block(0, i, 3, 1)));
    eq("contact_covariance", s.get_aug_cov(i), b(9 + 3 * (i - 5)));
  }
  eq("gyroscope_bias", s.get_gyroscope_bias(), V3(o.th.head(3)));
  eq("accelerometer_bias", s.get_accelerometer_bias(), V3(o.th.segment(3, 3)));
  eq("rotation_covariance", s.get_rotation_covariance(), b(0));
  eq("velocity_covariance", s.get_velocity_covariance(), b(3));
  eq("position_covariance", s.get_position_covariance(), b(6));
  eq("gyroscope_bias_covariance", s.get_gyroscope_bias_covariance(), b(n));
  eq("accelerometer_bias_covariance", s.get_accelerometer_bias_covariance(), b(n + 3));
  eq("angular_velocity", s.get_body_angular_velocity(), o.w);
  eqi("dimensions", s.dimX(), 5 + K);
  eqi("dimensions", s.dimTheta(), 6);
  eqi("dimensions", s.dimP(), d);
  eqi("dimensions", s.dimQc(), d);
  build::unchanged("frame", o, s);
}
CONTRACT(C11_writers, "RobotState setters") {
  int K = choose("K", 5), d = 15 + 3 * K, n = d - 6, what = choose("setter", 16);
  auto s = build::any_state(K);
  build::Snapshot o(s);
  M3 A = mat("A", 3, 3);
  V3 v = vec3("v");
  auto put = [&](int i) { o.P.block(i, i, 3, 3) = A; };
  switch (what) {
    case 0: s.set_rotation(A); o.X.block(0, 0, 3, 3) = A; break;
    case 1: s.set_velocity(v); o.X.block(0, 3, 3, 1) = v; break;
    case 2: s.set_position(v); o.X.block(0, 4, 3, 1) = v; break;
    case 3: {
      int c = choose("col", 5);
      assume(c < K);
      s.set_aug_state(5 + c, v);
      o.X.block(0, 5 + c, 3, 1) = v;
      break;
    }
    case 4: s.set_gyroscope_bias(v); o.th.head(3) = v; break;
    case 5: s.set_accelerometer_bias(v); o.th.segment(3, 3) = v; break;
    case 6: s.set_rotation_covariance(A); put(0); break;
    case 7: s.set_velocity_covariance(A); put(3); break;
    case 8: s.set_position_covariance(A); put(6); break;
    case 9: s.set_gyroscope_bias_covariance(A); put(n); break;
    case 10: s.set_accelerometer_bias_covariance(A); put(n + 3); break;
    case 11: s.set_time(v(0)); o.t = v(0); break;
    case 12: s.set_propagate_time(v(0)); o.tp = v(0); break;
    case 13: s.set_P(MX(o.P * v(0))); o.P = MX(o.P * v(0)); break;
    case 14: s.set_body_angular_velocity(v); o.w = v; break;
    case 15: {
      bool f = flag("f");
      s.set_enable_imu_bias_update(f); o.en = f;
      s.set_slip_flag(7); o.slip = 7;
      break;
    }
  }
  build::unchanged("writes_exactly_its_block", o, s);
  eq("writes_exactly_its_block", s.get_body_angular_velocity(), o.w);
  ok("flags", s.get_enable_imu_bias_update() == o.en && s.get_slip_flag() == o.slip);
}
CONTRACT(C11_aug_covariance_and_bias, "RobotState::add_aug_cov, RobotState::add_aug_bias, RobotState::del_aug_bias, RobotState::get_aug_bias") {
  int K = choose("K", 5), d = 15 + 3 * K;
  auto s = build::any_state(K);
  build::Snapshot o(s);
  M3 A = mat("A", 3, 3);
  s.add_aug_cov(A);
  MX P = zero(d + 3, d + 3);
  P.block(0, 0, d, d) = o.P;
  P.block(d, d, 3, 3) = A;
  eq("covariance_appended", s.get_P(), P);
  int B = 1 + choose("B", 3), c = choose("c", 3);
  assume(c < B);
  VX th = o.th;
  for (int i = 0; i < B; ++i) {
    V3 b = vec3("b" + std::to_string(i));
    s.add_aug_bias(b);
    VX t(th.size() + 3);
    t << th, b;
    th = t;
  }
  eq("biases_appended", s.get_theta(), th);
  for (int i = 0; i < B; ++i) eq("bias_read", s.get_aug_bias(5 + i), V3(th.segment(6 + 3 * i, 3)));
  s.del_aug_bias(5 + c);
  VX u(3 + 3 * B);
  for (int i = 0, a = 0; i < 6 + 3 * B; ++i)
    if (i < 6 + 3 * c || i >= 9 + 3 * c) u(a++) = th(i);
  eq("bias_removed", s.get_theta(), u);
  eq("pose_kept", s.get_X(), o.X);
}
static void is_fresh(state::RobotState& s, const MX& X, const VX& th, const MX* P) {
  int d = 3 * X.cols() + th.size() - 6;
  eq("pose", s.get_X(), X);
  eq("biases", s.get_theta(), th);
  eq("covariance", s.get_P(), P ? *P : eye(d));
  eq("noise", s.get_continuous_noise_covariance(), zero(d, d));
  bool none = (int)s.column_id_to_corr_map_.size() == (int)X.cols();
  for (auto& p : s.column_id_to_corr_map_) none = none && !p;
  ok("no_associations", none);
}
CONTRACT(C11_constructors, "RobotState constructors, RobotState::clear") {
  int which = choose("ctor", 8), K = which >= 4 ? 0 : choose("K", 5), d = 15 + 3 * K;
  MX X = spec::group(rot("R"), mat("c", 3, 2 + K));
  VX th = vec("b", 6), th0 = VX::Zero(6);
  MX P = spd("P", d);
  math::SEK3 G(X);
  switch (which) {
    case 0: { state::RobotState s; is_fresh(s, eye(5), th0, nullptr); break; }
    case 1: { state::RobotState s(X); is_fresh(s, X, th0, nullptr); break; }
    case 2: { state::RobotState s(X, th); is_fresh(s, X, th, nullptr); break; }
    case 3: { state::RobotState s(X, th, P); is_fresh(s, X, th, &P); break; }
    case 4: { state::RobotState s(G); is_fresh(s, X, th0, nullptr); break; }
    case 5: { state::RobotState s(G, th); is_fresh(s, X, th, nullptr); break; }
    case 6: { state::RobotState s(G, th, P); is_fresh(s, X, th, &P); break; }
    case 7: {
      auto s = build::any_state(choose("Kc", 4));
      s.clear();
      is_fresh(s, eye(5), th0, nullptr);
      eq("rate", s.get_body_angular_velocity(), V3(V3::Zero()));
      break;
    }
  }
}
CONTRACT(C12_views, "RobotState::get_world_*, RobotState::get_body_*, RobotState::get_Xinv") {
  int K = choose("K", 5);
  auto s = build::any_state(K);
  build::Snapshot o(s);
  bool body = flag("body_centric");
  s.state_type_ = body ? StateType::BodyCentric : StateType::WorldCentric;
  M3 R = o.X.block(0, 0, 3, 3);
  V3 v = o.X.block(0, 3, 3, 1), p = o.X.block(0, 4, 3, 1);
  MX I = s.get_Xinv();
  eq("inverse", MX(I * o.X), eye(5 + K));
  eq("inverse", MX(o.X * I), eye(5 + K));
  M3 Rt = R.transpose();
  if (!body) {
    eq("world_pose", s.get_world_X(), o.X);
    eq("body_pose", s.get_body_X(), spec::group_inv(o.X));
    eq("world_rotation", s.get_world_rotation(), R);
    eq("body_rotation", s.get_body_rotation(), Rt);
    eq("world_velocity", s.get_world_velocity(), v);
    eq("body_velocity", s.get_body_velocity(), V3(Rt * v));
    eq("world_position", s.get_world_position(), p);
    eq("body_position", s.get_body_position(), V3(Rt * p));
  } else {
    eq("body_pose", s.get_body_X(), o.X);
    eq("world_pose", s.get_world_X(), spec::group_inv(o.X));
    eq("body_rotation", s.get_body_rotation(), R);
    eq("world_rotation", s.get_world_rotation(), Rt);
    eq("body_velocity", s.get_body_velocity(), v);
    eq("world_velocity", s.get_world_velocity(), V3(-(Rt * v)));
    eq("body_position", s.get_body_position(), p);
    eq("world_position", s.get_world_position(), V3(-(Rt * p)));
  }
  eq("rotations_inverse_of_each_other", M3(s.get_world_rotation() * s.get_body_rotation()), M3::Identity());
  build::unchanged("frame", o, s);
  ok("state_type", s.get_state_type() == (body ? BodyCentric : WorldCentric));
}
CONTRACT(C12_block_diagonal, "RobotState::copy_diag_X, RobotState::copy_diag_Xinv") {
  int K = choose("K", 5), n = choose("n", 4), r = choose("r", 3), i_ = choose("inverse", 2), x = 5 + K;
  auto s = build::any_state(K, "s", false);
  MX B = mat("B", r, r), X = s.get_X(), want = zero(r + n * x, r + n * x);
  if (i_) X = spec::group_inv(X);
  want.block(0, 0, r, r) = B;
  for (int i = 0; i < n; ++i) want.block(r + i * x, r + i * x, x, x) = X;
  if (i_) s.copy_diag_Xinv(n, B);
  else s.copy_diag_X(n, B);
  eq("blocks", B, want);
}
// Removing a contact point selects a principal submatrix of the covariance.
CONTRACT(C22_contact_removed, "RobotState::del_aug_state") {
  int K = 1 + choose("K", 5), d = 15 + 3 * K, c = choose("col", 5);
  assume(c < K);
  auto s = build::any_state(K, "s", false);
  add_ids(s, K);
  MX P = s.get_P(), S = zero(d - 3, d);
  for (int i = 0; i < d - 3; ++i) S(i, i < 9 + 3 * c ? i : i + 3) = 1;
  s.del_aug_state(5 + c);
  psd("semidefinite", s.get_P(), MX(S * P * S.transpose()));
}
CONTRACT(C01_container, "RobotState::RobotState, RobotState::clear, RobotState::add_aug_state, RobotState::del_aug_state, RobotState::set_rotation, RobotState::set_velocity, RobotState::set_position, SEK3::SEK3, SEK3::inverse, SEK3::get_X") {
  int K = choose("K", 5);
  auto s = build::any_state(K, "s", false);
  add_ids(s, K);
  switch (choose("op", 6)) {
    case 0: s = state::RobotState(); break;
    case 1: s.clear(); break;
    case 2: {
      s.add_aug_state(vec3("p"), spd("c", 3), spd("n", 3), std::make_shared<int>(0));
      break;
    }
    case 3: assume(K > 0); s.del_aug_state(5 + choose("col", K)); break;
    case 4: s.set_rotation(rot("r")); s.set_velocity(vec3("v")); s.set_position(vec3("p")); break;
    case 5: build::valid_pose("inverse", s.get_Xinv()); break;
  }
  build::valid_pose("pose", s.get_X());
}
