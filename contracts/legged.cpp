// C06, C09, C10, C19, C22: contact correction.
#include "drift/filter/inekf/correction/legged_kinematics_correction.h"
#include "common.h"
#include "recorder.h"
#include "anybuf.h"
using namespace filter::inekf;

namespace {
const int LEGS = 4;
ErrorType err(int i) { return i ? ErrorType::RightInvariant : ErrorType::LeftInvariant; }
// any leg kinematics: positions and Jacobians appear when computed
struct Legs : LeggedKinematicsMeasurement {
  MX pos, jac, A; V3 b;
  int computed = 0;
  Legs(const std::string& n, const std::vector<bool>& contact) {
    Eigen::Matrix<bool, Eigen::Dynamic, 1> c(LEGS);
    for (int i = 0; i < LEGS; ++i) c(i) = contact[i];
    set_contact(c);
    set_joint_state(VX(VX::Zero(3 * LEGS)));
    pos = mat(n + ".p", 3, LEGS, -1, 1);
    jac = mat(n + ".J", 3, 3 * LEGS, -1, 1);
    A = mat(n + ".A", 3, 3, -1, 1);
    b = vec3(n + ".b", -1, 1);
    positions_ = MX::Zero(3, LEGS);
    jacobians_ = MX::Zero(3, 3 * LEGS);
    set_time(var(n + ".t", -2, 2));
  }
  void ComputeKinematics() override { ++computed; positions_ = pos; jacobians_ = jac; }
  int get_num_legs() override { return LEGS; }
  const Eigen::Vector3d get_init_velocity(const Eigen::Vector3d& w) override { return A * w + b; }
};
typedef std::shared_ptr<Legs> LegsPtr;
struct Rig {
  LeggedKinQueuePtr buf{new LeggedKinQueue};
  std::shared_ptr<std::mutex> mtx{new std::mutex};
  std::vector<LegsPtr> m;
  D se, sk, sc, thr;
  int e;
  std::shared_ptr<LeggedKinematicsCorrection> c;
  Rig(int err_, bool has_e = true, bool has_k = true, bool has_c = true, bool has_t = true) : e(err_) {
    rec::reset();
    se = has_e ? pos("se") : D(0.01);
    sk = has_k ? pos("sk") : D(0.05);
    sc = has_c ? pos("sc") : D(0.1);
    thr = has_t ? pos("thr", 0.2, 0.5) : D(0.3);
    std::string y = "noises:\n  something: 1\n";
    if (has_e) y += "  encoder_std: @se\n";
    if (has_k) y += "  kinematics_additive_std: @sk\n";
    if (has_c) y += "  contact_noise_std: @sc\n";
    y += "settings:\n  something: 1\n";
    if (has_t) y += "  correction_time_threshold: @thr\n";
    c = std::make_shared<LeggedKinematicsCorrection>(buf, mtx, err(e), yaml(y));
    guarded("leg kinematics buffer", buf.get(), mtx.get());
  }
  LegsPtr put(const std::string& n, const std::vector<bool>& contact) {
    Quiet q;
    m.push_back(std::make_shared<Legs>(n, contact));
    buf->push(m.back());
    return m.back();
  }
  bool left(int from) {
    Quiet q;
    auto& it = buf->ghost_items();
    if ((int)it.size() != (int)m.size() - from) return false;
    for (size_t i = 0; i < it.size(); ++i) if (it[i] != m[from + i]) return false;
    return true;
  }
  M3 cov(LegsPtr k, int leg) {
    M3 J = k->jac.block(0, 3 * leg, 3, 3);
    return M3(J * J.transpose() * (se * se) + M3(M3::Identity()) * (sk * sk));
  }
};
// A well-formed association: the legs of `order` own columns 5, 6, ...
state::RobotState with_contacts(Rig& r, const std::vector<int>& order, bool sym_qc = true) {
  auto s = build::any_state(order.size(), "s", sym_qc);
  while ((int)s.column_id_to_corr_map_.size() < s.dimX()) s.column_id_to_corr_map_.push_back(nullptr);
  for (size_t i = 0; i < order.size(); ++i) {
    auto p = std::make_shared<int>(5 + (int)i);
    s.column_id_to_corr_map_[5 + i] = p;
    r.c->aug_id_to_column_id_ptr_[order[i]] = p;
  }
  return s;
}
// any ordered selection of the given legs
std::vector<int> any_order(std::vector<int> legs) {
  std::vector<int> r;
  while (!legs.empty()) {
    int i = choose("which", legs.size());
    r.push_back(legs[i]);
    legs.erase(legs.begin() + i);
  }
  return r;
}
// Everything that must hold after one used measurement.
void after_update(Rig& r, build::Snapshot& o, LegsPtr k, const std::vector<int>& order,
                  const std::vector<bool>& contact, state::RobotState& s, bool values, int only = 0) {
  bool corrected = rec::calls().size() == 1;
  MX X = corrected ? rec::after() : o.X, P = corrected ? rec::after_P() : o.P;
  VX th = corrected ? rec::after_theta() : o.th;
  M3 R = X.block(0, 0, 3, 3);
  V3 p = X.block(0, 4, 3, 1);
  int n = 0;
  for (bool b : contact) n += b;
  auto& map = r.c->aug_id_to_column_id_ptr_;
  if (!only) {
    eqi("one_column_per_leg_in_contact", s.dimX(), 5 + n);
    eqi("one_column_per_leg_in_contact", s.dimP(), 15 + 3 * n);
    eqi("one_column_per_leg_in_contact", s.dimQc(), 15 + 3 * n);
  }
  std::vector<int> leg_of(5 + n, -1);
  bool good = (int)map.size() == n && s.dimX() == 5 + n && s.dimP() == 15 + 3 * n && s.dimQc() == 15 + 3 * n
              && (int)s.column_id_to_corr_map_.size() == 5 + n;
  for (int l = 0; good && l < LEGS; ++l) {
    good = (map.count(l) > 0) == contact[l];
    if (!good || !contact[l]) continue;
    int col = map[l] ? *map[l] : -1;
    good = col >= 5 && col < 5 + n && leg_of[col] < 0 && s.column_id_to_corr_map_[col] == map[l];
    if (good) leg_of[col] = l;
  }
  if (!only) ok("legs_own_distinct_columns", good);
  if (only == 1) build::valid_pose("pose", s.get_X());
  if (!good && only == 22) psd("semidefinite", s.get_P(), MX(-s.get_P()));   // no witness: refutation only
  if (!good || !values) return;
  int d0 = o.P.rows(), d1 = 15 + 3 * n;
  MX T = zero(d1, d0), E = zero(d1, d1), Q = zero(d1, d1), S = zero(d1, d0), C = eye(5 + n);
  C.block(0, 0, 5, 5) = X.block(0, 0, 5, 5);
  T.block(0, 0, 9, 9) = S.block(0, 0, 9, 9) = eye(9);
  T.block(d1 - 6, d0 - 6, 6, 6) = S.block(d1 - 6, d0 - 6, 6, 6) = eye(6);
  for (int c = 5; c < 5 + n; ++c) {
    int l = leg_of[c], row = 9 + 3 * (c - 5), was = -1;
    for (size_t i = 0; i < order.size(); ++i) if (order[i] == l) was = i;
    if (was >= 0) {
      C.block(0, c, 3, 1) = X.block(0, 5 + was, 3, 1);
      T.block(row, 9 + 3 * was, 3, 3) = S.block(row, 9 + 3 * was, 3, 3) = eye(3);
    } else {
      V3 f = k->pos.col(l);
      C.block(0, c, 3, 1) = V3(p + R * f);
      T.block(row, 6, 3, 3) = eye(3);
      if (!r.e) T.block(row, 0, 3, 3) = -skew(f);
      MX G = r.e ? MX(R) : eye(3);
      E.block(row, row, 3, 3) = G * r.cov(k, l) * G.transpose();
      Q.block(row, row, 3, 3) = eye(3) * (r.sc * r.sc);
    }
  }
  if (only == 22) return psd("semidefinite", s.get_P(), MX(T * P * T.transpose() + E));
  if (only == 1) return eq("contact_points_in_place", s.get_X(), C);
  eq("columns_follow_their_legs", s.get_X(), C);
  eq("biases_kept", s.get_theta(), th);
  eq("covariance_follows_its_legs", s.get_P(), MX(T * P * T.transpose() + E));
  eq("noise_follows_its_legs", s.get_continuous_noise_covariance(), MX(S * o.Qc * S.transpose() + Q));
  eq("carries_measurement_time", s.get_time(), k->get_time());
  eq("propagation_time_kept", s.get_propagate_time(), o.tp);
}
std::vector<rec::Block> expected(Rig& r, build::Snapshot& o, LegsPtr k, const std::vector<int>& order, const std::vector<bool>& contact) {
  std::vector<rec::Block> w;
  M3 R = o.X.block(0, 0, 3, 3);
  V3 p = o.X.block(0, 4, 3, 1);
  for (size_t i = 0; i < order.size(); ++i) {
    int l = order[i];
    if (!contact[l]) continue;
    rec::Block b;
    V3 f = k->pos.col(l), d = o.X.block(0, 5 + i, 3, 1);
    b.z = R * f - (d - p);
    b.H = zero(3, o.P.rows());
    b.H.block(0, 6, 3, 3) = -eye(3);
    b.H.block(0, 9 + 3 * i, 3, 3) = eye(3);
    b.N = R * r.cov(k, l) * R.transpose();
    w.push_back(b);
  }
  return w;
}
void lifecycle(int e, int only = 0) {
  std::vector<int> found;
  int legs = only ? 3 : LEGS;    // three legs already persist, appear and vanish together
  for (int i = 0; i < legs; ++i) if (flag("known")) found.push_back(i);
  auto order = any_order(found);
  std::vector<bool> contact;
  for (int i = 0; i < LEGS; ++i) contact.push_back(i < legs && flag("contact"));
  Rig r(e);
  auto s = with_contacts(r, order, only != 22);
  auto k = r.put("k", contact);
  build::Snapshot o(s);
  D dt = k->get_time() - o.tp;
  assume(dt <= r.thr);
  assume(dt >= -r.thr);
  bool used = r.c->Correct(s);
  if (!only) {
    ok("reports_update", used);
    ok("kinematics_computed", k->computed >= 1);
  }
  after_update(r, o, k, order, contact, s, true, only);
}
}  // namespace

// Lifecycle of contacts: any known legs in any column order, any new contacts.
CONTRACT(C09_lifecycle_right, "LeggedKinematicsCorrection::Correct, RobotState::del_aug_state, RobotState::add_aug_state") { lifecycle(1); }
CONTRACT(C09_lifecycle_left, "LeggedKinematicsCorrection::Correct, RobotState::del_aug_state, RobotState::add_aug_state") { lifecycle(0); }
// The association stays intact over successive measurements.
CONTRACT(C09_sequence, "LeggedKinematicsCorrection::Correct") {
  Rig r(choose("err", 2));
  auto s = with_contacts(r, {}, false);
  std::vector<int> order;
  for (int step = 0; step < 3; ++step) {
    std::vector<bool> contact;
    for (int i = 0; i < LEGS; ++i) contact.push_back(i < 2 || step == 1 ? flag("contact") : i == 2);
    rec::reset();
    s.set_propagate_time(D(0));
    auto k = r.put("k" + std::to_string(step), contact);
    k->set_time(D(0));
    build::Snapshot o(s);
    ok("reports_update", r.c->Correct(s));
    after_update(r, o, k, order, contact, s, false);
    std::vector<std::pair<int, int>> now;
    for (auto& x : r.c->aug_id_to_column_id_ptr_) now.push_back({*x.second, x.first});
    std::sort(now.begin(), now.end());
    order.clear();
    for (auto& x : now) order.push_back(x.second);
  }
}
CONTRACT(C09_gating, "LeggedKinematicsCorrection::Correct") {
  int n = choose("n", 5);
  Rig r(choose("err", 2));
  std::vector<int> order;
  if (flag("known")) order.push_back(2);
  auto s = with_contacts(r, order);
  std::vector<bool> contact = {true, false, true, false};
  for (int i = 0; i < n; ++i) r.put("k" + std::to_string(i), contact);
  build::Snapshot o(s);
  bool ret = r.c->Correct(s);
  int i = 0;
  while (i < n && r.m[i]->get_time() - o.tp < -r.thr) ++i;
  bool due = i < n && !(r.m[i]->get_time() - o.tp > r.thr);
  ok("reports_update_exactly_when_used", ret == due);
  ok("buffer_keeps_the_rest_in_order", r.left(std::min(i + 1, n)));
  ok("one_correction_per_update", rec::calls().size() == (due && !order.empty() ? 1u : 0u));
  for (int j = 0; j < n; ++j) ok("uses_that_measurement", (r.m[j]->computed > 0) == (due && j == i));
  if (due) {
    after_update(r, o, r.m[i], order, contact, s, true);
  } else {
    build::unchanged("not_used_changes_nothing", o, s);
    ok("not_used_changes_nothing", r.c->aug_id_to_column_id_ptr_.size() == order.size());
  }
}
// The same for a buffer of any length.
CONTRACT(C09_any_length, "LeggedKinematicsCorrection::Correct") {
  Rig r(choose("err", 2));
  std::vector<int> order;
  if (flag("known")) order.push_back(2);
  auto s = with_contacts(r, order);
  std::vector<bool> contact = {true, false, true, false};
  AnyBuffer<LeggedKinMeasurementPtr> b;
  b.open(r.buf.get(), "q", [&](const std::string& n) -> LeggedKinMeasurementPtr {
    auto k = std::make_shared<Legs>(n, contact);
    k->set_time(k->get_time() + sampled_age(b.made));
    return k;
  });
  auto legs = [](LeggedKinMeasurementPtr k) { return std::static_pointer_cast<Legs>(k); };
  build::Snapshot o(s);
  invariant<D, LeggedKinMeasurementPtr>("legged discard", [&](int v, D& t_diff, LeggedKinMeasurementPtr& m) {
    std::string n = v ? "discarding_preserves" : "discarding_starts_with";
    lock_state(n + "_lock_free", r.mtx.get(), false);
    ok(n + "_last_one_removed", !b.seen.empty() && m == b.seen.back() && b.rest(b.seen.size()) && b.q->ghost_open());
    for (auto& x : b.seen) {
      lt(n + "_only_outdated_removed", x->get_time() - o.tp, -r.thr);
      ok(n + "_only_unused_removed", legs(x)->computed == 0);
    }
    eq(n + "_difference", t_diff, m->get_time() - o.tp);
    build::unchanged(n + "_estimate", o, s);
    ok(n + "_no_correction", rec::calls().empty() && r.c->aug_id_to_column_id_ptr_.size() == order.size());
    if (v) return;
    m = b.make("discarded");
    t_diff = m->get_time() - o.tp;
    assume(t_diff < -r.thr);
    b.havoc({m});
  });
  bool ret = r.c->Correct(s);
  size_t i = 0, n = b.seen.size();
  while (i < n && b.seen[i]->get_time() - o.tp < -r.thr) ++i;
  bool due = i < n && !(b.seen[i]->get_time() - o.tp > r.thr);
  ok("reports_update_exactly_when_used", ret == due);
  ok("buffer_keeps_the_rest_in_order", b.rest(std::min(i + 1, n)));
  if (i == n) ok("all_outdated_discarded", b.exhausted());
  ok("one_correction_per_update", rec::calls().size() == (due && !order.empty() ? 1u : 0u));
  for (size_t j = 0; j < n; ++j) ok("uses_that_measurement", (legs(b.seen[j])->computed > 0) == (due && j == i));
  if (due) {
    after_update(r, o, legs(b.seen[i]), order, contact, s, true);
  } else {
    build::unchanged("not_used_changes_nothing", o, s);
    ok("not_used_changes_nothing", r.c->aug_id_to_column_id_ptr_.size() == order.size());
  }
}
CONTRACT(C09_clear_any, "LeggedKinematicsCorrection::clear") {
  Rig r(0);
  auto s = with_contacts(r, {2, 0}, false);
  AnyBuffer<LeggedKinMeasurementPtr> b;
  b.open(r.buf.get(), "q", [&](const std::string& n) { return std::make_shared<Legs>(n, std::vector<bool>(LEGS, true)); });
  emptying("legged clear", b, r.mtx.get());
  r.c->clear();
  ok("empties_buffer", b.exhausted());
  ok("forgets_associations", r.c->aug_id_to_column_id_ptr_.empty());
}
CONTRACT(C10_latest_of_any, "LeggedKinematicsCorrection::initialize") {
  Rig r(choose("err", 2));
  auto s = build::any_state(choose("K", 5));
  auto last = std::make_shared<Legs>("last", std::vector<bool>(LEGS, true));
  AnyBuffer<LeggedKinMeasurementPtr> b;
  b.open(r.buf.get(), "q", [&](const std::string& n) { return std::make_shared<Legs>(n, std::vector<bool>(LEGS, true)); }, {last});
  build::Snapshot o(s);
  invariant<>("legged keep last", [&](int v) {
    std::string n = v ? "dropping_preserves" : "dropping_starts_with";
    lock_state(n + "_lock_held", r.mtx.get(), true);
    ok(n + "_latest_kept", b.present(2) && b.last() == last);
    build::unchanged(n + "_estimate", o, s);
    if (!v) b.havoc({}, 1, {last});
  });
  ok("reports", r.c->initialize(s));
  ok("consumes_all", b.exhausted());
  V3 v = M3(o.X.block(0, 0, 3, 3)) * V3(last->A * o.w + last->b);
  o.X.block(0, 3, 3, 1) = v;
  o.t = last->get_time();
  eq("velocity", s.get_velocity(), v);
  build::unchanged("nothing_else_changed", o, s);
}
CONTRACT(C09_clear, "LeggedKinematicsCorrection::clear") {
  Rig r(0);
  auto s = with_contacts(r, {2, 0}, false);
  int n = choose("n", 4);
  for (int i = 0; i < n; ++i) r.put("k" + std::to_string(i), {true, true, true, true});
  r.c->clear();
  ok("empties_buffer", r.left(n));
  ok("forgets_associations", r.c->aug_id_to_column_id_ptr_.empty());
}
CONTRACT(C10_model, "LeggedKinematicsCorrection::Correct") {
  std::vector<int> found;
  for (int i = 0; i < LEGS; ++i) if (flag("known")) found.push_back(i);
  if (!found.empty() && flag("reversed")) std::reverse(found.begin(), found.end());
  std::vector<bool> contact;
  for (int i = 0; i < LEGS; ++i) contact.push_back(flag("contact"));
  Rig r(choose("err", 2));
  auto s = with_contacts(r, found, false);
  auto k = r.put("k", contact);
  build::Snapshot o(s);
  D dt = k->get_time() - o.tp;
  assume(dt <= r.thr);
  assume(dt >= -r.thr);
  ok("reports_update", r.c->Correct(s));
  rec::model("observation", expected(r, o, k, found, contact), true, r.e);
  if (rec::calls().size() == 1) eq("nothing_changed_before", rec::calls()[0].X, o.X);
}
CONTRACT(C10_new_foot, "LeggedKinematicsCorrection::Correct") {
  Rig r(choose("err", 2));
  std::vector<bool> contact;
  for (int i = 0; i < LEGS; ++i) contact.push_back(flag("contact"));
  auto s = with_contacts(r, {}, true);
  auto k = r.put("k", contact);
  build::Snapshot o(s);
  D dt = k->get_time() - o.tp;
  assume(dt <= r.thr);
  assume(dt >= -r.thr);
  ok("reports_update", r.c->Correct(s));
  after_update(r, o, k, {}, contact, s, true);
}
CONTRACT(C10_configuration, "LeggedKinematicsCorrection::LeggedKinematicsCorrection, LeggedKinematicsCorrection::Correct") {
  Rig r(choose("err", 2), flag("encoder_std"), flag("additive_std"), flag("contact_std"), flag("threshold"));
  ok("type", r.c->get_correction_type() == CorrectionType::LEGGED_KINEMATICS);
  ok("buffer", r.c->get_sensor_data_buffer_ptr() == r.buf && r.c->get_mutex_ptr() == r.mtx);
  std::vector<int> order = {1};
  auto s = with_contacts(r, order);
  std::vector<bool> contact = {true, true, false, false};
  auto k = r.put("k", contact);
  build::Snapshot o(s);
  D dt = k->get_time() - o.tp;
  bool used = r.c->Correct(s);
  if (dt < -r.thr || dt > r.thr) {
    ok("threshold", !used && rec::calls().empty());
  } else {
    ok("threshold", used);
    rec::model("observation", expected(r, o, k, order, contact), true, r.e);
    after_update(r, o, k, order, contact, s, true);
  }
}
CONTRACT(C10_initialize, "LeggedKinematicsCorrection::initialize") {
  int n = choose("n", 4);
  Rig r(choose("err", 2));
  auto s = build::any_state(choose("K", 5));
  for (int i = 0; i < n; ++i) r.put("k" + std::to_string(i), {true, true, true, true});
  build::Snapshot o(s);
  bool ret = r.c->initialize(s);
  ok("reports", ret == (n > 0));
  ok("consumes_all", r.left(n));
  if (n) {
    auto k = r.m[n - 1];
    V3 v = M3(o.X.block(0, 0, 3, 3)) * V3(k->A * o.w + k->b);
    o.X.block(0, 3, 3, 1) = v;
    o.t = k->get_time();
    eq("velocity", s.get_velocity(), v);
  }
  build::unchanged("nothing_else_changed", o, s);
}
// A new foot: both parametrisations give adjoint-related covariances.
CONTRACT(C06_new_foot, "LeggedKinematicsCorrection::Correct") {
  std::vector<bool> contact;
  for (int i = 0; i < LEGS; ++i) contact.push_back(i < 3 && flag("contact"));
  std::vector<int> lost;
  if (flag("lost")) lost.push_back(3);
  Rig R(1), L(0);
  auto s = with_contacts(R, lost, false), l = with_contacts(L, lost, false);
  l.set_X(s.get_X());
  int d = s.dimP(), n = d - 6;
  MX P = l.get_P(), T = eye(d);
  T.block(0, 0, n, n) = spec::adjoint(s.get_X());
  s.set_P(T * P * T.transpose());
  s.set_propagate_time(D(0)); l.set_propagate_time(D(0));
  auto k = R.put("k", contact), k2 = L.put("k", contact);
  k->set_time(D(0)); k2->set_time(D(0));
  R.c->Correct(s);
  L.c->Correct(l);
  ok("no_correction", rec::calls().empty());
  eq("same_mean", s.get_X(), l.get_X());
  eq("same_bias", s.get_theta(), l.get_theta());
  int d1 = l.dimP();
  MX U = eye(d1);
  U.block(0, 0, d1 - 6, d1 - 6) = spec::adjoint(l.get_X());
  eq("related_covariance", s.get_P(), MX(U * l.get_P() * U.transpose()));
}
CONTRACT(C22_contacts_right, "LeggedKinematicsCorrection::Correct") { lifecycle(1, 22); }
CONTRACT(C22_contacts_left, "LeggedKinematicsCorrection::Correct") { lifecycle(0, 22); }
CONTRACT(C01_contacts, "LeggedKinematicsCorrection::Correct, RobotState::add_aug_state, RobotState::del_aug_state") { lifecycle(choose("err", 2), 1); }
CONTRACT(C01_legged_initialize, "LeggedKinematicsCorrection::initialize") {
  Rig r(choose("err", 2));
  auto s = build::any_state(choose("K", 5));
  for (int i = 0, n = choose("n", 3); i < n; ++i) r.put("k" + std::to_string(i), {true, true, false, false});
  build::Snapshot o(s);
  r.c->initialize(s);
  MX X = s.get_X();
  build::valid_pose("pose", X);
  X.col(3) = o.X.col(3);
  eq("only_velocity_set", X, o.X);
}
CONTRACT(C22_new_foot, "LeggedKinematicsCorrection::Correct") {
  int e = choose("err", 2);
  std::vector<bool> contact;
  for (int i = 0; i < LEGS; ++i) contact.push_back(flag("contact"));
  Rig r(e);
  auto s = with_contacts(r, {}, false);
  s.set_propagate_time(D(0));
  auto k = r.put("k", contact);
  k->set_time(D(0));
  build::Snapshot o(s);
  r.c->Correct(s);
  int n = s.dimX() - 5, d = 15 + 3 * n;
  M3 R = o.X.block(0, 0, 3, 3);
  MX T = zero(d, 15), E = zero(d, d);
  T.block(0, 0, 9, 9) = eye(9);
  T.block(d - 6, 9, 6, 6) = eye(6);
  for (auto& x : r.c->aug_id_to_column_id_ptr_) {
    int row = 9 + 3 * (*x.second - 5);
    if (row < 9 || row + 9 > d) continue;
    T.block(row, 6, 3, 3) = eye(3);
    if (!e) T.block(row, 0, 3, 3) = -skew(V3(k->pos.col(x.first)));
    MX G = e ? MX(R) : eye(3);
    E.block(row, row, 3, 3) = G * r.cov(k, x.first) * G.transpose();
  }
  psd("semidefinite", s.get_P(), MX(T * o.P * T.transpose() + E));
}
CONTRACT(C19_legged, "LeggedKinematicsCorrection::Correct, LeggedKinematicsCorrection::initialize, LeggedKinematicsCorrection::clear") {
  Rig r(choose("err", 2));
  auto s = with_contacts(r, {}, false);
  int n = choose("n", 3), added = 0;
  for (int i = 0; i < n; ++i) r.put("k" + std::to_string(i), {true, false, false, false});
  ghost().on_lock = [&](const void* l) {
    if (l == r.mtx.get() && added < 2 && choose("sample_arrives", 2)) r.put("late" + std::to_string(added++), {true, false, false, false});
  };
  switch (choose("operation", 3)) {
    case 0: r.c->Correct(s); break;
    case 1: r.c->initialize(s); break;
    case 2: r.c->clear(); break;
  }
  ok("locks_used", ghost().locks > 0);
}
// The same with buffers of any length and a sensor thread adding any number of samples.
CONTRACT(C19_legged_any, "LeggedKinematicsCorrection::Correct, LeggedKinematicsCorrection::initialize, LeggedKinematicsCorrection::clear") {
  Rig r(choose("err", 2));
  auto s = with_contacts(r, {}, false);
  AnyBuffer<LeggedKinMeasurementPtr> b;
  b.open(r.buf.get(), "q", [&](const std::string& n) -> LeggedKinMeasurementPtr {
    auto k = std::make_shared<Legs>(n, std::vector<bool>{true, false, false, false});
    k->set_time(k->get_time() + sampled_age(b.made));
    return k;
  });
  ghost().on_lock = [&](const void* l) { if (l == r.mtx.get()) b.reopen(); };
  D tp = s.get_propagate_time();
  invariant<D, LeggedKinMeasurementPtr>("legged discard", [&](int v, D& t_diff, LeggedKinMeasurementPtr& m) {
    lock_state(v ? "discarding_preserves_locks" : "discarding_starts_with_locks", r.mtx.get(), false);
    ok("discarding_has_a_measurement", m != nullptr);
    if (v) return;
    m = b.make("discarded");
    t_diff = m->get_time() - tp;
    assume(t_diff < -r.thr);
    b.havoc({m});
  });
  invariant<>("legged keep last", [&](int v) {
    lock_state(v ? "dropping_preserves_locks" : "dropping_starts_with_locks", r.mtx.get(), true);
    ok(v ? "dropping_preserves_content" : "dropping_starts_with_content", b.present(2));
    if (!v) b.havoc({}, 2);
  });
  emptying("legged clear", b, r.mtx.get());
  switch (choose("operation", 3)) {
    case 0: r.c->Correct(s); break;
    case 1: r.c->initialize(s); break;
    case 2: r.c->clear(); break;
  }
  ok("locks_used", ghost().locks > 0);
}
