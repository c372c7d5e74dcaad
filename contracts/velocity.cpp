// C07, C08, C19: velocity correction.
#include "drift/filter/inekf/correction/velocity_correction.h"
#include "common.h"
#include "recorder.h"
#include "anybuf.h"
using namespace filter::inekf;

namespace {
ErrorType err(int i) { return i ? ErrorType::RightInvariant : ErrorType::LeftInvariant; }
struct Rig {
  VelocityQueuePtr buf{new VelocityQueue};
  std::shared_ptr<std::mutex> mtx{new std::mutex};
  std::vector<VelocityMeasurementPtr> m;
  D sd, thr, scale;
  M3 R;
  int e;
  std::shared_ptr<VelocityCorrection> c;
  // has_*: the configuration file names that parameter
  Rig(int err_, bool has_std = true, bool has_thr = true, bool has_rot = true, bool has_scale = true) : e(err_) {
    rec::reset();
    sd = has_std ? pos("std") : D(0.1);
    thr = has_thr ? pos("thr", 0.2, 0.5) : D(0.3);
    scale = has_scale ? pos("scale", 0.5, 2) : D(1);
    if (has_rot) R = build::quat_yaml("qv");
    else R = M3::Identity();
    std::string y = "noises:\n  something: 1\n";
    if (has_std) y += "  velocity_std: @std\n";
    y += "settings:\n  something: 1\n";
    if (has_thr) y += "  correction_time_threshold: @thr\n";
    if (has_rot) y += "  rotation_vel2body: " + build::list("qv", 4) + "\n";
    if (has_scale) y += "  velocity_scale: @scale\n";
    c = std::make_shared<VelocityCorrection>(buf, mtx, err(err_), yaml(y));
    guarded("velocity buffer", buf.get(), mtx.get());
  }
  VelocityMeasurementPtr make(const std::string& n) {
    auto p = std::make_shared<measurement::VelocityMeasurement<D>>();
    V3 v = vec3(n + ".v");
    p->set_velocity(v(0), v(1), v(2));
    p->set_time(var(n + ".t", -2, 2));
    return p;
  }
  void fill(int n) {
    Quiet q;
    for (int i = 0; i < n; ++i) {
      m.push_back(make("m" + std::to_string(i)));
      buf->push(m.back());
    }
  }
  // the buffer holds exactly m[from..]
  bool left(int from) {
    Quiet q;
    auto& it = buf->ghost_items();
    if ((int)it.size() != (int)m.size() - from) return false;
    for (size_t i = 0; i < it.size(); ++i) if (it[i] != m[from + i]) return false;
    return true;
  }
};
void expect(Rig& r, build::Snapshot& o, VelocityMeasurementPtr m, const std::string& n) {
  M3 R = o.X.block(0, 0, 3, 3);
  rec::Block b;
  b.z = R * (r.R * m->get_velocity() * r.scale) - V3(o.X.block(0, 3, 3, 1));
  b.H = zero(3, o.P.rows());
  b.H.block(0, 3, 3, 3) = eye(3);
  b.N = R * (M3(M3::Identity()) * (r.sd * r.sd)) * R.transpose();
  rec::model(n, {b}, true, r.e);
}
}  // namespace

CONTRACT(C07_model, "VelocityCorrection::Correct, VelocityCorrection::VelocityCorrection") {
  int K = choose("K", 5);
  Rig r(choose("err", 2));
  auto s = build::any_state(K);
  r.fill(1);
  build::Snapshot o(s);
  D dt = r.m[0]->get_time() - o.tp;
  assume(dt < 0);
  assume(dt >= -r.thr);
  ok("reports_update", r.c->Correct(s));
  expect(r, o, r.m[0], "observation");
  if (rec::calls().size() == 1) {
    eq("nothing_else_changed", rec::calls()[0].X, o.X);
    eq("nothing_else_changed", s.get_X(), rec::after());
    eq("nothing_else_changed", s.get_P(), rec::after_P());
    eq("nothing_else_changed", s.get_theta(), rec::after_theta());
  }
  eq("noise_kept", s.get_continuous_noise_covariance(), o.Qc);
  eq("propagation_time_kept", s.get_propagate_time(), o.tp);
}
CONTRACT(C07_configuration, "VelocityCorrection::VelocityCorrection, VelocityCorrection::Correct") {
  Rig r(choose("err", 2), flag("std"), flag("threshold"), flag("rotation"), flag("scale"));
  ok("type", r.c->get_correction_type() == CorrectionType::VELOCITY);
  ok("buffer", r.c->get_sensor_data_buffer_ptr() == r.buf && r.c->get_mutex_ptr() == r.mtx);
  auto s = build::any_state(0);
  r.fill(1);
  build::Snapshot o(s);
  D dt = r.m[0]->get_time() - o.tp;
  assume(dt < 0);
  bool used = r.c->Correct(s);
  if (dt < -r.thr) {
    ok("threshold", !used && rec::calls().empty());
  } else {
    ok("threshold", used);
    expect(r, o, r.m[0], "observation");
  }
}
CONTRACT(C07_initialize, "VelocityCorrection::initialize") {
  int n = choose("n", 4);
  Rig r(choose("err", 2));
  auto s = build::any_state(choose("K", 5));
  r.fill(n);
  build::Snapshot o(s);
  bool ret = r.c->initialize(s);
  ok("reports", ret == (n > 0));
  ok("consumes_all", r.left(n));
  if (n) {
    M3 R = o.X.block(0, 0, 3, 3);
    V3 v = R * (r.R * r.m[n - 1]->get_velocity() * r.scale);
    o.X.block(0, 3, 3, 1) = v;
    o.t = r.m[n - 1]->get_time();
    eq("velocity", s.get_velocity(), v);
    eq("time", s.get_time(), o.t);
  }
  build::unchanged("nothing_else_changed", o, s);
  ok("no_correction", rec::calls().empty());
}
// The pose stays in the group (the update itself: unit group).
CONTRACT(C01_velocity, "VelocityCorrection::Correct, VelocityCorrection::initialize") {
  int K = choose("K", 5), n = choose("n", 3);
  Rig r(choose("err", 2));
  auto s = build::any_state(K);
  r.fill(n);
  build::Snapshot o(s);
  if (flag("initialize")) {
    r.c->initialize(s);
    MX X = s.get_X();
    build::valid_pose("pose", X);
    X.col(3) = o.X.col(3);
    eq("only_velocity_set", X, o.X);
    return;
  }
  r.c->Correct(s);
  build::valid_pose("pose", s.get_X());
  if (rec::calls().size()) eq("only_the_update_moves_it", s.get_X(), rec::after());
  else eq("only_the_update_moves_it", s.get_X(), o.X);
}
// Which measurement is used, what stays in the buffer: any buffer content.
CONTRACT(C08_gating, "VelocityCorrection::Correct") {
  int n = choose("n", 5);
  Rig r(choose("err", 2));
  auto s = build::any_state(choose("K", 5));
  r.fill(n);
  build::Snapshot o(s);
  bool ret = r.c->Correct(s);
  int i = 0;             // oldest measurement that is not outdated
  while (i < n && r.m[i]->get_time() - o.tp < -r.thr) ++i;
  bool due = i < n && r.m[i]->get_time() - o.tp < 0;
  ok("reports_update_exactly_when_used", ret == due);
  ok("one_correction_per_update", rec::calls().size() == (due ? 1u : 0u));
  ok("buffer_keeps_the_rest_in_order", r.left(i + due));
  if (due) {
    expect(r, o, r.m[i], "oldest_due_measurement");
    eq("carries_its_time", s.get_time(), r.m[i]->get_time());
    eq("propagation_time_kept", s.get_propagate_time(), o.tp);
  } else {
    build::unchanged("not_used_changes_nothing", o, s);
  }
}
// Two updates in a row never use the same measurement.
CONTRACT(C08_once, "VelocityCorrection::Correct") {
  Rig r(choose("err", 2));
  auto s = build::any_state(0);
  r.fill(2);
  build::Snapshot o(s);
  for (int i = 0; i < 2; ++i) {
    D dt = r.m[i]->get_time() - o.tp;
    assume(dt < 0);
    assume(dt >= -r.thr);
  }
  for (int i = 0; i < 3; ++i) {
    rec::reset();
    build::Snapshot b(s);
    bool ret = r.c->Correct(s);
    ok("reports_update", ret == (i < 2));
    if (i < 2) {
      expect(r, b, r.m[i], "in_arrival_order");
      eq("carries_its_time", s.get_time(), r.m[i]->get_time());
    }
    ok("consumed", r.left(std::min(i + 1, 2)));
  }
}
// The same for a buffer of any length.
CONTRACT(C08_any_length, "VelocityCorrection::Correct") {
  Rig r(choose("err", 2));
  auto s = build::any_state(choose("K", 5));
  AnyBuffer<VelocityMeasurementPtr> b;
  b.open(r.buf.get(), "q", [&](const std::string& n) {
    auto p = r.make(n);
    p->set_time(p->get_time() + sampled_age(b.made));
    return p;
  });
  build::Snapshot o(s);
  auto outdated = [&](VelocityMeasurementPtr m) { return m->get_time() - o.tp < -r.thr; };
  invariant<D, VelocityMeasurementPtr>("velocity discard", [&](int v, D& t_diff, VelocityMeasurementPtr& m) {
    std::string n = v ? "discarding_preserves" : "discarding_starts_with";
    lock_state(n + "_lock_free", r.mtx.get(), false);
    ok(n + "_last_one_removed", !b.seen.empty() && m == b.seen.back() && b.rest(b.seen.size()) && b.q->ghost_open());
    for (auto& x : b.seen) lt(n + "_only_outdated_removed", x->get_time() - o.tp, -r.thr);
    eq(n + "_difference", t_diff, m->get_time() - o.tp);
    build::unchanged(n + "_estimate", o, s);
    ok(n + "_no_correction", rec::calls().empty());
    if (v) return;
    m = b.make("discarded");
    t_diff = m->get_time() - o.tp;
    assume(t_diff < -r.thr);
    b.havoc({m});
  });
  bool ret = r.c->Correct(s);
  size_t i = 0;             // oldest measurement that is not outdated
  while (i < b.seen.size() && outdated(b.seen[i])) ++i;
  bool due = i < b.seen.size() && b.seen[i]->get_time() - o.tp < 0;
  ok("reports_update_exactly_when_used", ret == due);
  ok("one_correction_per_update", rec::calls().size() == (due ? 1u : 0u));
  ok("buffer_keeps_the_rest_in_order", b.rest(i + due));
  if (i == b.seen.size()) ok("all_outdated_discarded", b.exhausted());
  if (due) {
    expect(r, o, b.seen[i], "oldest_due_measurement");
    eq("carries_its_time", s.get_time(), b.seen[i]->get_time());
    eq("propagation_time_kept", s.get_propagate_time(), o.tp);
  } else {
    build::unchanged("not_used_changes_nothing", o, s);
  }
}
CONTRACT(C07_latest_of_any, "VelocityCorrection::initialize") {
  Rig r(choose("err", 2));
  auto s = build::any_state(choose("K", 5));
  auto last = r.make("last");
  AnyBuffer<VelocityMeasurementPtr> b;
  b.open(r.buf.get(), "q", [&](const std::string& n) { return r.make(n); }, {last});
  build::Snapshot o(s);
  invariant<>("velocity keep last", [&](int v) {
    std::string n = v ? "dropping_preserves" : "dropping_starts_with";
    lock_state(n + "_lock_held", r.mtx.get(), true);
    ok(n + "_latest_kept", b.present(2) && b.last() == last);
    build::unchanged(n + "_estimate", o, s);
    if (!v) b.havoc({}, 1, {last});
  });
  ok("reports", r.c->initialize(s));
  ok("consumes_all", b.exhausted());
  M3 R = o.X.block(0, 0, 3, 3);
  V3 v = R * (r.R * last->get_velocity() * r.scale);
  o.X.block(0, 3, 3, 1) = v;
  o.t = last->get_time();
  eq("velocity", s.get_velocity(), v);
  build::unchanged("nothing_else_changed", o, s);
  ok("no_correction", rec::calls().empty());
}
CONTRACT(C08_clear_any, "VelocityCorrection::clear") {
  Rig r(0);
  AnyBuffer<VelocityMeasurementPtr> b;
  b.open(r.buf.get(), "q", [&](const std::string& n) { return r.make(n); });
  emptying("velocity clear", b, r.mtx.get());
  r.c->clear();
  ok("empties_buffer", b.exhausted());
}
CONTRACT(C08_clear, "VelocityCorrection::clear") {
  int n = choose("n", 4);
  Rig r(0);
  r.fill(n);
  r.c->clear();
  ok("empties_buffer", r.left(n));
}
// Locks, with a sensor thread that may add a sample whenever a lock is taken.
CONTRACT(C19_velocity, "VelocityCorrection::Correct, VelocityCorrection::initialize, VelocityCorrection::clear") {
  Rig r(choose("err", 2));
  auto s = build::any_state(0, "s", false);
  r.fill(choose("n", 3));
  int added = 0;
  ghost().on_lock = [&](const void* l) {
    if (l == r.mtx.get() && added < 2 && choose("sample_arrives", 2)) {
      r.m.push_back(r.make("late" + std::to_string(added++)));
      r.buf->push(r.m.back());
    }
  };
  switch (choose("operation", 3)) {
    case 0: r.c->Correct(s); break;
    case 1: r.c->initialize(s); break;
    case 2: r.c->clear(); break;
  }
  ok("locks_used", ghost().locks > 0);
}
// The same with buffers of any length and a sensor thread adding any number of samples.
CONTRACT(C19_velocity_any, "VelocityCorrection::Correct, VelocityCorrection::initialize, VelocityCorrection::clear") {
  Rig r(choose("err", 2));
  auto s = build::any_state(0, "s", false);
  AnyBuffer<VelocityMeasurementPtr> b;
  b.open(r.buf.get(), "q", [&](const std::string& n) {
    auto p = r.make(n);
    p->set_time(p->get_time() + sampled_age(b.made));
    return p;
  });
  ghost().on_lock = [&](const void* l) { if (l == r.mtx.get()) b.reopen(); };
  D tp = s.get_propagate_time();
  invariant<D, VelocityMeasurementPtr>("velocity discard", [&](int v, D& t_diff, VelocityMeasurementPtr& m) {
    lock_state(v ? "discarding_preserves_locks" : "discarding_starts_with_locks", r.mtx.get(), false);
    ok("discarding_has_a_measurement", m != nullptr);
    if (v) return;
    m = b.make("discarded");
    t_diff = m->get_time() - tp;
    assume(t_diff < -r.thr);
    b.havoc({m});
  });
  invariant<>("velocity keep last", [&](int v) {
    lock_state(v ? "dropping_preserves_locks" : "dropping_starts_with_locks", r.mtx.get(), true);
    ok(v ? "dropping_preserves_content" : "dropping_starts_with_content", b.present(2));
    if (!v) b.havoc({}, 2);
  });
  emptying("velocity clear", b, r.mtx.get());
  switch (choose("operation", 3)) {
    case 0: r.c->Correct(s); break;
    case 1: r.c->initialize(s); break;
    case 2: r.c->clear(); break;
  }
  ok("locks_used", ghost().locks > 0);
}
