// C19, C21: wheel odometry.
// source: baselines/src/wheel_odometry/wheel_odometry.cpp
#define STUB_LIE_CLOSED
#include <iomanip>
#include <limits>
typedef std::numeric_limits<double> dbl;
#include "common.h"
#include "anybuf.h"
#include "baselines/src/wheel_odometry/wheel_odometry.cpp"

namespace {
struct Rig {
  VelocityQueuePtr vb{new VelocityQueue};
  AngularVelocityQueuePtr wb{new AngularVelocityQueue};
  std::shared_ptr<std::mutex> vm{new std::mutex}, wm{new std::mutex};
  std::vector<VelocityMeasurementPtr> v;
  std::vector<AngularVelocityMeasurementPtr> w;
  std::string log = tmpdir() + "/wheel" + std::to_string(getpid());
  D rate;
  std::shared_ptr<baseline::WheelOdometry> o;
  Rig(bool logger = false, bool has_rate = false) {
    std::string y = std::string("logger:\n  enable_pose_logger: ") + (logger ? "true" : "false")
        + "\n  pose_log_file: \"" + log + ".txt\"\n";
    rate = has_rate ? pos("rate", 1, 20) : D(10);
    if (has_rate) y += "  pose_log_rate: @rate\n";
    o = std::make_shared<baseline::WheelOdometry>(vb, vm, wb, wm, yaml(y));
    guarded("velocity buffer", vb.get(), vm.get());
    guarded("angular velocity buffer", wb.get(), wm.get());
  }
  ~Rig() { std::remove((log + ".txt").c_str()); }
  static VelocityMeasurementPtr make_v(const std::string& n, const D& t) {
    auto m = std::make_shared<measurement::VelocityMeasurement<D>>();
    V3 x = vec3(n);
    m->set_velocity(x(0), x(1), x(2));
    m->set_time(t);
    return m;
  }
  static AngularVelocityMeasurementPtr make_w(const std::string& n, const D& t) {
    auto m = std::make_shared<measurement::AngularVelocityMeasurement<D>>();
    V3 x = vec3(n);
    m->set_angular_velocity(x(0), x(1), x(2));
    m->set_time(t);
    return m;
  }
  void put_v(const D& t) {
    v.push_back(make_v("v" + std::to_string(v.size()), t));
    Quiet q;
    vb->push(v.back());
  }
  void put_w(const D& t) {
    w.push_back(make_w("w" + std::to_string(w.size()), t));
    Quiet q;
    wb->push(w.back());
  }
  // any number of measurements behind those put in, of one kind or both
  AnyBuffer<VelocityMeasurementPtr> mv;
  AnyBuffer<AngularVelocityMeasurementPtr> mw;
  bool open_v = false, open_w = false;
  size_t gone_v = 0, gone_w = 0;
  void more_v() { Quiet q; open_v = true; gone_v = v.size() - vb->size(); mv.behind(vb.get(), "xv", [](const std::string& n) { return make_v(n, var(n + ".t", 0, 4)); }); }
  void more_w() { Quiet q; open_w = true; gone_w = w.size() - wb->size(); mw.behind(wb.get(), "xw", [](const std::string& n) { return make_w(n, var(n + ".t", 0, 4)); }); }
  // the buffers hold exactly v[i..] and w[j..] (and all that came behind)
  bool left(size_t i, size_t j) {
    Quiet q;
    auto same = [](auto& it, auto& all, size_t from) {
      if (it.size() + from != all.size()) return false;
      for (size_t k = 0; k < it.size(); ++k) if (it[k] != all[from + k]) return false;
      return true;
    };
    return (open_v ? i >= gone_v && mv.rest(i - gone_v) : same(vb->ghost_items(), v, i))
        && (open_w ? j >= gone_w && mw.rest(j - gone_w) : same(wb->ghost_items(), w, j));
  }
};
// the pose one pair later
MX advance(const MX& X, const V3& v, const V3& w, const D& dt) {
  M3 R = X.block(0, 0, 3, 3);
  V3 p = X.block(0, 4, 3, 1);
  MX c(3, 2);
  c.col(0) = R * v;
  c.col(1) = p + R * v * dt;
  return spec::group(M3(R * spec::gamma(V3(w * dt), 0)), c);
}
MX any_pose(const std::string& n) { return spec::group(rot(n + ".R"), mat(n + ".c", 3, 2)); }
}  // namespace

// Nothing happens unless both kinds of measurement are there.
CONTRACT(C21_waits_for_both, "WheelOdometry::RunOnce") {
  int nv = choose("nv", 2), nw = choose("nw", 2), first = choose("first", 2);
  Rig r;
  if (first) { D t = var("t0", 0, 2); r.put_v(t); r.put_w(t); r.o->RunOnce(); }
  r.o->state_.set_X(any_pose("s"));
  for (int i = 0; i < nv; ++i) r.put_v(var("tv" + std::to_string(i), 2, 4));
  for (int i = 0; i < nw; ++i) r.put_w(var("tw" + std::to_string(i), 2, 4));
  if (nv) r.more_v();
  if (nw) r.more_w();
  build::Snapshot o(r.o->state_);
  r.o->RunOnce();
  if (nv && nw) { ok("consumes_one_each", r.left(first + 1, first + 1)); return; }
  ok("consumes_nothing", r.left(first, first));
  eq("pose_unchanged", r.o->state_.get_X(), o.X);
  if (first) eq("time_unchanged", r.o->state_.get_time(), o.t);
}
// The first pair sets the clock, every later one advances the pose.
CONTRACT(C21_steps, "WheelOdometry::RunOnce, WheelOdometry::Integrate") {
  Rig r;
  D t[4];
  int n = choose("n", 3) + 1;
  bool zero_start = flag("starts_at_zero");
  for (int i = 0; i <= n; ++i) {
    t[i] = i == 0 && zero_start ? D(0) : var("t" + std::to_string(i), 0, 3);
    r.put_v(t[i]);
    r.put_w(var("tw" + std::to_string(i), 0, 3));
  }
  r.more_v();
  r.more_w();
  r.o->RunOnce();
  eq("starts_at_identity", r.o->state_.get_X(), eye(5));
  eq("clock", r.o->state_.get_time(), t[0]);
  ok("consumes_one_each", r.left(1, 1));
  for (int i = 1; i <= n; ++i) {
    // any valid pose the steps before may have led to
    MX X = any_pose("s" + std::to_string(i));
    r.o->state_.set_X(X);
    r.o->RunOnce();
    MX want = advance(X, r.v[i]->get_velocity(), r.w[i]->get_angular_velocity(), D(t[i] - t[i - 1]));
    eq("pose", r.o->state_.get_X(), want);
    eq("clock", r.o->state_.get_time(), t[i]);
    ok("consumes_one_each", r.left(i + 1, i + 1));
    ok("no_contact_points", r.o->state_.dimX() == 5);
  }
}
// The pose stays valid: R Gamma_0 is a rotation.
CONTRACT(C21_valid_pose, "WheelOdometry::Integrate") {
  Rig r;
  MX X = any_pose("s");
  r.o->state_.set_X(X);
  r.o->Integrate(vec3("v"), vec3("w"), pos("dt"));
  MX Y = r.o->state_.get_X();
  M3 R = Y.block(0, 0, 3, 3), R0 = X.block(0, 0, 3, 3);
  let("R0", R0);
  eq("rotation_orthonormal", M3(R * R.transpose()), M3(M3::Identity()));
  eq("rotation_orientation", R.determinant(), D(1));
  MX low = zero(2, 5);
  low(0, 3) = low(1, 4) = 1;
  eq("lower_rows", MX(Y.block(3, 0, 2, 5)), low);
}
// Integrating nothing changes nothing but the velocity.
CONTRACT(C21_at_rest, "WheelOdometry::Integrate") {
  Rig r;
  MX X = any_pose("s");
  r.o->state_.set_X(X);
  V3 z = V3::Zero();
  r.o->Integrate(z, z, pos("dt"));
  X.block(0, 3, 3, 1) = z;
  eq("pose", r.o->state_.get_X(), X);
}
// A logged row is the time, the position and the orientation as a quaternion.
CONTRACT(C21_log, "WheelOdometry::LogPose, WheelOdometry::WheelOdometry") {
  bool on = flag("logger"), has_rate = flag("rate");
  Readback rb;
  Rig r(on, has_rate);
  MX X = any_pose("s");
  D t = var("t", 0, 1);
  r.o->state_.set_X(X);
  r.o->state_.set_time(t);
  r.o->LogPose();
  bool due = t >= 1 / r.rate;
  auto rows = Readback::rows(r.log + ".txt");
  ok("rows", (int)rows.size() == (on && due ? 1 : 0), std::to_string(rows.size()));
  if (rows.size() != 1) return;
  auto& k = rows[0];
  ok("columns", k.size() == 8);
  if (k.size() != 8) return;
  eq("time", k[0], t);
  V3 p(k[1], k[2], k[3]);
  eq("position", p, X.block(0, 4, 3, 1));
  eq("orientation", quat_to_rot(k[7], k[4], k[5], k[6]), X.block(0, 0, 3, 3));
  // and the next one only after the period
  D step = pos("step");
  r.o->state_.set_time(D(t + step));
  r.o->LogPose();
  rows = Readback::rows(r.log + ".txt");
  ok("rate", (int)rows.size() == ((t + step) - t >= 1 / r.rate ? 2 : 1), std::to_string(rows.size()));
}
// Producers may add measurements whenever a lock is free.
CONTRACT(C19_wheel, "WheelOdometry::RunOnce") {
  Rig r;
  int nv = choose("nv", 2), nw = choose("nw", 2), left = 2, order = 0;
  for (int i = 0; i < nv; ++i) r.put_v(var("a" + std::to_string(i), 0, 3));
  for (int i = 0; i < nw; ++i) r.put_w(var("b" + std::to_string(i), 0, 3));
  ghost().on_lock = [&](const void*) {
    if (left-- > 0 && !flag("nothing" + std::to_string(order++))) {
      if (!ghost().held[r.wm.get()] && flag("rate" + std::to_string(order))) r.put_w(var("pb" + std::to_string(order), 0, 3));
      else if (!ghost().held[r.vm.get()]) r.put_v(var("pa" + std::to_string(order), 0, 3));
    }
  };
  for (int i = 0; i < 2; ++i) {
    size_t a, b;
    { Quiet q; a = r.v.size() - r.vb->size(); b = r.w.size() - r.wb->size(); }
    r.o->RunOnce();
    size_t c, d;
    { Quiet q; c = r.v.size() - r.vb->size(); d = r.w.size() - r.wb->size(); }
    ok("one_of_each_or_none", (c == a && d == b) || (c == a + 1 && d == b + 1));
  }
  ok("lock_released", !ghost().held[r.vm.get()] && !ghost().held[r.wm.get()]);
}
// The same with buffers of any length and sensor threads adding any number of measurements.
CONTRACT(C19_wheel_any, "WheelOdometry::RunOnce") {
  Rig r;
  r.more_v();
  r.more_w();
  r.mv.reopen();
  r.mw.reopen();
  ghost().on_lock = [&](const void*) {
    if (!ghost().held[r.wm.get()]) r.mw.reopen();
    if (!ghost().held[r.vm.get()]) r.mv.reopen();
  };
  size_t used = 0;
  for (int i = 0; i < 2; ++i) {
    r.o->RunOnce();
    size_t a = r.mv.seen.size() - r.vb->ghost_items().size(), b = r.mw.seen.size() - r.wb->ghost_items().size();
    ok("one_of_each_or_none", a == b && (a == used || a == used + 1) && r.mv.rest(a) && r.mw.rest(b));
    used = a;
  }
  ok("lock_released", !ghost().held[r.vm.get()] && !ghost().held[r.wm.get()]);
}
