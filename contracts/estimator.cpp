// C17, C19: the estimator's cycle, initialisation and clearing.
#include "drift/estimator/inekf_estimator.h"
#include "common.h"
#include "anybuf.h"
#include "recorder.h"
using namespace filter::inekf;

namespace {
typedef std::shared_ptr<std::mutex> Lock;
ErrorType err(int i) { return i ? ErrorType::RightInvariant : ErrorType::LeftInvariant; }
struct Step { int who; std::string op; MX X; D t; };
struct Trace { std::vector<Step> steps; std::map<std::string, bool> said; };
// Any propagation and any correction: an arbitrary effect on the estimate, an
// arbitrary report, and a record of when it was asked.
void havoc(state::RobotState& s, const std::string& n) {
  s.set_X(spec::group(rot(n + ".R"), mat(n + ".c", 3, 2)));
  s.set_P(spd(n + ".P", 15));
  s.set_theta(vec(n + ".b", 6, -0.5, 0.5));
  s.set_time(var(n + ".t", 0, 2));
}
struct AnyPropagation : filter::Propagation {
  Trace& t; bool init_ok = true; int n = 0;
  AnyPropagation(Trace& t_) : t(t_) {}
  bool step(state::RobotState& s, const char* op) {
    t.steps.push_back({-1, op, s.get_X(), s.get_time()});
    std::string k = "prop" + std::to_string(n++);
    bool r = t.said[k] = flag(k);
    if (r) havoc(s, k);
    return r;
  }
  bool Propagate(state::RobotState& s) override { return step(s, "propagate"); }
  bool set_initial_state(state::RobotState& s) override {
    t.steps.push_back({-1, "init", s.get_X(), s.get_time()});
    if (init_ok) havoc(s, "start" + std::to_string(n++));
    return init_ok;
  }
  void clear() override { t.steps.push_back({-1, "clear", MX(), 0}); }
};
struct AnyCorrection : filter::Correction {
  Trace& t; int id; int refuse = 0; int n = 0;
  AnyCorrection(Trace& t_, int i) : t(t_), id(i) {}
  bool Correct(state::RobotState& s) override {
    t.steps.push_back({id, "correct", s.get_X(), s.get_time()});
    std::string k = "corr" + std::to_string(id) + "_" + std::to_string(n++);
    bool r = t.said[k] = flag(k);
    if (r) havoc(s, k);
    return r;
  }
  bool initialize(state::RobotState& s) override {
    t.steps.push_back({id, "init", s.get_X(), s.get_time()});
    if (refuse-- > 0) return false;
    havoc(s, "cinit" + std::to_string(id));
    return true;
  }
  void clear() override { t.steps.push_back({id, "clear", MX(), 0}); }
};
struct Rig {
  Trace t;
  D sd[3];
  D cov[3];
  std::shared_ptr<estimator::InekfEstimator> e;
  std::shared_ptr<AnyPropagation> p;
  std::vector<std::shared_ptr<AnyCorrection>> c;
  // has: which of the three standard deviations the file names
  Rig(int err_, int corrections, int has = 7) {
    rec::reset();
    const char* nm[3] = {"rotation_std_value", "velocity_std_value", "position_std_value"};
    const double dflt[3] = {0.03, 0.01, 0.00001};
    std::string y = "logger:\n  enable_pose_logger: false\nstate:\n  x: 1\n";
    for (int i = 0; i < 3; ++i) {
      if (has >> i & 1) {
        sd[i] = pos(nm[i]);
        cov[i] = sd[i] * sd[i];
        y += std::string("  ") + nm[i] + ": @" + nm[i] + "\n";
      } else {
        cov[i] = dflt[i];
      }
    }
    e = std::make_shared<estimator::InekfEstimator>(err(err_), yaml(y));
    guarded("published estimates", e->get_robot_state_queue_ptr().get(), e->get_robot_state_queue_mutex_ptr().get());
    if (corrections < 0) return;
    p = std::make_shared<AnyPropagation>(t);
    e->propagation_ = p;
    for (int i = 0; i < corrections; ++i) {
      c.push_back(std::make_shared<AnyCorrection>(t, i));
      e->corrections_.push_back(c.back());
    }
  }
  // the reader has left any number of older estimates
  typedef std::shared_ptr<state::RobotState> Ptr;
  std::vector<Ptr> old;
  static Ptr any(const std::string& n) {
    Quiet q;
    auto s = std::make_shared<state::RobotState>();
    s->set_time(var(n + ".t", 0, 2));
    return s;
  }
  void older() {
    Quiet q;
    e->get_robot_state_queue_ptr()->ghost_any([this] { old.push_back(any("old" + std::to_string(old.size()))); return old.back(); });
  }
  // estimates added by the code
  std::vector<Ptr> out() {
    Quiet q;
    auto b = e->get_robot_state_queue_ptr();
    std::vector<Ptr> it(b->ghost_items().begin(), b->ghost_items().end());
    if (b->ghost_open() || !old.empty()) {
      bool kept = it.size() >= old.size();
      for (size_t i = 0; kept && i < old.size(); ++i) kept = it[i] == old[i];
      ok("older_estimates_kept", kept);
      it.erase(it.begin(), it.begin() + std::min(old.size(), it.size()));
      it.insert(it.end(), b->ghost_suffix().begin(), b->ghost_suffix().end());
    }
    return it;
  }
  state::RobotState state() { return e->get_state(); }
};
void is(const std::string& n, state::RobotState& a, state::RobotState& b) {
  eq(n, a.get_X(), b.get_X());
  eq(n, a.get_P(), b.get_P());
  eq(n, a.get_theta(), b.get_theta());
  eq(n, a.get_time(), b.get_time());
  eq(n, a.get_propagate_time(), b.get_propagate_time());
}
}  // namespace

CONTRACT(C17_cycle, "InekfEstimator::RunOnce") {
  int k = choose("corrections", 4);
  Rig r(choose("err", 2), k);
  r.e->set_state(build::any_state(0));
  r.older();
  size_t published = 0;
  std::vector<state::RobotState> snap;
  for (int cycle = 0; cycle < (k < 3 ? 2 : 1); ++cycle) {
    r.t.steps.clear();
    int before = r.p->n;
    std::vector<int> nb;
    for (auto& c : r.c) nb.push_back(c->n);
    r.e->RunOnce();
    ok("propagates_once", r.p->n == before + 1);
    ok("steps", (int)r.t.steps.size() == k + 1);
    if ((int)r.t.steps.size() != k + 1) return;
    bool any = r.t.said.at("prop" + std::to_string(before));
    ok("propagates_first", r.t.steps[0].who == -1 && r.t.steps[0].op == "propagate");
    for (int i = 0; i < k; ++i) {
      ok("corrections_in_order_added", r.t.steps[i + 1].who == i && r.t.steps[i + 1].op == "correct");
      any = any || r.t.said.at("corr" + std::to_string(i) + "_" + std::to_string(nb[i]));
    }
    // each works on the result of the one before
    for (int i = 1; i <= k; ++i) {
      std::string prev = i == 1 ? "prop" + std::to_string(before) : "corr" + std::to_string(i - 2) + "_" + std::to_string(nb[i - 2]);
      MX want = r.t.said.at(prev) ? spec::group(rot(prev + ".R"), mat(prev + ".c", 3, 2)) : r.t.steps[i - 1].X;
      eq("works_on_the_latest_estimate", r.t.steps[i].X, want);
    }
    published += any;
    auto o = r.out();
    ok("publishes_exactly_when_something_changed", o.size() == published);
    auto now = r.state();
    if (any && o.size() == published) {
      is("published_estimate", *o.back(), now);
      snap.push_back(*o.back());
    }
  }
  auto o = r.out();
  for (size_t i = 0; i < snap.size() && i < o.size(); ++i) is("published_estimates_stay", *o[i], snap[i]);
  ok("one_object_each", o.size() < 2 || o[0] != o[1]);
}
CONTRACT(C17_initialisation, "InekfEstimator::InitState, InekfEstimator::InekfEstimator, InekfEstimator::is_enabled") {
  int k = choose("corrections", 3);
  int has = choose("configured", 8);
  Rig r(choose("err", 2), k, has);
  r.p->init_ok = flag("propagation_ready");
  for (auto& c : r.c) c->refuse = choose("waits" + std::to_string(c->id), 2);
  auto waits = std::vector<int>();
  for (auto& c : r.c) waits.push_back(c->refuse);
  auto s0 = build::any_state(0);
  r.e->set_state(s0);
  r.older();
  ok("starts_disabled", !r.e->is_enabled());
  build::Snapshot o(s0);
  r.e->InitState();
  auto s = r.state();
  if (!r.p->init_ok) {
    ok("not_enabled", !r.e->is_enabled());
    ok("nothing_published", r.out().empty());
    ok("corrections_left_alone", r.t.steps.size() == 1);
    build::unchanged("estimate_kept", o, s);
    return;
  }
  ok("enabled", r.e->is_enabled());
  std::vector<int> want{-1};
  for (int i = 0; i < k; ++i) for (int j = 0; j <= waits[i]; ++j) want.push_back(i);
  ok("initialises_each_in_order", r.t.steps.size() == want.size());
  for (size_t i = 0; i < want.size() && i < r.t.steps.size(); ++i)
    ok("initialises_each_in_order", r.t.steps[i].who == want[i] && r.t.steps[i].op == "init");
  std::string last = k ? "cinit" + std::to_string(k - 1) : "start0";
  MX P = spd(last + ".P", 15);
  for (int i = 0; i < 3; ++i) P.block(3 * i, 3 * i, 3, 3) = eye(3) * r.cov[i];
  eq("covariance", s.get_P(), P);
  eq("mean", s.get_X(), spec::group(rot(last + ".R"), mat(last + ".c", 3, 2)));
  eq("bias", s.get_theta(), vec(last + ".b", 6, -0.5, 0.5));
  ok("published_once", r.out().size() == 1);
  if (r.out().size() == 1) is("published_estimate", *r.out()[0], s);
}
CONTRACT(C17_clear, "InekfEstimator::clear") {
  int k = choose("corrections", 3);
  Rig r(choose("err", 2), k);
  r.e->set_state(build::any_state(choose("K", 5)));
  if (flag("enabled")) r.e->EnableFilter();
  // any number of published estimates and of estimates for the log
  AnyBuffer<Rig::Ptr> published, logged;
  published.open(r.e->get_robot_state_queue_ptr().get(), "pub", &Rig::any);
  logged.open(r.e->robot_state_log_queue_ptr_.get(), "log", &Rig::any);
  emptying("estimator clear states", published, r.e->get_robot_state_queue_mutex_ptr().get());
  emptying("estimator clear log", logged, &r.e->robot_state_log_queue_mutex_);
  std::vector<IMUQueuePtr> fq;
  if (flag("gyro_filter")) {
    IMUQueuePtr iq(new IMUQueue), oq;
    Lock m1(new std::mutex), m2(new std::mutex);
    AngularVelocityQueuePtr aq(new AngularVelocityQueue);
    auto f = std::make_shared<imu_filter::ImuAngVelEKF>(iq, m1, aq, m2, yaml("settings:\n  x: 1\nnoises:\n  x: 1\npriors:\n  x: 1\n"));
    r.e->imu_filter_ = f;
    auto s = std::make_shared<measurement::ImuMeasurement<D>>(build::imu("i"));
    iq->push(s);
    f->get_filtered_imu_data_buffer_ptr()->push(s);
    fq = {iq, f->get_filtered_imu_data_buffer_ptr()};
  }
  r.e->clear();
  ok("published_emptied", published.exhausted());
  ok("log_emptied", logged.exhausted());
  ok("disabled", !r.e->is_enabled());
  for (auto& q : fq) ok("gyro_filter_emptied", q->empty());
  int cleared = 0;
  std::vector<int> seen(k, 0);
  for (auto& s : r.t.steps) {
    if (s.op != "clear") continue;
    if (s.who < 0) ++cleared; else ++seen[s.who];
  }
  ok("propagation_cleared", cleared > 0);
  for (int i = 0; i < k; ++i) ok("corrections_cleared", seen[i] > 0);
  auto s = r.state();
  eq("estimate_reset", s.get_X(), eye(5));
  eq("estimate_reset", s.get_theta(), VX(VX::Zero(6)));
  eq("estimate_reset", s.get_P(), eye(15));
  // cleared means: nothing is published until something changes again
  r.t.steps.clear();
  int before = r.p->n;
  std::vector<int> nb;
  for (auto& c : r.c) nb.push_back(c->n);
  r.e->RunOnce();
  bool any = r.t.said.at("prop" + std::to_string(before));
  for (int i = 0; i < k; ++i) any = any || r.t.said.at("corr" + std::to_string(i) + "_" + std::to_string(nb[i]));
  ok("no_stale_publication", r.out().size() == (any ? 1u : 0u));
}
// clear() on an estimator put together with the public adders.
CONTRACT(C17_clear_buffers, "InekfEstimator::clear, ImuPropagation::clear, VelocityCorrection::clear, LeggedKinematicsCorrection::clear") {
  Rig r(choose("err", 2), -1);
  IMUQueuePtr iq(new IMUQueue);
  VelocityQueuePtr vq(new VelocityQueue);
  LeggedKinQueuePtr lq(new LeggedKinQueue);
  Lock mi(new std::mutex), mv(new std::mutex), ml(new std::mutex);
  std::string min = "settings:\n  x: 1\nnoises:\n  x: 1\npriors:\n  x: 1\n";
  r.e->add_imu_propagation(iq, mi, yaml(min));
  bool v = flag("velocity"), l = flag("legged");
  if (v) r.e->add_velocity_correction(vq, mv, yaml(min));
  if (l) r.e->add_legged_kinematics_correction(lq, ml, yaml(min));
  AnyBuffer<IMUQueue::value_type> bi;
  AnyBuffer<VelocityQueue::value_type> bv;
  AnyBuffer<LeggedKinQueue::value_type> bl;
  bi.open(iq.get(), "i", [](const std::string& n) { return std::make_shared<measurement::ImuMeasurement<D>>(build::imu(n)); });
  bv.open(vq.get(), "v", [](const std::string&) { return std::make_shared<measurement::VelocityMeasurement<D>>(); });
  bl.open(lq.get(), "l", [](const std::string&) { return nullptr; });
  guarded("imu buffer", iq.get(), mi.get());
  guarded("velocity buffer", vq.get(), mv.get());
  guarded("leg kinematics buffer", lq.get(), ml.get());
  emptying("propagation clear", bi, mi.get());
  emptying("velocity clear", bv, mv.get());
  emptying("legged clear", bl, ml.get());
  r.e->clear();
  ok("imu_buffer_emptied", bi.exhausted());
  ok("velocity_buffer_emptied", v ? bv.exhausted() : bv.rest(0));
  ok("leg_buffer_emptied", l ? bl.exhausted() : bl.rest(0));
}
// The parts are configured as asked for: order, buffers, error type.
CONTRACT(C17_assembly, "InekfEstimator::add_imu_propagation, InekfEstimator::add_velocity_correction, InekfEstimator::add_legged_kinematics_correction, InekfEstimator::BiasInitialized, InekfEstimator::InitBias") {
  int e = choose("err", 2), order = choose("order", 2);
  Rig r(e, -1);
  IMUQueuePtr iq(new IMUQueue);
  VelocityQueuePtr vq(new VelocityQueue);
  LeggedKinQueuePtr lq(new LeggedKinQueue);
  Lock mi(new std::mutex), mv(new std::mutex), ml(new std::mutex);
  std::string min = "settings:\n  x: 1\nnoises:\n  x: 1\npriors:\n  x: 1\n";
  D sv = pos("sv"), sg = pos("sg");
  std::string yi = yaml("settings:\n  static_bias_initialization: true\n  init_bias_size: 1\nnoises:\n  gyroscope_std: @sg\npriors:\n  x: 1\n");
  r.e->add_imu_propagation(iq, mi, yi);
  for (int i = 0; i < 2; ++i) {
    if (i == order) r.e->add_velocity_correction(vq, mv, yaml("settings:\n  x: 1\nnoises:\n  velocity_std: @sv\n"));
    else r.e->add_legged_kinematics_correction(lq, ml, yaml(min));
  }
  ok("corrections_added", r.e->corrections_.size() == 2);
  if (r.e->corrections_.size() != 2) return;
  for (int i = 0; i < 2; ++i)
    ok("order_added", r.e->corrections_[i]->get_correction_type()
           == (i == order ? CorrectionType::VELOCITY : CorrectionType::LEGGED_KINEMATICS));
  ok("buffers", r.e->corrections_[order]->get_mutex_ptr() == mv && r.e->corrections_[1 - order]->get_mutex_ptr() == ml
         && r.e->propagation_->get_mutex_ptr() == mi);
  ok("bias_not_initialised", !r.e->BiasInitialized());
  for (int i = 0; i < 3; ++i) iq->push(std::make_shared<measurement::ImuMeasurement<D>>(build::imu("b" + std::to_string(i))));
  for (int i = 0; i < 3 && !r.e->BiasInitialized(); ++i) r.e->InitBias();
  ok("bias_initialised", r.e->BiasInitialized());
  // the same step as the parts take on their own
  while (!iq->empty()) iq->pop();
  auto m0 = std::make_shared<measurement::ImuMeasurement<D>>(build::imu("m0"));
  auto m1 = std::make_shared<measurement::ImuMeasurement<D>>(build::imu("m1"));
  IMUQueuePtr iq2(new IMUQueue);
  Lock mi2(new std::mutex);
  ImuPropagation alone(iq2, mi2, err(e), yi);
  alone.prev_imu_measurement_ = m0;
  std::dynamic_pointer_cast<ImuPropagation>(r.e->propagation_)->prev_imu_measurement_ = m0;
  iq->push(m1); iq->push(m1);
  iq2->push(m1); iq2->push(m1);
  auto s = build::any_state(0);
  r.e->set_state(s);
  bool ret = alone.Propagate(s);
  auto v = std::make_shared<measurement::VelocityMeasurement<D>>();
  V3 vv = vec3("v");
  v->set_velocity(vv(0), vv(1), vv(2));
  v->set_time(s.get_propagate_time() - 0.01);
  vq->push(v);
  r.e->RunOnce();
  ok("propagates", ret);
  ok("uses_the_velocity", rec::calls().size() == 1);
  if (rec::calls().size() != 1) return;
  auto& c = rec::calls()[0];
  ok("error_type", c.err == e);
  eq("propagation_as_configured", c.X, s.get_X());
  M3 R = c.X.block(0, 0, 3, 3);
  eq("correction_as_configured", c.N, M3(R * M3(M3(M3::Identity()) * (sv * sv)) * R.transpose()));
  auto now = r.state();
  eq("result", now.get_X(), rec::after());
  ok("published", r.out().size() == 1);
}
CONTRACT(C17_enable, "InekfEstimator::EnableFilter, InekfEstimator::is_enabled, InekfEstimator::clear") {
  Rig r(choose("err", 2), choose("corrections", 2));
  r.e->set_state(build::any_state(0));
  ok("starts_disabled", !r.e->is_enabled());
  r.e->EnableFilter();
  ok("enabled_when_asked", r.e->is_enabled());
  r.e->RunOnce();
  ok("a_cycle_keeps_it", r.e->is_enabled());
  r.e->clear();
  ok("clearing_disables", !r.e->is_enabled());
  r.e->RunOnce();
  ok("a_cycle_keeps_it", !r.e->is_enabled());
}
// A gyro filter in front of the propagation: what it publishes is what is returned.
CONTRACT(C17_gyro_filter, "InekfEstimator::add_imu_ang_vel_ekf") {
  Rig r(choose("err", 2), 0);
  IMUQueuePtr iq(new IMUQueue);
  Lock m1(new std::mutex), m2(new std::mutex);
  AngularVelocityQueuePtr aq(new AngularVelocityQueue);
  auto out = r.e->add_imu_ang_vel_ekf(iq, m1, aq, m2, yaml("settings:\n  x: 1\nnoises:\n  x: 1\npriors:\n  x: 1\n"));
  auto f = r.e->imu_filter_;
  ok("has_a_filter", (bool)f);
  if (!f) return;
  ok("returns_what_the_filter_publishes", out.first == f->get_filtered_imu_data_buffer_ptr()
         && out.second == f->get_filtered_imu_data_buffer_mutex_ptr() && out.first && out.second && out.first != iq);
  ok("reads_the_given_buffers", f->imu_data_buffer_ptr_ == iq && f->imu_data_buffer_mutex_ptr_ == m1
         && f->ang_vel_data_buffer_ptr_ == aq && f->ang_vel_data_buffer_mutex_ptr_ == m2);
  ok("filters_in_its_own_thread", f->imu_filter_thread_.joinable());
}
// The log holds, for every estimate due, the world pose and the world and body
// velocity of that estimate, in the order published.
CONTRACT(C12_log, "InekfEstimator::PoseLoggingThread, InekfEstimator::StartLoggingThread, InekfEstimator::InekfEstimator, InekfEstimator::~InekfEstimator, RobotState::get_world_rotation, RobotState::get_world_position, RobotState::get_world_velocity, RobotState::get_body_velocity") {
  std::string base = tmpdir() + "/log" + std::to_string(getpid());
  std::string file[3] = {base + "p.txt", base + "v.txt", base + "v_body_frame.txt"};
  struct Clean { std::string* f; ~Clean() { for (int i = 0; i < 3; ++i) unlink(f[i].c_str()); } } clean{file};
  Readback rb;
  D rate = pos("rate", 1, 20), t[2];
  state::RobotState s[2];
  {
    estimator::InekfEstimator e(err(choose("err", 2)), yaml("logger:\n  enable_pose_logger: true\n  pose_log_file: \"" + base + "p.txt\"\n  vel_log_file: \""
        + base + "v.txt\"\n  pose_log_rate: @rate\nstate:\n  x: 1\n"));
    ok("logs_in_its_own_thread", e.pose_logging_thread_.joinable());
    int K = choose("K", 2);
    for (int i = 0; i < 2; ++i) {
      s[i] = build::any_state(K, "s" + std::to_string(i));
      s[i].set_time(t[i] = var("t" + std::to_string(i), 0, 2));
      e.robot_state_log_queue_ptr_->push(std::make_shared<state::RobotState>(s[i]));
    }
    int locks = 0;
    ghost().on_lock = [&](const void*) { if (++locks > 8 || e.robot_state_log_queue_ptr_->ghost_items().empty()) e.stop_signal_ = true; };
    e.pose_logging_thread_.ghost_run();
    ghost().on_lock = nullptr;
  }
  ok("ends_its_thread", ghost().errors.empty());
  std::vector<int> due;
  D last = 0;
  for (int i = 0; i < 2; ++i)
    if (t[i] - last >= 1 / rate) { due.push_back(i); last = t[i]; }
  auto p = Readback::rows(file[0]), v = Readback::rows(file[1]), b = Readback::rows(file[2]);
  ok("one_row_for_each_due", p.size() == due.size() && v.size() == due.size() && b.size() == due.size());
  for (size_t j = 0; j < due.size() && j < p.size() && j < v.size() && j < b.size(); ++j) {
    auto& x = s[due[j]];
    ok("columns", p[j].size() == 8 && v[j].size() == 4 && b[j].size() == 4);
    if (p[j].size() != 8 || v[j].size() != 4 || b[j].size() != 4) return;
    MX X = x.get_X();
    M3 R = X.block(0, 0, 3, 3);
    V3 vel = X.block(0, 3, 3, 1);
    for (auto* r : {&p[j], &v[j], &b[j]}) eq("time", (*r)[0], t[due[j]]);
    eq("position", V3(p[j][1], p[j][2], p[j][3]), X.block(0, 4, 3, 1));
    eq("orientation", quat_to_rot(p[j][7], p[j][4], p[j][5], p[j][6]), R);
    eq("world_velocity", V3(v[j][1], v[j][2], v[j][3]), vel);
    eq("body_velocity", V3(b[j][1], b[j][2], b[j][3]), V3(R.transpose() * vel));
  }
}
// Nothing depends on the memory a default-constructed estimator lands in.
CONTRACT(C17_default, "InekfEstimator::InekfEstimator()") {
  std::vector<char> raw(sizeof(estimator::InekfEstimator) + 64, (char)choose("garbage", 2));
  void* at = raw.data();
  size_t space = raw.size();
  at = std::align(32, sizeof(estimator::InekfEstimator), at, space);
  auto* e = new (at) estimator::InekfEstimator();
  ok("no_logger", !e->enable_pose_logger_);
  ok("disabled", !e->is_enabled());
  ok("queue_empty", e->get_robot_state_queue_ptr()->empty());
  e->enable_pose_logger_ = false;
  e->~InekfEstimator();
}
// Locks, with a reader draining the published estimates at any time; the log
// queue of the logger thread as well.
CONTRACT(C19_estimator, "InekfEstimator::RunOnce, InekfEstimator::InitState, InekfEstimator::clear, InekfEstimator::PoseLoggingThread") {
  Rig r(choose("err", 2), 1);
  r.e->set_state(build::any_state(0));
  guarded("log queue", r.e->robot_state_log_queue_ptr_.get(), &r.e->robot_state_log_queue_mutex_);
  bool log = flag("logging");
  std::string dir = tmpdir();
  r.e->pose_log_file_ = dir + "/pose";
  r.e->vel_log_file_ = dir + "/vel";
  r.e->pose_log_rate_ = 10;
  r.e->enable_pose_logger_ = log;
  int drained = 0;
  ghost().on_lock = [&](const void* l) {
    if (l == r.e->get_robot_state_queue_mutex_ptr().get() && drained < 1 && choose("reader_drains", 2)) {
      ++drained;
      while (!r.e->get_robot_state_queue_ptr()->empty()) r.e->get_robot_state_queue_ptr()->pop();
    }
  };
  int cycles = choose("cycles", 3);
  for (int i = 0; i < cycles; ++i) r.e->RunOnce();
  switch (choose("operation", log ? 3 : 2)) {
    case 0: r.e->InitState(); break;
    case 1: {
      r.e->clear();
      for (int i = 1; i <= 3; ++i)
        for (auto f : {"/pose_", "/vel_", "/vel_body_frame_"}) unlink((dir + f + std::to_string(i) + ".txt").c_str());
      break;
    }
    case 2: {                  // the logger takes the log queue, ends when told
      int turns = 0;
      auto was = ghost().on_lock;
      ghost().on_lock = [&](const void* l) {
        if (l == &r.e->robot_state_log_queue_mutex_ && ++turns > cycles) r.e->stop_signal_ = true;
      };
      r.e->PoseLoggingThread();
      break;
    }
  }
  r.e->enable_pose_logger_ = false;
  ok("locks_used", cycles == 0 || ghost().locks >= 0);
}
// The same with any number of published and logged estimates.
CONTRACT(C19_estimator_any, "InekfEstimator::RunOnce, InekfEstimator::InitState, InekfEstimator::clear") {
  Rig r(choose("err", 2), 1);
  r.e->set_state(build::any_state(0));
  auto q = r.e->get_robot_state_queue_ptr().get();
  auto m = r.e->get_robot_state_queue_mutex_ptr().get();
  auto lm = &r.e->robot_state_log_queue_mutex_;
  guarded("log queue", r.e->robot_state_log_queue_ptr_.get(), lm);
  bool log = flag("logging");
  std::string dir = tmpdir();
  r.e->pose_log_file_ = dir + "/pose";
  r.e->vel_log_file_ = dir + "/vel";
  struct Off {               // the logger thread was never started; files go away
    estimator::InekfEstimator& e;
    std::string dir;
    ~Off() {
      e.enable_pose_logger_ = false;
      for (int i = 1; i <= 3; ++i)
        for (auto f : {"/pose_", "/vel_", "/vel_body_frame_"}) unlink((dir + f + std::to_string(i) + ".txt").c_str());
    }
  } off{*r.e, dir};
  r.e->enable_pose_logger_ = log;
  AnyBuffer<Rig::Ptr> published, logged;
  published.open(q, "pub", &Rig::any);
  logged.open(r.e->robot_state_log_queue_ptr_.get(), "log", &Rig::any);
  ghost().on_lock = [&](const void* l) {
    if (l == m) published.havoc();
    if (l == lm) logged.havoc();
  };
  emptying("estimator clear states", published, m);
  emptying("estimator clear log", logged, lm);
  switch (choose("operation", 3)) {
    case 0: r.e->RunOnce(); r.e->RunOnce(); break;
    case 1: r.e->InitState(); break;
    case 2: r.e->clear(); break;
  }
  ok("state_reached", true);
}
