// C15, C16, C19: the gyro filter (rate and bias Kalman filter).
#include "drift/imu_filter/imu_ang_vel_ekf.h"
#include "common.h"
#include "anybuf.h"
#ifdef VC_SYM
typedef Eigen::Quaternion<sym::Real> Quat;
#else
typedef Eigen::Quaternion<double> Quat;
#endif

namespace {
typedef std::shared_ptr<std::mutex> Lock;
enum Key { SD_W, SD_B, SD_Q, SD_QB, SD_IMU, SD_ENC, THR, ROT, FLAT, PRIOR, NKEY };
const char* yname[NKEY] = {"ang_vel_std", "ang_vel_bias_std", "filter_std", "filter_bias_std",
                           "imu_meas_noise_std", "encoder_meas_noise_std", "t_threshold",
                           "rotation_imu2body", "flat_ground", "ang_vel_bias"};
struct Conf {
  D sd[6], thr; M3 R; bool flat; VX prior; std::string text;
  // missing: index of the key left out of the file (-1 none, NKEY all)
  Conf(bool flat_, int missing = -1, int fixed_bias_n = -1, int method = -1) {
    auto has = [&](int k) { return missing != k && missing != NKEY; };
    const double dflt[6] = {0.01, 0.01, 0.01, 0.01, 0.1, 0.1};
    std::string no = "noises:\n  x: 1\n", se = "settings:\n  x: 1\n", pr = "priors:\n  x: 1\n";
    for (int i = 0; i < 6; ++i) {
      sd[i] = has(i) ? pos(yname[i], 0.1, 1.5) : D(dflt[i]);
      if (has(i)) no += std::string("  ") + yname[i] + ": @" + yname[i] + "\n";
    }
    thr = has(THR) ? pos("thr", 0.2, 0.5) : D(0.03);
    if (has(THR)) se += "  t_threshold: @thr\n";
    R = M3::Identity();
    if (has(ROT)) {
      R = build::quat_yaml("qi");
      se += "  rotation_imu2body: " + build::list("qi", 4) + "\n";
    }
    flat = has(FLAT) ? flat_ : false;
    if (has(FLAT)) se += std::string("  flat_ground: ") + (flat_ ? "true" : "false") + "\n";
    prior = VX::Zero(3);
    if (has(PRIOR)) {
      prior = vec("prior", 3, -0.3, 0.3);
      pr += "  ang_vel_bias: " + build::list("prior", 3) + "\n";
    }
    if (fixed_bias_n >= 0)
      se += "  static_bias_initialization: true\n  init_bias_size: " + std::to_string(fixed_bias_n) + "\n";
    else if (missing != NKEY)
      se += "  static_bias_initialization: false\n";
    if (method >= 0) se += "  correction_method: " + std::to_string(method) + "\n";
    text = no + se + pr;
  }
  MX H(bool enc) const {
    MX h = zero(3, 6);
    for (int i = 0; i < 3; ++i)
      if (flat || i == 2) { h(i, i) = 1; if (!enc) h(i, i + 3) = 1; }
    return h;
  }
  MX P0() const {
    MX p = zero(6, 6);
    for (int i = 0; i < 6; ++i) p(i, i) = sd[i / 3] * sd[i / 3];
    return p;
  }
  MX Q() const {
    MX p = zero(6, 6);
    for (int i = 0; i < 6; ++i) p(i, i) = sd[2 + i / 3] * sd[2 + i / 3];
    return p;
  }
};
MX inv3(const MX& s) {        // adjugate over determinant
  auto c = [&](int i, int j) {
    int a = (i + 1) % 3, b = (i + 2) % 3, e = (j + 1) % 3, f = (j + 2) % 3;
    return D(s(a, e) * s(b, f) - s(a, f) * s(b, e));
  };
  D det = s(0, 0) * c(0, 0) + s(0, 1) * c(0, 1) + s(0, 2) * c(0, 2);
  MX r(3, 3);
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r(j, i) = c(i, j) / det;
  return r;
}
// the Kalman filter this class is to be
struct Model {
  Conf c;
  VX est; MX P;
  int n = 0;
  void correct(const V3& z, bool enc) {
    MX H = c.H(enc), S = H * P * H.transpose() + eye(3) * (c.sd[enc ? 5 : 4] * c.sd[enc ? 5 : 4]);
    std::string k = std::to_string(n++);
    let("S" + k, S);
    MX K = P * H.transpose() * inv3(S);
    let("K" + k, K);
    est = (est + K * (z - H * est)).eval();
    P = (P - K * H * P).eval();
  }
};
struct Rig {
  Conf c;
  IMUQueuePtr prop{new IMUQueue};
  Lock propm{new std::mutex};
  std::vector<IMUQueuePtr> imu;
  std::vector<Lock> imum;
  AngularVelocityQueuePtr enc{new AngularVelocityQueue};
  Lock encm{new std::mutex};
  std::vector<ImuMeasurementPtr> P;
  std::vector<std::vector<ImuMeasurementPtr>> I;
  std::vector<AngularVelocityMeasurementPtr> E;
  std::shared_ptr<imu_filter::ImuAngVelEKF> f;
  bool gyro, use_enc;
  Rig(const Conf& conf, int imus, bool encoder, bool gyro_, bool from_buffers = false)
      : c(conf), I(imus), gyro(gyro_), use_enc(encoder) {
    for (int i = 0; i < imus; ++i) { imu.emplace_back(new IMUQueue); imum.emplace_back(new std::mutex); }
    if (from_buffers) {
      f = std::make_shared<imu_filter::ImuAngVelEKF>(imu[0], imum[0], enc, encm, yaml(c.text));
    } else {
      f = std::make_shared<imu_filter::ImuAngVelEKF>(yaml(c.text));
      for (int i = 0; i < imus; ++i) f->add_imu_correction(imu[i], imum[i]);
      if (encoder) f->add_ang_vel_correction(enc, encm);
    }
    if (gyro) f->add_gyro_propagate(prop, propm);
    guarded("propagation buffer", prop.get(), propm.get());
    for (int i = 0; i < imus; ++i) guarded("imu buffer " + std::to_string(i), imu[i].get(), imum[i].get());
    guarded("encoder buffer", enc.get(), encm.get());
    guarded("output buffer", f->get_filtered_imu_data_buffer_ptr().get(), f->get_filtered_imu_data_buffer_mutex_ptr().get());
  }
  static ImuMeasurementPtr sample(const std::string& n) {
    auto m = std::make_shared<measurement::ImuMeasurement<D>>(build::imu(n));
    auto q = quat(n + ".q");
    m->quaternion_ = Quat(q[0], q[1], q[2], q[3]);
    return m;
  }
  static AngularVelocityMeasurementPtr rate(const std::string& n) {
    auto m = std::make_shared<measurement::AngularVelocityMeasurement<D>>();
    V3 w = vec3(n + ".w");
    m->set_time(var(n + ".t", 0, 2));
    m->set_angular_velocity(w(0), w(1), w(2));
    return m;
  }
  void add_prop(const std::string& n = "") { Quiet q; P.push_back(sample(n.empty() ? "p" + std::to_string(P.size()) : n)); prop->push(P.back()); }
  void add_imu(int i, const std::string& n = "") { Quiet q; I[i].push_back(sample(n.empty() ? "i" + std::to_string(i) + "_" + std::to_string(I[i].size()) : n)); imu[i]->push(I[i].back()); }
  void add_enc(const std::string& n = "") { Quiet q; E.push_back(rate(n.empty() ? "e" + std::to_string(E.size()) : n)); enc->push(E.back()); }
  // the running filter in any state; before any gyro propagation or after
  void running(bool propagated) {
    f->filter_initialized_ = true;
    f->correction_method_ = I.size() > 1 ? imu_filter::MULTI_IMU
        : I.empty() ? imu_filter::ANG_VEL
        : use_enc ? imu_filter::SINGLE_IMU_PLUS_ANG_VEL : imu_filter::SINGLE_IMU;
    arbitrary("s");
    f->last_propagate_time_ = propagated ? pos("tp", 0.5, 2) : D(-1);
  }
  void arbitrary(const std::string& n) {
    f->ang_vel_and_bias_est_ = vec(n + ".x", 6);
    f->ang_vel_and_bias_P_ = spd(n + ".P", 6);
    f->prev_ang_vel_measurement_ = vec3(n + ".prev");
  }
  Model model() { return Model{c, f->ang_vel_and_bias_est_, MX(f->ang_vel_and_bias_P_)}; }
  void is(const std::string& n, const Model& m) {
    eq(n + "_estimate", f->ang_vel_and_bias_est_, m.est);
    eq(n + "_covariance", f->ang_vel_and_bias_P_, m.P);
  }
  // behind the samples added so far every input that has one holds any number of
  // others, and the reader has left any number of older outputs
  std::vector<ImuMeasurementPtr> old;
  template <class Q, class V, class F> static void open(Q& q, V& v, const std::string& n, F mk) {
    if (q->ghost_items().empty() || q->ghost_open()) return;
    auto keep = q->ghost_items();
    q->ghost_any([&v, n, mk] { Quiet z; v.push_back(mk(n + std::to_string(v.size()))); return v.back(); });
    q->ghost_items() = keep;
  }
  void more() {
    Quiet q;
    open(prop, P, "p", &Rig::sample);
    for (size_t i = 0; i < imu.size(); ++i) open(imu[i], I[i], "i" + std::to_string(i) + "_", &Rig::sample);
    open(enc, E, "e", &Rig::rate);
    f->get_filtered_imu_data_buffer_ptr()->ghost_any([this] { Quiet z; old.push_back(sample("o" + std::to_string(old.size()))); return old.back(); });
  }
  // outputs added by the code
  std::vector<ImuMeasurementPtr> out() {
    Quiet q;
    auto b = f->get_filtered_imu_data_buffer_ptr();
    std::vector<ImuMeasurementPtr> it(b->ghost_items().begin(), b->ghost_items().end());
    if (b->ghost_open() || !old.empty()) {
      bool kept = it.size() >= old.size();
      for (size_t i = 0; kept && i < old.size(); ++i) kept = it[i] == old[i];
      ok("older_outputs_kept", kept);
      it.erase(it.begin(), it.begin() + std::min(old.size(), it.size()));
      it.insert(it.end(), b->ghost_suffix().begin(), b->ghost_suffix().end());
    }
    return it;
  }
  template <class Qp, class V> static bool left(Qp& q, const V& v, int from) {
    Quiet z;
    auto& it = q->ghost_items();
    if ((int)it.size() != (int)v.size() - from) return false;
    for (size_t i = 0; i < it.size(); ++i) if (it[i] != v[from + i]) return false;
    return true;
  }
};
// published sample: filtered rate, time of the measurement used, rest of the IMU sample
void published(const std::string& n, ImuMeasurementPtr o, const VX& est, const D& t, ImuMeasurementPtr src) {
  eq(n + "_rate", o->get_angular_velocity(), V3(est.head(3)));
  eq(n + "_time", o->get_time(), t);
  eq(n + "_acceleration_kept", o->get_lin_acc(), src->get_lin_acc());
  eq(n + "_orientation_kept", o->get_quaternion().coeffs(), src->get_quaternion().coeffs());
  ok(n + "_type", o->get_type() == src->get_type());
  ok(n + "_is_a_new_sample", o != src);
}
}  // namespace

CONTRACT(C15_imu, "ImuAngVelEKF::AngVelFilterCorrectIMU, ImuAngVelEKF::SingleImuCorrection") {
  Conf c(choose("flat_ground", 2));
  Rig r(c, 1, false, false);
  r.running(false);
  r.add_imu(0);
  Model m = r.model();
  V3 w = r.I[0][0]->get_angular_velocity();
  D t = r.I[0][0]->get_time();
  r.f->SingleImuCorrection();
  m.correct(w, false);
  r.is("kalman_update", m);
  ok("one_output", r.out().size() == 1);
  if (r.out().size() == 1) published("output", r.out()[0], m.est, t, r.I[0][0]);
  eq("input_kept", r.I[0][0]->get_angular_velocity(), w);
}
CONTRACT(C15_encoder, "ImuAngVelEKF::AngVelFilterCorrectEncoder, ImuAngVelEKF::AngVelCorrection, ImuAngVelEKF::GyroPropagate") {
  Conf c(choose("flat_ground", 2));
  bool fused = flag("with_imu");
  Rig r(c, fused, true, !fused);
  r.running(false);
  ImuMeasurementPtr src;
  if (fused) {                     // the IMU sample the output is built on
    r.add_imu(0);
    r.f->SingleImuAngVelCorrection();
    src = r.I[0][0];
  } else {
    r.add_prop();
    r.f->GyroPropagate();
    src = r.P[0];
  }
  r.arbitrary("u");
  if (fused) r.f->last_propagate_time_ = -1;
  r.add_enc();
  Model m = r.model();
  V3 w = c.R.transpose() * r.E[0]->get_angular_velocity();
  size_t before = r.out().size();
  if (fused) r.f->SingleImuAngVelCorrection();
  else r.f->AngVelCorrection();
  m.correct(w, true);
  r.is("kalman_update", m);
  ok("one_output", r.out().size() == before + 1);
  if (r.out().size() == before + 1) published("output", r.out()[before], m.est, r.E[0]->get_time(), src);
}
CONTRACT(C15_propagate, "ImuAngVelEKF::GyroPropagate, ImuAngVelEKF::RandomWalkPropagate") {
  Conf c(choose("flat_ground", 2));
  bool gyro = flag("gyro");
  Rig r(c, 1, choose("encoder", 2), gyro);
  r.running(choose("propagated", 2));
  int n = choose("n", 3);
  for (int i = 0; i < n; ++i) r.add_prop();
  Model m = r.model();
  D last = r.f->last_propagate_time_;
  if (!gyro) {
    r.f->RandomWalkPropagate();
    m.P = m.P + c.Q();
    r.is("random_walk", m);
    ok("random_walk_takes_nothing", Rig::left(r.prop, r.P, 0));
    eq("random_walk_keeps_clock", r.f->last_propagate_time_, last);
    return;
  }
  V3 prev = r.f->prev_ang_vel_measurement_;
  for (int i = 0; i < 3; ++i) {     // every further sample uses the one before it
    r.f->GyroPropagate();
    if (i < n) {
      V3 w = r.P[i]->get_angular_velocity();
      m.est.head(3) = (m.est.head(3) + w - prev).eval();
      m.P = m.P + c.Q();
      prev = w;
      last = r.P[i]->get_time();
    }
    r.is("gyro_increment", m);
    eq("clock", r.f->last_propagate_time_, last);
    ok("consumes_one", Rig::left(r.prop, r.P, std::min(i + 1, n)));
  }
  ok("propagation_publishes_nothing", r.out().empty());
}
// Both constructors, every key present or left to its default: first steps of
// a filter configured that way.
CONTRACT(C15_configuration, "ImuAngVelEKF::ImuAngVelEKF, ImuAngVelEKF::RunOnce, ImuAngVelEKF::InitializeFilter") {
  int missing = choose("missing", NKEY + 2) - 1;
  Conf c(choose("flat_ground", 2), missing, -1, 0);
  bool bufs = flag("from_buffers");
  Rig r(c, 1, true, false, bufs);
  r.f->RunOnce();                    // initialisation from the prior
  Model m{c, VX::Zero(6), c.P0()};
  m.est.tail(3) = c.prior;
  r.is("initial", m);
  ok("nothing_published", r.out().empty());
  r.add_imu(0);
  V3 w = r.I[0][0]->get_angular_velocity();
  r.f->RunOnce();
  m.P = m.P + c.Q();
  m.correct(w, false);
  r.is("first_imu", m);
  ok("one_output", r.out().size() == 1);
  // threshold and rotation, in any later state
  r.arbitrary("u");
  r.f->last_propagate_time_ = pos("tp", 0.5, 2);
  r.add_enc();
  m = r.model();
  bool use = r.f->last_propagate_time_ - r.E[0]->get_time() <= c.thr;
  r.f->RunOnce();
  m.P = m.P + c.Q();
  if (use) m.correct(c.R.transpose() * r.E[0]->get_angular_velocity(), true);
  r.is("encoder", m);
  ok("threshold", r.out().size() == (use ? 2u : 1u));
}

CONTRACT(C16_single_imu, "ImuAngVelEKF::SingleImuCorrection") {
  int n = choose("n", 2);
  Conf c(false);
  Rig r(c, 1, false, false);
  bool propagated = flag("propagated");
  r.running(propagated);
  for (int i = 0; i < n; ++i) r.add_imu(0);
  r.more();
  Model m = r.model();
  D tp = r.f->last_propagate_time_;
  r.f->SingleImuCorrection();
  int taken = 0, used = 0;
  if (n) {
    D t = r.I[0][0]->get_time();
    if (!propagated) taken = used = 1;
    else if (t <= tp) { taken = 1; used = tp - t <= c.thr; }
  }
  if (used) m.correct(r.I[0][0]->get_angular_velocity(), false);
  ok("takes_in_order_and_once", Rig::left(r.imu[0], r.I[0], taken));
  ok("one_output_per_use", (int)r.out().size() == used);
  r.is("effect", m);
  if (used && r.out().size() == 1) published("output", r.out()[0], m.est, r.I[0][0]->get_time(), r.I[0][0]);
  eq("clock_kept", r.f->last_propagate_time_, tp);
}
CONTRACT(C16_multi_imu, "ImuAngVelEKF::MultiImuCorrection") {
  int k = 2 + choose("imus", 2);
  Conf c(false);
  Rig r(c, k, false, false);
  bool propagated = flag("propagated");
  r.running(propagated);
  int total = 0;
  for (int i = 0; i < k; ++i) {
    int n = choose("n" + std::to_string(i), 2);
    total += n;
    for (int j = 0; j < n; ++j) r.add_imu(i);
  }
  r.more();
  Model m = r.model();
  D tp = r.f->last_propagate_time_;
  r.f->MultiImuCorrection();
  std::vector<int> who;
  std::vector<VX> est;
  for (int i = 0; i < k; ++i) {
    if (!r.I[i].empty() && (!propagated || tp - r.I[i][0]->get_time() <= c.thr)) {
      m.correct(r.I[i][0]->get_angular_velocity(), false);
      who.push_back(i);
      est.push_back(m.est);
    }
    ok("takes_one_of_each", Rig::left(r.imu[i], r.I[i], r.I[i].empty() ? 0 : 1));
  }
  r.is("effect", m);
  ok("one_output_per_use", r.out().size() == who.size());
  if (r.out().size() == who.size())
    for (size_t j = 0; j < who.size(); ++j)
      published("output", r.out()[j], est[j], r.I[who[j]][0]->get_time(), r.I[who[j]][0]);
}
CONTRACT(C16_imu_and_encoder, "ImuAngVelEKF::SingleImuAngVelCorrection") {
  int n = choose("imu", 2), e = choose("encoder", 2);
  Conf c(false);
  Rig r(c, 1, true, false);
  bool propagated = flag("propagated"), seen = flag("seen_an_imu_sample");
  r.running(propagated);
  ImuMeasurementPtr latest = seen ? Rig::sample("latest") : nullptr;
  r.f->latest_imu_measurement_ = latest;
  for (int i = 0; i < n; ++i) r.add_imu(0);
  for (int i = 0; i < e; ++i) r.add_enc();
  r.more();
  Model m = r.model();
  D tp = r.f->last_propagate_time_;
  r.f->SingleImuAngVelCorrection();
  bool imu_first = n && (!e || r.I[0][0]->get_time() <= r.E[0]->get_time());
  bool enc_first = e && !imu_first;
  D t = imu_first ? r.I[0][0]->get_time() : enc_first ? r.E[0]->get_time() : D(0);
  bool timely = (imu_first || enc_first) && (!propagated || tp - t <= c.thr);
  if (imu_first) latest = r.I[0][0];
  bool used = timely && latest;
  if (used) {
    if (imu_first) m.correct(r.I[0][0]->get_angular_velocity(), false);
    else m.correct(c.R.transpose() * r.E[0]->get_angular_velocity(), true);
  }
  ok("takes_the_earlier_one_once", Rig::left(r.imu[0], r.I[0], imu_first) && Rig::left(r.enc, r.E, enc_first));
  ok("one_output_per_use", r.out().size() == (used ? 1u : 0u));
  r.is("effect", m);
  if (used && r.out().size() == 1) published("output", r.out()[0], m.est, t, latest);
}
CONTRACT(C16_encoder_only, "ImuAngVelEKF::AngVelCorrection") {
  int e = choose("encoder", 2);
  Conf c(false);
  bool seen = flag("seen_a_gyro_sample");
  Rig r(c, 0, true, true);
  r.running(true);
  ImuMeasurementPtr latest = seen ? Rig::sample("latest") : nullptr;
  r.f->latest_imu_measurement_ = latest;
  for (int i = 0; i < e; ++i) r.add_enc();
  r.more();
  Model m = r.model();
  r.f->AngVelCorrection();
  bool used = e && seen;
  if (used) m.correct(c.R.transpose() * r.E[0]->get_angular_velocity(), true);
  ok("takes_one", Rig::left(r.enc, r.E, e ? 1 : 0));
  ok("one_output_per_use", r.out().size() == (used ? 1u : 0u));
  r.is("effect", m);
  if (used && r.out().size() == 1) published("output", r.out()[0], m.est, r.E[0]->get_time(), latest);
}
// One cycle for every combination of configured inputs: propagation first.
CONTRACT(C16_cycle, "ImuAngVelEKF::RunOnce") {
  static const int kind[6][2] = {{0, 1}, {1, 0}, {1, 1}, {2, 0}, {3, 0}, {2, 0}};
  int q = choose("inputs", 5);
  int k = kind[q][0], e = kind[q][1];
  bool gyro = q == 0 || flag("gyro");
  Conf c(false);
  Rig r(c, k, e, gyro);
  r.f->RunOnce();                       // nothing arrived yet
  ok("starts_empty", r.out().empty());
  r.arbitrary("s");
  bool sample = flag("propagation_sample"), data = flag("data");
  if (sample) r.add_prop();
  for (int i = 0; i < k && data; ++i) r.add_imu(i);
  if (e && data) r.add_enc();
  r.more();
  Model m = r.model();
  V3 prev = r.f->prev_ang_vel_measurement_;
  D tp = -1;
  r.f->RunOnce();
  if (!gyro) m.P = m.P + c.Q();
  else if (sample) {
    m.est.head(3) = (m.est.head(3) + r.P[0]->get_angular_velocity() - prev).eval();
    m.P = m.P + c.Q();
    tp = r.P[0]->get_time();
    assume(tp >= 0);
  }
  std::vector<bool> taken(k, false);
  bool enc_taken = false;
  size_t outs = 0;
  bool clock = gyro && sample;
  if (data) {
    if (q == 0) {                        // encoder on the gyro's own samples
      enc_taken = true;
      if (sample) { m.correct(c.R.transpose() * r.E[0]->get_angular_velocity(), true); outs = 1; }
    } else if (q == 1) {
      D t = r.I[0][0]->get_time();
      taken[0] = !clock || t <= tp;
      if (taken[0] && (!clock || tp - t <= c.thr)) { m.correct(r.I[0][0]->get_angular_velocity(), false); outs = 1; }
    } else if (q == 2) {
      if (r.I[0][0]->get_time() <= r.E[0]->get_time()) {
        taken[0] = true;
        if (!clock || tp - r.I[0][0]->get_time() <= c.thr) { m.correct(r.I[0][0]->get_angular_velocity(), false); outs = 1; }
      } else {
        enc_taken = true;                // no IMU sample to build an output on yet
      }
    } else {
      for (int i = 0; i < k; ++i) {
        taken[i] = true;
        if (!clock || tp - r.I[i][0]->get_time() <= c.thr) { m.correct(r.I[i][0]->get_angular_velocity(), false); ++outs; }
      }
    }
  }
  r.is("effect", m);
  ok("outputs", r.out().size() == outs);
  ok("propagation_sample_taken", Rig::left(r.prop, r.P, gyro && sample));
  for (int i = 0; i < k; ++i) ok("imu_sample_taken", Rig::left(r.imu[i], r.I[i], taken[i]));
  ok("encoder_sample_taken", Rig::left(r.enc, r.E, enc_taken));
}
// Static initialisation over the configured number of samples.
// The filter's thread repeats the cycle until the filter is told to stop.
CONTRACT(C16_thread, "ImuAngVelEKF::StartImuFilterThread, ImuAngVelEKF::RunFilter, ImuAngVelEKF::~ImuAngVelEKF") {
  Conf c(false);
  Rig r(c, 1, false, false);
  r.running(false);
  int n = choose("samples", 4), locks = 0;
  for (int i = 0; i < n; ++i) r.add_imu(0);
  ghost().on_lock = [&](const void* l) {
    if (++locks > 40 || (l == r.imum[0].get() && r.imu[0]->ghost_items().empty())) r.f->stop_thread_ = true;
  };
  r.f->StartImuFilterThread();
  ok("started", r.f->imu_filter_thread_.joinable() && r.out().empty());
  r.f->imu_filter_thread_.ghost_run();
  auto out = r.out();
  ok("repeats_the_cycle_until_stopped", (int)out.size() == n);
  for (int i = 0; i < n && i < (int)out.size(); ++i) eq("in_order", out[i]->get_time(), r.I[0][i]->get_time());
  r.f.reset();
  ok("ends_its_thread", ghost().errors.empty());
}
CONTRACT(C16_initialisation, "ImuAngVelEKF::InitializeFilter, ImuAngVelEKF::RunOnce") {
  int k = 1 + choose("imus", 2), e = k == 1 ? choose("encoder", 2) : 0;
  bool gyro = flag("gyro");
  int N = choose("N", 4);
  Conf c(false, -1, N);
  Rig r(c, k, e, gyro);
  MX P0 = c.P0();
  if (flag("late")) { r.f->RunOnce(); ok("waits_for_samples", r.out().empty() && (N == 0 || !r.f->filter_initialized_)); }
  if (r.f->filter_initialized_) return;
  V3 avg = V3::Zero();
  bool extra = flag("more_than_needed");     // any number more
  for (int i = 0; i < N + extra; ++i) {
    r.add_imu(0);
    if (i < N) avg += r.I[0].back()->get_angular_velocity();
    if (gyro) r.add_prop();
    if (k == 2) r.add_imu(1);
    if (e) r.add_enc();
  }
  if (extra) r.more();
  if (N) avg = V3(avg / D(N));
  for (int i = 0; i < N; ++i) {
    ok("not_before_all_samples", !r.f->filter_initialized_);
    r.f->RunOnce();
    ok("one_sample_each", Rig::left(r.imu[0], r.I[0], i + 1));
    ok("nothing_published", r.out().empty());
  }
  r.f->RunOnce();
  VX est = VX::Zero(6);
  est.tail(3) = avg;
  Model m{c, est, P0};
  r.is("average", m);
  ok("nothing_published", r.out().empty());
  ok("stale_samples_dropped", Rig::left(r.imu[0], r.I[0], r.I[0].size()));
  if (k == 2) ok("stale_samples_dropped", Rig::left(r.imu[1], r.I[1], r.I[1].size()));
  if (e) ok("stale_samples_dropped", Rig::left(r.enc, r.E, r.E.size()));
  if (gyro) ok("stale_samples_dropped", Rig::left(r.prop, r.P, r.P.size()));
  if (gyro && N) eq("previous_gyro_sample", r.f->prev_ang_vel_measurement_, r.P[N - 1]->get_angular_velocity());
  // filtering starts now
  r.add_imu(0);
  r.f->RunOnce();
  if (!gyro) m.P = m.P + c.Q();
  m.correct(r.I[0].back()->get_angular_velocity(), false);
  ok("then_filters", r.out().size() == 1);
  r.is("then_filters", m);
}
CONTRACT(C16_clear_any, "ImuAngVelEKF::clear") {
  int k = choose("imus", 2), e = choose("encoder", 2);
  Conf c(false);
  Rig r(c, k, e, false);
  AnyBuffer<ImuMeasurementPtr> bi, bo;
  AnyBuffer<AngularVelocityMeasurementPtr> be;
  auto out = r.f->get_filtered_imu_data_buffer_ptr();
  if (k) bi.open(r.imu[0].get(), "i", &Rig::sample);
  if (e) be.open(r.enc.get(), "e", &Rig::rate);
  bo.open(out.get(), "o", &Rig::sample);
  if (k) emptying("filter clear imu", bi, r.imum[0].get());
  if (e) emptying("filter clear rates", be, r.encm.get());
  emptying("filter clear output", bo, r.f->get_filtered_imu_data_buffer_mutex_ptr().get());
  r.f->clear();
  ok("output_emptied", bo.exhausted());
  if (k) ok("imu_emptied", bi.exhausted());
  if (e) ok("encoder_emptied", be.exhausted());
}
CONTRACT(C16_clear, "ImuAngVelEKF::clear") {
  int k = choose("imus", 2), e = choose("encoder", 2), n = choose("n", 3);
  Conf c(false);
  Rig r(c, k, e, false);
  for (int i = 0; i < n; ++i) { if (k) r.add_imu(0); if (e) r.add_enc(); }
  { Quiet q; for (int i = 0; i < n; ++i) r.f->get_filtered_imu_data_buffer_ptr()->push(Rig::sample("o" + std::to_string(i))); }
  r.f->clear();
  ok("output_emptied", r.out().empty());
  if (k) ok("imu_emptied", Rig::left(r.imu[0], r.I[0], n));
  if (e) ok("encoder_emptied", Rig::left(r.enc, r.E, n));
}
// Locks, with sensor threads adding samples and a reader draining the output.
CONTRACT(C19_gyro, "ImuAngVelEKF::RunOnce, ImuAngVelEKF::InitializeFilter, ImuAngVelEKF::SingleImuCorrection, ImuAngVelEKF::MultiImuCorrection, ImuAngVelEKF::SingleImuAngVelCorrection, ImuAngVelEKF::AngVelCorrection, ImuAngVelEKF::GyroPropagate, ImuAngVelEKF::clear") {
  static const int kind[4][2] = {{0, 1}, {1, 0}, {1, 1}, {2, 0}};
  int q = choose("inputs", 4), k = kind[q][0], e = kind[q][1];
  bool gyro = q == 0 || flag("gyro"), init = flag("initialising");
  bool st = init && k && flag("static");
  Conf c(false, -1, st ? 1 : -1);
  Rig r(c, k, e, gyro);
  if (!init) { r.running(true); r.f->latest_imu_measurement_ = Rig::sample("latest"); }
  if (flag("data")) {
    if (gyro) r.add_prop();
    for (int i = 0; i < k; ++i) r.add_imu(i);
    if (e) r.add_enc();
  }
  int added = 0;
  ghost().on_lock = [&](const void* l) {
    if (added >= 1) return;
    if (l == r.propm.get() && choose("gyro_arrives", 2)) { ++added; r.add_prop("late"); }
    for (int i = 0; i < k; ++i) if (l == r.imum[i].get() && choose("imu_arrives", 2)) { ++added; r.add_imu(i, "late"); }
    if (l == r.encm.get() && choose("encoder_arrives", 2)) { ++added; r.add_enc("late"); }
    if (l == r.f->get_filtered_imu_data_buffer_mutex_ptr().get() && choose("reader_drains", 2)) {
      ++added;
      auto o = r.f->get_filtered_imu_data_buffer_ptr();
      while (!o->empty()) o->pop();
    }
  };
  switch (choose("operation", 2)) {
    case 0: r.f->RunOnce(); if (init) { r.f->RunOnce(); r.f->RunOnce(); } break;
    case 1: r.f->clear(); break;
  }
}
template <class F> auto log_input(F& f, int) -> decltype(f.LogInputIMU(), void()) { f.LogInputIMU(); }
template <class F> void log_input(F& f, long) { f.get_filtered_imu_data_buffer_mutex_ptr()->lock(); f.get_filtered_imu_data_buffer_mutex_ptr()->unlock(); }
// The same with buffers of any length, any number of samples arriving and any
// number of outputs drained whenever a lock is taken.
CONTRACT(C19_gyro_any, "ImuAngVelEKF::RunOnce, ImuAngVelEKF::InitializeFilter, ImuAngVelEKF::SingleImuCorrection, ImuAngVelEKF::MultiImuCorrection, ImuAngVelEKF::SingleImuAngVelCorrection, ImuAngVelEKF::AngVelCorrection, ImuAngVelEKF::GyroPropagate, ImuAngVelEKF::clear") {
  static const int kind[4][2] = {{0, 1}, {1, 0}, {1, 1}, {2, 0}};
  int q = choose("inputs", 4), k = kind[q][0], e = kind[q][1];
  bool gyro = q == 0 || flag("gyro"), init = flag("initialising");
  bool st = init && k && flag("static");
  Conf c(false, -1, st ? 1 : -1);
  Rig r(c, k, e, gyro);
  if (!init) { r.running(true); r.f->latest_imu_measurement_ = Rig::sample("latest"); }
  auto out = r.f->get_filtered_imu_data_buffer_ptr();
  auto outm = r.f->get_filtered_imu_data_buffer_mutex_ptr();
  AnyBuffer<ImuMeasurementPtr> bp, bi[2], bo;
  AnyBuffer<AngularVelocityMeasurementPtr> be;
  bp.open(r.prop.get(), "p", &Rig::sample);
  for (int i = 0; i < k; ++i) bi[i].open(r.imu[i].get(), "i" + std::to_string(i) + "_", &Rig::sample);
  be.open(r.enc.get(), "e", &Rig::rate);
  bo.open(out.get(), "o", &Rig::sample);
  ghost().on_lock = [&](const void* l) {
    if (l == r.propm.get()) bp.reopen();
    for (int i = 0; i < k; ++i) if (l == r.imum[i].get()) bi[i].reopen();
    if (l == r.encm.get()) be.reopen();
    if (l == outm.get()) bo.havoc();
  };
  if (k) emptying("filter clear imu", bi[0], r.imum[0].get());
  emptying("filter clear rates", be, r.encm.get());
  emptying("filter clear output", bo, outm.get());
  switch (choose("operation", 3)) {
    case 0: r.f->RunOnce(); if (init) { r.f->RunOnce(); r.f->RunOnce(); } break;
    case 1: r.f->clear(); break;
    case 2: if (k && gyro) log_input(*r.f, 0); else return; break;
  }
  ok("locks_used", ghost().locks > 0);
}
