// C20: measurement containers.
#include "drift/measurement/angular_velocity.h"
#include "drift/measurement/contact.h"
#include "drift/measurement/imu.h"
#include "drift/measurement/joint_state.h"
#include "drift/measurement/legged_kinematics.h"
#include "drift/measurement/odom.h"
#include "drift/measurement/velocity.h"
#include "spec.h"
using namespace vc;
using namespace measurement;

namespace {
struct Legs : LeggedKinematicsMeasurement {
  Legs() {}
  template <class A, class B, class C> Legs(const A& a, const B& b, const C& c) : LeggedKinematicsMeasurement(a, b, c) {}
  void ComputeKinematics() override {}
  int get_num_legs() override { return 4; }
};
typedef Eigen::Matrix<bool, Eigen::Dynamic, 1> VB;
VB flags(const std::string& n, int k) {
  VB b(k);
  for (int i = 0; i < k; ++i) b(i) = flag(n + std::to_string(i));
  return b;
}
void header(Measurement& m, int type) {
  eqi("type", m.get_type(), type);
  eq("initial_time", m.get_time(), D(0));
  D t = var("t");
  m.set_time(t);
  eq("time", m.get_time(), t);
  D t2 = var("t2");
  m.set_header(7, t2, "frame");
  eq("header", m.get_time(), t2);
  ok("header", m.header.seq == 7 && m.header.frame_id == "frame");
  eqi("type", m.get_type(), type);
  auto h = m.header;
  h.stamp = t;
  m.set_header(h);
  eq("header", m.get_time(), t);
  std::map<int, std::string> printed{{IMU, "IMU"}, {LEGGED_KINEMATICS, "LEGGED_KINEMATICS"}, {VELOCITY, "VELOCITY"}, {JOINT_STATE, "JOINT_STATE"}, {CONTACT, "CONTACT"}};
  if (!printed.count(type)) return;
  std::ostringstream os;
  os << m;
  std::string txt = os.str();
  while (!txt.empty() && isspace((unsigned char)txt.back())) txt.pop_back();
  size_t at = txt.find_last_of(" :");
  ok("prints_its_type", txt.substr(at == std::string::npos ? 0 : at + 1) == printed[type], txt);
}
template <class Q> void same_quat(const std::string& n, const Q& q, const D& w, const D& x, const D& y, const D& z) {
  eq(n, D(q.w()), w); eq(n, D(q.x()), x); eq(n, D(q.y()), y); eq(n, D(q.z()), z);
}
}  // namespace

CONTRACT(C20_headers, "Measurement, constructors of all measurement types") {
  switch (choose("kind", 9)) {
    case 0: { Measurement m; header(m, EMPTY); break; }
    case 1: { ImuMeasurement<D> m; header(m, IMU); break; }
    case 2: { Legs m; header(m, LEGGED_KINEMATICS); break; }
    case 3: { Legs m(vec("e", 12), vec("d", 12), VB(VB::Constant(4, true))); header(m, LEGGED_KINEMATICS); break; }
    case 4: { VelocityMeasurement<D> m; header(m, VELOCITY); break; }
    case 5: { AngularVelocityMeasurement<D> m; header(m, ANGULAR_VELOCITY); break; }
    case 6: { JointStateMeasurement<D> m; header(m, JOINT_STATE); break; }
    case 7: { ContactMeasurement m; header(m, CONTACT); break; }
    case 8: { OdomMeasurement m; header(m, ODOM); break; }
  }
}
CONTRACT(C20_imu, "ImuMeasurement setters and getters") {
  ImuMeasurement<D> m;
  V3 z = V3::Zero();
  eq("initial", m.get_angular_velocity(), z);
  eq("initial", m.get_lin_acc(), z);
  same_quat("initial", m.get_quaternion(), D(1), D(0), D(0), D(0));
  eq("initial", m.get_rotation_matrix(), M3::Identity());
  V3 w = vec3("w"), a = vec3("a");
  auto q = quat("q");
  m.set_quaternion(q[0], q[1], q[2], q[3]);
  m.set_angular_velocity(w(0), w(1), w(2));
  m.set_lin_acc(a(0), a(1), a(2));
  eq("angular_velocity", m.get_angular_velocity(), w);
  eq("acceleration", m.get_lin_acc(), a);
  same_quat("quaternion", m.get_quaternion(), q[0], q[1], q[2], q[3]);
  eq("rotation_matrix", m.get_rotation_matrix(), quat_to_rot(q[0], q[1], q[2], q[3]));
}
CONTRACT(C20_quaternion_validation, "ImuMeasurement::set_quaternion, ImuMeasurement::validate_quat") {
  ImuMeasurement<D> m;
  auto q = quat("q");
  m.set_quaternion(q[0], q[1], q[2], q[3]);
  D w = var("w", -0.51, 0.51), x = var("x", -0.51, 0.51), y = var("y", -0.51, 0.51), z = var("z", -0.51, 0.51);
  if (!symbolic() && flag("near")) {      // sampling only: close to the unit sphere
    D n = sqrt(D(w * w + x * x + y * y + z * z)), f = 1 + (var("f", -1, 1)) * 1e-5;
    if (n > 0) { w = w / n * f; x = x / n * f; y = y / n * f; z = z / n * f; }
  }
  D off = w * w + x * x + y * y + z * z - 1;
  bool bad = off >= 1e-5 || off <= -1e-5, thrown = false;
  try { m.set_quaternion(w, x, y, z); } catch (const std::invalid_argument&) { thrown = true; }
  ok("rejected_exactly_when_not_unit", thrown == bad);
  if (thrown) same_quat("rejected_keeps_orientation", m.get_quaternion(), q[0], q[1], q[2], q[3]);
  else same_quat("accepted_is_stored", m.get_quaternion(), w, x, y, z);
}
CONTRACT(C20_velocity, "VelocityMeasurement setters and getters") {
  VelocityMeasurement<D> m;
  eq("initial", m.get_velocity(), V3(V3::Zero()));
  V3 v = vec3("v");
  m.set_velocity(v(0), v(1), v(2));
  eq("stored", m.get_velocity(), v);
  eq("magnitude", m.get_vel_mag(), spec::norm(v));
  V3 u = m.get_vel_unit_vec();
  D s = v(0) * v(0) + v(1) * v(1) + v(2) * v(2);
  if (s > 0) {
    eq("unit_vector", V3(u * spec::norm(v)), v);
    eq("unit_vector_length", D(u(0) * u(0) + u(1) * u(1) + u(2) * u(2)), D(1));
  }
  eq("stored", m.get_velocity(), v);
}
CONTRACT(C20_angular_velocity, "AngularVelocityMeasurement setters and getters") {
  AngularVelocityMeasurement<D> m;
  eq("initial", m.get_angular_velocity(), V3(V3::Zero()));
  V3 v = vec3("v");
  m.set_angular_velocity(v(0), v(1), v(2));
  eq("stored", m.get_angular_velocity(), v);
  eq("magnitude", m.get_angular_velocity_magnitude(), spec::norm(v));
  V3 u = m.get_ang_vel_unit_vec();
  D s = v(0) * v(0) + v(1) * v(1) + v(2) * v(2);
  if (s > 0) {
    eq("unit_vector", V3(u * spec::norm(v)), v);
    eq("unit_vector_length", D(u(0) * u(0) + u(1) * u(1) + u(2) * u(2)), D(1));
  }
}
CONTRACT(C20_joint_state, "JointStateMeasurement setters and getters") {
  JointStateMeasurement<D> m;
  int n = choose("n", 5) * 3;
  VX p = vec("p", n), v = vec("v", n), e = vec("e", n), q = vec("q", n);
  m.set_joint_state(p, v, e);
  eq("position", m.get_joint_pos(), p);
  eq("velocity", m.get_joint_vel(), v);
  eq("effort", m.get_joint_effort(), e);
  m.set_encoders(q);
  eq("position", m.get_joint_pos(), q);
  eq("velocity", m.get_joint_vel(), v);
  eq("effort", m.get_joint_effort(), e);
}
CONTRACT(C20_contact, "ContactMeasurement setters and getters") {
  ContactMeasurement m;
  VB b = flags("c", 4);
  m.set_contact(b);
  VB r = m.get_contact();
  ok("stored", r.size() == 4 && r == b);
}
CONTRACT(C20_odometry, "OdomMeasurement") {
  OdomMeasurement e;
  eq("initial", MX(e.get_transformation()), eye(4));
  V3 t = vec3("t");
  auto q = quat("q");
  Eigen::Quaternion<D> Q(q[0], q[1], q[2], q[3]);
  D st = var("st");
  OdomMeasurement m(t, Q, 3, st, "odom");
  MX T = eye(4);
  T.block(0, 0, 3, 3) = quat_to_rot(q[0], q[1], q[2], q[3]);
  T.block(0, 3, 3, 1) = t;
  eq("transformation", MX(m.get_transformation()), T);
  eq("time", m.get_time(), st);
  eqi("type", m.get_type(), ODOM);
  e.set_translation(t);
  e.set_rotation(Q);
  e.set_transformation();
  eq("transformation", MX(e.get_transformation()), T);
}
CONTRACT(C20_legged, "LeggedKinematicsMeasurement setters and getters") {
  int legs = 1 + choose("legs", 4), dim = 3;
  VX e = vec("e", legs * dim), d = vec("d", legs * dim);
  VB b = flags("c", legs);
  bool by_ctor = flag("constructed");
  Legs m0, m1(e, d, b);
  Legs& m = by_ctor ? m1 : m0;
  if (!by_ctor) { m.set_joint_state(e); m.set_joint_state_velocity(d); m.set_contact(b); }
  MX P = mat("P", 3, legs), J = mat("J", 3, legs * dim);
  m.positions_ = P;
  m.jacobians_ = J;
  for (int i = 0; i < legs; ++i) {
    ok("contact", m.get_contact(i) == b(i));
    eq("position", m.get_kin_pos(i), V3(P.col(i)));
    eq("jacobian", MX(m.get_J(i)), MX(J.block(0, i * dim, 3, dim)));
  }
  for (int i = 0; i < legs * dim; ++i) eq("joint", D(m.get_joint_state(i)), e(i));
  eq("joint_velocity", m.d_encoders_, d);
  eq("initial_velocity_without_kinematics", m.get_init_velocity(vec3("w")), V3(V3::Zero()));
}
