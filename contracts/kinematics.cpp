// C13, C14: leg kinematics of the Mini Cheetah.
// needs: kinematics
#include "common.h"
#include "drift/kinematics/mini_cheetah_kinematics.h"
#define EACH_LEG(X) X(FrontRight) X(FrontLeft) X(HindRight) X(HindLeft)
#define INC(f, l) f##_Body_to_##l##Foot
#define DECL(l)                                                                   \
  Eigen::Matrix<VC_D, 4, 4> H_Body_to_##l##Foot(const Eigen::Matrix<VC_D, 12, 1>&);   \
  Eigen::Matrix<VC_D, 3, 3> R_Body_to_##l##Foot(const Eigen::Matrix<VC_D, 12, 1>&);   \
  Eigen::Matrix<VC_D, 6, 12> Js_Body_to_##l##Foot(const Eigen::Matrix<VC_D, 12, 1>&); \
  Eigen::Matrix<VC_D, 6, 12> Jb_Body_to_##l##Foot(const Eigen::Matrix<VC_D, 12, 1>&); \
  Eigen::Matrix<VC_D, 3, 12> Jvs_Body_to_##l##Foot(const Eigen::Matrix<VC_D, 12, 1>&); \
  Eigen::Matrix<VC_D, 3, 12> Jws_Body_to_##l##Foot(const Eigen::Matrix<VC_D, 12, 1>&); \
  Eigen::Matrix<VC_D, 3, 12> Jvb_Body_to_##l##Foot(const Eigen::Matrix<VC_D, 12, 1>&); \
  Eigen::Matrix<VC_D, 3, 12> Jwb_Body_to_##l##Foot(const Eigen::Matrix<VC_D, 12, 1>&);
EACH_LEG(DECL)

namespace {
typedef Eigen::Matrix<D, 12, 1> J12;
typedef measurement::kinematics::MiniCheetahKinematics Kin;
// The robot: abduction joints at (+-0.19, +-0.049, 0) turn about x; 0.062
// outwards the hip turns about -y; 0.209 down the knee turns about -y; the
// foot is 0.2075 further down.  Legs in the order FR, FL, HR, HL.
struct Chain {
  M3 R;
  V3 p;
  MX Jp, Jw;                       // d p / d q, angular velocity per joint rate
  Chain(int leg, const J12& q) : Jp(zero(3, 12)), Jw(zero(3, 12)) {
    D fore = leg < 2 ? 1 : -1, side = leg % 2 ? 1 : -1;
    D c0 = cos(q(3 * leg)), s0 = sin(q(3 * leg));
    D a = q(3 * leg + 1), b = q(3 * leg + 2);
    M3 X, Y1, Y2;
    X = M3::Identity(); Y1 = M3::Identity(); Y2 = M3::Identity();
    X(1, 1) = X(2, 2) = c0; X(2, 1) = s0; X(1, 2) = -s0;
    Y1(0, 0) = Y1(2, 2) = cos(a); Y1(2, 0) = sin(a); Y1(0, 2) = -sin(a);
    Y2(0, 0) = Y2(2, 2) = cos(b); Y2(2, 0) = sin(b); Y2(0, 2) = -sin(b);
    V3 o0(D(0.19) * fore, D(0.049) * side, D(0)), o1, o2;
    o1 = o0 + X * V3(D(0), D(0.062) * side, D(0));
    o2 = o1 + X * Y1 * V3(D(0), D(0), D(-0.209));
    p = o2 + X * Y1 * Y2 * V3(D(0), D(0), D(-0.2075));
    R = X * Y1 * Y2;
    V3 ax[3] = {V3(D(1), D(0), D(0)), V3(X * V3(D(0), D(-1), D(0))), V3(X * V3(D(0), D(-1), D(0)))}, o[3] = {o0, o1, o2};
    for (int k = 0; k < 3; ++k) {
      Jp.col(3 * leg + k) = skew(ax[k]) * V3(p - o[k]);
      Jw.col(3 * leg + k) = ax[k];
    }
  }
};
struct Robot {
  VX q = vec("q", 12, -3, 3), dq = vec("dq", 12);
  Eigen::Matrix<bool, Eigen::Dynamic, 1> contacts;
  std::shared_ptr<Kin> k;
  Robot(bool built = true) : contacts(4) {
    for (int i = 0; i < 4; ++i) contacts(i) = flag("contact" + std::to_string(i));
    if (built) { k = std::make_shared<Kin>(q, dq, contacts); return; }
    k = std::make_shared<Kin>();
    k->set_joint_state(q);
    k->set_joint_state_velocity(dq);
    k->set_contact(contacts);
  }
};
}  // namespace

// Every generated function of every leg.
CONTRACT(C13_generated, "p_Body_to_*Foot, Jp_Body_to_*Foot, R_Body_to_*Foot, H_Body_to_*Foot, Js_Body_to_*Foot, Jb_Body_to_*Foot, Jvs_Body_to_*Foot, Jws_Body_to_*Foot, Jvb_Body_to_*Foot, Jwb_Body_to_*Foot") {
  J12 q = vec("q", 12, -3, 3);
  int leg = choose("leg", 4), i = 0;
  Chain c(leg, q);
  MX p, Jp, R, H, Js, Jb, Jvs, Jws, Jvb, Jwb;
#define CALL(l)                                                                   \
  if (leg == i++) {                                                               \
    p = p_Body_to_##l##Foot(q); Jp = Jp_Body_to_##l##Foot(q);                     \
    R = R_Body_to_##l##Foot(q); H = H_Body_to_##l##Foot(q);                       \
    Js = Js_Body_to_##l##Foot(q); Jb = Jb_Body_to_##l##Foot(q);                   \
    Jvs = Jvs_Body_to_##l##Foot(q); Jws = Jws_Body_to_##l##Foot(q);               \
    Jvb = Jvb_Body_to_##l##Foot(q); Jwb = Jwb_Body_to_##l##Foot(q);               \
  }
  EACH_LEG(CALL)
  eq("position", p, c.p);
  eq("jacobian", Jp, c.Jp);
  if (symbolic())
    for (int r = 0; r < 3; ++r)
      for (int k = 0; k < 12; ++k) eq("jacobian_is_derivative", Jp(r, k), diffby(p(r, 0), q(k)));
  eq("orientation", R, c.R);
  MX T = eye(4);
  T.block(0, 0, 3, 3) = c.R;
  T.block(0, 3, 3, 1) = c.p;
  eq("pose", H, T);
  // twists [angular; linear], in the body frame of the robot and of the foot
  MX vs = zero(3, 12), wb = c.R.transpose() * c.Jw, vb = c.R.transpose() * c.Jp;
  for (int k = 0; k < 12; ++k) vs.col(k) = c.Jp.col(k) - skew(V3(c.Jw.col(k))) * c.p;
  MX S(6, 12), B(6, 12);
  S << c.Jw, vs;
  B << wb, vb;
  eq("spatial_jacobian", Js, S);
  eq("body_jacobian", Jb, B);
  eq("spatial_jacobian_parts", Jws, c.Jw);
  eq("spatial_jacobian_parts", Jvs, vs);
  eq("body_jacobian_parts", Jwb, wb);
  eq("body_jacobian_parts", Jvb, vb);
}
// Each leg is reported at its own index; stored inputs are returned.
CONTRACT(C13_measurement, "MiniCheetahKinematics::MiniCheetahKinematics, MiniCheetahKinematics::ComputeKinematics, MiniCheetahKinematics::get_num_legs, LeggedKinematicsMeasurement::get_kin_pos, LeggedKinematicsMeasurement::get_J, LeggedKinematicsMeasurement::get_contact, LeggedKinematicsMeasurement::get_joint_state, LeggedKinematicsMeasurement::set_joint_state, LeggedKinematicsMeasurement::set_joint_state_velocity, LeggedKinematicsMeasurement::set_contact") {
  Robot r(flag("constructor"));
  ok("legs", r.k->get_num_legs() == 4);
  for (int l = 0; l < 4; ++l) {
    eq("before_computation", r.k->get_kin_pos(l), zero(3, 1));
    eq("before_computation", r.k->get_J(l), zero(3, 3));
  }
  for (int again = 0; again < 2; ++again) {
    r.k->ComputeKinematics();
    for (int l = 0; l < 4; ++l) {
      Chain c(l, r.q);
      eq("position", r.k->get_kin_pos(l), c.p);
      eq("jacobian", r.k->get_J(l), MX(c.Jp.block(0, 3 * l, 3, 3)));
      ok("contact", r.k->get_contact(l) == r.contacts(l));
    }
    for (int i = 0; i < 12; ++i) eq("joint_state", r.k->get_joint_state(i), r.q(i));
    if (again) break;
    r.q = vec("later", 12, -3, 3);
    r.k->set_joint_state(r.q);
  }
}
// The default container is an empty one.
CONTRACT(C13_default, "MiniCheetahKinematics::MiniCheetahKinematics") {
  Kin k;
  for (int l = 0; l < 4; ++l) {
    eq("position", k.get_kin_pos(l), zero(3, 1));
    eq("jacobian", k.get_J(l), zero(3, 3));
    ok("contact", !k.get_contact(l));
  }
  for (int i = 0; i < 12; ++i) eq("joint_state", k.get_joint_state(i), D(0));
  k.ComputeKinematics();
  J12 q = VX::Zero(12);
  for (int l = 0; l < 4; ++l) eq("at_zero", k.get_kin_pos(l), Chain(l, q).p);
}
// d/dt (p_body + R p_foot) = R (v + w x p + J dq) = 0 for the stance leg
CONTRACT(C14_init_velocity, "MiniCheetahKinematics::get_init_velocity") {
  Robot r(flag("constructor"));
  if (flag("computed")) r.k->ComputeKinematics();
  V3 w = vec3("w");
  V3 v = r.k->get_init_velocity(w);
  int l = 0;
  while (l < 4 && !r.contacts(l)) ++l;
  if (l == 4) { eq("no_contact", v, zero(3, 1)); return; }
  Chain c(l, r.q);
  eq("stance_leg_stands_still", V3(v + skew(w) * c.p + c.Jp * r.dq), zero(3, 1));
}
CONTRACT(C14_generic, "LeggedKinematicsMeasurement::get_init_velocity") {
  struct Other : measurement::LeggedKinematicsMeasurement {
    void ComputeKinematics() override {}
    int get_num_legs() override { return 1; }
  } k;
  eq("unknown_robot_starts_at_rest", k.get_init_velocity(vec3("w")), zero(3, 1));
}
