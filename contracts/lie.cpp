// C02: the Lie-group functions compute the mathematical operations they name.
#include "drift/math/lie_group.h"
#include "drift/math/se_k_3.h"
#include "spec.h"
using namespace vc;
namespace lg = math::lie_group;

CONTRACT(C02_skew, "skew") {
  V3 v = vec3("v"), u = vec3("u");
  M3 S = lg::skew(v);
  eq("cross_product", M3(S) * u, V3(v.cross(u)));
  eq("matrix", S, skew(v));
}
CONTRACT(C02_factorial, "factorial") {
  double f = 1;
  for (int n = 0; n <= 20; ++n) {
    if (n > 1) f = f * n;
    eq("value", double(lg::factorial(n)), f);
  }
}
static void gamma_contract(int m) {
  V3 w = vec3("w");
  if (!symbolic() && m > 2)      // in doubles the closed form cancels at small angles: R - S is O(theta^m)
    assume(D(pow(spec::norm(w), m)) > 1e-4);
  M3 G = lg::Gamma_SO3(w, m);
  eq_near("series", G, spec::gamma(w, m), spec::gamma0(m), spec::norm(w));
}
CONTRACT(C02_gamma0, "Gamma_SO3") { gamma_contract(0); }
CONTRACT(C02_gamma1, "Gamma_SO3") { gamma_contract(1); }
CONTRACT(C02_gamma2, "Gamma_SO3") { gamma_contract(2); }
CONTRACT(C02_gamma3, "Gamma_SO3") { gamma_contract(3); }
CONTRACT(C02_gamma4, "Gamma_SO3") { gamma_contract(4); }
CONTRACT(C02_gamma5, "Gamma_SO3") { gamma_contract(5); }
CONTRACT(C02_gamma6, "Gamma_SO3") { gamma_contract(6); }
// higher orders, up to the largest m for which 1/m! determines m! in a double
CONTRACT(C02_gamma7, "Gamma_SO3") { gamma_contract(7); }
CONTRACT(C02_gamma8, "Gamma_SO3") { gamma_contract(8); }
CONTRACT(C02_gamma9, "Gamma_SO3") { gamma_contract(9); }
CONTRACT(C02_gamma10, "Gamma_SO3") { gamma_contract(10); }
CONTRACT(C02_gamma11, "Gamma_SO3") { gamma_contract(11); }
CONTRACT(C02_gamma12, "Gamma_SO3") { gamma_contract(12); }
CONTRACT(C02_gamma13, "Gamma_SO3") { gamma_contract(13); }
CONTRACT(C02_gamma14, "Gamma_SO3") { gamma_contract(14); }
CONTRACT(C02_gamma15, "Gamma_SO3") { gamma_contract(15); }
CONTRACT(C02_gamma16, "Gamma_SO3") { gamma_contract(16); }
CONTRACT(C02_gamma17, "Gamma_SO3") { gamma_contract(17); }
CONTRACT(C02_gamma18, "Gamma_SO3") { gamma_contract(18); }
CONTRACT(C02_exp_so3, "Exp_SO3") {
  V3 w = vec3("w");
  eq_near("series", lg::Exp_SO3(w), spec::gamma(w, 0), spec::gamma0(0), spec::norm(w));
}
CONTRACT(C02_rotation, "Exp_SO3") {
  V3 w = vec3("w");
  M3 R = lg::Exp_SO3(w);
  eq("orthogonal", M3(R * R.transpose()), M3::Identity());
  eq("determinant", D(R(0,0)*(R(1,1)*R(2,2)-R(1,2)*R(2,1)) - R(0,1)*(R(1,0)*R(2,2)-R(1,2)*R(2,0))
                      + R(0,2)*(R(1,0)*R(2,1)-R(1,1)*R(2,0))), D(1));
}
CONTRACT(C02_jacobians, "LeftJacobian_SO3, RightJacobian_SO3") {
  V3 w = vec3("w");
  eq_near("left", lg::LeftJacobian_SO3(w), spec::gamma(w, 1), spec::gamma0(1), spec::norm(w));
  eq_near("right", lg::RightJacobian_SO3(w), spec::gamma(V3(-w), 1), spec::gamma0(1), spec::norm(w));
}
CONTRACT(C02_exp_sek3, "Exp_SEK3") {
  int K = choose("K", 7);
  VX v = vec("v", 3 + 3 * K);
  V3 w = v.head(3);
  MX X = lg::Exp_SEK3(v);
  MX c(3, K), c0(3, K);
  for (int i = 0; i < K; ++i) {
    c.col(i) = spec::gamma(w, 1) * V3(v.segment(3 + 3 * i, 3));
    c0.col(i) = v.segment(3 + 3 * i, 3);
  }
  eq_near("group_exponential", X, spec::group(spec::gamma(w, 0), c),
          spec::group(M3::Identity(), c0), spec::norm(w));
}
CONTRACT(C02_adjoint, "Adjoint_SEK3") {
  int K = choose("K", 7);
  M3 R = rot("R");
  MX X = spec::group(R, mat("c", 3, K));
  MX A = lg::Adjoint_SEK3(X);
  eq("block_formula", A, spec::adjoint(X));
  // X v^ X^-1 = (Ad v)^ for every v
  VX v = vec("v", 3 + 3 * K);
  MX V = zero(3 + K, 3 + K);
  V.block(0, 0, 3, 3) = skew(V3(v.head(3)));
  for (int i = 0; i < K; ++i) V.block(0, 3 + i, 3, 1) = v.segment(3 + 3 * i, 3);
  VX a = A * v;
  MX W = zero(3 + K, 3 + K);
  W.block(0, 0, 3, 3) = skew(V3(a.head(3)));
  for (int i = 0; i < K; ++i) W.block(0, 3 + i, 3, 1) = a.segment(3 + 3 * i, 3);
  eq("conjugation", MX(X * V * spec::group_inv(X)), W);
}
CONTRACT(C02_extended_pose, "SEK3 constructors, SEK3::operator*, SEK3::inverse, SEK3 accessors") {
  int K = choose("K", 5);
  MX A = spec::group(rot("Ra"), mat("a", 3, 2 + K)), B = spec::group(rot("Rb"), mat("b", 3, 2 + K));
  math::SEK3 a(A), b(B), e;
  eq("stored", a.get_X(), A);
  eqi("dimension", a.get_dim(), 5 + K);
  eq("composition", (a * b).get_X(), MX(A * B));
  eq("operands_kept", a.get_X(), A);
  eq("operands_kept", b.get_X(), B);
  eq("inverse", a.inverse().get_X(), spec::group_inv(A));
  eq("inverse_cancels", MX(a.inverse().get_X() * A), eye(5 + K));
  eq("inverse_cancels", (a * a.inverse()).get_X(), eye(5 + K));
  eq("identity", e.get_X(), eye(5));
  eq("rotation", a.get_R(), MX(A.block(0, 0, 3, 3)));
  eq("first_column", a.get_p(), MX(A.block(0, 3, 3, 1)));
  eq("second_column", a.get_v(), MX(A.block(0, 4, 3, 1)));
  MX W = A;
  M3 R = rot("Rc");
  V3 p = vec3("p"), v = vec3("v");
  a.set_R(R); W.block(0, 0, 3, 3) = R;
  eq("writes_its_block", a.get_X(), W);
  a.set_p(p); W.block(0, 3, 3, 1) = p;
  eq("writes_its_block", a.get_X(), W);
  a.set_v(v); W.block(0, 4, 3, 1) = v;
  eq("writes_its_block", a.get_X(), W);
  MX E = eye(5);
  E.block(0, 0, 3, 3) = R; E.block(0, 3, 3, 1) = p;
  eq("from_parts", math::SEK3(R, p).get_X(), E);
  E.block(0, 4, 3, 1) = v;
  eq("from_parts", math::SEK3(R, p, v).get_X(), E);
}
