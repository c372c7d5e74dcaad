// C01: the Kalman update keeps the pose in the group.
#define STUB_LIE_CLOSED
#include "common.h"
#include "inekf_spec.h"
using namespace filter::inekf;

CONTRACT(C01_correction, "CorrectRightInvariant, CorrectLeftInvariant") {
  // split: K=5 right_observation=2 err=2 bias=2
  int K = choose("K", 5), e = choose("err", 2), b = choose("bias", 2), right = choose("right_observation", 2);
  auto s = build::any_state(K, "s", false);
  s.set_enable_imu_bias_update(b);
  build::Snapshot o(s);
  spec::Kalman k(o, 3, e, b, right, false);
  ErrorType t = e ? ErrorType::RightInvariant : ErrorType::LeftInvariant;
  if (right) CorrectRightInvariant(k.Z, k.H, k.N, s, t);
  else CorrectLeftInvariant(k.Z, k.H, k.N, s, t);
  build::valid_pose("pose", s.get_X());
}
// The exponential itself, for any number of columns.
CONTRACT(C01_exponential, "Exp_SEK3, SEK3::operator*, SEK3::inverse") {
  int K = choose("K", 5);
  MX c = mat("c", 3, 2 + K);
  MX X = spec::group(rot("R"), c);
  VX v = vec("v", 9 + 3 * K, -1, 1);
  MX E = math::lie_group::Exp_SEK3(v);
  build::valid_pose("exponential", E);
  build::valid_pose("left_product", MX(E * X));
  build::valid_pose("right_product", MX(X * E));
}
