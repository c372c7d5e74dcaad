// The invariant Kalman update, written from the mathematics.
#pragma once
namespace spec {
inline MX exp_app(const VX& v) {   // group exponential over uninterpreted Gamma
  int K = (v.size() - 3) / 3;
  V3 w = v.head(3);
  MX c(3, K);
  M3 J = gamma_app(w, 1);
  for (int i = 0; i < K; ++i) c.col(i) = J * V3(v.segment(3 + 3 * i, 3));
  return group(gamma_app(w, 0), c);
}
// e: 1 right-invariant covariance, 0 left-invariant; right: observation kind
struct Kalman {
  MX H, N, X, P, G; VX Z, theta, delta;
  bool opaque_pose = true;    // adjoints may be named (they hide that R is a rotation)
  Kalman(build::Snapshot& o, int m, int e, int b, bool right, bool opaque = true) : opaque_pose(opaque) {
    int d = o.P.rows();
    Z = vc::vec("Z", m, -0.3, 0.3);
    H = vc::mat("H", m, d, -1, 1);
    N = vc::spd("N", m);
    run(o, e, b, right);
  }
  Kalman(build::Snapshot& o, const VX& Z_, const MX& H_, const MX& N_, int e, int b, bool right)
      : H(H_), N(N_), Z(Z_) { run(o, e, b, right); }
  void run(build::Snapshot& o, int e, int b, bool right) {
    using vc::eye; using vc::zero; using vc::let;
    int d = o.P.rows(), n = d - 6;
    MX P0 = o.P;
    if (!b) {
      P0.block(n, 0, 6, n) = zero(6, n);
      P0.block(0, n, n, 6) = zero(n, 6);
      P0.block(n, n, 6, 6) = eye(6) * D(0.0001);
    }
    if (right && !e) {
      MX A = eye(d);
      A.block(0, 0, n, n) = adjoint(o.X);
      if (opaque_pose) let("A", A);
      P0 = A * P0 * A.transpose();
      let("P0_", P0);
    }
    if (!right && e) {
      MX A = eye(d);
      A.block(0, 0, n, n) = adjoint(group_inv(o.X));
      if (opaque_pose) let("A", A);
      P0 = A * P0 * A.transpose();
      let("P0_", P0);
    }
    MX PH = P0 * H.transpose();
    let("PH", PH);
    MX S = H * PH + N;
    let("S", S);
    G = PH * vc::inv(S);
    let("G", G);
    delta = G * Z;
    let("delta", delta);
    MX E = exp_app(VX(delta.head(n)));
    X = right ? MX(E * o.X) : MX(o.X * E);
    let("Xn", X);
    VX dth = delta.tail(6);
    if (right) dth(2) = 0;
    theta = o.th + dth;
    MX I = eye(d) - G * H;
    let("IKH", I);
    P = I * P0 * I.transpose() + G * N * G.transpose();
    let("J", P);
    if (right) {
      P.row(n + 2).setZero();
      P.col(n + 2).setZero();
      P(n + 2, n + 2) = D(0.0001);
    }
    if (right && !e) {
      MX A = eye(d);
      A.block(0, 0, n, n) = adjoint(group_inv(X));
      if (opaque_pose) let("B", A);
      P = A * P * A.transpose();
    }
    if (!right && e) {
      MX A = eye(d);
      A.block(0, 0, n, n) = adjoint(X);
      if (opaque_pose) let("B", A);
      P = A * P * A.transpose();
    }
  }
};
}  // namespace spec
