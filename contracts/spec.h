// Specification functions shared by the contracts.
#pragma once
namespace spec {
using vc::D; using vc::MX; using vc::VX; using vc::V3; using vc::M3;
inline D fact(int n) { D r = 1; for (int i = 2; i <= n; ++i) r = r * i; return r; }
// Gamma_m(w) = sum_n (w^)^n / (n+m)!  =  I/m! + a_m w^ + b_m (w^)^2  where
// a_0 = sin(t)/t, b_0 = (1-cos t)/t^2, a_{m+1} = b_m,
// b_{m+1} = (1/(m+1)! - a_m)/t^2, t = |w|   (lean/Gamma.lean)
inline M3 gamma(const V3& w, int m) {
  M3 A = vc::skew(w);
#ifdef VC_SYM
  if (vc::same(w(0), 0) && vc::same(w(1), 0) && vc::same(w(2), 0)) return M3(M3::Identity() / fact(m));
  D t2 = w(0) * w(0) + w(1) * w(1) + w(2) * w(2), t = sqrt(t2);
  D a = sin(t) / t, b = (1 - cos(t)) / t2;
  for (int k = 0; k < m; ++k) {
    D nb = (1 / fact(k + 1) - a) / t2;
    a = b;
    b = nb;
  }
  M3 r = M3::Zero();
  for (int i = 0; i < 3; ++i) r(i, i) = 1 / fact(m);
  return M3(r + a * A + b * (A * A));
#else
  M3 T = M3::Identity() / fact(m), S = T;
  for (int n = 1; n < 60; ++n) { T = (T * A / double(n + m)).eval(); S += T; }
  return S;
#endif
}
inline M3 gamma0(int m) { return M3(M3::Identity() / fact(m)); }
inline D norm(const V3& w) { return sqrt(D(w(0) * w(0) + w(1) * w(1) + w(2) * w(2))); }
// uninterpreted Gamma, for callers (its contract is proved in unit lie)
inline M3 gamma_app(const V3& w, int m) {
#ifdef VC_SYM
  M3 r;
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j)
      r(i, j) = sym::app("Gamma", {m, i, j}, {w(0), w(1), w(2)});
  return r;
#else
  return gamma(w, m);
#endif
}
inline MX group(const M3& R, const MX& cols) {       // [R cols; 0 I]
  MX X = vc::eye(3 + cols.cols());
  X.block(0, 0, 3, 3) = R;
  X.block(0, 3, 3, cols.cols()) = cols;
  return X;
}
inline MX group_inv(const MX& X) {
  M3 R = X.block(0, 0, 3, 3);
  return group(M3(R.transpose()), MX(-R.transpose() * X.block(0, 3, 3, X.cols() - 3)));
}
inline MX adjoint(const MX& X) {
  int K = X.cols() - 3;
  M3 R = X.block(0, 0, 3, 3);
  MX A = vc::zero(3 + 3 * K, 3 + 3 * K);
  A.block(0, 0, 3, 3) = R;
  for (int i = 0; i < K; ++i) {
    V3 c = X.block(0, 3 + i, 3, 1);
    A.block(3 + 3 * i, 3 + 3 * i, 3, 3) = R;
    A.block(3 + 3 * i, 0, 3, 3) = vc::skew(c) * R;
  }
  return A;
}
}  // namespace spec
