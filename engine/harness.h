// What contracts are written with.  VC_D is the scalar of the current mode.
#pragma once
namespace vc {
typedef VC_D D;
typedef Eigen::Matrix<VC_D, Eigen::Dynamic, Eigen::Dynamic> MX;
typedef Eigen::Matrix<VC_D, Eigen::Dynamic, 1> VX;
typedef Eigen::Matrix<VC_D, 3, 3> M3;
typedef Eigen::Matrix<VC_D, 3, 1> V3;

struct Pruned {};
// ---- inputs (universally quantified)
D var(const std::string& name, double lo = -2, double hi = 2);
D pos(const std::string& name, double lo = 0.05, double hi = 2);
double set_var(const std::string& name, double v);    // replay mode
int choose(const std::string& name, int n);       // any of 0..n-1
inline bool flag(const std::string& name) { return choose(name, 2) == 1; }
void unit(const std::vector<D>& q);               // sum of squares is 1
bool symbolic();
bool quaternion_given(const std::string& n, double* q);
// ---- preconditions and postconditions
void assume(bool c);
void eq_scalar(const std::string& name, const D& a, const D& b, double scale);
void lt(const std::string& name, const D& a, const D& b);
void le(const std::string& name, const D& a, const D& b);
void ok(const std::string& name, bool v, const std::string& detail = "");
bool same(const D& a, const D& b);                // provably equal
std::string yaml(const std::string& text);        // writes a configuration file
std::string tmpdir();
// numbers written by the verified code to a file, read back exactly
struct Readback {
#ifdef VC_SYM
  Readback() { sym::print_ids = true; }
  ~Readback() { sym::print_ids = false; }
#endif
  static std::vector<std::vector<D>> rows(const std::string& file);
};
double num(const D& d);                           // for scaling messages only
D diffby(const D& e, const D& x);                 // symbolic mode only

inline VX vec(const std::string& n, int k, double lo = -2, double hi = 2) {
  VX v(k);
  for (int i = 0; i < k; ++i) v(i) = var(n + std::to_string(i), lo, hi);
  return v;
}
inline V3 vec3(const std::string& n, double lo = -2, double hi = 2) {
  return vec(n, 3, lo, hi);
}
inline MX mat(const std::string& n, int r, int c, double lo = -2, double hi = 2) {
  MX m(r, c);
  for (int i = 0; i < r; ++i)
    for (int j = 0; j < c; ++j)
      m(i, j) = var(n + std::to_string(i) + "_" + std::to_string(j), lo, hi);
  return m;
}
// any symmetric matrix; sampled positive definite (diagonally dominant)
inline MX spd(const std::string& n, int k) {
  MX m(k, k);
  for (int i = 0; i < k; ++i)
    for (int j = i; j < k; ++j)
      m(i, j) = m(j, i)
          = i == j ? var(n + std::to_string(i) + "_" + std::to_string(j), 1.5, 2.5)
                   : var(n + std::to_string(i) + "_" + std::to_string(j), -0.9 / k, 0.9 / k);
  return m;
}
inline M3 quat_to_rot(const D& w, const D& x, const D& y, const D& z) {
  M3 R;
  R(0, 0) = w * w + x * x - y * y - z * z;
  R(0, 1) = 2 * (x * y - w * z);
  R(0, 2) = 2 * (x * z + w * y);
  R(1, 0) = 2 * (x * y + w * z);
  R(1, 1) = w * w - x * x + y * y - z * z;
  R(1, 2) = 2 * (y * z - w * x);
  R(2, 0) = 2 * (x * z - w * y);
  R(2, 1) = 2 * (y * z + w * x);
  R(2, 2) = w * w - x * x - y * y + z * z;
  return R;
}
std::vector<D> quat(const std::string& n);        // any unit quaternion (w,x,y,z)
inline M3 rot(const std::string& n) {             // any rotation matrix
  auto q = quat(n);
  return quat_to_rot(q[0], q[1], q[2], q[3]);
}
inline M3 skew(const V3& v) {
  M3 m;
  m(0, 0) = m(1, 1) = m(2, 2) = 0;
  m(0, 1) = -v(2); m(0, 2) = v(1);
  m(1, 0) = v(2);  m(1, 2) = -v(0);
  m(2, 0) = -v(1); m(2, 1) = v(0);
  return m;
}
inline MX eye(int n) { return MX::Identity(n, n); }
inline MX zero(int r, int c) { return MX::Zero(r, c); }
// mathematical inverse as a specification function
inline MX inv(const MX& m) {
#ifdef VC_SYM
  MX r(m.rows(), m.cols());
  Eigen::internal::sym_inverse<MX>::run(m, r);
  return r;
#else
  return m.inverse();
#endif
}
template <class A, class B>
void eq(const std::string& name, const Eigen::MatrixBase<A>& a0,
        const Eigen::MatrixBase<B>& b0) {
  MX a = a0, b = b0;
  if (a.rows() != b.rows() || a.cols() != b.cols()) {
    ok(name, false, "shape " + std::to_string(a.rows()) + "x" + std::to_string(a.cols())
                        + ", contract: " + std::to_string(b.rows()) + "x"
                        + std::to_string(b.cols()));
    return;
  }
  double s = 0;
#ifndef VC_SYM
  for (int i = 0; i < b.size(); ++i) s = std::max(s, std::fabs(b.data()[i]));
#endif
  for (int i = 0; i < a.rows(); ++i)
    for (int j = 0; j < a.cols(); ++j) eq_scalar(name, a(i, j), b(i, j), s);
}
inline void eq(const std::string& name, const D& a, const D& b) {
  eq_scalar(name, a, b, 0);
}
// equal to `exact`; or, only for |theta| <= 1e-6, within 1e-5 of the value
// `at0` that `exact` takes at theta = 0 (small-angle branches)
void eq_near_scalar(const std::string& name, const D& a, const D& exact,
                    const D& at0, const D& theta, double scale);
template <class A, class B, class C>
void eq_near(const std::string& name, const Eigen::MatrixBase<A>& a0,
             const Eigen::MatrixBase<B>& b0, const Eigen::MatrixBase<C>& c0,
             const D& theta) {
  MX a = a0, b = b0, c = c0;
  if (a.rows() != b.rows() || a.cols() != b.cols()) {
    ok(name, false, "wrong shape");
    return;
  }
  double s = 0;
#ifndef VC_SYM
  for (int i = 0; i < b.size(); ++i) s = std::max(s, std::fabs(b.data()[i]));
#endif
  for (int i = 0; i < a.rows(); ++i)
    for (int j = 0; j < a.cols(); ++j)
      eq_near_scalar(name, a(i, j), b(i, j), c(i, j), theta, s);
}
void psd_list(const std::string& name, int n, const std::vector<D>& m, const std::vector<D>& w);
// m is symmetric positive semidefinite; w: an equal sum of congruences
template <class A, class B>
void psd(const std::string& name, const Eigen::MatrixBase<A>& m0, const Eigen::MatrixBase<B>& w0) {
  MX m = m0, w = w0;
  if (m.rows() != m.cols() || m.rows() != w.rows() || m.cols() != w.cols())
    return ok(name, false, "wrong shape");
  std::vector<D> a, b;
  for (int i = 0; i < m.rows(); ++i)
    for (int j = 0; j < m.cols(); ++j) { a.push_back(m(i, j)); b.push_back(w(i, j)); }
  psd_list(name, m.rows(), a, b);
}
inline void eqi(const std::string& name, long a, long b) {
  ok(name, a == b, std::to_string(a) + " instead of " + std::to_string(b));
}
template <class A>
void let(const std::string& n, const Eigen::MatrixBase<A>& a) {
#ifdef VC_SYM
  for (int i = 0; i < a.rows(); ++i)
    for (int j = 0; j < a.cols(); ++j)
      sym::cut(n + std::to_string(i) + "_" + std::to_string(j), a(i, j));
  sym::cut_group();
#endif
}
inline void let(const std::string& n, const D& a) {
#ifdef VC_SYM
  sym::cut(n, a);
  sym::cut_group();
#endif
}
// bind a shared buffer to its lock
template <class Q, class M>
void guarded(const std::string& n, Q* q, M* m) {
  ghost().guard[q] = m;
  ghost().name[q] = n;
  ghost().name[m] = n + " mutex";
}
struct Quiet {   // the contract itself inspects state, outside any lock
  bool old;
  Quiet() : old(ghost().quiet) { ghost().quiet = true; }
  ~Quiet() { ghost().quiet = old; }
};
struct Contract {
  Contract(const char* name, void (*fn)(), const char* functions);
};
}  // namespace vc
// CONTRACT(name, "functions of the repository under this contract")
#define CONTRACT(name, functions)                                         \
  static void name();                                                     \
  static ::vc::Contract contract_##name(#name, name, functions);          \
  static void name()
