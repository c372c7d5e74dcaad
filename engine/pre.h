// Force-included (as a precompiled header) in front of every repository source
// and every contract.  Two modes:
//   -DVC_SYM : `double` becomes sym::Real, so the unmodified source text of the
//              repository is executed on symbolic terms (all inputs at once);
//   default  : the same text on machine doubles, for replaying counterexamples.
// In both modes std::mutex and std::queue carry ghost ownership state, and
// private members are visible to contracts.  Nothing else is changed.
#pragma once
#include <assert.h>
#include <math.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#include <algorithm>
#include <array>
#include <atomic>
#include <bitset>
#include <cassert>
#include <chrono>
#include <cmath>
#include <complex>
#include <condition_variable>
#include <csignal>
#include <deque>
#include <exception>
#include <filesystem>
#include <fstream>
#include <functional>
#include <future>
#include <initializer_list>
#include <iomanip>
#include <iostream>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <optional>
#include <queue>
#include <random>
#include <set>
#include <shared_mutex>
#include <sstream>
#include <stack>
#include <stdexcept>
#include <string>
#include <thread>
#include <tuple>
#include <type_traits>
#include <typeinfo>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <valarray>
#include <variant>
#include <vector>

#include <boost/circular_buffer.hpp>

#include "real.h"
#define eigen_assert(x)                                  \
  do {                                                   \
    if (!(x)) throw ::sym::AssertFailure{#x};            \
  } while (false)
#define EIGEN_NO_AUTOMATIC_RESIZING_X
#include <Eigen/Dense>
#include <Eigen/Geometry>
#include <Eigen/StdVector>
#include <yaml-cpp/yaml.h>

#include "ghost.h"

#ifdef VC_SYM
namespace Eigen {
template <>
struct NumTraits<sym::Real> : GenericNumTraits<double> {
  typedef sym::Real Real;
  typedef sym::Real NonInteger;
  typedef sym::Real Nested;
  typedef sym::Real Literal;
  enum {
    IsComplex = 0, IsInteger = 0, IsSigned = 1, RequireInitialization = 1,
    ReadCost = 1, AddCost = 1, MulCost = 1
  };
  static Real epsilon() { return Real(2.220446049250313e-16); }
  static Real dummy_precision() { return Real(1e-12); }
  static Real highest() { return Real(1.7976931348623157e308); }
  static Real lowest() { return Real(-1.7976931348623157e308); }
  static int digits10() { return 15; }
};
namespace internal {
// Contract of Eigen's general matrix inverse (trusted): the result is the
// inverse of the argument, i.e. a function of its entries only.
template <typename Res>
struct sym_inverse {
  template <typename M> static void run(const M& m, Res& r) {
    eigen_assert(m.rows() == m.cols());
    int n = m.rows();
    std::vector<sym::Real> a;
    for (int i = 0; i < n; ++i)
      for (int j = 0; j < n; ++j) a.push_back(m(i, j));
    Matrix<sym::Real, Dynamic, Dynamic> t(n, n);
    bool symmetric = n > 1;     // then so is the inverse
    for (int i = 0; i < n && symmetric; ++i)
      for (int j = 0; j < i && symmetric; ++j)
        symmetric = sym::agree_at_points(a[i * n + j], a[j * n + i]) && sym::same_real(a[i * n + j], a[j * n + i]);
    if (symmetric)
      for (int i = 0; i < n; ++i)
        for (int j = 0; j < i; ++j) a[i * n + j] = a[j * n + i];
    for (int i = 0; i < n; ++i)
      for (int j = 0; j < n; ++j)
        t(i, j) = symmetric && j < i ? t(j, i) : sym::app("inv", {n, i, j}, a);
    r = t;
  }
};
template <int O, int MR, int MC, typename Res>
struct compute_inverse<Matrix<sym::Real, Dynamic, Dynamic, O, MR, MC>, Res, Dynamic>
    : sym_inverse<Res> {};
}  // namespace internal
// Contract of Eigen's linear solvers (trusted): solve(b) is inverse times b.
template <typename D, typename M>
class SymSolver {
 public:
  typedef M MatrixType;
  typedef sym::Real Scalar;
  typedef sym::Real RealScalar;
  M m_;
  SymSolver() {}
  explicit SymSolver(Index n) : m_(n, n) {}
  SymSolver(Index n, Index k) : m_(n, k) {}
  template <class E> explicit SymSolver(const EigenBase<E>& e) : m_(e.derived()) {}
  template <class E> D& compute(const EigenBase<E>& e) { m_ = e.derived(); return static_cast<D&>(*this); }
  M inverse() const { return m_.inverse(); }
  M pseudoInverse() const { return m_.inverse(); }
  M reconstructedMatrix() const { return m_; }
  template <class B>
  Matrix<sym::Real, M::ColsAtCompileTime, B::ColsAtCompileTime> solve(const MatrixBase<B>& b) const {
    return m_.inverse() * b;
  }
  template <class B> void solveInPlace(MatrixBase<B>& b) const { b = (m_.inverse() * b).eval(); }
  ComputationInfo info() const { return Success; }
  bool isInvertible() const { return true; }
  bool isPositive() const { return true; }
  Index rank() const { return m_.cols(); }
  Index rows() const { return m_.rows(); }
  Index cols() const { return m_.cols(); }
};
#define VC_SOLVER(S)                                                          \
  template <int R, int C, int O, int MR, int MC>                              \
  class S<Matrix<sym::Real, R, C, O, MR, MC>>                                 \
      : public SymSolver<S<Matrix<sym::Real, R, C, O, MR, MC>>, Matrix<sym::Real, R, C, O, MR, MC>> { \
   public:                                                                    \
    using SymSolver<S<Matrix<sym::Real, R, C, O, MR, MC>>, Matrix<sym::Real, R, C, O, MR, MC>>::SymSolver; \
  };
#define VC_SOLVER_UPLO(S)                                                     \
  template <int R, int C, int O, int MR, int MC, int U>                       \
  class S<Matrix<sym::Real, R, C, O, MR, MC>, U>                              \
      : public SymSolver<S<Matrix<sym::Real, R, C, O, MR, MC>, U>, Matrix<sym::Real, R, C, O, MR, MC>> { \
   public:                                                                    \
    using SymSolver<S<Matrix<sym::Real, R, C, O, MR, MC>, U>, Matrix<sym::Real, R, C, O, MR, MC>>::SymSolver; \
  };
VC_SOLVER_UPLO(LDLT)
VC_SOLVER_UPLO(LLT)
VC_SOLVER(FullPivLU)
VC_SOLVER(PartialPivLU)
VC_SOLVER(HouseholderQR)
VC_SOLVER(ColPivHouseholderQR)
VC_SOLVER(FullPivHouseholderQR)
VC_SOLVER(CompleteOrthogonalDecomposition)
typedef Matrix<sym::Real, Dynamic, Dynamic> MatrixXR;
typedef Matrix<sym::Real, 2, 2> Matrix2R;
typedef Matrix<sym::Real, 3, 3> Matrix3R;
typedef Matrix<sym::Real, 4, 4> Matrix4R;
typedef Matrix<sym::Real, Dynamic, 1> VectorXR;
typedef Matrix<sym::Real, 2, 1> Vector2R;
typedef Matrix<sym::Real, 3, 1> Vector3R;
typedef Matrix<sym::Real, 4, 1> Vector4R;
typedef Matrix<sym::Real, 1, Dynamic> RowVectorXR;
typedef Matrix<sym::Real, 1, 3> RowVector3R;
typedef Array<sym::Real, Dynamic, Dynamic> ArrayXXR;
typedef Array<sym::Real, Dynamic, 1> ArrayXR;
typedef Quaternion<sym::Real> QuaternionR;
typedef AngleAxis<sym::Real> AngleAxisR;
typedef Transform<sym::Real, 3, Affine> Affine3R;
typedef Transform<sym::Real, 3, Isometry> Isometry3R;
typedef Translation<sym::Real, 3> Translation3R;
}  // namespace Eigen
namespace std {
template <>
class numeric_limits<sym::Real> : public numeric_limits<double> {
 public:
  static sym::Real epsilon() { return sym::Real(numeric_limits<double>::epsilon()); }
  static sym::Real min() { return sym::Real(numeric_limits<double>::min()); }
  static sym::Real max() { return sym::Real(numeric_limits<double>::max()); }
  static sym::Real lowest() { return sym::Real(numeric_limits<double>::lowest()); }
};
}  // namespace std
namespace vc { sym::Real yaml_symbol(const std::string& s); }
namespace YAML {
template <>
struct convert<sym::Real> {
  static Node encode(const sym::Real&) { return Node(); }
  static bool decode(const Node& n, sym::Real& r) {
    if (!n.IsScalar()) return false;
    if (!n.Scalar().empty() && n.Scalar()[0] == '$') {
      r = vc::yaml_symbol(n.Scalar());
      return true;
    }
    double d;
    if (!convert<double>::decode(n, d)) return false;
    r = sym::Real(d);
    return true;
  }
};
}  // namespace YAML
#define VC_D sym::Real
#else
namespace vc { double yaml_symbol(const std::string& s); }
namespace YAML {
// In replay mode "@name" scalars in test configurations denote the concrete
// value of that input.
struct vc_double_tag {};
}
#define VC_D double
#endif

#include "harness.h"

#ifdef VC_SYM
#define double ::sym::Real
#define MatrixXd MatrixXR
#define Matrix2d Matrix2R
#define Matrix3d Matrix3R
#define Matrix4d Matrix4R
#define VectorXd VectorXR
#define Vector2d Vector2R
#define Vector3d Vector3R
#define Vector4d Vector4R
#define RowVectorXd RowVectorXR
#define RowVector3d RowVector3R
#define ArrayXXd ArrayXXR
#define ArrayXd ArrayXR
#define Quaterniond QuaternionR
#define AngleAxisd AngleAxisR
#define Affine3d Affine3R
#define Isometry3d Isometry3R
#define Translation3d Translation3R
#endif
#ifdef VC_SYM
#define DRIFT_VERIFY 1
#define DRIFT_LOOP_INVARIANT(...) ::vc::loop_cut(__VA_ARGS__)
#endif
#define private public
#define protected public
#define mutex vc_mutex
#define recursive_mutex vc_mutex
#define queue vc_queue
#define thread vc_thread
