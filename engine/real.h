// Symbolic scalar: a handle into a hash-consed expression DAG over the reals.
// The repository's sources are compiled with `double` replaced by this type, so
// running a function builds, for each path, the term it computes -- for all
// inputs at once.  This header knows nothing about Eigen or the repository.
#pragma once
#include <algorithm>
#include <chrono>
#include <cmath>
#include <cstdint>
#include <initializer_list>
#include <iosfwd>
#include <iterator>
#include <numeric>
#include <string>
#include <type_traits>
#include <vector>

namespace sym {

typedef uint32_t Id;   // 0 = never initialised
enum Kind : uint8_t { UNINIT, CONST, SYM, ADD, MUL, DIV, SQRT, SIN, COS, APP,
                      ABS, FUN };

Id mk_const(double d);
Id mk_int(long long n);
Id mk_add(Id a, Id b);
Id mk_sub(Id a, Id b);
Id mk_mul(Id a, Id b);
Id mk_div(Id a, Id b);
Id mk_neg(Id a);
Id mk_fn(Kind k, Id a);
Id mk_fun(const char* name, Id a);             // opaque unary real function
Id mk_pow(Id a, int n);
enum Rel { LT, LE, EQ };
bool decide(Rel r, Id a, Id b);                // truth of (a r b) on this path
double approx(Id a);                           // only for printing

// a constant that is turned into a term on first use, so that `constexpr double`
// works; anything else is a term
constexpr Id LAZY = 0xffffffffu;
constexpr bool in_constexpr() { return __builtin_is_constant_evaluated(); }
struct Handle {
  Id v;
  bool integral;
  union { double d; long long i; };
  constexpr Handle() : v(0), integral(false), d(0) {}
  constexpr Handle(Id x) : v(x), integral(false), d(0) {}
  static constexpr Handle of(double x) { Handle h; h.v = LAZY; h.d = x; return h; }
  static constexpr Handle of_int(long long x) { return Handle(x, 0); }
  operator Id() const { return v != LAZY ? v : integral ? mk_int(i) : mk_const(d); }
  constexpr double value() const { return integral ? (double)i : d; }
 private:
  constexpr Handle(long long x, int) : v(LAZY), integral(true), i(x) {}
};
struct Unsupported { const char* what; };
double const_value(Id a, const char* what);    // Unsupported unless a is constant

struct Real {
  Handle id;
  constexpr Real() : id() {}
  template <class T, class = std::enable_if_t<std::is_arithmetic<T>::value>>
  constexpr Real(T v)
      : id(std::is_integral<T>::value ? Handle::of_int((long long)v) : Handle::of((double)v)) {}
  static Real raw(Id i) { Real r; r.id = i; return r; }
  // conversions to integers and floats: of constants only
  template <class T, class = std::enable_if_t<std::is_arithmetic<T>::value && !std::is_same<T, bool>::value>>
  explicit constexpr operator T() const {
    if (in_constexpr()) return (T)id.value();
    return (T)const_value(id, "conversion of a symbolic real to a machine number");
  }
  explicit constexpr operator bool() const {
    if (in_constexpr()) return id.value() != 0;
    return !decide(EQ, id, mk_int(0));
  }
  constexpr bool operator!() const { return !(bool)*this; }
#define SYM_ASG(op, f)                                                        \
  constexpr Real& operator op##=(const Real& o) {                             \
    if (in_constexpr()) id = Handle::of(id.value() op o.id.value());          \
    else id = Handle(f(id, o.id));                                            \
    return *this;                                                             \
  }
  SYM_ASG(+, mk_add)
  SYM_ASG(-, mk_sub)
  SYM_ASG(*, mk_mul)
  SYM_ASG(/, mk_div)
#undef SYM_ASG
  constexpr Real operator-() const {
    if (in_constexpr()) return Real(-id.value());
    return raw(mk_neg(id));
  }
  constexpr Real operator+() const { return *this; }
  Real& operator++() { id = mk_add(id, mk_int(1)); return *this; }
  Real& operator--() { id = mk_sub(id, mk_int(1)); return *this; }
  Real operator++(int) { Real r = *this; ++*this; return r; }
  Real operator--(int) { Real r = *this; --*this; return r; }
};
template <class T> using if_arith = std::enable_if_t<std::is_arithmetic<T>::value>;

#define SYM_BIN(op)                                                           \
  constexpr inline Real operator op(const Real& a, const Real& b) {           \
    Real r = a;                                                               \
    r op##= b;                                                                \
    return r;                                                                 \
  }                                                                           \
  template <class T, class = if_arith<T>>                                     \
  constexpr inline Real operator op(const Real& a, T b) {                     \
    return a op Real(b);                                                      \
  }                                                                           \
  template <class T, class = if_arith<T>>                                     \
  constexpr inline Real operator op(T a, const Real& b) {                     \
    return Real(a) op b;                                                      \
  }
SYM_BIN(+)
SYM_BIN(-)
SYM_BIN(*)
SYM_BIN(/)
#undef SYM_BIN
template <class T, class = if_arith<T>> inline T& operator+=(T& a, const Real& b) { return a = (T)(Real(a) + b); }
template <class T, class = if_arith<T>> inline T& operator-=(T& a, const Real& b) { return a = (T)(Real(a) - b); }
template <class T, class = if_arith<T>> inline T& operator*=(T& a, const Real& b) { return a = (T)(Real(a) * b); }
template <class T, class = if_arith<T>> inline T& operator/=(T& a, const Real& b) { return a = (T)(Real(a) / b); }
#define SYM_CMP(op, e)                                                        \
  constexpr inline bool operator op(const Real& a, const Real& b) {           \
    if (in_constexpr()) return a.id.value() op b.id.value();                  \
    return e;                                                                 \
  }                                                                           \
  template <class T, class = if_arith<T>>                                     \
  constexpr inline bool operator op(const Real& a, T v) { return a op Real(v); } \
  template <class T, class = if_arith<T>>                                     \
  constexpr inline bool operator op(T v, const Real& b) { return Real(v) op b; }
SYM_CMP(<, decide(LT, a.id, b.id))
SYM_CMP(<=, decide(LE, a.id, b.id))
SYM_CMP(>, decide(LT, b.id, a.id))
SYM_CMP(>=, decide(LE, b.id, a.id))
SYM_CMP(==, decide(EQ, a.id, b.id))
SYM_CMP(!=, !decide(EQ, a.id, b.id))
#undef SYM_CMP

#define SYM_FN(f, e)                                                          \
  constexpr inline Real f(const Real& a) {                                    \
    if (in_constexpr()) return Real(__builtin_##f(a.id.value()));             \
    return e;                                                                 \
  }
SYM_FN(sqrt, Real::raw(mk_fn(SQRT, a.id)))
SYM_FN(sin, Real::raw(mk_fn(SIN, a.id)))
SYM_FN(cos, Real::raw(mk_fn(COS, a.id)))
SYM_FN(tan, sin(a) / cos(a))
SYM_FN(fabs, a < 0 ? -a : a)
SYM_FN(exp, Real::raw(mk_fun("exp", a.id)))
SYM_FN(log, Real::raw(mk_fun("log", a.id)))
SYM_FN(asin, Real::raw(mk_fun("asin", a.id)))
SYM_FN(acos, Real::raw(mk_fun("acos", a.id)))
SYM_FN(atan, Real::raw(mk_fun("atan", a.id)))
SYM_FN(sinh, Real::raw(mk_fun("sinh", a.id)))
SYM_FN(cosh, Real::raw(mk_fun("cosh", a.id)))
SYM_FN(tanh, Real::raw(mk_fun("tanh", a.id)))
SYM_FN(cbrt, Real::raw(mk_fun("cbrt", a.id)))
SYM_FN(floor, Real::raw(mk_fun("floor", a.id)))
SYM_FN(ceil, -floor(-a))
SYM_FN(trunc, a < 0 ? -floor(-a) : floor(a))
SYM_FN(round, a < 0 ? -floor(-a + 0.5) : floor(a + 0.5))
SYM_FN(rint, Real::raw(mk_fun("rint", a.id)))
SYM_FN(nearbyint, Real::raw(mk_fun("rint", a.id)))
#undef SYM_FN
constexpr inline Real abs(const Real& a) { return fabs(a); }
inline Real abs2(const Real& a) { return a * a; }
inline Real pow(const Real& a, int n) { return Real::raw(mk_pow(a.id, n)); }
Real pow(const Real& a, const Real& b);
inline Real pow(const Real& a, double b) { return pow(a, Real(b)); }
inline Real pow(double a, const Real& b) { return pow(Real(a), b); }
inline Real exp2(const Real& a) { return exp(a * log(Real(2))); }
inline Real log2(const Real& a) { return log(a) / log(Real(2)); }
inline Real log10(const Real& a) { return log(a) / log(Real(10)); }
inline Real expm1(const Real& a) { return exp(a) - 1; }
inline Real log1p(const Real& a) { return log(a + 1); }
Real atan2(const Real& a, const Real& b);
inline Real fmax(const Real& a, const Real& b) { return a < b ? b : a; }
inline Real fmin(const Real& a, const Real& b) { return b < a ? b : a; }
inline Real fdim(const Real& a, const Real& b) { return b < a ? a - b : Real(0); }
inline Real fma(const Real& a, const Real& b, const Real& c) { return a * b + c; }
inline Real fmod(const Real& a, const Real& b) { return a - b * trunc(a / b); }
inline bool signbit(const Real& a) { return a < 0; }
inline Real copysign(const Real& a, const Real& b) { return b < 0 ? -abs(a) : abs(a); }
inline long lround(const Real& a) { return (long)round(a); }
inline long long llround(const Real& a) { return (long long)round(a); }
inline long lrint(const Real& a) { return (long)rint(a); }
inline bool isnan(const Real&) { return false; }
inline bool isinf(const Real&) { return false; }
inline bool isfinite(const Real&) { return true; }
inline bool isnormal(const Real& a) { return a != 0; }
inline Real hypot(const Real& a, const Real& b) { return sqrt(a * a + b * b); }
inline Real hypot(const Real& a, const Real& b, const Real& c) { return sqrt(a * a + b * b + c * c); }
std::ostream& operator<<(std::ostream& os, const Real& r);
extern bool print_ids;      // print handles, so that a written value can be read back
std::istream& operator>>(std::istream& is, Real& r);

// Thrown by Eigen assertions (index/shape errors) in the verified code.
struct AssertFailure { const char* what; };

// ---- facilities for contracts ------------------------------------------------
struct SymInfo { double lo, hi; bool positive, nonneg, nonzero; };
Real symbol(const std::string& name, double lo, double hi, bool positive = false,
            bool nonneg = false);
// names an intermediate quantity (a lemma cut): terms provably equal to e are
// replaced by the name when comparing normal forms
void cut(const std::string& name, const Real& e);
void cut_group();      // later cuts may rely on earlier groups
void unit_relation(const std::vector<Real>& q);       // sum q_i^2 = 1
// uninterpreted application of a contract function: congruent in its arguments
typedef void (*Evaluator)(const std::vector<long double>&, void*);
Real app(const std::string& fn, const std::vector<int>& idx,
         const std::vector<Real>& args);
Real diff(const Real& e, const Real& x);
Real limit0(const Real& e, const Real& x);            // limit for x -> 0+
Real subst(const Real& e, const std::vector<std::pair<Real, Real>>& s);
bool same_real(const Real& a, const Real& b);          // provably equal
bool agree_at_points(const Real& a, const Real& b);    // no sampled input tells them apart
std::string show(const Real& e, int budget = 400);
bool is_const(const Real& e, double* v = nullptr);

}  // namespace sym

namespace std {
using sym::abs; using sym::fabs; using sym::sqrt; using sym::sin; using sym::cos;
using sym::tan; using sym::exp; using sym::log; using sym::asin; using sym::acos;
using sym::atan; using sym::atan2; using sym::pow; using sym::isnan;
using sym::isinf; using sym::isfinite; using sym::sinh; using sym::cosh;
using sym::tanh; using sym::hypot; using sym::cbrt; using sym::floor; using sym::ceil;
using sym::trunc; using sym::round; using sym::rint; using sym::nearbyint;
using sym::exp2; using sym::log2; using sym::log10; using sym::expm1; using sym::log1p;
using sym::fmax; using sym::fmin; using sym::fdim; using sym::fma; using sym::fmod;
using sym::signbit; using sym::copysign; using sym::lround; using sym::llround;
using sym::lrint; using sym::isnormal;
// literals stay machine numbers, so these are called with mixed arguments
template <class T, class = sym::if_arith<T>> constexpr sym::Real min(const sym::Real& a, T b) { return b < a ? sym::Real(b) : a; }
template <class T, class = sym::if_arith<T>> constexpr sym::Real min(T a, const sym::Real& b) { return b < a ? b : sym::Real(a); }
template <class T, class = sym::if_arith<T>> constexpr sym::Real max(const sym::Real& a, T b) { return a < b ? sym::Real(b) : a; }
template <class T, class = sym::if_arith<T>> constexpr sym::Real max(T a, const sym::Real& b) { return a < b ? b : sym::Real(a); }
inline sym::Real max(std::initializer_list<sym::Real> l) { sym::Real r = *l.begin(); for (auto& x : l) if (r < x) r = x; return r; }
inline sym::Real min(std::initializer_list<sym::Real> l) { sym::Real r = *l.begin(); for (auto& x : l) if (x < r) r = x; return r; }
template <class A, class B, class = enable_if_t<!(is_same<A, sym::Real>::value && is_same<B, sym::Real>::value)>>
constexpr sym::Real clamp(const sym::Real& x, const A& lo, const B& hi) { return x < lo ? sym::Real(lo) : sym::Real(hi) < x ? sym::Real(hi) : x; }
template <class I> enable_if_t<is_same<typename iterator_traits<I>::value_type, sym::Real>::value, sym::Real>
accumulate(I a, I b, double z) { sym::Real s(z); for (; a != b; ++a) s = s + *a; return s; }
template <class I, class J> enable_if_t<is_same<typename iterator_traits<I>::value_type, sym::Real>::value, sym::Real>
inner_product(I a, I b, J c, double z) { sym::Real s(z); for (; a != b; ++a, ++c) s = s + *a * *c; return s; }
inline string to_string(const sym::Real& a) { return sym::show(a); }
namespace chrono { template <> struct treat_as_floating_point<sym::Real> : true_type {}; }
}
