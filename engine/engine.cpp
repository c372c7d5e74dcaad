// Engine: expression DAG, exact normal forms, path enumeration, obligations.
#include <poll.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include "real.h"
#include <Eigen/Dense>
#include "engine.h"
#include "ghost.h"

#include <gmpxx.h>
#include <z3++.h>

#include <algorithm>
#include <boost/multiprecision/cpp_bin_float.hpp>
#include <chrono>
#include <cmath>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <random>
#include <set>
#include <sstream>
#include <unordered_map>

namespace bmp = boost::multiprecision;
typedef bmp::number<bmp::cpp_bin_float<160>> MP;

namespace sym {
using std::string;
using std::vector;

static double now() {
  return std::chrono::duration<double>(
             std::chrono::steady_clock::now().time_since_epoch())
      .count();
}

// ============================================================ expression DAG
struct Node {
  Kind k;
  Id a, b;       // children (ADD, MUL, DIV, fn) or table index in a
};
struct App {
  string fn;
  vector<int> idx;
  vector<Id> args;
};
struct Symbol {
  string name;
  SymInfo info;
  int unit;      // unit-norm group or -1
};
static vector<Node> N;
static vector<mpq_class> consts;
static vector<Symbol> syms;
static vector<App> apps;
static vector<string> funs;
static vector<vector<Id>> units;
static std::map<string, Id> sym_by_name;
static std::map<string, uint32_t> fun_by_name;

struct Key {
  Kind k;
  Id a, b;
  bool operator==(const Key& o) const {
    return k == o.k && a == o.a && b == o.b;
  }
};
struct KeyH {
  size_t operator()(const Key& x) const {
    uint64_t h = x.k * 0x9E3779B97F4A7C15ull;
    h = (h ^ x.a) * 0xff51afd7ed558ccdull;
    h ^= h >> 29;
    h = (h ^ x.b) * 0xc4ceb9fe1a85ec53ull;
    return h ^ (h >> 32);
  }
};
static std::unordered_map<Key, Id, KeyH> table;
static std::map<mpq_class, Id> const_ids;
static std::map<string, Id> app_ids;
static Id ZERO, ONE, MONE;

static Id push(Kind k, Id a, Id b) {
  Key key{k, a, b};
  auto it = table.find(key);
  if (it != table.end()) return it->second;
  Id id = N.size();
  N.push_back({k, a, b});
  table.emplace(key, id);
  return id;
}
static Id cst(const mpq_class& q) {
  auto it = const_ids.find(q);
  if (it != const_ids.end()) return it->second;
  Id id = N.size();
  N.push_back({CONST, (Id)consts.size(), 0});
  consts.push_back(q);
  const_ids[q] = id;
  return id;
}
static bool boot() {
  if (N.empty()) {
    N.push_back({UNINIT, 0, 0});
    ZERO = cst(0);
    ONE = cst(1);
    MONE = cst(-1);
  }
  return true;
}
static bool booted = boot();
static bool isc(Id a) { return N[a].k == CONST; }
static const mpq_class& cval(Id a) { return consts[N[a].a]; }

static int uninit_count = 0;
static Id fix(Id a) {
  if (a) return a;
  // a read of storage nobody initialised: any value at all
  return symbol("uninitialised#" + std::to_string(uninit_count++), -3, 3).id;
}

// simplest rational strictly within half an ulp of d: decimal literals and
// small fractions are recovered as the numbers the source text means
static mpq_class simplest(mpq_class lo, mpq_class hi) {
  // 0 < lo < hi
  mpz_class f = lo.get_num() / lo.get_den();
  mpq_class fl(f);
  if (fl == lo) return lo;
  if (fl + 1 < hi) return fl + 1;
  if (fl + 1 == hi) {
    // fall through to the continued fraction
  }
  mpq_class l2 = lo - fl, h2 = hi - fl;
  mpq_class r = simplest(mpq_class(1) / h2, mpq_class(1) / l2);
  return fl + mpq_class(1) / r;
}
static mpq_class rational_of(double d) {
  mpq_class x(d);
  if (d == 0 || x.get_den() == 1) return x;
  bool neg = d < 0;
  double ad = std::fabs(d);
  mpq_class up(std::nextafter(ad, INFINITY)), dn(std::nextafter(ad, 0)), m(ad);
  mpq_class hi = (m + up) / 2, lo = (m + dn) / 2;
  mpq_class r = simplest(lo, hi);
  r.canonicalize();
  // only accept genuinely simple numbers; otherwise keep the exact double
  if (mpz_sizeinbase(r.get_den().get_mpz_t(), 2)
      + mpz_sizeinbase(r.get_num().get_mpz_t(), 2) > 100)
    r = m;
  return neg ? mpq_class(-r) : r;
}
Id mk_const(double d) {
  boot();
  if (!std::isfinite(d)) {
    if (std::isnan(d)) return symbol("nan#" + std::to_string(uninit_count++), -3, 3).id;
    return cst(d > 0 ? mpq_class("1" + string(320, '0'))
                     : mpq_class("-1" + string(320, '0')));
  }
  static std::unordered_map<double, Id> memo;
  auto it = memo.find(d);
  if (it != memo.end()) return it->second;
  Id r = cst(rational_of(d));
  memo[d] = r;
  return r;
}
Id mk_int(long long n) {
  boot();
  return cst(mpq_class((long)n));
}
Id mk_add(Id a, Id b) {
  a = fix(a), b = fix(b);
  if (a == ZERO) return b;
  if (b == ZERO) return a;
  if (isc(a) && isc(b)) return cst(cval(a) + cval(b));
  if (a > b) std::swap(a, b);
  return push(ADD, a, b);
}
Id mk_mul(Id a, Id b) {
  a = fix(a), b = fix(b);
  if (a == ZERO || b == ZERO) return ZERO;
  if (a == ONE) return b;
  if (b == ONE) return a;
  if (isc(a) && isc(b)) return cst(cval(a) * cval(b));
  if (isc(b)) std::swap(a, b);
  if (isc(a) && N[b].k == MUL && isc(N[b].a))
    return mk_mul(cst(cval(a) * cval(N[b].a)), N[b].b);
  if (!isc(a) && a > b) std::swap(a, b);
  return push(MUL, a, b);
}
Id mk_neg(Id a) { return mk_mul(MONE, a); }
Id mk_sub(Id a, Id b) {
  a = fix(a), b = fix(b);
  if (a == b) return ZERO;
  return mk_add(a, mk_neg(b));
}
Id mk_div(Id a, Id b) {
  a = fix(a), b = fix(b);
  if (b == ZERO) {
    // a division by zero yields an arbitrary value: every obligation it reaches
    // fails, and one whose result is discarded (overwritten) is harmless
    return symbol("div0#" + std::to_string(uninit_count++), -3, 3).id;
  }
  if (isc(b)) return mk_mul(cst(mpq_class(1) / cval(b)), a);
  if (a == ZERO) return ZERO;
  if (a == b) return ONE;
  return push(DIV, a, b);
}
Id mk_pow(Id a, int n) {
  if (n < 0) return mk_div(ONE, mk_pow(a, -n));
  Id r = ONE;
  for (int i = 0; i < n; ++i) r = mk_mul(r, a);
  return r;
}
Id mk_fn(Kind k, Id a) {
  a = fix(a);
  if (k == SQRT && isc(a) && cval(a) >= 0) {
    mpz_class n = cval(a).get_num(), d = cval(a).get_den(), sn, sd;
    sn = ::sqrt(n), sd = ::sqrt(d);
    if (sn * sn == n && sd * sd == d) return cst(mpq_class(sn, sd));
  }
  if ((k == SIN || k == COS) && a == ZERO) return k == SIN ? ZERO : ONE;
  return push(k, a, 0);
}
Id mk_fun(const char* name, Id a) {
  a = fix(a);
  auto it = fun_by_name.find(name);
  if (it == fun_by_name.end()) {
    it = fun_by_name.emplace(name, funs.size()).first;
    funs.push_back(name);
  }
  return push(FUN, it->second, a);
}
double const_value(Id a, const char* what) {
  a = fix(a);
  if (!isc(a)) throw Unsupported{what};
  return cval(a).get_d();
}
Real pow(const Real& a, const Real& b) {
  if (b.id && isc(b.id) && cval(b.id).get_den() == 1)
    return Real::raw(mk_pow(a.id, (int)cval(b.id).get_num().get_si()));
  if (b.id && isc(b.id) && cval(b.id).get_den() == 2)
    return Real::raw(mk_pow(mk_fn(SQRT, a.id), (int)cval(b.id).get_num().get_si()));
  return app("pow", {}, {a, b});
}
Real atan2(const Real& a, const Real& b) { return app("atan2", {}, {a, b}); }

Real symbol(const string& name, double lo, double hi, bool positive,
            bool nonneg) {
  auto it = sym_by_name.find(name);
  if (it != sym_by_name.end()) return Real::raw(it->second);
  Id id = N.size();
  N.push_back({SYM, (Id)syms.size(), 0});
  syms.push_back({name, {lo, hi, positive, nonneg, positive}, -1});
  sym_by_name[name] = id;
  return Real::raw(id);
}
void unit_relation(const vector<Real>& q) {
  vector<Id> g;
  for (auto& r : q) g.push_back(r.id);
  if (syms[N[g[0]].a].unit >= 0) return;
  for (Id i : g) syms[N[i].a].unit = units.size();
  units.push_back(g);
}

bool is_const(const Real& e, double* v) {
  if (!e.id || !isc(e.id)) return false;
  if (v) *v = cval(e.id).get_d();
  return true;
}

string show(const Real& e, int budget) {
  std::function<string(Id)> go = [&](Id i) -> string {
    if (budget <= 0) return "..";
    const Node& n = N[i];
    string r;
    switch (n.k) {
      case UNINIT: r = "?"; break;
      case CONST: r = cval(i).get_str(); if (r.size() > 24) r = std::to_string(cval(i).get_d()); break;
      case SYM: r = syms[n.a].name; break;
      case ADD: r = "(" + go(n.a) + " + " + go(n.b) + ")"; break;
      case MUL: r = go(n.a) + "*" + go(n.b); break;
      case DIV: r = "(" + go(n.a) + ")/(" + go(n.b) + ")"; break;
      case SQRT: r = "sqrt(" + go(n.a) + ")"; break;
      case SIN: r = "sin(" + go(n.a) + ")"; break;
      case COS: r = "cos(" + go(n.a) + ")"; break;
      case FUN: r = funs[n.a] + "(" + go(n.b) + ")"; break;
      case APP: {
        r = apps[n.a].fn + "[";
        for (int k : apps[n.a].idx) r += std::to_string(k) + ",";
        r += "](..)";
        break;
      }
      default: r = "?";
    }
    budget -= (int)r.size() > 12 ? 12 : (int)r.size();
    return r;
  };
  string s = go(e.id);
  if (s.size() > 600) s = s.substr(0, 600) + "...";
  return s;
}
bool print_ids = false;
std::ostream& operator<<(std::ostream& os, const Real& r) {
  if (print_ids) return os << '#' << r.id;
  return os << show(r, 60);
}
std::istream& operator>>(std::istream& is, Real& r) {
  double d;
  if (is >> d) r = Real(d);
  return is;
}

// ============================================================ normal forms
// Laurent polynomials with rational coefficients over atoms, modulo triangular
// relations  atom^2 -> polynomial  (pairwise coprime leading terms, hence a
// Groebner basis: the reduced form decides membership in the relation ideal).
struct BudgetExceeded {};
static long ops_left = 0;
static inline void spend(long n) {
  ops_left -= n;
  if (ops_left < 0) throw BudgetExceeded();
}
typedef vector<std::pair<uint32_t, int32_t>> Mono;
struct MonoH {
  size_t operator()(const Mono& m) const {
    uint64_t h = 1469598103934665603ull;
    for (auto& p : m) {
      h = (h ^ p.first) * 1099511628211ull;
      h = (h ^ (uint32_t)p.second) * 1099511628211ull;
    }
    return h ^ (h >> 31);
  }
};
static vector<Mono> monos;
static std::unordered_map<Mono, uint32_t, MonoH> mono_ids;
static uint32_t mono(const Mono& m) {
  auto it = mono_ids.find(m);
  if (it != mono_ids.end()) return it->second;
  uint32_t id = monos.size();
  monos.push_back(m);
  mono_ids.emplace(m, id);
  return id;
}
static uint32_t M1 = 0;
static bool mboot = (M1 = mono({}), true);
static uint32_t mono_mul(uint32_t x, uint32_t y) {
  if (x == M1) return y;
  if (y == M1) return x;
  static std::unordered_map<uint64_t, uint32_t> memo;
  uint64_t k = x < y ? ((uint64_t)x << 32 | y) : ((uint64_t)y << 32 | x);
  auto it = memo.find(k);
  if (it != memo.end()) return it->second;
  const Mono &a = monos[x], &b = monos[y];
  Mono r;
  r.reserve(a.size() + b.size());
  size_t i = 0, j = 0;
  while (i < a.size() || j < b.size()) {
    if (j == b.size() || (i < a.size() && a[i].first < b[j].first))
      r.push_back(a[i++]);
    else if (i == a.size() || b[j].first < a[i].first)
      r.push_back(b[j++]);
    else {
      int e = a[i].second + b[j].second;
      if (e) r.push_back({a[i].first, e});
      ++i, ++j;
    }
  }
  uint32_t id = mono(r);
  if (memo.size() > 4000000) memo.clear();
  memo.emplace(k, id);
  return id;
}

typedef std::unordered_map<uint32_t, mpq_class> Poly;
static void padd(Poly& p, uint32_t m, const mpq_class& c) {
  auto it = p.find(m);
  if (it == p.end()) {
    if (c != 0) p.emplace(m, c);
  } else {
    it->second += c;
    if (it->second == 0) p.erase(it);
  }
}
static Poly pconst(const mpq_class& c) {
  Poly p;
  if (c != 0) p[M1] = c;
  return p;
}
static void padd(Poly& p, const Poly& q, const mpq_class& k = 1) {
  spend(q.size());
  for (auto& t : q) padd(p, t.first, k * t.second);
}
static Poly pmul(const Poly& a, const Poly& b) {
  Poly r;
  spend((long)a.size() * b.size());
  for (auto& x : a)
    for (auto& y : b) padd(r, mono_mul(x.first, y.first), x.second * y.second);
  return r;
}
static bool pis_const(const Poly& p) {
  return p.empty() || (p.size() == 1 && p.begin()->first == M1);
}

struct Atom {
  string name;
  Kind kind;
  Id node;             // a node whose value is this atom (for SYM/SQRT/APP..)
  bool pos, nonneg;
  bool has_rel = false;
  Poly rel;            // atom^2 -> rel
  string key;
};
static vector<Atom> atoms;
static std::map<string, uint32_t> atom_by_key;
static std::unordered_map<Id, uint32_t> atom_of_sym;

static Poly reduce(const Poly& p) {
  Poly cur = p;
  for (int guard = 0; guard < 200; ++guard) {
    bool any = false;
    for (auto& t : cur) {
      for (auto& f : monos[t.first])
        if (atoms[f.first].has_rel && f.second >= 2) { any = true; break; }
      if (any) break;
    }
    if (!any) return cur;
    Poly nxt;
    for (auto& t : cur) {
      Mono m = monos[t.first];
      int hit = -1;
      for (size_t i = 0; i < m.size(); ++i)
        if (atoms[m[i].first].has_rel && m[i].second >= 2) { hit = i; break; }
      if (hit < 0) { padd(nxt, t.first, t.second); spend(1); continue; }
      uint32_t at = m[hit].first;
      m[hit].second -= 2;
      if (m[hit].second == 0) m.erase(m.begin() + hit);
      uint32_t rest = mono(m);
      spend(atoms[at].rel.size());
      for (auto& q : atoms[at].rel)
        padd(nxt, mono_mul(rest, q.first), t.second * q.second);
    }
    cur.swap(nxt);
  }
  return cur;
}
// multiply away negative exponents (all divisors are nonzero) and reduce
static Poly clear_neg(const Poly& p) {
  std::map<uint32_t, int> mn;
  for (auto& t : p)
    for (auto& f : monos[t.first])
      if (f.second < 0) mn[f.first] = std::min(mn[f.first], f.second);
  if (mn.empty()) return reduce(p);
  Mono m;
  for (auto& x : mn) m.push_back({x.first, -x.second});
  uint32_t k = mono(m);
  Poly r;
  for (auto& t : p) padd(r, mono_mul(t.first, k), t.second);
  return reduce(r);
}
static string pkey(const Poly& p) {
  vector<std::pair<Mono, string>> v;
  for (auto& t : p) v.push_back({monos[t.first], t.second.get_str()});
  std::sort(v.begin(), v.end());
  std::ostringstream o;
  for (auto& t : v) {
    o << t.second;
    for (auto& f : t.first) o << "*" << f.first << "^" << f.second;
    o << "+";
  }
  return o.str();
}

struct NF {
  Poly num, den;   // den empty = 1
};
typedef std::shared_ptr<const NF> NFp;
static std::unordered_map<Id, NFp> nf_memo;
static size_t nf_terms = 0;              // held by nf_memo
static int nf_depth = 0;
static void bound_memory() {
  if (nf_depth || nf_terms < 8000000) return;
  nf_memo.clear();
  nf_terms = 0;
}
static NFp nf(Id root);

// Named intermediate quantities: a term that provably equals one of them is
// replaced by the name (generalisation: an identity that holds for every value
// of the name holds for this one).
struct Cut { Id e, name; int group; };
static vector<Cut> cuts;
static int cut_groups = 0;
static Id rewrite(Id i, int level);   // modulo AC, with the first `level` groups of cuts

static uint32_t new_atom(const string& key, const string& name, Kind k, Id node,
                         bool pos, bool nonneg) {
  auto it = atom_by_key.find(key);
  if (it != atom_by_key.end()) return it->second;
  uint32_t id = atoms.size();
  Atom a;
  a.name = name; a.kind = k; a.node = node; a.pos = pos; a.nonneg = nonneg;
  a.key = key;
  atoms.push_back(a);
  atom_by_key[key] = id;
  return id;
}
static uint32_t sym_atom(Id node) {
  auto it = atom_of_sym.find(node);
  if (it != atom_of_sym.end()) return it->second;
  const Symbol& s = syms[N[node].a];
  uint32_t id = new_atom("S:" + s.name, s.name, SYM, node, s.info.positive,
                         s.info.positive || s.info.nonneg);
  atom_of_sym[node] = id;
  if (s.unit >= 0 && units[s.unit][0] == node) {
    // first component squared -> 1 - sum of the others squared
    Poly r = pconst(1);
    for (size_t i = 1; i < units[s.unit].size(); ++i) {
      uint32_t o = sym_atom(units[s.unit][i]);
      padd(r, mono({{o, 2}}), -1);
    }
    atoms[id].rel = r;
    atoms[id].has_rel = true;
  }
  return id;
}
static Poly patom(uint32_t a, int e = 1) {
  Poly p;
  p[mono({{a, e}})] = 1;
  return p;
}
static NF nconst(const mpq_class& c) { return {pconst(c), {}}; }

static NF nadd(const NF& a, const NF& b) {
  if (a.den.empty() && b.den.empty()) {
    NF r = a;
    padd(r.num, b.num);
    return r;
  }
  if (a.den == b.den) {
    NF r = a;
    padd(r.num, b.num);
    return r;
  }
  NF r;
  const Poly one = pconst(1);
  const Poly& da = a.den.empty() ? one : a.den;
  const Poly& db = b.den.empty() ? one : b.den;
  r.num = pmul(a.num, db);
  padd(r.num, pmul(b.num, da));
  r.den = pmul(da, db);
  r.num = reduce(r.num);
  r.den = reduce(r.den);
  return r;
}
static void norm_den(NF& r) {
  if (r.den.empty()) return;
  if (r.den.size() == 1) {   // monomial: becomes negative exponents
    auto& t = *r.den.begin();
    Mono m = monos[t.first];
    for (auto& f : m) f.second = -f.second;
    uint32_t k = mono(m);
    mpq_class c = mpq_class(1) / t.second;
    Poly q;
    for (auto& u : r.num) padd(q, mono_mul(u.first, k), c * u.second);
    r.num = q;
    r.den.clear();
  }
}
static NF nmul(const NF& a, const NF& b) {
  NF r;
  r.num = reduce(pmul(a.num, b.num));
  if (a.den.empty()) r.den = b.den;
  else if (b.den.empty()) r.den = a.den;
  else r.den = reduce(pmul(a.den, b.den));
  norm_den(r);
  return r;
}
static NF ndiv(const NF& a, const NF& b) {
  NF inv;
  inv.num = b.den.empty() ? pconst(1) : b.den;
  inv.den = reduce(b.num);
  norm_den(inv);
  return nmul(a, inv);
}
static string nkey(const NF& x) {
  return pkey(reduce(x.num)) + "/" + (x.den.empty() ? "1" : pkey(reduce(x.den)));
}

// extract from a polynomial the monomial content made of squares of atoms that
// are known nonnegative, and a rational square content
static bool is_cut(Id i) { return N[i].k == APP && apps[N[i].a].fn == "$cut"; }
static NF nsqrt(const NF& e, Id node) {
  NF x = e;
  x.num = reduce(x.num);
  if (x.num.empty()) return nconst(0);
  Mono content = monos[x.num.begin()->first];
  for (auto& t : x.num) {
    Mono nc;
    for (auto& f : content) {
      int e2 = 0;
      for (auto& g : monos[t.first])
        if (g.first == f.first) e2 = g.second;
      int m = std::min(f.second, e2);
      if (f.second < 0 || e2 < 0) m = std::min(f.second, e2);
      if (m) nc.push_back({f.first, m});
    }
    content = nc;
  }
  // also negative exponents present in only some terms
  {
    std::map<uint32_t, int> mn;
    for (auto& t : x.num)
      for (auto& f : monos[t.first])
        if (f.second < 0) mn[f.first] = std::min(mn[f.first], f.second);
    std::map<uint32_t, int> c;
    for (auto& f : content) c[f.first] = f.second;
    for (auto& f : mn) c[f.first] = f.second;
    content.assign(c.begin(), c.end());
  }
  Mono sq, rt;
  for (auto& f : content)
    if (atoms[f.first].nonneg) {
      int h = f.second >= 0 ? f.second / 2 : -((-f.second + 1) / 2);
      if (h) { sq.push_back({f.first, -2 * h}); rt.push_back({f.first, h}); }
    }
  Poly inner;
  uint32_t k = mono(sq);
  for (auto& t : x.num) padd(inner, mono_mul(t.first, k), t.second);
  inner = reduce(inner);
  Poly outer;
  outer[mono(rt)] = 1;
  // rational square content
  if (inner.size() == 1) {
    mpq_class c = inner.begin()->second;
    if (c > 0) {
      mpz_class n = c.get_num(), d = c.get_den(), sn = ::sqrt(n), sd = ::sqrt(d);
      if (sn * sn == n && sd * sd == d) {
        mpq_class s(sn, sd);
        for (auto& t : outer) t.second *= s;
        inner.begin()->second = 1;
      }
    }
  }
  NF res;
  if (inner.size() == 1 && inner.begin()->first == M1
      && inner.begin()->second == 1 && x.den.empty()) {
    res.num = outer;
    return res;
  }
  // normalise an overall rational factor so that |w| and |c w| share an atom
  mpq_class lead = 0;
  {
    vector<std::pair<Mono, mpq_class>> v;
    for (auto& t : inner) v.push_back({monos[t.first], t.second});
    std::sort(v.begin(), v.end());
    lead = v[0].second;
    if (lead < 0) lead = -lead;
    mpz_class n = lead.get_num(), d = lead.get_den(), sn = ::sqrt(n), sd = ::sqrt(d);
    if (sn * sn == n && sd * sd == d) {
      mpq_class s(sn, sd);
      for (auto& t : outer) t.second *= s;
      for (auto& t : inner) t.second /= lead;
    }
  }
  NF in{inner, x.den};
  string key = "Q:" + nkey(in);
  bool fresh = !atom_by_key.count(key);
  uint32_t r = new_atom(key, "sqrt", SQRT, node, false, true);
  if (fresh && x.den.empty()) {
    // prefer to eliminate a plain variable: x^2 -> (r^2 - rest)/c keeps r free
    int best = -1;
    mpq_class bc;
    std::map<uint32_t, int> occ;
    for (auto& t : inner)
      for (auto& f : monos[t.first]) occ[f.first] += 1;
    bool neg = false;
    for (auto& t : inner)
      for (auto& f : monos[t.first]) neg |= f.second < 0;
    if (!neg)
      for (auto& t : inner) {
        const Mono& m = monos[t.first];
        if (m.size() == 1 && m[0].second == 2 && (atoms[m[0].first].kind == SYM || is_cut(atoms[m[0].first].node))
            && !atoms[m[0].first].has_rel && occ[m[0].first] == 1
            && (atoms[m[0].first].kind != SYM
                || syms[N[atoms[m[0].first].node].a].unit < 0)) {
          // never eliminate an atom used by another relation's right-hand side
          bool used = false;
          for (auto& a : atoms)
            if (a.has_rel)
              for (auto& u : a.rel)
                for (auto& f : monos[u.first]) used |= f.first == m[0].first;
          if (!used) { best = m[0].first; bc = t.second; }
        }
      }
    if (best >= 0) {
      Poly rel;
      rel[mono({{r, 2}})] = mpq_class(1) / bc;
      for (auto& t : inner)
        if (!(monos[t.first].size() == 1
              && monos[t.first][0].first == (uint32_t)best))
          padd(rel, t.first, -t.second / bc);
      atoms[best].rel = rel;
      atoms[best].has_rel = true;
    } else if (!neg) {
      atoms[r].rel = inner;
      atoms[r].has_rel = true;
    }
  }
  res.num = pmul(outer, patom(r));
  return res;
}

static uint32_t angle_atom(const string& base, bool s) {
  uint32_t c = new_atom("C:" + base, "cos", COS, 0, false, false);
  uint32_t q = new_atom("N:" + base, "sin", SIN, 0, false, false);
  if (!atoms[q].has_rel) {
    Poly r = pconst(1);
    padd(r, mono({{c, 2}}), -1);
    atoms[q].rel = r;
    atoms[q].has_rel = true;
  }
  return s ? q : c;
}
static std::map<string, Id> angle_node;   // base key -> node of the angle
static void ntrig(const NF& e, Id arg, NF& s, NF& c) {
  s = nconst(0);
  c = nconst(1);
  NF x = e;
  x.num = reduce(x.num);
  if (!x.den.empty()) {
    string key = nkey(x);
    s = {patom(angle_atom(key, true)), {}};
    c = {patom(angle_atom(key, false)), {}};
    return;
  }
  vector<std::pair<Mono, mpq_class>> v;
  for (auto& t : x.num) v.push_back({monos[t.first], t.second});
  std::sort(v.begin(), v.end());
  for (auto& t : v) {
    mpz_class n = t.second.get_num(), d = t.second.get_den();
    long reps = 1;
    mpq_class base_c = t.second;
    if (n >= -12 && n <= 12) {
      reps = n.get_si();
      base_c = mpq_class(1, d);
    }
    bool neg = reps < 0;
    if (neg) reps = -reps;
    std::ostringstream key;
    key << base_c.get_str();
    for (auto& f : t.first) key << "*" << f.first << "^" << f.second;
    Poly S1 = patom(angle_atom(key.str(), true));
    Poly C1 = patom(angle_atom(key.str(), false));
    if (neg) for (auto& u : S1) u.second = -u.second;
    for (long i = 0; i < reps; ++i) {
      Poly ns = pmul(s.num, C1);
      padd(ns, pmul(c.num, S1));
      Poly nc = pmul(c.num, C1);
      padd(nc, pmul(s.num, S1), -1);
      s.num = reduce(ns);
      c.num = reduce(nc);
    }
  }
}

static NFp nf_of(const NF& x) { return std::make_shared<NF>(x); }

static NFp nf1(Id i) {   // children already memoised
  const Node n = N[i];
  switch (n.k) {
    case CONST: return nf_of(nconst(cval(i)));
    case SYM: return nf_of({patom(sym_atom(i)), {}});
    case MUL: return nf_of(nmul(*nf(n.a), *nf(n.b)));
    case DIV: return nf_of(ndiv(*nf(n.a), *nf(n.b)));
    case SQRT: return nf_of(nsqrt(*nf(n.a), i));
    case SIN: case COS: {
      NF s, c;
      ntrig(*nf(n.a), n.a, s, c);
      return nf_of(n.k == SIN ? s : c);
    }
    case FUN: {
      string key = "F:" + funs[n.a] + "(" + nkey(*nf(n.b)) + ")";
      return nf_of({patom(new_atom(key, funs[n.a], FUN, i, false, false)), {}});
    }
    case APP: {
      const App& a = apps[n.a];
      string key = "A:" + a.fn + "[";
      for (int k : a.idx) key += std::to_string(k) + ",";
      key += "](";
      for (Id x : a.args) key += nkey(*nf(x)) + ";";
      key += ")";
      return nf_of({patom(new_atom(key, a.fn, APP, i, false, false)), {}});
    }
    default: return nf_of(nconst(0));
  }
}
static void children(Id i, vector<Id>& out) {
  const Node& n = N[i];
  switch (n.k) {
    case ADD: case MUL: case DIV: out.push_back(n.a); out.push_back(n.b); break;
    case SQRT: case SIN: case COS: out.push_back(n.a); break;
    case FUN: out.push_back(n.b); break;
    case APP: for (Id x : apps[n.a].args) out.push_back(x); break;
    default: break;
  }
}
// linear flattening: value = sum coef * leaf, leaves are non-ADD nodes
static void flatten(Id root, std::map<Id, mpq_class>& leaves) {
  std::map<Id, mpq_class, std::greater<Id>> work;
  work[root] = 1;
  while (!work.empty()) {
    auto it = work.begin();
    Id i = it->first;
    mpq_class c = it->second;
    work.erase(it);
    if (c == 0) continue;
    const Node& n = N[i];
    if (n.k == ADD) {
      work[n.a] += c;
      work[n.b] += c;
    } else if (n.k == MUL && isc(n.a)) {
      work[n.b] += c * cval(n.a);
    } else {
      leaves[i] += c;
    }
  }
}
static NFp nf(Id root) {
  auto it = nf_memo.find(root);
  if (it != nf_memo.end()) return it->second;
  // iterative post-order over non-ADD structure
  struct Depth { Depth() { ++nf_depth; } ~Depth() { --nf_depth; } } depth;
  vector<std::pair<Id, int>> st;
  st.push_back({root, 0});
  while (!st.empty()) {
    Id i = st.back().first;
    if (nf_memo.count(i)) { st.pop_back(); continue; }
    const Node& n = N[i];
    bool lin = n.k == ADD || (n.k == MUL && isc(n.a));
    if (st.back().second == 0) {
      st.back().second = 1;
      if (lin) {
        std::map<Id, mpq_class> lv;
        flatten(i, lv);
        for (auto& x : lv)
          if (!nf_memo.count(x.first)) st.push_back({x.first, 0});
      } else {
        vector<Id> ch;
        children(i, ch);
        for (Id c : ch)
          if (!nf_memo.count(c)) st.push_back({c, 0});
      }
      continue;
    }
    NFp r;
    if (lin) {
      std::map<Id, mpq_class> lv;
      flatten(i, lv);
      NF acc = nconst(0);
      vector<NF> fr;
      for (auto& x : lv) {
        const NF& y = *nf_memo[x.first];
        if (y.den.empty()) padd(acc.num, y.num, x.second);
        else {
          NF z = y;
          for (auto& t : z.num) t.second *= x.second;
          fr.push_back(z);
        }
      }
      for (auto& z : fr) acc = nadd(acc, z);
      r = nf_of(acc);
    } else {
      r = nf1(i);
    }
    nf_memo[i] = r;
    nf_terms += r->num.size() + r->den.size() + 1;
    st.pop_back();
  }
  return nf_memo[root];
}
// is a - b identically zero modulo the relations?  exact; 2 = the difference
// has only coefficients below 1e-9 of the largest one involved (two roundings
// of the same decimal constants)
static int nf_equal1(Id a, Id b, long budget) {
  ops_left = budget;
  bound_memory();
  try {
    NFp x = nf(a), y = nf(b);
    NF m = *y;
    for (auto& t : m.num) t.second = -t.second;
    NF d = nadd(*x, m);
    Poly z = clear_neg(d.num);
    if (z.empty()) return 1;
    if (!x->den.empty() || !y->den.empty()) return 0;
    mpq_class big = 0, worst = 0;
    for (auto& t : clear_neg(x->num)) big = std::max<mpq_class>(big, ::abs(t.second));
    for (auto& t : z) worst = std::max<mpq_class>(worst, ::abs(t.second));
    return worst < big * mpq_class("1/1000000000") ? 2 : 0;
  } catch (BudgetExceeded&) {
    return -1;
  }
}
static int nf_equal(Id a, Id b, long budget) {
  Id ra = rewrite(a, cut_groups), rb = rewrite(b, cut_groups);
  if (ra == rb) return 1;
  if (getenv("VC_DBG")) { fprintf(stderr, "A %s\nB %s\n\n", show(Real::raw(ra), 600).c_str(), show(Real::raw(rb), 600).c_str()); }
  int r = nf_equal1(ra, rb, budget);
  if (r == 1 || cuts.empty()) return r;
  Id la = ra, lb = rb;
  for (int g = cut_groups - 1; g > 0; --g) {        // fewer names: the code may take another way
    Id x = rewrite(a, g), y = rewrite(b, g);
    if (x == la && y == lb) continue;
    la = x;
    lb = y;
    if (x == y || nf_equal1(x, y, std::min(budget, 300000L)) == 1) return 1;
  }
  return nf_equal1(a, b, budget);
}
static bool nf_constant(Id a, mpq_class& v, long budget) {
  ops_left = budget;
  bound_memory();
  try {
    NFp x = nf(a);
    if (!x->den.empty()) return false;
    Poly p = reduce(x->num);
    if (!pis_const(p)) return false;
    v = p.empty() ? mpq_class(0) : p.begin()->second;
    return true;
  } catch (BudgetExceeded&) {
    return false;
  }
}

static std::map<string, string> app_memo_fast;
Real app(const string& fn, const vector<int>& idx, const vector<Real>& args) {
  string key = fn + "[";
  for (int k : idx) key += std::to_string(k) + ",";
  key += "]";
  App a;
  a.fn = fn;
  a.idx = idx;
  for (auto& r : args) {
    Id x = fix(r.id);
    a.args.push_back(x);
    key += std::to_string(x) + ";";
  }
  auto it = app_ids.find(key);
  if (it != app_ids.end()) return Real::raw(it->second);
  Id id = N.size();
  N.push_back({APP, (Id)apps.size(), 0});
  apps.push_back(a);
  app_ids[key] = id;
  return Real::raw(id);
}

// ============================================================ derivatives
static Id diff_go(Id e, Id x, std::unordered_map<Id, Id>& memo) {
  auto it = memo.find(e);
  if (it != memo.end()) return it->second;
  Id r = ZERO;
  const Node n = N[e];
  switch (n.k) {
    case SYM: r = e == x ? ONE : ZERO; break;
    case ADD: r = mk_add(diff_go(n.a, x, memo), diff_go(n.b, x, memo)); break;
    case MUL:
      r = mk_add(mk_mul(diff_go(n.a, x, memo), n.b),
                 mk_mul(n.a, diff_go(n.b, x, memo)));
      break;
    case DIV: {
      Id da = diff_go(n.a, x, memo), db = diff_go(n.b, x, memo);
      r = mk_sub(mk_div(da, n.b),
                 mk_div(mk_mul(n.a, db), mk_mul(n.b, n.b)));
      break;
    }
    case SQRT:
      r = mk_div(diff_go(n.a, x, memo), mk_mul(mk_int(2), e));
      break;
    case SIN: r = mk_mul(mk_fn(COS, n.a), diff_go(n.a, x, memo)); break;
    case COS:
      r = mk_neg(mk_mul(mk_fn(SIN, n.a), diff_go(n.a, x, memo)));
      break;
    case FUN: case APP: {
      vector<Id> ch;
      children(e, ch);
      for (Id c : ch)
        if (diff_go(c, x, memo) != ZERO)
          throw std::runtime_error("derivative of an opaque function");
      break;
    }
    default: break;
  }
  memo[e] = r;
  return r;
}
Real diff(const Real& e, const Real& x) {
  std::unordered_map<Id, Id> memo;
  return Real::raw(diff_go(fix(e.id), x.id, memo));
}
// Laurent series in x at 0+, exact coefficients
static const int SER = 14;
struct Ser { int v = 0; vector<Id> c; };
static bool zero_coef(Id i) {
  if (isc(i)) return cval(i) == 0;
  mpq_class q;
  return nf_constant(i, q, 200000) && q == 0;
}
static Ser strip(Ser s) {
  size_t k = 0;
  while (k < s.c.size() && zero_coef(s.c[k])) ++k;
  if (k == s.c.size()) { s.c.clear(); return s; }
  s.c.erase(s.c.begin(), s.c.begin() + k);
  s.v += k;
  return s;
}
static Ser sadd(const Ser& a, const Ser& b) {
  if (a.c.empty()) return b;
  if (b.c.empty()) return a;
  Ser r;
  r.v = std::min(a.v, b.v);
  int end = std::min(a.v + (int)a.c.size(), b.v + (int)b.c.size());
  for (int k = r.v; k < end; ++k) {
    Id x = ZERO;
    if (k >= a.v) x = mk_add(x, a.c[k - a.v]);
    if (k >= b.v) x = mk_add(x, b.c[k - b.v]);
    r.c.push_back(x);
  }
  return r;
}
static Ser smul(const Ser& a, const Ser& b) {
  Ser r;
  if (a.c.empty() || b.c.empty()) return r;
  r.v = a.v + b.v;
  int n = std::min(a.c.size(), b.c.size());
  for (int k = 0; k < n; ++k) {
    Id x = ZERO;
    for (int i = 0; i <= k; ++i) x = mk_add(x, mk_mul(a.c[i], b.c[k - i]));
    r.c.push_back(x);
  }
  return r;
}
static Ser sconst(Id c) {
  Ser r;
  if (isc(c) && cval(c) == 0) return r;
  r.c.assign(SER, ZERO);
  r.c[0] = c;
  return r;
}
static Ser series_go(Id e, Id x, std::unordered_map<Id, Ser>& memo) {
  auto it = memo.find(e);
  if (it != memo.end()) return it->second;
  const Node n = N[e];
  Ser r;
  switch (n.k) {
    case ADD: r = sadd(series_go(n.a, x, memo), series_go(n.b, x, memo)); break;
    case MUL: r = smul(series_go(n.a, x, memo), series_go(n.b, x, memo)); break;
    case DIV: {
      Ser a = series_go(n.a, x, memo), b = strip(series_go(n.b, x, memo));
      if (b.c.empty()) throw std::runtime_error("series: division by zero");
      Ser q;
      q.v = -b.v;
      for (size_t k = 0; k < b.c.size(); ++k) {
        Id t = k ? ZERO : ONE;
        for (size_t i = 1; i <= k; ++i) t = mk_sub(t, mk_mul(b.c[i], q.c[k - i]));
        q.c.push_back(mk_div(t, b.c[0]));
      }
      r = smul(a, q);
      break;
    }
    case SQRT: {
      Ser a = strip(series_go(n.a, x, memo));
      if (a.c.empty()) break;
      if (a.v % 2) throw std::runtime_error("series: odd root");
      r.v = a.v / 2;
      for (size_t k = 0; k < a.c.size(); ++k) {
        if (!k) { r.c.push_back(mk_fn(SQRT, a.c[0])); continue; }
        Id t = a.c[k];
        for (size_t i = 1; i < k; ++i) t = mk_sub(t, mk_mul(r.c[i], r.c[k - i]));
        r.c.push_back(mk_div(t, mk_mul(mk_int(2), r.c[0])));
      }
      break;
    }
    case SIN: case COS: {
      Ser a = strip(series_go(n.a, x, memo));
      if (!a.c.empty() && a.v < 1) throw std::runtime_error("series: angle not 0");
      Ser p = sconst(ONE);
      mpq_class f = 1;
      for (int k = 0; k <= SER; ++k) {
        if (k) { p = smul(p, a); f *= k; }
        if (p.c.empty()) break;
        if ((k % 2 == 1) != (n.k == SIN)) continue;
        mpq_class c = mpq_class((k / 2) % 2 ? -1 : 1) / f;
        Ser t = p;
        for (auto& y : t.c) y = mk_mul(cst(c), y);
        r = sadd(r, t);
      }
      break;
    }
    case FUN: case APP: throw std::runtime_error("series: opaque function");
    default:
      if (e == x) { r.v = 1; r.c.assign(SER, ZERO); r.c[0] = ONE; }
      else r = sconst(e);
  }
  return memo[e] = r;
}
Real limit0(const Real& e, const Real& x) {
  static std::unordered_map<Id, std::unordered_map<Id, Ser>> memo;
  Ser s = strip(series_go(fix(e.id), x.id, memo[x.id]));
  if (s.c.empty() || s.v > 0) return Real::raw(ZERO);
  if (s.v < 0) throw std::runtime_error("the limit is infinite");
  return Real::raw(s.c[0]);
}
static Id subst_go(Id e, std::unordered_map<Id, Id>& memo) {
  auto it = memo.find(e);
  if (it != memo.end()) return it->second;
  Id r = e;
  const Node n = N[e];
  switch (n.k) {
    case ADD: r = mk_add(subst_go(n.a, memo), subst_go(n.b, memo)); break;
    case MUL: r = mk_mul(subst_go(n.a, memo), subst_go(n.b, memo)); break;
    case DIV: r = mk_div(subst_go(n.a, memo), subst_go(n.b, memo)); break;
    case SQRT: case SIN: case COS: r = mk_fn(n.k, subst_go(n.a, memo)); break;
    case FUN: r = mk_fun(funs[n.a].c_str(), subst_go(n.b, memo)); break;
    case APP: {
      App a = apps[n.a];
      vector<Real> args;
      for (Id x : a.args) args.push_back(Real::raw(subst_go(x, memo)));
      r = app(a.fn, a.idx, args).id;
      break;
    }
    default: break;
  }
  memo[e] = r;
  return r;
}
Real subst(const Real& e, const vector<std::pair<Real, Real>>& s) {
  std::unordered_map<Id, Id> memo;
  for (auto& p : s) memo[p.first.id] = p.second.id;
  return Real::raw(subst_go(e.id, memo));
}

// ============================================================ evaluation
static std::map<string, AppEval>& evals() {
  static std::map<string, AppEval> m;
  return m;
}
void define_app(const string& fn, AppEval f) { evals()[fn] = f; }

static MP mp_of(const mpq_class& q) {
  return MP(bmp::cpp_int(q.get_num().get_str())) / MP(bmp::cpp_int(q.get_den().get_str()));
}
static vector<MP> gamma_series(const vector<MP>& w, int m) {
  // sum_n (w^)^n/(n+m)!
  MP A[3][3] = {{0, -w[2], w[1]}, {w[2], 0, -w[0]}, {-w[1], w[0], 0}};
  MP T[3][3], S[3][3];
  MP f = 1;
  for (int i = 2; i <= m; ++i) f *= i;
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) {
      T[i][j] = i == j ? MP(1) / f : MP(0);
      S[i][j] = T[i][j];
    }
  for (int n = 1; n < 160; ++n) {
    MP U[3][3];
    for (int i = 0; i < 3; ++i)
      for (int j = 0; j < 3; ++j) {
        U[i][j] = (T[i][0] * A[0][j] + T[i][1] * A[1][j] + T[i][2] * A[2][j]) / (n + m);
      }
    for (int i = 0; i < 3; ++i)
      for (int j = 0; j < 3; ++j) { T[i][j] = U[i][j]; S[i][j] += U[i][j]; }
  }
  vector<MP> r;
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) r.push_back(S[i][j]);
  return r;
}
struct Point {
  std::unordered_map<Id, MP> val;   // memo over nodes
  std::map<string, vector<MP>> fam; // memo of vector-valued applications
  bool bad = false;
};
static MP app_eval(const App& a, const vector<MP>& v, Point& pt) {
  if (a.fn == "Gamma") {           // idx = m,i,j ; args = w
    std::ostringstream k;
    k << "G" << a.idx[0];
    for (auto& x : v) k << "," << x.str(60);
    auto it = pt.fam.find(k.str());
    if (it == pt.fam.end()) it = pt.fam.emplace(k.str(), gamma_series(v, a.idx[0])).first;
    return it->second[a.idx[1] * 3 + a.idx[2]];
  }
  if (a.fn == "inv") {             // idx = n,i,j ; args = entries row-major
    int n = a.idx[0];
    std::ostringstream k;
    k << "I" << n;
    for (Id x : a.args) k << "," << x;
    auto it = pt.fam.find(k.str());
    if (it == pt.fam.end()) {
      vector<vector<MP>> A(n, vector<MP>(2 * n, MP(0)));
      for (int i = 0; i < n; ++i) {
        for (int j = 0; j < n; ++j) A[i][j] = v[i * n + j];
        A[i][n + i] = 1;
      }
      for (int c = 0; c < n; ++c) {
        int p = c;
        for (int r = c; r < n; ++r)
          if (bmp::abs(A[r][c]) > bmp::abs(A[p][c])) p = r;
        if (A[p][c] == 0) { pt.bad = true; return 0; }
        std::swap(A[p], A[c]);
        MP iv = MP(1) / A[c][c];
        for (auto& x : A[c]) x *= iv;
        for (int r = 0; r < n; ++r)
          if (r != c && A[r][c] != 0) {
            MP f = A[r][c];
            for (int j = c; j < 2 * n; ++j) A[r][j] -= f * A[c][j];
          }
      }
      vector<MP> r;
      for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j) r.push_back(A[i][n + j]);
      it = pt.fam.emplace(k.str(), r).first;
    }
    return it->second[a.idx[1] * n + a.idx[2]];
  }
  if (a.fn == "pow") return bmp::pow(v[0], v[1]);
  if (a.fn == "atan2") return bmp::atan2(v[0], v[1]);
  // default: a pseudo-random function of the (rounded) arguments
  std::ostringstream k;
  k << a.fn;
  for (int i : a.idx) k << "," << i;
  for (auto& x : v) k << ";" << x.str(50);
  std::hash<string> h;
  std::mt19937_64 g(h(k.str()));
  MP r = 0;
  for (int i = 0; i < 4; ++i) r = (r + MP(g())) / MP("18446744073709551616");
  return 2 * r - 1;
}
static MP eval(Id root, Point& pt) {
  auto it = pt.val.find(root);
  if (it != pt.val.end()) return it->second;
  vector<Id> st{root};
  while (!st.empty()) {
    Id i = st.back();
    if (pt.val.count(i)) { st.pop_back(); continue; }
    vector<Id> ch;
    children(i, ch);
    bool ready = true;
    for (Id c : ch)
      if (!pt.val.count(c)) { st.push_back(c); ready = false; }
    if (!ready) continue;
    const Node& n = N[i];
    MP v = 0;
    switch (n.k) {
      case CONST: v = mp_of(cval(i)); break;
      case ADD: v = pt.val[n.a] + pt.val[n.b]; break;
      case MUL: v = pt.val[n.a] * pt.val[n.b]; break;
      case DIV:
        if (pt.val[n.b] == 0) { pt.bad = true; v = 0; }
        else v = pt.val[n.a] / pt.val[n.b];
        break;
      case SQRT:
        if (pt.val[n.a] < 0) { pt.bad = true; v = 0; }
        else v = bmp::sqrt(pt.val[n.a]);
        break;
      case SIN: v = bmp::sin(pt.val[n.a]); break;
      case COS: v = bmp::cos(pt.val[n.a]); break;
      case FUN: {
        const string& f = funs[n.a];
        MP x = pt.val[n.b];
        if (f == "exp") v = bmp::exp(x);
        else if (f == "log") { if (x <= 0) { pt.bad = true; } else v = bmp::log(x); }
        else if (f == "asin") v = bmp::asin(x);
        else if (f == "acos") v = bmp::acos(x);
        else if (f == "atan") v = bmp::atan(x);
        else if (f == "sinh") v = bmp::sinh(x);
        else if (f == "cosh") v = bmp::cosh(x);
        else if (f == "tanh") v = bmp::tanh(x);
        else if (f == "cbrt") v = x < 0 ? MP(-bmp::pow(MP(-x), MP(1) / 3)) : x == 0 ? MP(0) : MP(bmp::pow(x, MP(1) / 3));
        else if (f == "floor") v = bmp::floor(x);
        else if (f == "rint") v = bmp::rint(x);
        break;
      }
      case APP: {
        vector<MP> a;
        for (Id c : ch) a.push_back(pt.val[c]);
        v = app_eval(apps[n.a], a, pt);
        break;
      }
      default: break;
    }
    pt.val[i] = v;
    st.pop_back();
  }
  return pt.val[root];
}

// ---- cuts
static void extend_syms_impl(Point& pt, std::mt19937_64& g);
static void extend_syms(Point& pt, std::mt19937_64& g) { extend_syms_impl(pt, g); }
static vector<Point> cut_points;
static vector<vector<MP>> cut_vals;
static void ready_cut_points() {
  static std::mt19937_64 g(77);
  if (cut_points.empty()) cut_points.resize(2);
  static size_t seen = 0;
  if (seen == syms.size()) return;
  seen = syms.size();
  for (auto& p : cut_points) extend_syms(p, g);
}
static std::multimap<double, size_t> cut_index;   // value at the first point -> cut
static std::map<int, std::unordered_map<Id, long>> cut_memos;   // level -> node -> cut or -1
static std::map<int, std::unordered_map<Id, Id>> rewrites;
static long cut_of(Id i, int level) {
  auto it = cut_memos[level].find(i);
  if (it != cut_memos[level].end()) return it->second;
  long r = -1;
  Kind k = N[i].k;
  if (level && k != CONST && k != SYM) {
    ready_cut_points();
    vector<MP> v;
    bool ok = true;
    for (auto& p : cut_points) { p.bad = false; v.push_back(eval(i, p)); ok = ok && !p.bad; }
    if (ok) {
      double d0 = v[0].convert_to<double>(), tol = std::fabs(d0) * 1e-9 + 1e-9;
      std::set<size_t> cand;
      for (auto q = cut_index.lower_bound(d0 - tol); q != cut_index.end() && q->first <= d0 + tol; ++q)
        cand.insert(q->second);
      // same node, then equal modulo AC, then equal normal forms
      for (int pass = 0; pass < 3 && r < 0; ++pass)
        for (size_t c : cand) {
          if (cuts[c].group >= level) break;
          if (pass == 0) {
            if (cuts[c].e == i) { r = c; break; }
            continue;
          }
          bool same = true;
          for (size_t q = 0; q < v.size() && same; ++q)
            same = bmp::abs(v[q] - cut_vals[c][q]) <= (bmp::abs(v[q]) + 1) * MP("1e-90");
          if (!same) continue;
          int g = cuts[c].group;
          long left = ops_left;
          Id x = rewrite(i, g), y = rewrite(cuts[c].e, g);
          if (x == y || (pass == 2 && (nf_equal1(x, y, 200000) == 1 || (g && nf_equal1(i, cuts[c].e, 200000) == 1)))) r = c;
          ops_left = left;
          if (r >= 0) break;
        }
    }
  }
  return cut_memos[level][i] = r;
}
static void product(Id i, int level, bool root, std::map<Id, int>& fac, mpq_class& c) {
  const Node n = N[i];
  if (isc(i)) { c *= cval(i); return; }
  if (n.k == MUL && (root || cut_of(i, level) < 0)) {
    product(n.a, level, false, fac, c);
    product(n.b, level, false, fac, c);
    return;
  }
  Id r = rewrite(i, level);
  if (isc(r)) { c *= cval(r); return; }
  // constants bubble up
  while (N[r].k == MUL && isc(N[r].a)) { c *= cval(N[r].a); r = N[r].b; }
  if (N[r].k == MUL) {      // flat product made by rewrite
    vector<Id> st{r};
    while (!st.empty()) {
      Id t = st.back();
      st.pop_back();
      if (N[t].k == MUL) { st.push_back(N[t].a); st.push_back(N[t].b); }
      else if (isc(t)) c *= cval(t);
      else fac[t]++;
    }
  } else fac[r]++;
}
static Id rewrite(Id i, int level) {
  auto& memo = rewrites[level];
  auto it = memo.find(i);
  if (it != memo.end()) return it->second;
  long c = cut_of(i, level);
  Id r = i;
  const Node n = N[i];
  if (c >= 0) r = cuts[c].name;
  else switch (n.k) {
    case ADD: {
      // maximal sum, leaves rewritten
      std::map<Id, mpq_class, std::greater<Id>> work;
      std::map<Id, mpq_class> out;
      work[n.a] += 1;
      work[n.b] += 1;
      while (!work.empty()) {
        auto w = work.begin();
        Id k = w->first;
        mpq_class q = w->second;
        work.erase(w);
        if (q == 0) continue;
        if (N[k].k == ADD && cut_of(k, level) < 0) { work[N[k].a] += q; work[N[k].b] += q; continue; }
        if (N[k].k == MUL && isc(N[k].a) && cut_of(k, level) < 0) { work[N[k].b] += q * cval(N[k].a); continue; }
        Id z = rewrite(k, level);
        if (isc(z)) { out[ONE] += q * cval(z); continue; }
        if (N[z].k == MUL && isc(N[z].a)) { q *= cval(N[z].a); z = N[z].b; }
        if (N[z].k == ADD) {
          std::map<Id, mpq_class> lv;
          flatten(z, lv);
          for (auto& l : lv) out[l.first] += q * l.second;
        } else out[z] += q;
      }
      r = ZERO;
      for (auto& o : out)
        if (o.second != 0) r = mk_add(r, mk_mul(cst(o.second), o.first));
      break;
    }
    case MUL: {
      std::map<Id, int> fac;
      mpq_class q = 1;
      product(i, level, true, fac, q);
      Id p = ONE;
      for (auto& f : fac)
        for (int k = 0; k < f.second; ++k) p = mk_mul(f.first, p);
      if (isc(p)) r = cst(q * cval(p));
      else r = q == 1 ? p : mk_mul(cst(q), p);
      break;
    }
    case DIV: r = mk_div(rewrite(n.a, level), rewrite(n.b, level)); break;
    case SQRT: case SIN: case COS: r = mk_fn(n.k, rewrite(n.a, level)); break;
    case FUN: r = mk_fun(funs[n.a].c_str(), rewrite(n.b, level)); break;
    case APP: {
      App a = apps[n.a];
      if (a.args.empty()) break;
      vector<Real> args;
      for (Id x : a.args) args.push_back(Real::raw(rewrite(x, level)));
      r = app(a.fn, a.idx, args).id;
      break;
    }
    default: break;
  }
  memo[i] = r;
  return r;
}
static void forget_cuts() { cut_memos.clear(); rewrites.clear(); }
void clear_cuts() { cuts.clear(); cut_vals.clear(); cut_index.clear(); cut_groups = 0; forget_cuts(); }
void cut_group() { ++cut_groups; forget_cuts(); }
void cut(const string& name, const Real& e) {
  Id i = fix(e.id);
  while (N[i].k == MUL && isc(N[i].a)) i = N[i].b;    // a constant factor is easily moved around
  if (isc(i) || N[i].k == SYM) return;
  for (auto& c : cuts) if (c.e == i) return;
  if (cut_groups && cut_of(i, cut_groups) >= 0) return;    // already named
  ready_cut_points();
  vector<MP> v;
  for (auto& p : cut_points) v.push_back(eval(i, p));
  const Id none = (Id)-1;
  Id nm = none;
  auto close = [&](size_t c) {
    bool same = cuts[c].group == cut_groups;
    for (size_t q = 0; q < v.size() && same; ++q)
      same = bmp::abs(v[q] - cut_vals[c][q]) <= (bmp::abs(v[q]) + 1) * MP("1e-90");
    return same;
  };
  double d0 = v[0].convert_to<double>(), tol = std::fabs(d0) * 1e-9 + 1e-9;
  for (auto q = cut_index.lower_bound(d0 - tol); nm == none && q != cut_index.end() && q->first <= d0 + tol; ++q) {
    if (!close(q->second)) continue;        // the same value under another name: of one group they share it
    Id o = cuts[q->second].e, x = rewrite(i, cut_groups), y = rewrite(o, cut_groups);
    long left = ops_left;
    if (x == y || nf_equal1(x, y, 200000) == 1) nm = cuts[q->second].name;
    ops_left = left;
  }
  if (nm == none) nm = app("$cut", {(int)i}, {}).id;
  cuts.push_back({i, nm, cut_groups});
  cut_vals.push_back(v);
  cut_index.emplace(v[0].convert_to<double>(), cuts.size() - 1);
}

// ============================================================ paths
struct Fact {
  Rel r;
  Id a, b;
  bool truth;
};
static vector<Fact> facts;
struct Decision {
  int val, n;
};
static vector<Decision> trail;
static size_t trail_pos = 0;
static std::map<string, int> feas_memo;

static std::mt19937_64 rng(12345);
static void sample_syms(Point& pt, std::mt19937_64& g, int attempt);
static void extend_syms_impl(Point& pt, std::mt19937_64& g) {
  Point q;
  sample_syms(q, g, 0);
  for (auto& u : units) {          // whole unit vectors at a time
    bool have = true;
    for (Id x : u) have = have && pt.val.count(x);
    if (!have) for (Id x : u) pt.val[x] = q.val[x];
  }
  for (auto& s : syms) {
    Id id = sym_by_name[s.name];
    if (!pt.val.count(id)) pt.val[id] = q.val[id];
  }
}
static void sample_syms(Point& pt, std::mt19937_64& g, int attempt) {
  std::uniform_real_distribution<double> U(0, 1);
  std::normal_distribution<double> G;
  std::map<string, double> factor;
  for (size_t i = 0; i < syms.size(); ++i) {
    Id id = sym_by_name[syms[i].name];
    const SymInfo& f = syms[i].info;
    double lo = f.lo, hi = f.hi;
    double x;
    if (lo > 0 && hi / lo > 1e3) {   // log-uniform over wide positive ranges
      x = std::exp(std::log(lo) + U(g) * (std::log(hi) - std::log(lo)));
    } else {
      x = lo + U(g) * (hi - lo);
    }
    if (attempt % 7 == 6) {   // occasionally hit round values and ties
      x = std::round(x * 4) / 4;
      if (f.positive && x <= 0) x = 0.25;
    }
    if (attempt % 7 == 5 && lo <= 0 && hi > 0) {   // spread over the orders of magnitude, vector by vector
      string v = syms[i].name;
      while (!v.empty() && isdigit(v.back())) v.pop_back();
      if (!factor.count(v)) factor[v] = g() % 3 ? 1 : std::pow(10.0, -(double)(g() % 9));
      x *= factor[v];
    }
    pt.val[id] = MP(x);
  }
  for (auto& u : units) {
    MP n = 0;
    vector<MP> v;
    for (size_t i = 0; i < u.size(); ++i) { MP x = G(g); v.push_back(x); n += x * x; }
    n = bmp::sqrt(n);
    for (size_t i = 0; i < u.size(); ++i) pt.val[u[i]] = v[i] / n;
  }
}
static bool holds(const Fact& f, Point& pt) {
  MP d = eval(f.a, pt) - eval(f.b, pt);
  MP mag = bmp::abs(eval(f.a, pt)) + bmp::abs(eval(f.b, pt));
  MP tiny = mag * MP("1e-140") + MP("1e-150");
  bool zero = bmp::abs(d) <= tiny;
  bool t = f.r == EQ ? zero : f.r == LT ? (d < 0 && !zero) : (d < 0 || zero);
  return t == f.truth;
}
static bool sat_point(Point& pt) {
  for (auto& f : facts)
    if (!holds(f, pt) || pt.bad) return false;
  return !pt.bad;
}

// ---- z3 back end -------------------------------------------------------------
struct Z3 {
  z3::context c;
  std::unordered_map<Id, z3::expr*> memo;
  vector<z3::expr> side;
  z3::expr var(const string& n) { return c.real_const(n.c_str()); }
  z3::expr tr(Id root) {
    vector<Id> st{root};
    while (!st.empty()) {
      Id i = st.back();
      if (memo.count(i)) { st.pop_back(); continue; }
      vector<Id> ch;
      const Node& n = N[i];
      if (n.k != APP && n.k != FUN) children(i, ch);
      bool ready = true;
      for (Id x : ch)
        if (!memo.count(x)) { st.push_back(x); ready = false; }
      if (!ready) continue;
      z3::expr e = c.real_val(0);
      switch (n.k) {
        case CONST: e = c.real_val(cval(i).get_str().c_str()); break;
        case SYM: {
          e = var("s" + std::to_string(i));
          const SymInfo& f = syms[n.a].info;
          if (f.positive) side.push_back(e > 0);
          else if (f.nonneg) side.push_back(e >= 0);
          int u = syms[n.a].unit;
          if (u >= 0 && units[u][0] == i) {
            z3::expr s = e * e;
            for (size_t k = 1; k < units[u].size(); ++k) {
              z3::expr q = var("s" + std::to_string(units[u][k]));
              s = s + q * q;
            }
            side.push_back(s == 1);
          }
          break;
        }
        case ADD: e = *memo[n.a] + *memo[n.b]; break;
        case MUL: e = *memo[n.a] * *memo[n.b]; break;
        case DIV: {
          z3::expr q = var("d" + std::to_string(i));
          side.push_back(q * *memo[n.b] == *memo[n.a]);
          side.push_back(*memo[n.b] != 0);
          e = q;
          break;
        }
        case SQRT:
          e = var("q" + std::to_string(i));
          side.push_back(e >= 0);
          side.push_back(e * e == *memo[n.a]);
          break;
        case SIN: case COS: {
          z3::expr s = var("sin" + std::to_string(n.a));
          z3::expr k = var("cos" + std::to_string(n.a));
          side.push_back(s * s + k * k == 1);
          e = n.k == SIN ? s : k;
          break;
        }
        default: e = var("a" + std::to_string(i)); break;
      }
      memo[i] = new z3::expr(e);
      st.pop_back();
    }
    return *memo[root];
  }
  z3::expr fact(const Fact& f) {
    z3::expr a = tr(f.a), b = tr(f.b);
    z3::expr e = f.r == EQ ? a == b : f.r == LT ? a < b : a <= b;
    return f.truth ? e : !e;
  }
  // returns 1 sat, 0 unsat, -1 unknown. The solver runs in a child process, so
  // that its time and memory are bounded whatever it is doing.
  int check(const vector<Fact>& fs, unsigned ms, std::map<Id, string>* model = nullptr) {
    int fd[2];
    if (pipe(fd)) return -1;
    pid_t pid = fork();
    if (pid < 0) { close(fd[0]); close(fd[1]); return -1; }
    if (pid == 0) {
      close(fd[0]);
      rlimit m{size_t(6) << 30, size_t(6) << 30}, t{ms / 1000 + 2, ms / 1000 + 2};
      setrlimit(RLIMIT_AS, &m);
      setrlimit(RLIMIT_CPU, &t);
      string out = "?";
      try {
        out = solve(fs, ms, model != nullptr);
      } catch (...) {}
      for (size_t k = 0; k < out.size();) {
        ssize_t w = write(fd[1], out.data() + k, out.size() - k);
        if (w <= 0) break;
        k += w;
      }
      _exit(0);
    }
    close(fd[1]);
    string out;
    double end = now() + ms / 1000.0 * 1.5 + 0.5;
    for (;;) {
      pollfd q{fd[0], POLLIN, 0};
      int left = int((end - now()) * 1000);
      if (left <= 0 || poll(&q, 1, left) <= 0) { out = "?"; break; }
      char buf[4096];
      ssize_t r = read(fd[0], buf, sizeof buf);
      if (r <= 0) break;
      out.append(buf, r);
    }
    close(fd[0]);
    kill(pid, SIGKILL);
    int st;
    waitpid(pid, &st, 0);
    if (out.empty() || out[0] == '?') return -1;
    if (out[0] == 'u') return 0;
    if (model) {
      std::istringstream in(out.substr(1));
      Id id; string v;
      while (in >> id >> v) (*model)[id] = v;
    }
    return 1;
  }
  string solve(const vector<Fact>& fs, unsigned ms, bool model) {
    z3::solver s(c);
    z3::params p(c);
    p.set("timeout", ms);
    s.set(p);
    side.clear();
    memo.clear();
    for (auto& f : fs) s.add(fact(f));
    for (auto& e : side) s.add(e);
    z3::check_result r = s.check();
    if (r == z3::unsat) return "u";
    if (r == z3::unknown) return "?";
    string out = "s";
    if (model) {
      z3::model m = s.get_model();
      for (auto& kv : memo)
        if (N[kv.first].k == SYM) {
          z3::expr v = m.eval(*kv.second, true);
          string str;
          if (v.is_numeral(str)) out += " " + std::to_string(kv.first) + " " + str;
          else if (v.is_algebraic()) out += " " + std::to_string(kv.first) + " " + v.get_decimal_string(40);
        }
    }
    return out;
  }
};
static Z3& z3x() {
  static Z3* z = new Z3;
  return *z;
}

static string fact_key(const Fact& f) {
  return std::to_string(f.r) + ":" + std::to_string(f.a) + ":"
         + std::to_string(f.b) + ":" + std::to_string(f.truth) + "|";
}
static bool feasible(const Fact& f) {
  string key;
  for (auto& g : facts) key += fact_key(g);
  key += fact_key(f);
  auto it = feas_memo.find(key);
  if (it != feas_memo.end()) return it->second;
  // a sampled point proves feasibility without the solver
  bool ok = false;
  for (int k = 0; k < 12 && !ok; ++k) {
    Point pt;
    sample_syms(pt, rng, k);
    if (holds(f, pt) && sat_point(pt)) ok = true;
  }
  if (!ok) {
    vector<Fact> fs = facts;
    fs.push_back(f);
    ok = z3x().check(fs, 400) != 0;
  }
  feas_memo[key] = ok;
  return ok;
}
int path_choice(int n) {
  if (trail_pos < trail.size()) {
    int v = trail[trail_pos].val;
    trail_pos++;
    return v;
  }
  trail.push_back({0, n});
  trail_pos++;
  return 0;
}
void path_assume(Rel r, Id a, Id b, bool truth);

bool decide(Rel r, Id a, Id b) {
  a = fix(a), b = fix(b);
  if (a == b) return r != LT;
  if (isc(a) && isc(b)) {
    int c = cmp(cval(a), cval(b));
    return r == LT ? c < 0 : r == LE ? c <= 0 : c == 0;
  }
  for (auto& f : facts) {
    if (f.a == a && f.b == b) {
      if (f.r == r) return f.truth;
      if (f.r == LT && f.truth && r == LE) return true;
      if (f.r == LE && !f.truth && r == LT) return false;
      if (f.r == LT && f.truth && r == EQ) return false;
      if (f.r == LE && !f.truth && r == EQ) return false;
    }
    if (f.a == b && f.b == a) {
      if (f.r == LT && f.truth) return false;          // b<a : a<b,a<=b,a==b false
      if (f.r == LE && f.truth && r == LT) return false;
      if (f.r == LE && !f.truth && (r == LT || r == LE)) return true;
      if (f.r == LT && !f.truth && r == LE) return true;
      if (f.r == EQ && r == EQ) return f.truth;
    }
  }
  mpq_class v;
  Id d = mk_sub(a, b);
  if (nf_constant(d, v, 20000)) {
    int c = sgn(v);
    return r == LT ? c < 0 : r == LE ? c <= 0 : c == 0;
  }
  // the same comparison written differently has been decided on this path
  for (auto& g : facts) {
    if (g.r != r) continue;
    if (!isc(g.b) && !isc(b) && g.b != b) continue;
    Id e = mk_sub(g.a, g.b);
    bool agree = true;
    std::mt19937_64 gen(12345);
    for (int k = 0; k < 2 && agree; ++k) {
      Point pt;
      sample_syms(pt, gen, 0);
      MP u = eval(d, pt), v = eval(e, pt);
      agree = !pt.bad && bmp::abs(u - v) <= (bmp::abs(u) + bmp::abs(v)) * MP("1e-60");
    }
    if (agree && nf_equal(d, e, 300000) == 1) return g.truth;
  }
  Fact t{r, a, b, true}, f{r, a, b, false};
  bool ct = feasible(t), cf = feasible(f);
  bool val;
  if (ct && !cf) val = true;
  else if (cf && !ct) val = false;
  else val = path_choice(2) == 0;
  facts.push_back(val ? t : f);
  return val;
}
struct PathEnd {};
void end_path() { throw PathEnd(); }
void path_require(bool cond) {
  if (!cond) throw PathPruned();
}
void assume_fact(Rel r, Id a, Id b) {
  a = fix(a), b = fix(b);
  Fact t{r, a, b, true};
  if (isc(a) && isc(b)) {
    int c = cmp(cval(a), cval(b));
    if (!(r == LT ? c < 0 : r == LE ? c <= 0 : c == 0)) throw PathPruned();
    return;
  }
  if (!feasible(t)) throw PathPruned();
  facts.push_back(t);
}

// ============================================================ obligations
static Report report;
static string cur_contract;
static int cur_path = 0;
static double deadline = 0;
static bool any_failed = false;          // in the current contract
struct TimeUp {};
// effort spent on one goal: an obligation already refuted, or a contract that
// is past its share of time with a refutation in hand, needs no full proof
static long goal_budget(const string& name) {
  if (now() > deadline) throw TimeUp();
  auto it = report.obl.find(cur_contract + "." + name);
  if (it != report.obl.end() && it->second.failed) return report.budget / 100;
  return any_failed ? report.budget / 20 : report.budget;
}
static unsigned goal_ms(long budget) {
  double left = std::max(0.2, deadline - now()) * 1000;
  double ms = report.z3_ms * (double(budget) / report.budget);
  return (unsigned)std::min(left, std::max(ms, 100.0));
}
static std::vector<Point> path_points;   // sample points of the current path
static bool points_ready = false;
static size_t points_facts = 0;
static size_t points_syms = 0;
static int sample_tries = 400;

// a point found by a model or on a grid is often degenerate (a zero step, a zero
// rate): go from it towards general points as far as the path allows
static void away_from(const Point& pt, std::mt19937_64& g) {
  std::unordered_map<Id, MP> base;
  for (auto& s : syms) {
    auto it = pt.val.find(sym_by_name[s.name]);
    if (it != pt.val.end()) base[it->first] = it->second;
  }
  for (int n = 0; n < 3; ++n) {
    Point far;
    sample_syms(far, g, 0);
    for (int j = 1; j < 60; j += j < 8 ? 1 : 4) {
      Point q;
      MP f = bmp::pow(MP(2), MP(-j));
      for (auto& kv : base) q.val[kv.first] = kv.second + (far.val[kv.first] - kv.second) * f;
      for (auto& u : units) {
        MP s = 0;
        for (Id x : u) s += q.val[x] * q.val[x];
        s = bmp::sqrt(s);
        for (Id x : u) q.val[x] /= s;
      }
      if (sat_point(q)) { path_points.push_back(q); break; }
    }
  }
}
static void find_points() {
  if (points_ready && points_facts == facts.size() && points_syms == syms.size()) return;
  points_ready = true;
  points_facts = facts.size();
  points_syms = syms.size();
  path_points.clear();
  std::mt19937_64 g(report.seed * 7919 + 17);
  for (int k = 0; k < sample_tries && path_points.size() < 2; ++k) {
    Point pt;
    sample_syms(pt, g, k);
    if (!sat_point(pt)) continue;
    if (k % 7 >= 5 && k > 20) away_from(pt, g);
    path_points.push_back(pt);
  }
  if (path_points.empty()) {
    std::map<Id, string> m;
    if (z3x().check(facts, 3000, &m) == 1) {
      for (int k = 0; k < 20 && path_points.empty(); ++k) {
        Point pt;
        sample_syms(pt, g, 0);
        for (auto& kv : m) {
          string s = kv.second;
          if (!s.empty() && s.back() == '?') s.pop_back();
          auto sl = s.find('/');
          if (sl == string::npos) pt.val[kv.first] = MP(s);
          else pt.val[kv.first] = MP(s.substr(0, sl)) / MP(s.substr(sl + 1));
        }
        if (!sat_point(pt)) continue;
        away_from(pt, g);
        path_points.push_back(pt);
      }
    }
  }
}
static string aux_failed;
static void record(const string& name, const string& status,
                   const string& backend, double t, const string& detail = "",
                   Point* cex = nullptr) {
  if (status != "proved" && vc::ghost().aux) {
    aux_failed = name;
    throw vc::NoInvariant{aux_failed.c_str()};
  }
  auto& o = report.obl[cur_contract + "." + name];
  o.goals++;
  o.time += t;
  o.backend[backend]++;
  if (status == "proved") o.proved++;
  else if (status == "failed") {
    o.failed++;
    any_failed = true;
    if (o.detail.empty()) {
      o.detail = detail;
      o.path = cur_path;
      if (cex)
        for (auto& s : syms) {
          auto it = cex->val.find(sym_by_name[s.name]);
          if (it != cex->val.end()) o.cex[s.name] = it->second.convert_to<double>();
        }
      for (size_t i = 0; i < report.choices.size(); ++i)
        o.choices.push_back(report.choices[i]);
      std::ostringstream fo;
      for (auto& f : facts)
        fo << (f.truth ? "" : "not ") << show(Real::raw(f.a), 80)
           << (f.r == LT ? " < " : f.r == LE ? " <= " : " == ")
           << show(Real::raw(f.b), 80) << "; ";
      o.facts = fo.str();
    }
  } else {
    o.undecided++;
    if (o.undecided_detail.empty()) o.undecided_detail = detail;
  }
}
static string mps(const MP& x) {
  std::ostringstream o;
  o.precision(12);
  o << x.convert_to<double>();
  return o.str();
}
// does the expression contain a constant that is not a short rational number
// (which may be the rounding of one, as 0.1 * 0.1 is)?
static vector<char> has_long;
static bool long_constants(Id a) {
  if (a < has_long.size()) return has_long[a] == 2;
  for (Id i = has_long.size(); i <= a; ++i) {
    char v = 1;
    const Node& n = N[i];
    auto in = [&](Id c) { if (c < i ? has_long[c] == 2 : true) v = 2; };
    if (n.k == CONST) {
      const mpq_class& q = cval(i);
      if (mpz_sizeinbase(q.get_den().get_mpz_t(), 2) + mpz_sizeinbase(q.get_num().get_mpz_t(), 2) > 44) v = 2;
    } else {
      vector<Id> ch;
      if (n.k == ABS) ch.push_back(n.a); else children(i, ch);
      for (Id c : ch) in(c);
    }
    has_long.push_back(v);
  }
  return has_long[a] == 2;
}
void oblige_eq(const string& name, const Real& x, const Real& y) {
  double t0 = now();
  Id a = fix(x.id), b = fix(y.id);
  if (a == b) return record(name, "proved", "dag", now() - t0);
  long budget = goal_budget(name);
  find_points();
  bool generic = false;
  vector<Point> loc;
  vector<Point>* pts = &path_points;
  if (path_points.empty()) {
    generic = true;
    Point pt;
    for (int k = 0; k < 50; ++k) {
      Point p2;
      sample_syms(p2, rng, 0);
      p2.bad = false;
      eval(a, p2), eval(b, p2);
      if (!p2.bad) { loc.push_back(p2); break; }
    }
    pts = &loc;
  }
  for (auto& pt : *pts) {
    MP u = eval(a, pt), v = eval(b, pt);
    MP d = bmp::abs(u - v), s = bmp::abs(u) + bmp::abs(v) + MP("1e-30");
    bool rounded = long_constants(a) || long_constants(b);
    if (rounded ? d > s * MP("1e-9") && d > MP("1e-24") : d > s * MP("1e-40") && d > MP("1e-55")) {
      if (generic) {
        // no point of this path was found: decide exactly whether it differs
        int q = nf_equal(a, b, std::min(2000000L, budget));
        if (q == 1) return record(name, "proved", "normal-form", now() - t0);
        string fs;
        for (auto& f : facts)
          fs += (f.truth ? "" : "not ") + show(Real::raw(f.a), 80) + (f.r == LT ? " < " : f.r == LE ? " <= " : " == ")
                + show(Real::raw(f.b), 80) + "; ";
        return record(name, "undecided", "unsampled-path", now() - t0,
                      "no point of the path found: " + fs + " for " + show(x) + "  vs  " + show(y));
      }
      return record(name, "failed", "refuted", now() - t0,
                    "code: " + show(x, 160) + " = " + mps(u)
                        + "   contract: " + show(y, 160) + " = " + mps(v),
                    &pt);
    }
  }
  int q = nf_equal(a, b, budget);
  if (q == 2) return record(name, "proved", "normal-form-up-to-rounded-constants", now() - t0);
  if (q == 1) return record(name, "proved", "normal-form", now() - t0);
  // with what the path implies: first equations as substitutions, then z3
  std::unordered_map<Id, Id> memo;
  for (auto& f : facts)
    if (f.truth && f.r == EQ) {
      Id u = subst_go(f.a, memo), v = subst_go(f.b, memo);
      if (!(N[u].k == SYM && isc(v))) std::swap(u, v);
      if (!(N[u].k == SYM && isc(v))) continue;
      std::unordered_map<Id, Id> keep;
      for (auto& kv : memo) if (N[kv.first].k == SYM) keep.insert(kv);
      memo.swap(keep);
      memo[u] = v;
    }
  if (!memo.empty()) {
    Id u = subst_go(a, memo), v = subst_go(b, memo);
    if (u == v || nf_equal(u, v, budget) == 1)
      return record(name, "proved", "normal-form", now() - t0);
  }
  if (!facts.empty()) {
    vector<Fact> fs = facts;
    fs.push_back({EQ, a, b, false});
    if (z3x().check(fs, goal_ms(budget)) == 0) return record(name, "proved", "z3", now() - t0);
  }
  record(name, "undecided", q < 0 ? "budget" : "incomplete", now() - t0,
         show(x) + "  vs  " + show(y));
}
void oblige_rel(const string& name, Rel r, const Real& x, const Real& y) {
  double t0 = now();
  Id a = fix(x.id), b = fix(y.id);
  if (isc(a) && isc(b)) {
    int c = cmp(cval(a), cval(b));
    bool t = r == LT ? c < 0 : r == LE ? c <= 0 : c == 0;
    return record(name, t ? "proved" : "failed", "const", now() - t0,
                  show(x) + " vs " + show(y));
  }
  long budget = goal_budget(name);
  Fact f{r, a, b, true}, nf_{r, a, b, false};
  find_points();
  for (auto& pt : path_points)
    if (!holds(f, pt))
      return record(name, "failed", "refuted", now() - t0,
                    "required " + show(x) + (r == LT ? " < " : r == LE ? " <= " : " == ") + show(y)
                        + " but " + mps(eval(a, pt)) + " vs " + mps(eval(b, pt)),
                    &pt);
  vector<Fact> fs = facts;
  fs.push_back(nf_);
  std::map<Id, string> m;
  int c = z3x().check(fs, goal_ms(budget), &m);
  if (c == 0) return record(name, "proved", "z3", now() - t0);
  if (c == 1) {
    Point pt;
    sample_syms(pt, rng, 0);
    for (auto& kv : m) {
      string s = kv.second;
      if (!s.empty() && s.back() == '?') s.pop_back();
      auto sl = s.find('/');
      pt.val[kv.first] = sl == string::npos ? MP(s) : MP(s.substr(0, sl)) / MP(s.substr(sl + 1));
    }
    if (!holds(f, pt) && sat_point(pt))
      return record(name, "failed", "refuted", now() - t0,
                    "required " + show(x) + (r == LT ? " < " : " <= ") + show(y)
                        + " but " + mps(eval(a, pt)) + " vs " + mps(eval(b, pt)), &pt);
  }
  record(name, "undecided", "z3-unknown", now() - t0, show(x) + " vs " + show(y));
}
void oblige_true(const string& name, bool v, const string& detail) {
  double t0 = now();
  if (!v) {
    find_points();
    if (path_points.empty() && !facts.empty())
      return record(name, "undecided", "unsampled-path", now() - t0, detail);
  }
  record(name, v ? "proved" : "failed", "path", now() - t0, detail,
         path_points.empty() ? nullptr : &path_points[0]);
}
void oblige_psd(const string& name, int n, const vector<Real>& M, const vector<Real>& W) {
  double t0 = now();
  long budget = goal_budget(name);
  bool shape = (int)M.size() == n * n && M.size() == W.size();
  if (shape) {
    find_points();
    auto bad_at = [&](Point& pt) {
      Eigen::MatrixXd m(n, n);
      for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j) m(i, j) = eval(fix(M[i * n + j].id), pt).convert_to<double>();
      if (pt.bad || !m.allFinite()) return string();
      double sc = m.cwiseAbs().maxCoeff() + 1e-12;
      if ((m - m.transpose()).cwiseAbs().maxCoeff() > 1e-9 * sc) return string("the matrix is not symmetric");
      double e = Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd>(m).eigenvalues()(0);
      if (e < -1e-9 * sc) return "the matrix has the eigenvalue " + std::to_string(e);
      return string();
    };
    std::mt19937_64 g(report.seed * 131 + 5);
    for (int k = 0; k < 12; ++k) {
      Point pt;
      if (k < (int)path_points.size()) pt = path_points[k];
      else {
        sample_syms(pt, g, k);
        if (!sat_point(pt)) continue;
      }
      string b = bad_at(pt);
      if (!b.empty()) return record(name, "failed", "refuted", now() - t0, b, &pt);
    }
    bool same = true;
    for (size_t i = 0; i < M.size() && same; ++i) {
      Id a = fix(M[i].id), b = fix(W[i].id);
      same = a == b || nf_equal(a, b, budget) == 1;
    }
    if (same) return record(name, "proved", "congruence-witness", now() - t0);
  }
  record(name, shape ? "undecided" : "failed", shape ? "incomplete" : "path", now() - t0,
         "not recognised as a sum of congruences");
}
bool path_implies(Rel r, const Real& x, const Real& y) {
  Id a = fix(x.id), b = fix(y.id);
  vector<Fact> fs = facts;
  fs.push_back({r, a, b, false});
  return z3x().check(fs, 2000) == 0;
}
bool same_real(const Real& a, const Real& b) {
  Id x = fix(a.id), y = fix(b.id);
  if (x == y) return true;
  return nf_equal(x, y, report.budget) == 1;
}

bool agree_at_points(const Real& x, const Real& y) {
  Id a = fix(x.id), b = fix(y.id);
  if (a == b) return true;
  find_points();
  for (auto& pt : path_points) {
    MP u = eval(a, pt), v = eval(b, pt);
    if (bmp::abs(u - v) > (bmp::abs(u) + bmp::abs(v) + MP("1e-30")) * MP("1e-60")) return false;
  }
  return true;
}
Report& rep() { return report; }

static string esc(const string& s) {
  string r;
  for (char ch : s) {
    if (ch == '"' || ch == '\\') { r += '\\'; r += ch; }
    else if ((unsigned char)ch < 32) r += ' ';
    else r += ch;
  }
  return r;
}
void run_contract(const string& name, void (*fn)()) {
  cur_contract = name;
  double t0 = now();
  trail.clear();
  cur_path = 0;
  int pruned = 0, covered = 0;
  deadline = t0 + report.max_s;
  any_failed = false;
  double written = t0;
  for (;;) {
    facts.clear();
    clear_cuts();
    trail_pos = 0;
    report.choices.clear();
    uninit_count = 0;
    points_ready = false;
    bool ended = true;
    try {
      reset_ghost();
      fn();
      ghost_epilogue();
    } catch (PathPruned&) {
      ended = false;
      ++pruned;
    } catch (TimeUp&) {
      report.truncated = true;
      break;
    } catch (PathEnd&) {                    // an arbitrary iteration of an annotated loop, closed by its invariant
    } catch (vc::NoInvariant& e) {
      if (!report.bounded.empty()) { report.truncated = true; break; }
      report.bounded = e.what;               // start again, with short buffers
      for (auto it = report.obl.begin(); it != report.obl.end();)
        it = it->first.compare(0, name.size() + 1, name + ".") ? std::next(it) : report.obl.erase(it);
      trail.clear();
      cur_path = pruned = covered = 0;
      any_failed = false;
      vc::ghost().order.clear();
      continue;
    } catch (vc::GhostAbort&) {
      ghost_epilogue();
    } catch (AssertFailure& e) {
      oblige_true("no_index_or_shape_error", false, string("assertion fails: ") + e.what);
    } catch (Unsupported& e) {
      record("within_the_verified_dialect", "undecided", "unsupported", 0, e.what);
    } catch (std::exception& e) {
      oblige_true("no_exception", false, string("exception: ") + e.what());
    }
    if (ended) {
      ++covered;
      ++cur_path;
    }
    while (!trail.empty() && trail.back().val + 1 >= trail.back().n) trail.pop_back();
    if (trail.empty()) break;
    trail.back().val++;
    if (cur_path >= report.max_paths) { report.truncated = true; break; }
    if (now() - t0 > (any_failed ? std::min(report.max_s, 60.0) : report.max_s)) { report.truncated = true; break; }
    if (!report.out.empty() && now() - written > 10) {   // what is known if this run is ended
      written = now();
      report.contracts[name] = {covered, pruned, now() - t0};
      report.truncated = true;
      write_report(report.out);
      report.truncated = false;
    }
  }
  auto& c = report.contracts[name];
  c.paths = covered;
  c.pruned = pruned;
  c.time = now() - t0;
}
void write_report(const string& dest) {
  string file = dest + ".new";
  std::ofstream o(file);
  o.precision(17);
  o << "{\"contracts\":{";
  bool first = true;
  for (auto& c : report.contracts) {
    o << (first ? "" : ",") << "\"" << esc(c.first) << "\":{\"paths\":" << c.second.paths
      << ",\"pruned\":" << c.second.pruned << ",\"time\":" << c.second.time << "}";
    first = false;
  }
  o << "},\"truncated\":" << (report.truncated ? "true" : "false")
    << ",\"bounded\":\"" << esc(report.bounded) << "\""
    << ",\"nodes\":" << N.size() << ",\"obligations\":{";
  first = true;
  for (auto& kv : report.obl) {
    auto& b = kv.second;
    o << (first ? "" : ",") << "\n\"" << esc(kv.first) << "\":{\"goals\":" << b.goals
      << ",\"proved\":" << b.proved << ",\"failed\":" << b.failed
      << ",\"undecided\":" << b.undecided << ",\"time\":" << b.time
      << ",\"backend\":{";
    bool f2 = true;
    for (auto& x : b.backend) { o << (f2 ? "" : ",") << "\"" << x.first << "\":" << x.second; f2 = false; }
    o << "},\"detail\":\"" << esc(b.detail) << "\",\"facts\":\"" << esc(b.facts)
      << "\",\"undecided_detail\":\"" << esc(b.undecided_detail) << "\",\"cex\":{";
    f2 = true;
    for (auto& x : b.cex) {
      o << (f2 ? "" : ",") << "\"" << esc(x.first) << "\":";
      if (std::isfinite(x.second)) o << x.second; else o << 0;
      f2 = false;
    }
    o << "},\"choices\":[";
    f2 = true;
    for (auto& x : b.choices) { o << (f2 ? "" : ",") << "[\"" << esc(x.first) << "\"," << x.second << "]"; f2 = false; }
    o << "]}";
    first = false;
  }
  o << "}}\n";
  o.close();
  std::rename(file.c_str(), dest.c_str());
}

}  // namespace sym
