// Runs contracts: symbolically (VC_SYM) or on machine doubles (replay).
#include "pre.h"
#undef double
#undef private
#undef protected
#undef mutex
#undef queue
#include <unistd.h>
#ifdef VC_SYM
#include "engine.h"
#endif
namespace vc {
struct Reg { std::string name; void (*fn)(); std::string functions; };
static std::vector<Reg>& regs() { static auto* r = new std::vector<Reg>; return *r; }
Contract::Contract(const char* n, void (*fn)(), const char* f) { regs().push_back({n, fn, f}); }
std::string tmpdir() {
  const char* t = getenv("VC_TMP");
  return t ? t : "/tmp";
}
static int yaml_count = 0;
static std::string write_file(const std::string& text) {
  std::string f = tmpdir() + "/cfg" + std::to_string(getpid()) + "_" + std::to_string(yaml_count++ % 8) + ".yaml";
  std::ofstream o(f);
  o << text;
  return f;
}
std::vector<std::vector<D>> Readback::rows(const std::string& file) {
  std::vector<std::vector<D>> r;
  std::ifstream in(file);
  for (std::string line; std::getline(in, line);) {
    r.emplace_back();
    std::istringstream ls(line);
    for (std::string tok; ls >> tok;) {
#ifdef VC_SYM
      if (tok[0] == '#') { r.back().push_back(D::raw(std::stoul(tok.substr(1)))); continue; }
#endif
      char* e;
      double v = strtod(tok.c_str(), &e);
      if (*e) ok("file_holds_numbers", false, tok);
      r.back().push_back(v);
    }
  }
  return r;
}
#ifdef VC_SYM
static std::vector<std::pair<std::string, int>>& choices() { return sym::rep().choices; }
bool symbolic() { return true; }
D var(const std::string& n, double lo, double hi) { return sym::symbol(n, lo, hi); }
D pos(const std::string& n, double lo, double hi) { return sym::symbol(n, lo, hi, true); }
D yaml_symbol(const std::string& s) {
  return sym::symbol(s.substr(1), -2, 2);
}
static std::map<std::string, int> fixed_choice;   // --fix: this process explores one value of it
int choose(const std::string& name, int n) {
  auto f = fixed_choice.find(name);
  if (f != fixed_choice.end() && f->second >= n) sym::path_require(false);
  int v = f != fixed_choice.end() ? f->second : n <= 1 ? 0 : sym::path_choice(n);
  choices().push_back({name, v});
  return v;
}
bool ghost_try_fails() { return choose("try_lock_fails", 2) == 1; }
bool ghost_more() { return choose("more", 2) == 1; }
bool ghost_size_unknown() { return ghost_bound() < 0; }
int ghost_bound() { return sym::rep().bounded.empty() ? -1 : 3; }
bool long_buffers() { return false; }
void ghost_end_path() { sym::end_path(); }
bool frame_checked(const char* label) {
  const char* e = getenv("VC_FRAMES");
  return !e || strstr(e, ("|" + std::string(label) + "|").c_str());
}
void unit(const std::vector<D>& q) { sym::unit_relation(q); }
std::vector<D> quat(const std::string& n) {
  std::vector<D> q;
  const char* s[] = {"w", "x", "y", "z"};
  for (int i = 0; i < 4; ++i) q.push_back(sym::symbol(n + "." + s[i], -0.55, 0.55));
  unit(q);
  return q;
}
void assume(bool c) { sym::path_require(c); }
void eq_scalar(const std::string& name, const D& a, const D& b, double) { sym::oblige_eq(name, a, b); }
void lt(const std::string& name, const D& a, const D& b) { sym::oblige_rel(name, sym::LT, a, b); }
void le(const std::string& name, const D& a, const D& b) { sym::oblige_rel(name, sym::LE, a, b); }
void ok(const std::string& name, bool v, const std::string& d) { sym::oblige_true(name, v, d); }
void psd_list(const std::string& name, int n, const std::vector<D>& m, const std::vector<D>& w) {
  sym::oblige_psd(name, n, m, w);
}
bool same(const D& a, const D& b) { return sym::same_real(a, b); }
std::string yaml(const std::string& t) {
  std::string r = t;
  for (char& c : r) if (c == '@') c = '$';
  return write_file(r);
}
double num(const D&) { return 0; }
D diffby(const D& e, const D& x) { return sym::diff(e, x); }
void eq_near_scalar(const std::string& name, const D& a, const D& exact,
                    const D& at0, const D& theta, double) {
  if (sym::agree_at_points(a, exact) && sym::same_real(a, exact))
    return sym::oblige_eq(name, a, exact);
  if (sym::agree_at_points(a, exact) && !sym::path_implies(sym::LE, theta, D(1e-6)))
    return sym::oblige_eq(name, a, exact);
  sym::oblige_rel(name, sym::LE, theta, D(1e-6));
  sym::oblige_rel(name, sym::LE, a - at0, D(1e-5));
  sym::oblige_rel(name, sym::LE, at0 - a, D(1e-5));
}
#else
static std::mt19937_64 rng;
static std::map<std::string, double> val, given;
static std::vector<int> given_choice;
static size_t choice_pos;
static std::vector<std::pair<std::string, int>> chosen;
struct Fail { std::string detail; std::string inputs; long count = 0; };
static std::map<std::string, Fail> fails;
static std::map<std::string, long> goals;
static std::string cur;
bool symbolic() { return false; }
// a sampled value may be spread over the orders of magnitude (with the rest of
// its vector), or put on a coarse grid so that equal values occur
static int style;
static std::map<std::string, double> factor;
static double shape(const std::string& n, double lo, double hi, double v) {
  if (style == 2) {
    double r = std::round(2 * v) / 2;
    return r < lo || r > hi || (lo >= 0 && r <= lo) ? v : r;
  }
  if (style == 1 && lo <= 0 && hi > 0) {
    size_t e = n.size();
    while (e && isdigit(n[e - 1])) --e;
    std::string g = n.substr(0, e);
    if (!factor.count(g)) factor[g] = rng() % 3 ? 1 : std::pow(10.0, -(double)(rng() % 9));
    return v * factor[g];
  }
  return v;
}
static double draw(const std::string& n, double lo, double hi) {
  auto it = val.find(n);
  if (it != val.end()) return it->second;
  auto g = given.find(n);
  double v;
  if (g != given.end()) v = g->second;
  else v = shape(n, lo, hi, std::uniform_real_distribution<double>(lo, hi)(rng));
  val[n] = v;
  return v;
}
D var(const std::string& n, double lo, double hi) { return draw(n, lo, hi); }
D pos(const std::string& n, double lo, double hi) { return draw(n, lo, hi); }
double set_var(const std::string& n, double v) { return val[n] = v; }
int choose(const std::string& name, int n) {
  int v;
  if (choice_pos < given_choice.size()) v = given_choice[choice_pos] % std::max(n, 1);
  else v = n <= 1 ? 0 : (int)(rng() % n);
  ++choice_pos;
  chosen.push_back({name, v});
  return v;
}
bool ghost_try_fails() { return choose("try_lock_fails", 2) == 1; }
// sampled: short buffers, and now and then a long one
static bool long_run;
bool long_buffers() { return long_run; }
bool ghost_more() {
  int v = choice_pos < given_choice.size() ? given_choice[choice_pos] % 2
                                           : rng() % (long_run ? 3000 : rng() % 2 ? 3 : 30) != 0;
  ++choice_pos;
  chosen.push_back({"more", v});
  return v;
}
bool ghost_size_unknown() { return false; }
int ghost_bound() { return -1; }
struct PathEnd {};
void ghost_end_path() { throw PathEnd(); }
bool frame_checked(const char*) { return true; }
void unit(const std::vector<D>&) {}
std::vector<D> quat(const std::string& n) {
  const char* s[] = {"w", "x", "y", "z"};
  std::vector<D> q;
  bool g = true;
  for (int i = 0; i < 4; ++i) g = g && given.count(n + "." + s[i]);
  double t = 0;
  std::normal_distribution<double> nd;
  for (int i = 0; i < 4; ++i) {
    double x = val.count(n + "." + s[i]) ? val[n + "." + s[i]] : g ? given[n + "." + s[i]] : nd(rng);
    q.push_back(x);
    t += x * x;
  }
  for (int i = 0; i < 4; ++i) val[n + "." + s[i]] = q[i] /= std::sqrt(t);
  return q;
}
void assume(bool c) { if (!c) throw Pruned(); }
static std::string inputs() {
  std::ostringstream o;
  o.precision(17);
  for (auto& v : val) o << v.first << "=" << v.second << " ";
  o << "|";
  for (auto& c : chosen) o << " " << c.first << "=" << c.second;
  return o.str();
}
static void rec(const std::string& name, bool v, const std::string& d) {
  goals[cur + "." + name]++;
  if (v) return;
  auto& f = fails[cur + "." + name];
  if (!f.count++) { f.detail = d; f.inputs = inputs(); }
}
// replaying the input that refuted an obligation: differences far below the
// usual tolerance count, rounding errors do not
static bool replaying = false;
void eq_scalar(const std::string& name, const D& a, const D& b, double s) {
  double t = (replaying ? 1e-12 : 1e-6) * (1 + std::max(s, std::fabs(b)));
  bool good = std::fabs(a - b) <= t || (std::isinf(a) && a == b);
  std::ostringstream o;
  o.precision(12);
  o << "code computes " << a << ", contract requires " << b;
  rec(name, good, o.str());
}
void eq_near_scalar(const std::string& name, const D& a, const D& exact,
                    const D& at0, const D& theta, double s) {
  double t = std::fabs(theta) <= (replaying ? 1e-6 : 1e-4) ? (replaying ? 1e-5 : 1e-4) * (1 + s) : (replaying ? 1e-12 : 1e-6) * (1 + s);
  std::ostringstream o;
  o.precision(12);
  o << "code computes " << a << ", contract requires " << exact;
  rec(name, std::fabs(a - exact) <= t, o.str());
}
static void rl(const std::string& name, const D& a, const D& b, bool v, const char* r) {
  std::ostringstream o;
  o.precision(12);
  o << "required " << a << r << b;
  rec(name, v || std::fabs(a - b) <= (replaying ? 1e-13 : 1e-9) * (1 + std::fabs(b)), o.str());
}
void lt(const std::string& name, const D& a, const D& b) { rl(name, a, b, a < b, " < "); }
void le(const std::string& name, const D& a, const D& b) { rl(name, a, b, a <= b, " <= "); }
void ok(const std::string& name, bool v, const std::string& d) { rec(name, v, d); }
void psd_list(const std::string& name, int n, const std::vector<D>& m, const std::vector<D>&) {
  MX a(n, n);
  for (int i = 0; i < n * n; ++i) a(i / n, i % n) = m[i];
  double sc = a.cwiseAbs().maxCoeff() + 1e-12, e = 0;
  bool fin = a.allFinite(), symm = (a - a.transpose()).cwiseAbs().maxCoeff() <= (replaying ? 1e-12 : 1e-7) * sc;
  if (fin) e = Eigen::SelfAdjointEigenSolver<MX>(MX((a + a.transpose()) / 2)).eigenvalues()(0);
  rec(name, fin && symm && e >= (replaying ? -1e-12 : -1e-7) * sc,
      !fin ? "not finite" : !symm ? "not symmetric" : "eigenvalue " + std::to_string(e));
}
bool same(const D& a, const D& b) { return a == b || std::fabs(a - b) < 1e-9; }
std::string yaml(const std::string& t) {
  std::string r;
  for (size_t i = 0; i < t.size();) {
    if (t[i] == '@') {
      size_t j = i + 1;
      while (j < t.size() && (isalnum(t[j]) || t[j] == '_' || t[j] == '.')) ++j;
      std::ostringstream o;
      o.precision(17);
      o << draw(t.substr(i + 1, j - i - 1), -2, 2);
      r += o.str();
      i = j;
    } else r += t[i++];
  }
  return write_file(r);
}
double num(const D& d) { return d; }
D diffby(const D&, const D&) { return 0; }
#endif
static void finish_ghost() {
  auto& g = ghost();
  for (auto& h : g.held)
    if (h.second > 0) g.error(g.nm(h.first) + " still held on return");
  if (g.locks || g.accesses || !g.errors.empty()) {
    std::string d;
    for (auto& e : g.errors) d += e + "; ";
    ok("lock_discipline", g.errors.empty(), d);
  }
}
}  // namespace vc

namespace sym {
void reset_ghost() { vc::ghost().reset(); }
void ghost_epilogue() { vc::finish_ghost(); }
}  // namespace sym

int main(int argc, char** argv) {
  std::string contract, out, cex;
  long trials = 200;
  uint64_t seed = 1;
  double max_s = 600;
  long budget = 3000000;
  int max_paths = 20000;
  unsigned z3ms = 5000;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto nx = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--list") {
      for (auto& r : vc::regs()) printf("%s\t%s\n", r.name.c_str(), r.functions.c_str());
      return 0;
    } else if (a == "--contract") contract = nx();
    else if (a == "--out") out = nx();
    else if (a == "--cex") cex = nx();
    else if (a == "--trials") trials = atol(nx().c_str());
    else if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10);
    else if (a == "--max-s") max_s = atof(nx().c_str());
    else if (a == "--budget") budget = atol(nx().c_str());
    else if (a == "--max-paths") max_paths = atoi(nx().c_str());
    else if (a == "--z3-ms") z3ms = atoi(nx().c_str());
#ifdef VC_SYM
    else if (a == "--fix") { std::string x = nx(); vc::fixed_choice[x.substr(0, x.find('='))] = atoi(x.substr(x.find('=') + 1).c_str()); }
#endif
  }
  // the code under contract prints; keep that away from our output
  std::cout.setstate(std::ios::failbit);
  std::cerr.setstate(std::ios::failbit);
#ifdef VC_SYM
  sym::rep().seed = seed;
  sym::rep().budget = budget;
  sym::rep().z3_ms = z3ms;
  sym::rep().max_s = max_s;
  sym::rep().max_paths = max_paths;
  sym::rep().out = out;
  for (auto& r : vc::regs())
    if (contract.empty() || r.name == contract) {
      sym::run_contract(r.name, r.fn);
      if (!out.empty()) sym::write_report(out);
    }
#else
  if (!cex.empty()) {
    std::ifstream f(cex);
    std::string k, n;
    while (f >> k >> n) {
      if (k == "s") { double v; f >> v; vc::given[n] = v; }
      else { int v; f >> v; vc::given_choice.push_back(v); }
    }
  }
  auto clock = [] { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); };
  long run = 0, pruned = 0;
  for (auto& r : vc::regs()) {
    if (!contract.empty() && r.name != contract) continue;
    vc::cur = r.name;
    double t0 = clock();
    for (long k = 0; k < trials && clock() - t0 < max_s; ++k) {
      vc::rng.seed(seed * 1000003 + k);
      vc::val.clear();
      vc::chosen.clear();
      vc::choice_pos = 0;
      vc::style = k % 4;
      vc::long_run = k % 64 == 50;
      vc::factor.clear();
      vc::replaying = k == 0 && !cex.empty();
      if (k == 1) { vc::given.clear(); vc::given_choice.clear(); }
      vc::ghost().reset();
      try {
        r.fn();
        vc::finish_ghost();
        ++run;
      } catch (vc::Pruned&) { ++pruned; }
      catch (vc::PathEnd&) { ++run; }
      catch (sym::AssertFailure& e) { vc::ok("no_index_or_shape_error", false, std::string("assertion fails: ") + e.what); ++run; }
      catch (vc::GhostAbort& e) { vc::finish_ghost(); ++run; }
      catch (std::exception& e) { vc::ok("no_exception", false, std::string("exception: ") + e.what()); ++run; }
    }
  }
  auto esc = [](const std::string& s) {
    std::string r;
    for (char c : s) {
      if (c == '"' || c == '\\') { r += '\\'; r += c; }
      else if ((unsigned char)c < 32) r += ' ';
      else r += c;
    }
    return r;
  };
  std::ofstream o(out.empty() ? "/dev/stdout" : out);
  o << "{\"trials\":" << run << ",\"pruned\":" << pruned << ",\"goals\":{";
  bool first = true;
  for (auto& g : vc::goals) { o << (first ? "" : ",") << "\"" << esc(g.first) << "\":" << g.second; first = false; }
  o << "},\"failures\":{";
  first = true;
  for (auto& f : vc::fails) {
    o << (first ? "" : ",") << "\n\"" << esc(f.first) << "\":{\"count\":" << f.second.count
      << ",\"detail\":\"" << esc(f.second.detail) << "\",\"inputs\":\"" << esc(f.second.inputs) << "\"}";
    first = false;
  }
  o << "}}\n";
#endif
  return 0;
}
