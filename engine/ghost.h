// Ghost state for shared buffers.  std::mutex / std::queue in the repository's
// sources are these classes: same interface and behaviour, plus a record of
// which lock guards which buffer, which locks are held, and what was violated.
#pragma once
#include <any>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <thread>
#include <type_traits>
#include <vector>
namespace vc {
struct GhostAbort { const char* what; };
struct NoInvariant { const char* what; };        // a loop over a buffer of any length that has no invariant
bool ghost_more();                               // one more element? (both are possible)
bool ghost_size_unknown();                       // symbolic mode: abandon the contract
bool long_buffers();                            // sampled: this run has buffers of thousands
int ghost_bound();                               // most elements made for a buffer (-1: no bound)
struct Ghost {
  std::map<std::string, std::any> loops;         // loop label -> its invariant
  std::map<std::string, int> visits;
  std::map<const void*, const void*> guard;      // buffer -> lock
  std::map<const void*, std::string> name;
  std::map<const void*, int> held;
  std::vector<std::string> errors;
  std::function<void(const void*)> on_lock;      // producer interference
  std::vector<std::pair<const void*, int>> log;  // accesses (buffer, op)
  long accesses = 0, locks = 0;
  bool quiet = false;                            // contract itself is acting
  bool aux = false;                              // inside a loop invariant
  std::set<std::pair<std::string, std::string>> order;   // lock held -> lock taken, over all paths of the contract
  bool leads(const std::string& a, const std::string& b, int depth = 0) {
    if (a == b) return true;
    if (depth > 16) return false;
    for (auto& e : order) if (e.first == a && leads(e.second, b, depth + 1)) return true;
    return false;
  }
  void ordered(const void* taken) {
    auto t = name.find(taken);
    if (t == name.end()) return;
    for (auto& h : held) {
      auto n = name.find(h.first);
      if (h.second <= 0 || n == name.end() || h.first == taken) continue;
      if (leads(t->second, n->second)) error("conflicting lock order: " + t->second + " is taken while holding " + n->second + " and the other way round");
      order.insert({n->second, t->second});
    }
  }
  std::string nm(const void* p) {
    auto it = name.find(p);
    return it == name.end() ? std::string("object") : it->second;
  }
  void error(const std::string& e) {
    for (auto& x : errors) if (x == e) return;
    errors.push_back(e);
  }
  void touch(const void* q, const char* op) {
    if (quiet) return;
    auto it = guard.find(q);
    if (it == guard.end()) return;
    ++accesses;
    auto h = held.find(it->second);
    if (h == held.end() || h->second <= 0)
      error("unlocked access: " + nm(q) + "." + op + "() without " + nm(it->second));
  }
  void reset() {
    guard.clear(); name.clear(); held.clear(); errors.clear(); log.clear();
    on_lock = nullptr; accesses = locks = 0; quiet = aux = false;
    loops.clear(); visits.clear();
  }
};
inline Ghost& ghost() { static Ghost* g = new Ghost; return *g; }
bool ghost_try_fails();
// The size of a queue, which may be of unknown length: compared, not computed.
struct GhostSize {
  std::function<bool(size_t)> at_least;          // has the queue at least n elements?
  std::function<size_t()> exact;
  operator size_t() const { return exact(); }
  explicit operator bool() const { return at_least(1); }
};
#define VC_SZ(op, body)                                                                             \
  template <class I, class = std::enable_if_t<std::is_arithmetic_v<I>>>                             \
  inline bool operator op(const GhostSize& s, I n0) { long n = (long)n0; auto ge = [&](long k) { return k <= 0 || s.at_least((size_t)k); }; return body; }
VC_SZ(>, ge(n + 1)) VC_SZ(>=, ge(n)) VC_SZ(<, !ge(n)) VC_SZ(<=, !ge(n + 1))
VC_SZ(==, ge(n) && n >= 0 && !ge(n + 1)) VC_SZ(!=, !(ge(n) && n >= 0 && !ge(n + 1)))
#undef VC_SZ
template <class I, class = std::enable_if_t<std::is_arithmetic_v<I>>> inline bool operator>(I n, const GhostSize& s) { return s < n; }
template <class I, class = std::enable_if_t<std::is_arithmetic_v<I>>> inline bool operator<(I n, const GhostSize& s) { return s > n; }
template <class I, class = std::enable_if_t<std::is_arithmetic_v<I>>> inline bool operator>=(I n, const GhostSize& s) { return s <= n; }
template <class I, class = std::enable_if_t<std::is_arithmetic_v<I>>> inline bool operator<=(I n, const GhostSize& s) { return s >= n; }
template <class I, class = std::enable_if_t<std::is_arithmetic_v<I>>> inline bool operator==(I n, const GhostSize& s) { return s == n; }
template <class I, class = std::enable_if_t<std::is_arithmetic_v<I>>> inline bool operator!=(I n, const GhostSize& s) { return s != n; }
inline bool operator>(const GhostSize& a, const GhostSize& b) { return a.exact() > b.exact(); }
inline bool operator<(const GhostSize& a, const GhostSize& b) { return a.exact() < b.exact(); }
inline bool operator==(const GhostSize& a, const GhostSize& b) { return a.exact() == b.exact(); }
inline bool operator!=(const GhostSize& a, const GhostSize& b) { return a.exact() != b.exact(); }
[[noreturn]] void ghost_end_path();
bool frame_checked(const char* label);           // the loop changes nothing beyond its annotation (tools/frames.py)
// An annotated loop (DRIFT_LOOP_INVARIANT): the contract's invariant is asserted
// on the first visit, the variables and buffers it names then hold arbitrary
// values that satisfy it, and the second visit asserts it again and ends. If it
// does not hold (or cannot be used) the contract is explored with short buffers
// instead, and reported as bounded: an invariant is a means, not a property.
template <class... T>
inline void loop_cut(const char* label, T&... v) {
  auto& g = ghost();
  auto it = g.loops.find(label);
  if (it == g.loops.end()) return;
  auto* f = std::any_cast<std::function<void(int, T&...)>>(&it->second);
  if (!f || ghost_bound() >= 0) return;
  if (!frame_checked(label)) throw NoInvariant{label};
  int k = g.visits[label]++;
  bool q = g.quiet;
  g.quiet = g.aux = true;
  (*f)(k, v...);
  g.quiet = q;
  g.aux = false;
  if (k) ghost_end_path();
}
}  // namespace vc
namespace std {
class vc_mutex {
  bool trying_ = false;
 public:
  vc_mutex() {}
  vc_mutex(const vc_mutex&) = delete;
  vc_mutex& operator=(const vc_mutex&) = delete;
  ~vc_mutex() {
    auto& g = ::vc::ghost();
    if (g.held[this] > 0) g.error(g.nm(this) + " is still held when its owner goes away");
    g.held.erase(this);
  }
  void lock() {
    auto& g = ::vc::ghost();
    if (g.held[this] > 0) {
      g.error("deadlock: " + g.nm(this) + " locked twice");
      throw ::vc::GhostAbort{"deadlock"};
    }
    if (!g.quiet && !trying_) g.ordered(this);   // try_lock does not wait
    g.held[this] = 1;
    ++g.locks;
    if (g.on_lock && !g.quiet) { g.quiet = true; g.on_lock(this); g.quiet = false; }
  }
  bool try_lock() {
    auto& g = ::vc::ghost();
    if (g.held[this] > 0 || ::vc::ghost_try_fails()) return false;
    trying_ = true;
    lock();
    trying_ = false;
    return true;
  }
  void unlock() {
    auto& g = ::vc::ghost();
    if (g.held[this] <= 0) g.error("unlock of " + g.nm(this) + " which is not held");
    g.held[this] = 0;
  }
};
// A thread: its body runs when the contract says so, or else when it is joined.
class vc_thread {
  std::function<void()> body_;
  bool joinable_ = false;
 public:
  typedef std::thread::id id;
  vc_thread() {}
  template <class F, class... A, class = std::enable_if_t<!std::is_same_v<std::decay_t<F>, vc_thread>>>
  explicit vc_thread(F&& f, A&&... a) : body_(std::bind(std::forward<F>(f), std::forward<A>(a)...)), joinable_(true) {}
  vc_thread(const vc_thread&) = delete;
  vc_thread(vc_thread&& o) : body_(std::move(o.body_)), joinable_(o.joinable_) { o.joinable_ = false; o.body_ = nullptr; }
  vc_thread& operator=(vc_thread&& o) {
    gone();
    body_ = std::move(o.body_); joinable_ = o.joinable_;
    o.joinable_ = false; o.body_ = nullptr;
    return *this;
  }
  ~vc_thread() { gone(); }
  bool joinable() const { return joinable_; }
  void join() {
    if (!joinable_) ::vc::ghost().error("join of a thread that was not started");
    joinable_ = false;
    ghost_run();
  }
  void detach() { joinable_ = false; }
  id get_id() const { return id(); }
  static unsigned hardware_concurrency() { return 4; }
  void ghost_run() { auto f = std::move(body_); body_ = nullptr; if (f) f(); }
 private:
  void gone() { if (joinable_) ::vc::ghost().error("a running thread is neither joined nor detached"); }
};
template <class T, class C = deque<T>>
class vc_queue {
  // the elements: c_, then (if tail_) any number of arbitrary ones, then suf_
  mutable C c_, suf_;
  mutable std::function<T()> tail_;
  mutable int made_ = 0;
  long pops_ = 0, pushes_ = 0;
  void close() const {
    tail_ = nullptr;
    for (auto& x : suf_) c_.push_back(x);
    suf_.clear();
  }
  bool more() const {                  // one more element of the unknown ones?
    int b = ::vc::ghost_bound();
    if ((b >= 0 && made_ >= b) || !::vc::ghost_more()) { close(); return false; }
    if (++made_ > 8 && ::vc::ghost_size_unknown()) throw ::vc::NoInvariant{"loop over a buffer"};
    return true;
  }
  bool have(size_t n) const {          // at least n elements?
    while (c_.size() < n && tail_) {
      if (c_.size() + suf_.size() >= n) return true;
      if (!more()) break;
      auto f = tail_;
      c_.push_back(f());
    }
    return c_.size() + suf_.size() >= n;
  }
  void first() const {                 // c_ holds the first element, if there is one
    if (c_.empty() && tail_ && more()) {
      auto f = tail_;
      c_.push_back(f());
    }
  }
  void whole(const char* op) const {
    while (tail_) {
      if (::vc::ghost_size_unknown()) throw ::vc::NoInvariant{op};
      if (!more()) break;
      auto f = tail_;
      c_.push_back(f());
    }
  }
  void t(const char* op) const { ::vc::ghost().touch(this, op); }
  void ne(const char* op) const {
    first();
    if (c_.empty()) {
      ::vc::ghost().error(std::string("queue::") + op + " on an empty queue");
      throw ::vc::GhostAbort{"empty queue"};
    }
  }
 public:
  typedef T value_type;
  typedef typename C::size_type size_type;
  typedef T& reference;
  typedef const T& const_reference;
  typedef C container_type;
  vc_queue() {}
  explicit vc_queue(const C& c) : c_(c) {}
  vc_queue(const vc_queue& o) : c_((o.t("copy"), o.whole("copy"), o.c_)) {}
  vc_queue(vc_queue&& o) { o.t("move"); take(o); }
  vc_queue& operator=(const vc_queue& o) { t("assign"); o.t("copy"); o.whole("copy"); c_ = o.c_; tail_ = nullptr; suf_.clear(); return *this; }
  vc_queue& operator=(vc_queue&& o) { t("assign"); o.t("move"); take(o); return *this; }
  ~vc_queue() { ::vc::ghost().guard.erase(this); }
  bool empty() const { t("empty"); if (!suf_.empty()) return false; first(); return c_.empty(); }
  ::vc::GhostSize size() const {
    t("size");
    long was = pops_ - pushes_;        // the value is that of now, whatever happens to the queue later
    return {[this, was](size_t n) { long k = (long)n - (pops_ - pushes_ - was); return k <= 0 || have((size_t)k); },
            [this, was] { whole("size"); return (size_t)((long)c_.size() + (pops_ - pushes_ - was)); }};
  }
  T& front() { t("front"); ne("front"); return c_.front(); }
  const T& front() const { t("front"); ne("front"); return c_.front(); }
  T& back() { t("back"); last(); ne("back"); return suf_.empty() ? c_.back() : suf_.back(); }
  const T& back() const { t("back"); last(); ne("back"); return suf_.empty() ? c_.back() : suf_.back(); }
  void push(const T& v) { t("push"); ++pushes_; (tail_ ? suf_ : c_).push_back(v); }
  void push(T&& v) { t("push"); ++pushes_; (tail_ ? suf_ : c_).push_back(std::move(v)); }
  template <class... A> void emplace(A&&... a) { t("emplace"); ++pushes_; (tail_ ? suf_ : c_).emplace_back(std::forward<A>(a)...); }
  void pop() { t("pop"); ne("pop"); ++pops_; c_.pop_front(); }
  void swap(vc_queue& o) {
    t("swap"); o.t("swap");
    c_.swap(o.c_); suf_.swap(o.suf_); std::swap(tail_, o.tail_); std::swap(pops_, o.pops_); std::swap(pushes_, o.pushes_);
  }
  friend void swap(vc_queue& a, vc_queue& b) { a.swap(b); }
  C& ghost_items() { return c_; }
  // ghost operations, used by contracts only
  C& ghost_suffix() { return suf_; }
  bool ghost_open() const { return (bool)tail_; }
  void ghost_any(std::function<T()> fresh, C suffix = C()) {   // any number of arbitrary elements, then suffix
    c_.clear(); suf_ = suffix; tail_ = fresh; made_ = 0;
  }
  void ghost_reopen(std::function<T()> fresh) { if (!tail_) tail_ = fresh; }

 private:
  void take(vc_queue& o) {
    c_ = std::move(o.c_); suf_ = std::move(o.suf_); tail_ = std::move(o.tail_);
    o.c_.clear(); o.suf_.clear(); o.tail_ = nullptr;
  }
  void last() const {                  // the last element is in c_ or suf_
    if (!tail_ || !suf_.empty()) return;
    if (!more()) return;
    auto f = tail_;
    suf_.push_back(f());
  }
};
template <class T, class C>
inline void swap(vc_queue<T, C>& a, vc_queue<T, C>& b) { a.swap(b); }
}  // namespace std
