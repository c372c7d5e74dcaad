// Buffers of any length, and the invariants of the loops that drain them.
// A buffer holds any number of arbitrary measurements, made when the code looks
// at them, and then `suffix`. A loop annotated in the repository's source
// (DRIFT_LOOP_INVARIANT) is verified by its invariant: established on entry,
// preserved by one arbitrary iteration, and used for everything after it.
#pragma once
#include "common.h"
template <class P>
struct AnyBuffer {
  std::queue<P>* q = nullptr;
  std::vector<P> seen;                     // in arrival order
  std::function<P(const std::string&)> make;
  std::string name;
  int made = 0;
  std::function<P()> fresh() {
    return [this] {
      Quiet quiet;
      seen.push_back(make(name + std::to_string(made++)));
      return seen.back();
    };
  }
  void open(std::queue<P>* q_, const std::string& n, std::function<P(const std::string&)> mk, std::deque<P> suffix = {}) {
    q = q_; name = n; make = mk;
    seen.clear();
    q->ghost_any(fresh(), suffix);
  }
  // any number of others behind what the buffer holds now
  void behind(std::queue<P>* q_, const std::string& n, std::function<P(const std::string&)> mk) {
    std::deque<P> keep = q_->ghost_items();
    open(q_, n, mk);
    seen.assign(keep.begin(), keep.end());
    q->ghost_items() = keep;
  }
  // after any number of iterations: `taken` (already removed), then `present`
  // elements (those the loop condition guarantees) and any number of others
  void havoc(std::vector<P> taken = {}, int present = 0, std::deque<P> suffix = {}) {
    made += 100;
    seen = taken;
    q->ghost_any(fresh(), suffix);
    for (int i = 0; i < present; ++i) q->ghost_items().push_back(fresh()());
  }
  bool present(size_t n) { return q->ghost_items().size() + q->ghost_suffix().size() >= n; }
  P last() { auto& c = q->ghost_open() ? q->ghost_suffix() : q->ghost_items(); return c.empty() ? nullptr : c.back(); }
  void reopen() { q->ghost_reopen(fresh()); }
  // exactly seen[from..] and the rest not looked at remain, in order
  bool rest(size_t from) {
    auto& it = q->ghost_items();
    if (it.size() + from != seen.size()) return false;
    for (size_t i = 0; i < it.size(); ++i) if (it[i] != seen[from + i]) return false;
    return true;
  }
  bool exhausted() { return !q->ghost_open() && q->ghost_items().empty(); }
};
// v: 0 on entry (then havoc), 1 after an arbitrary iteration
template <class... T, class F>
void invariant(const std::string& label, F f) {
  ghost().loops[label] = std::function<void(int, T&...)>(f);
}
inline void lock_state(const std::string& n, const void* m, bool held) {
  ok(n, ghost().errors.empty() && (ghost().held[m] > 0) == held, "lock state at the loop");
}
// A loop that empties b while its condition holds, with m locked.
template <class B>
void emptying(const std::string& label, B& b, const void* m) {
  invariant<>(label, [&b, m](int v) {
    lock_state(v ? "clearing_preserves_lock" : "clearing_starts_with_lock", m, true);
    ok(v ? "clearing_preserves_content" : "clearing_starts_with_content", b.present(1));
    if (!v) b.havoc({}, 1);
  });
}
// sampled runs: a run of outdated measurements, so that long discards occur
// (every 64th sample: buffers of thousands)
inline D sampled_age(int i) {
  if (symbolic()) return D(0);
  return var("aged", -1, 1) > 0 && i < num(var("run", 0, long_buffers() ? 4000 : 40)) ? D(-6) : D(0);
}
