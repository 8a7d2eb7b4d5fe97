// Small explicit-state / stateless explorer used by every harness in /verif.
//
// A "space" is a body that drives the REAL code of /repo and asks Run::choose
// for every nondeterministic decision (inputs, operations, environment
// answers, scheduling). The explorer enumerates ALL choice sequences of the
// body (depth first, sharded over forked workers). A body reports a violated
// property with Run::fail. Crashes, failed assertions, sanitizer reports and
// hangs of the code under test are violations as well (the current choice
// sequence lives in shared memory, so it survives the death of the worker).
// Every violation is replayed alone before it is reported.
#ifndef VERIF_MC_H
#define VERIF_MC_H

#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <string>
#include <vector>

namespace mc {

constexpr int kMaxChoices = 4096;

struct Violation {
  std::string message;
};
struct Pruned {};
struct OtherShard {};
struct Divergence {
  std::string message;
};

inline uint64_t Mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdULL;
  h ^= h >> 33;
  return h;
}
template <typename T>
inline uint64_t Bits(T v) {
  uint64_t b = 0;
  static_assert(sizeof(T) <= 8, "");
  std::memcpy(&b, &v, sizeof(T));
  return b;
}
inline uint64_t HashStr(const std::string& s, uint64_t h = 1469598103934665603ULL) {
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ULL;
  return h;
}

struct Shared;  // shared memory block of one worker

class Run {
 public:
  // Returns a choice from [0, n). All alternatives are explored.
  int choose(int n, const char* label);
  // Chooses an element of the container.
  template <typename C>
  auto pick(const C& c, const char* label) -> decltype(c[0]) {
    return c[choose(static_cast<int>(c.size()), label)];
  }
  // Deviation-bounded choice: 0 is the default (free) answer, any other answer
  // costs one deviation from the budget.
  void budget(int deviations) { dev_left_ = deviations; }
  int deviate(int n, const char* label);
  int deviations_left() const { return dev_left_; }

  // Records that the implementation made a transition.
  void step(int n = 1);
  // Records a (canonical) state hash; returns true iff it was not seen before.
  bool state(uint64_t hash);
  // State-space pruning: call with a hash of (state, everything that
  // determines the future, remaining depth). Abandons the execution when an
  // equal node has already been (or is being) explored.
  void visit(uint64_t hash);
  // Records a distinct observable outcome (vacuity indicator).
  void outcome(uint64_t hash);
  // Marks a named situation as covered (vacuity indicator).
  void cover(const char* name);
  // Reports a violation of the property.
  [[noreturn]] void fail(const char* fmt, ...)
      __attribute__((format(printf, 2, 3)));
  [[noreturn]] void prune() { throw Pruned(); }
  bool thorough() const { return thorough_; }
  bool verbose() const { return verbose_; }
  // Human readable narration of the execution (only kept when verbose).
  void say(const char* fmt, ...) __attribute__((format(printf, 2, 3)));

  // --- explorer internals ---
  std::vector<int> choices_, arity_;
  size_t pos_ = 0;
  size_t prefix_len_ = 0;
  bool crossed_ = false;
  uint64_t path_ = 1, cell_ = 0, width_ = 1, cross_ = 256;
  uint64_t shard_ = 0, num_shards_ = 1;
  int dev_left_ = 1 << 30;
  bool thorough_ = false, verbose_ = false, replaying_ = false;
  uint64_t space_salt_ = 0;
  std::string text_;
  int steps_ = 0;
  std::vector<int> covered_;
  Shared* sh_ = nullptr;
};

using Body = std::function<void(Run&)>;

struct Space {
  std::string prop, name, bound;
  Body body;
  bool thorough_only = false;
  int hang_sec = 30;
  int shards = 64;  // fewer for bodies with expensive executions
};
// Registers a space for the property.
struct Register {
  Register(const char* prop, const char* name, const char* bound, Body body,
           bool thorough_only = false, int max_workers = 0, int hang_sec = 30,
           int shards = 64);
};

// Entry point used by the harness mains.
int Main(int argc, char** argv);

}  // namespace mc

#define MC_CAT2(a, b) a##b
#define MC_CAT(a, b) MC_CAT2(a, b)
#define MC_SPACE(prop, name, bound, ...) \
  static ::mc::Register MC_CAT(mc_reg_, __COUNTER__)(prop, name, bound, __VA_ARGS__)

#endif  // VERIF_MC_H
