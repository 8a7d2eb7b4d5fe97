// I01-I07: technical indicators against naive references over all update
// histories within the bounds.
#include <cmath>
#include <functional>
#include <memory>

#include "common.h"
#include "indicators/exponential_moving_average.h"
#include "indicators/last_n_ohlc_ticks.h"
#include "indicators/moving_average_convergence_divergence.h"
#include "indicators/relative_strength_index.h"
#include "indicators/simple_moving_average.h"
#include "indicators/stochastic_oscillator.h"
#include "indicators/util.h"
#include "indicators/volatility.h"

using namespace vt;

namespace {
// --------------------------------------------------- reference and feeding
// All periods seen so far, aggregated naively.
struct Periods {
  int64_t period;
  std::vector<OhlcTick> v;
  explicit Periods(int64_t p) : period(p) {}
  // Returns the number of periods added.
  int Add(const OhlcTick& k) {
    const int64_t t = k.timestamp_sec() / period * period;
    if (!v.empty() && v.back().timestamp_sec() == t) {
      OhlcTick& b = v.back();
      b.set_high(std::max(b.high(), k.high()));
      b.set_low(std::min(b.low(), k.low()));
      b.set_close(k.close());
      b.set_volume(b.volume() + k.volume());
      return 0;
    }
    int n = 1;
    while (!v.empty() && v.back().timestamp_sec() + period < t) {
      const float c = v.back().close();
      v.push_back(Tick(v.back().timestamp_sec() + period, c, c, c, c, 0));
      ++n;
    }
    v.push_back(k);
    v.back().set_timestamp_sec(t);
    return n;
  }
  double Close(int i) const { return v[i].close(); }
  int Size() const { return (int)v.size(); }
};

// A pattern of many updates without any further choices.
struct Pattern {
  static int time, shape;  // -1: none
  explicit Pattern(Run& r) {
    time = r.choose(5, "time pattern");
    shape = r.choose(4, "shape pattern");
  }
  ~Pattern() { time = shape = -1; }
  static bool Sparse(int i, int depth) { return time >= 0 && i > 40 && i % 97 > 1 && i + 3 < depth && !Border(i); }
  static bool Border(int i);
};
int Pattern::time = -1;
int Pattern::shape = -1;

// Generates update ticks.
struct Feed {
  Run& r;
  int64_t period, t;
  int shapes, times;
  int prices = 0;  // dyadic, decimal, small grid, tiny moves, single fields
  int sub = 0;
  std::vector<OhlcTick> fed;
  Feed(Run& r, int64_t period, int64_t start, int shapes, int times)
      : r(r), period(period), t(start), shapes(shapes), times(times) {}
  OhlcTick Shape(int k, int64_t at) const {
    if (prices == 2) {
      // Closes that meet earlier closes and averages exactly.
      const float c[] = {8, 4, 6, 7, 12};
      return Tick(at, c[k], c[k], c[k], c[k], k == 2 ? 0 : 1);
    }
    if (prices == 3) {
      const float c[] = {1000, 1000.5f, 999.75f, 1000.25f};
      return Tick(at, c[0], std::max(c[0], c[k]), std::min(c[0], c[k]), c[k], 1);
    }
    if (prices == 4) {
      // Ticks that differ in a single field.
      const float c[][4] = {{8, 8, 8, 8}, {8, 12, 8, 8}, {8, 8, 4, 8}, {8, 12, 4, 10}};
      return Tick(at, c[k][0], c[k][1], c[k][2], c[k][3], k == 3 ? 0 : 1);
    }
    if (prices == 1) {
      switch (k) {
        case 0: return Tick(at, 10.1f, 10.3f, 9.7f, 10.2f, 1.1f);
        case 1: return Tick(at, 10.2f, 13.7f, 10.2f, 12.9f, 2.3f);
        case 2: return Tick(at, 9.9f, 9.9f, 3.3f, 4.1f, 0.7f);
        case 3: return Tick(at, 7.7f, 7.7f, 7.7f, 7.7f, 0);
        default: return Tick(at, 333.3f, 444.4f, 222.2f, 111.1f * 3, 1);
      }
    }
    switch (k) {
      case 0: return Tick(at, 8, 12, 6, 10, 1);
      case 1: return Tick(at, 10, 16, 9, 16, 2);
      case 2: return Tick(at, 9, 9, 2, 4, 0.5f);
      case 3: return Tick(at, 8, 8, 8, 8, 0);
      default: return Tick(at, 5, 256, 0.5f, 128, 4);
    }
  }
  // The next tick: choice of time and shape.
  OhlcTick Next(bool deviations) {
    const int64_t start = t / period * period;
    if (Pattern::time >= 0) {
      const int i = (int)fed.size();
      const int each = Pattern::time == 1 ? 4 : Pattern::time == 2 ? 31 : 1;
      if (i > 0) {
        if (i % each != 0) t = std::min(t + std::max<int64_t>(1, period / each), start + period - 1);
        else t = start + period * (Pattern::time == 3 && i % 7 == 0 ? 3 : Pattern::time == 4 && i % 100 == 0 ? 500 : 1);
      }
      const int k = Pattern::shape == 0 ? i % 3 : Pattern::shape == 1 ? i / 10 % 5
                    : Pattern::shape == 2 ? (i % 5 == 0 ? i / 5 % 3 : 3) : i * i % 7 % 5;
      fed.push_back(Shape(k, t));
      return fed.back();
    }
    auto ch = [&](int n, const char* l) { return deviations ? r.deviate(n, l) : r.choose(n, l); };
    if (fed.empty()) {
      // as given
    } else {
      // With deviations the default is the next period.
      int c = ch(times, "time");
      if (deviations) c = c == 0 ? 1 : c == 1 ? 0 : c;
      switch (c) {
        case 0: t = std::min(t + period / 4, start + period - 1); break;  // same period (or its end)
        case 1: t = start + period; break;                                // next
        case 2: t = start + 2 * period + period / 2; break;               // one gap
        case 3: t = start + 4 * period; break;                            // three gaps
        case 4: t = start + period - 1; break;                            // last second
        default: t = start + 50 * period + 1; break;
      }
    }
    fed.push_back(Shape(ch(shapes, "shape"), t));
    r.say("%s", Str(fed.back()).c_str());
    return fed.back();
  }
};
int Shapes(bool deviations, int prices, int others) {
  return prices == 2 && !deviations ? 5 : prices >= 3 ? 4 : others;
}
int Times(bool deviations, int prices) { return deviations ? 6 : prices == 2 || prices == 4 ? 2 : 4; }
// A window size for all configurations, or 0.
struct Size {
  static int n;
  explicit Size(int k) { n = k; }
  ~Size() { n = 0; }
};
int Size::n = 0;
bool Pattern::Border(int i) { return Size::n > 0 && i >= Size::n - 2 && i <= Size::n + 3; }
int PickN(Run& r, const int* ns, int count, const char* what) { return Size::n > 0 ? Size::n : ns[r.choose(count, what)]; }
const int64_t kStarts[] = {1500000000, 59, 2147483640, 8589934592LL + 17, 0};

// Runs a history: `make` creates the indicator of a configuration, `check`
// compares it with the reference after every update.
struct Plan {
  const char* prop;
  int depth_quick, depth_thorough, shapes, times;
};
void History(Run& r, int64_t period, int depth, int shapes, int times, bool deviations, int prices,
             const std::function<void(const OhlcTick&)>& update, const std::function<void(const Periods&)>& check) {
  Feed f(r, period, kStarts[deviations ? 1 : r.choose(2, "start")], shapes, times);
  f.prices = prices;
  Periods p(period);
  uint64_t h = mc::Mix(depth, period);
  for (int i = 0; i < depth; ++i) {
    const OhlcTick k = f.Next(deviations);
    update(k);
    p.Add(k);
    r.step();
    h = mc::Mix(mc::Mix(h, k.timestamp_sec()), mc::Bits((double)k.close()));
    r.state(h);
    if (!Pattern::Sparse(i, depth)) check(p);
  }
  r.cover(p.Size() == depth ? "one update per period" : p.Size() > depth ? "gaps" : "several updates per period");
}
void Compare(Run& r, const char* what, double got, double want, double scale, double rel = 2e-5) {
  if (!(std::fabs(got - want) <= rel * scale)) r.fail("%s is %.9g, expected %.9g", what, got, want);
}
double MaxPrice(const Periods& p) {
  double m = 0;
  for (auto& k : p.v) m = std::max<double>(m, k.high());
  return m;
}

// ------------------------------------------------------------------ I01
struct Event {
  int kind;  // 0 updated, 1 added, 2 added and removed
  OhlcTick a, b;
  std::vector<OhlcTick> window;
};
void LastN(Run& r, int n, int64_t period, int mask, Feed& f, int depth, bool deviations) {
  LastNOhlcTicks w(n, (int)period);
  std::vector<Event> events;
  auto window = [&] { return std::vector<OhlcTick>(w.GetLastNOhlcTicks().begin(), w.GetLastNOhlcTicks().end()); };
  if (mask & 1)
    w.RegisterLastTickUpdatedCallback([&](const OhlcTick& o, const OhlcTick& k) {
      events.push_back({0, o, k, window()});
    });
  if (mask & 2)
    w.RegisterNewTickAddedCallback([&](const OhlcTick& k) {
      events.push_back({1, OhlcTick(), k, window()});
    });
  if (mask & 4)
    w.RegisterNewTickAddedAndOldestTickRemovedCallback([&](const OhlcTick& o, const OhlcTick& k) {
      events.push_back({2, o, k, window()});
    });
  if (!w.GetLastNOhlcTicks().empty()) r.fail("a new window is not empty");
  Periods p(period);
  uint64_t h = mc::Mix(n, period * 8 + mask);
  for (int i = 0; i < depth; ++i) {
    const OhlcTick k = f.Next(deviations);
    const OhlcTick last_before = p.v.empty() ? OhlcTick() : p.v.back();
    const int added = p.Add(k);
    events.clear();
    w.Update(k);
    r.step();
    h = mc::Mix(mc::Mix(h, k.timestamp_sec()), mc::Bits((double)k.close()));
    r.state(h);
    auto last = [&](int size) {
      std::vector<OhlcTick> v(p.v.begin() + std::max(0, size - n), p.v.begin() + size);
      return v;
    };
    auto same = [&](const std::vector<OhlcTick>& a, const std::vector<OhlcTick>& b) {
      if (a.size() != b.size()) return false;
      for (size_t j = 0; j < a.size(); ++j)
        if (!SameTick(a[j], b[j])) return false;
      return true;
    };
    if (!same(window(), last(p.Size())))
      r.fail("after update %d the window (N=%d) is not the last %d periods: %zu periods, latest %s, expected %s", i, n, n,
             window().size(), window().empty() ? "none" : Str(window().back()).c_str(), Str(p.v.back()).c_str());
    std::vector<Event> want;
    if (added == 0) {
      if (mask & 1) want.push_back({0, last_before, p.v.back(), last(p.Size())});
    }
    for (int j = p.Size() - added; j < p.Size(); ++j) {
      if (j < n) {
        if (mask & 2) want.push_back({1, OhlcTick(), p.v[j], last(j + 1)});
      } else {
        if (mask & 4) want.push_back({2, p.v[j - n], p.v[j], last(j + 1)});
      }
    }
    if (events.size() != want.size())
      r.fail("update %d called %zu callbacks, expected %zu", i, events.size(), want.size());
    for (size_t j = 0; j < want.size(); ++j) {
      const Event &a = events[j], &b = want[j];
      if (a.kind != b.kind || !SameTick(a.b, b.b) || (b.kind != 1 && !SameTick(a.a, b.a)))
        r.fail("callback %zu of update %d: kind %d, %s -> %s; expected kind %d, %s -> %s", j, i, a.kind, Str(a.a).c_str(),
               Str(a.b).c_str(), b.kind, Str(b.a).c_str(), Str(b.b).c_str());
      if (!same(a.window, b.window)) r.fail("callback %zu of update %d sees another window", j, i);
    }
    r.cover(added == 0 ? "updated" : added == 1 ? "next period" : "gap");
  }
}
MC_SPACE("I01", "histories",
         "all histories of up to 5 (thorough 6) updates over 5 time steps (same period, its last second, next period, 1 and 3 missing "
         "periods) and 4 shapes, N {1,2,3}, periods {60,300}, starts {aligned, unaligned}",
         [](Run& r) {
           const int n = 1 + r.choose(3, "N");
           const int64_t period = r.choose(2, "period") ? 300 : 60;
           Feed f(r, period, kStarts[r.choose(2, "start")], r.thorough() ? 4 : 3, 5);
           LastN(r, n, period, 7, f, r.thorough() ? 6 : 5, false);
         });
MC_SPACE("I01", "callbacks",
         "all histories of 4 updates over 4 time steps and 2 shapes x all subsets of registered callbacks x N {1,2,4} x 5 "
         "start times (0, 59, before 2^31, beyond 2^33)",
         [](Run& r) {
           const int ns[] = {1, 2, 4};
           const int n = ns[r.choose(3, "N")];
           const int mask = r.choose(8, "callbacks");
           Feed f(r, 60, kStarts[r.choose(5, "start")], 2, 4);
           LastN(r, n, 60, mask, f, 4, false);
         });
MC_SPACE("I01", "long",
         "histories of 60 updates with up to 2 (thorough 3) deviations in time or shape, N {1,5,20,100}, period {1,60,86400}",
         [](Run& r) {
           const int ns[] = {1, 5, 20, 100};
           const int n = ns[r.choose(4, "N")];
           const int64_t ps[] = {60, 1, 86400};
           const int64_t period = ps[r.choose(3, "period")];
           r.budget(r.thorough() ? 3 : 2);
           Feed f(r, period, kStarts[period == 60 ? 2 : 0], 3, 6);
           LastN(r, n, period, 7, f, r.thorough() ? 60 : 40, true);
         });
MC_SPACE("I01", "gaps", "single gaps of {1..40, 1000, 100000} periods for N {1,2,3,10,50}",
         [](Run& r) {
           const int ns[] = {1, 2, 3, 10, 50};
           const int n = ns[r.choose(5, "N")];
           const int g = r.choose(42, "gap");
           const int64_t gap = g < 40 ? g + 1 : g == 40 ? 1000 : 100000;
           LastNOhlcTicks w(n, 60);
           int64_t calls = 0;
           w.RegisterNewTickAddedCallback([&](const OhlcTick&) { ++calls; });
           w.RegisterNewTickAddedAndOldestTickRemovedCallback([&](const OhlcTick&, const OhlcTick&) { ++calls; });
           const int64_t t0 = 1500000000;
           w.Update(Tick(t0, 8, 12, 6, 10, 1));
           w.Update(Tick(t0 + 60 * (gap + 1), 9, 9, 9, 9, 1));
           r.step(2);
           r.state(mc::Mix(n, gap));
           if (calls != gap + 2) r.fail("%lld periods announced, expected %lld", (long long)calls, (long long)gap + 2);
           auto& q = w.GetLastNOhlcTicks();
           if ((int64_t)q.size() != std::min<int64_t>(n, gap + 2)) r.fail("%zu periods", q.size());
           for (size_t i = 0; i < q.size(); ++i) {
             const int64_t back = q.size() - 1 - i;
             const int64_t t = t0 + 60 * (gap + 1 - back);
             const OhlcTick want = back == 0 ? Tick(t, 9, 9, 9, 9, 1)
                                   : back == gap + 1 ? Tick(t, 8, 12, 6, 10, 1)
                                                     : Tick(t, 10, 10, 10, 10, 0);
             if (!SameTick(q[i], want)) r.fail("period %zu is %s, expected %s", i, Str(q[i]).c_str(), Str(want).c_str());
           }
         });

#define SCALE(P, WHAT, DEPTH, ...) \
  MC_SPACE(P, WHAT, "histories of " #DEPTH " updates in 5 time patterns (one, 4 and 31 updates per period, gaps of 2 and of 499 periods) " \
           "and 4 shape patterns, all configurations of the long space", [](Run& r) { Pattern pattern(r); __VA_ARGS__; })
SCALE("I01", "scale", 600, const int ns[] = {1, 5, 20, 100, 400}; const int n = ns[r.choose(5, "N")];
      Feed f(r, 60, kStarts[2], 3, 6); LastN(r, n, 60, 7, f, 600, true));

#define FIELDS "all histories of up to 6 (thorough 7) updates in the same or the next period over 4 ticks that differ in a single field, "
#define SIZES(P, WHAT, ...) \
  MC_SPACE(P, WHAT, "histories of 420 updates in the 20 time and shape patterns, for every window size from 1 to 130 (thorough 200)", [](Run& r) { \
    Size size(1 + r.choose(r.thorough() ? 200 : 130, "size")); \
    Pattern pattern(r); \
    __VA_ARGS__; \
  })
MC_SPACE("I01", "fields", FIELDS "N {1,2,3}",
         [](Run& r) {
           const int n = 1 + r.choose(3, "N");
           Feed f(r, 60, kStarts[r.choose(2, "start")], 4, 2);
           f.prices = 4;
           LastN(r, n, 60, 7, f, r.thorough() ? 7 : 6, false);
         });
SIZES("I01", "sizes", Feed f(r, 60, kStarts[2], 3, 6); LastN(r, Size::n, 60, 7, f, 420, true));

// ------------------------------------------------------------------ I02
struct WindowRef {
  int n;
  std::vector<double> v;
  std::vector<double> Last() const {
    const int size = (int)v.size();
    return std::vector<double>(v.begin() + (n == 0 ? 0 : std::max(0, size - n)), v.end());
  }
};
void CheckMean(Run& r, const SlidingWindowMeanAndVariance& w, const WindowRef& ref, double scale, bool exact) {
  const auto l = ref.Last();
  if (w.GetNumValues() != (int)ref.v.size()) r.fail("GetNumValues is %d", w.GetNumValues());
  if (w.GetWindowSize() != (int)l.size()) r.fail("GetWindowSize is %d, expected %zu", w.GetWindowSize(), l.size());
  double mean = 0, var = 0;
  for (double x : l) mean += x;
  if (!l.empty()) mean /= l.size();
  for (double x : l) var += (x - mean) * (x - mean);
  if (!l.empty()) var /= l.size();
  const double eps = exact ? 1e-6 : 2e-5;
  Compare(r, "mean", w.GetMean(), mean, scale, eps);
  if (!(w.GetVariance() >= 0)) r.fail("variance is %.9g", w.GetVariance());
  Compare(r, "variance", w.GetVariance(), var, scale * scale, eps);
  if (!(w.GetStandardDeviation() >= 0)) r.fail("standard deviation is %.9g", w.GetStandardDeviation());
  const double sd = w.GetStandardDeviation();
  Compare(r, "squared standard deviation", sd * sd, var, scale * scale, eps);
}
void CheckExtremes(Run& r, const SlidingWindowMinimum& mn, const SlidingWindowMaximum& mx, const WindowRef& ref) {
  const auto l = ref.Last();
  const int size = (int)l.size();
  if (mn.GetNumValues() != (int)ref.v.size() || mx.GetNumValues() != (int)ref.v.size()) r.fail("wrong number of values");
  if (mn.GetWindowSize() != size || mx.GetWindowSize() != size)
    r.fail("window sizes %d and %d, expected %d", mn.GetWindowSize(), mx.GetWindowSize(), size);
  if (l.empty()) return;
  const double a = *std::min_element(l.begin(), l.end()), b = *std::max_element(l.begin(), l.end());
  if (mn.GetSlidingWindowMinimum() != a) r.fail("minimum is %g, expected %g", mn.GetSlidingWindowMinimum(), a);
  if (mx.GetSlidingWindowMaximum() != b) r.fail("maximum is %g, expected %g", mx.GetSlidingWindowMaximum(), b);
}
void Sliding(Run& r, int n, int depth, const std::vector<double>& alphabet, bool deviations, bool exact) {
  SlidingWindowMeanAndVariance mean(n);
  std::unique_ptr<SlidingWindowMinimum> mn;
  std::unique_ptr<SlidingWindowMaximum> mx;
  if (n > 0) {
    mn.reset(new SlidingWindowMinimum(n));
    mx.reset(new SlidingWindowMaximum(n));
  }
  WindowRef ref;
  ref.n = n;
  double scale = 1e-6;
  uint64_t h = n;
  CheckMean(r, mean, ref, 1, true);
  for (int i = 0; i < depth; ++i) {
    const int m = (int)alphabet.size();
    // Default (with deviations): add values cyclically.
    int c = deviations ? r.deviate(2 * m, "operation") : r.choose(i == 0 ? m : 2 * m, "operation");
    const bool update = c >= m && i > 0;
    const float x = (float)alphabet[deviations && c == 0 ? i % m : c % m];
    scale = std::max(scale, std::fabs((double)x));
    if (update) {
      mean.UpdateCurrentValue(x);
      if (mn) mn->UpdateCurrentValue(x), mx->UpdateCurrentValue(x);
      ref.v.back() = x;
    } else {
      mean.AddNewValue(x);
      if (mn) mn->AddNewValue(x), mx->AddNewValue(x);
      ref.v.push_back(x);
    }
    r.say("%s %g", update ? "revise" : "add", x);
    r.step();
    h = mc::Mix(mc::Mix(h, update), mc::Bits((double)x));
    r.state(h);
    CheckMean(r, mean, ref, scale, exact);
    if (mn) CheckExtremes(r, *mn, *mx, ref);
  }
}
MC_SPACE("I02", "sequences",
         "all sequences of up to 7 (thorough 8) additions and revisions over 3 dyadic values, window sizes 0 (unbounded) to 4",
         [](Run& r) {
           const int n = r.choose(5, "window");
           Sliding(r, n, r.thorough() ? 8 : 7, {1, -2, 4}, false, true);
         });
MC_SPACE("I02", "decimals",
         "all sequences of up to 6 (thorough 7) additions and revisions over 3 decimal values (equal up to rounding), window sizes 0 to 3",
         [](Run& r) {
           const int n = r.choose(4, "window");
           const int set = r.choose(2, "values");
           Sliding(r, n, r.thorough() ? 7 : 6,
                   set ? std::vector<double>{0.1, 0.3, 0.7} : std::vector<double>{1.1, 1.1000001, -0.9}, false, false);
         });
MC_SPACE("I02", "constant", "the same value added up to 200 times, 40 values, window sizes {0,1,2,3,7,50}: no variance below zero or undefined",
         [](Run& r) {
           const int ns[] = {0, 1, 2, 3, 7, 50};
           const int n = ns[r.choose(6, "window")];
           const float x = (float)(std::pow(1.37, r.choose(40, "value") - 20) * (1 + 1e-3));
           SlidingWindowMeanAndVariance w(n);
           WindowRef ref;
           ref.n = n;
           for (int i = 0; i < 200; ++i) {
             w.AddNewValue(x);
             ref.v.push_back(x);
             CheckMean(r, w, ref, x, false);
             r.step();
           }
           r.state(mc::Mix(n, mc::Bits((double)x)));
         });
MC_SPACE("I02", "long",
         "sequences of 60 operations with up to 2 (thorough 3) deviations (other values, revisions) over 6 dyadic values, window sizes "
         "{0,1,2,5,16,50,100}",
         [](Run& r) {
           const int ns[] = {0, 1, 2, 5, 16, 50, 100};
           const int n = ns[r.choose(7, "window")];
           r.budget(2);
           Sliding(r, n, r.thorough() ? 120 : 50, {3, 1, -2, 4, 4, -8}, true, true);
         });

MC_SPACE("I02", "scale",
         "sequences of 1500 operations in 8 value patterns (rising, falling, sawtooth, two levels, outliers, constant with one change) and 3 "
         "patterns of revisions, window sizes {0,1,2,10,100,300,1000}, checked in full every 29 operations and at the window borders",
         [](Run& r) {
           const int ns[] = {0, 1, 2, 10, 100, 300, 1000};
           const int n = ns[r.choose(7, "window")], shape = r.choose(8, "values"), revisions = r.choose(3, "revisions");
           SlidingWindowMeanAndVariance mean(n);
           std::unique_ptr<SlidingWindowMinimum> mn;
           std::unique_ptr<SlidingWindowMaximum> mx;
           if (n > 0) {
             mn.reset(new SlidingWindowMinimum(n));
             mx.reset(new SlidingWindowMaximum(n));
           }
           WindowRef ref;
           ref.n = n;
           uint64_t h = mc::Mix(n, shape * 8 + revisions);
           for (int i = 0; i < 1500; ++i) {
             const double v[] = {i / 8.0,       (1500 - i) / 8.0,         (i % 17) * 4.0,   (double)(i % 400 < 200 ? 16 : 64),
                                 i % 331 == 330 ? 512.0 : i % 5, i % 331 == 330 ? -512.0 : i % 3, i < 700 ? 48.0 : 50.0,
                                 (i % 2 ? 1 : -1) * (i % 257) * 1.0};
             const bool update = i > 0 && (revisions == 1 ? i % 6 == 5 : revisions == 2 ? i % 5 != 0 : false);
             const float x = (float)v[shape];
             if (update) {
               mean.UpdateCurrentValue(x);
               if (mn) mn->UpdateCurrentValue(x), mx->UpdateCurrentValue(x);
               ref.v.back() = x;
             } else {
               mean.AddNewValue(x);
               if (mn) mn->AddNewValue(x), mx->AddNewValue(x);
               ref.v.push_back(x);
             }
             r.step();
             h = mc::Mix(mc::Mix(h, update), mc::Bits((double)x));
             r.state(h);
             const int size = (int)ref.v.size();
             if (i % 29 == 0 || i % 331 < 4 || (size >= n - 2 && size <= n + 4) || i % 331 == 330) CheckMean(r, mean, ref, 512, true);
             if (mn) CheckExtremes(r, *mn, *mx, ref);
           }
         });

MC_SPACE("I02", "sizes",
         "sequences of 3 N + 20 operations, one in 7 a revision, for every window size N from 1 to 300 (thorough 520), in 3 value patterns, checked "
         "at the window borders and every 13 operations",
         [](Run& r) {
           const int n = 1 + r.choose(r.thorough() ? 520 : 300, "window"), shape = r.choose(3, "values");
           SlidingWindowMeanAndVariance mean(n);
           SlidingWindowMinimum mn(n);
           SlidingWindowMaximum mx(n);
           WindowRef ref;
           ref.n = n;
           for (int i = 0; i < 3 * n + 20; ++i) {
             const float x = shape == 0 ? i % 8 : shape == 1 ? 64 - i % 61 : i * 37 % 101;
             if (i % 7 == 6) {
               mean.UpdateCurrentValue(x);
               mn.UpdateCurrentValue(x);
               mx.UpdateCurrentValue(x);
               ref.v.back() = x;
             } else {
               mean.AddNewValue(x);
               mn.AddNewValue(x);
               mx.AddNewValue(x);
               ref.v.push_back(x);
             }
             r.step();
             const int size = (int)ref.v.size();
             if (i % 13 == 0 || (size >= n - 2 && size <= n + 3)) CheckMean(r, mean, ref, 128, true), CheckExtremes(r, mn, mx, ref);
           }
           r.state(mc::Mix(n, shape));
         });

// ------------------------------------------------------------------ I03
double Ema(const Periods& p, double w, int upto) {
  double e = p.Close(0);
  for (int i = 1; i <= upto; ++i) e = w * p.Close(i) + (1 - w) * e;
  return e;
}
void EmaHistory(Run& r, bool deviations, int depth, int64_t period, int prices) {
  const double smoothing[] = {2, 1};
  const int lengths[] = {3, 1, 10, 50};
  const double s = smoothing[r.choose(2, "smoothing")];
  const int len = PickN(r, lengths, deviations ? 4 : 3, "length");
  ExponentialMovingAverage e((float)s, len, (int)period);
  History(r, period, depth, Shapes(deviations, prices, 3), Times(deviations, prices), deviations, prices,
          [&](const OhlcTick& k) { e.Update(k); },
          [&](const Periods& p) {
            if (e.GetNumOhlcTicks() != p.Size()) r.fail("GetNumOhlcTicks is %d, expected %d", e.GetNumOhlcTicks(), p.Size());
            Compare(r, "exponential moving average", e.GetExponentialMovingAverage(), Ema(p, s / (1.0 + len), p.Size() - 1),
                    MaxPrice(p));
          });
}
void MacdHistory(Run& r, bool deviations, int depth, int64_t period, int prices) {
  const int cfg[4][3] = {{2, 4, 3}, {1, 3, 1}, {12, 26, 9}, {3, 7, 3}};
  const int sized[3] = {Size::n, 2 * Size::n + 1, Size::n / 2 + 1};
  const int* c = Size::n > 0 ? sized : cfg[r.choose(deviations || prices == 2 ? 4 : 3, "lengths")];
  MovingAverageConvergenceDivergence m(c[0], c[1], c[2], (int)period);
  History(r, period, depth, Shapes(deviations, prices, 3), Times(deviations, prices), deviations, prices,
          [&](const OhlcTick& k) { m.Update(k); },
          [&](const Periods& p) {
            const double wf = 2.0 / (1 + c[0]), ws = 2.0 / (1 + c[1]), wg = 2.0 / (1 + c[2]);
            double f = 0, s = 0, g = 0;
            for (int i = 0; i < p.Size(); ++i) {
              f = i == 0 ? p.Close(0) : wf * p.Close(i) + (1 - wf) * f;
              s = i == 0 ? p.Close(0) : ws * p.Close(i) + (1 - ws) * s;
              g = i == 0 ? f - s : wg * (f - s) + (1 - wg) * g;
            }
            const double scale = MaxPrice(p);
            if (m.GetNumOhlcTicks() != p.Size()) r.fail("GetNumOhlcTicks is %d, expected %d", m.GetNumOhlcTicks(), p.Size());
            Compare(r, "fast average", m.GetFastExponentialMovingAverage(), f, scale);
            Compare(r, "slow average", m.GetSlowExponentialMovingAverage(), s, scale);
            Compare(r, "MACD series", m.GetMACDSeries(), f - s, scale);
            Compare(r, "MACD signal", m.GetMACDSignal(), g, scale);
            Compare(r, "divergence", m.GetDivergence(), f - s - g, scale);
          });
}
#define SHORT "all histories of up to 5 (thorough 6) updates over 4 time steps (same period, next, 1 and 3 missing periods) and 3 shapes, "
#define GRID "all histories of up to 5 (thorough 6) updates in the same or the next period over 5 closes that meet earlier closes and averages, "
#define LONG "histories of 40 (thorough 60) updates with up to 2 deviations in time or shape, "
MC_SPACE("I03", "ema", SHORT "lengths {1,3,10}, smoothing {1,2}, dyadic and decimal prices",
         [](Run& r) { EmaHistory(r, false, r.thorough() ? 6 : 5, 60, r.choose(2, "prices")); });
MC_SPACE("I03", "ema_grid", GRID "lengths {1,3,10}, smoothing {1,2}",
         [](Run& r) { EmaHistory(r, false, r.thorough() ? 6 : 5, 60, 2); });
MC_SPACE("I03", "ema_long", LONG "lengths {1,3,10,50}, smoothing {1,2}, periods {60,86400}",
         [](Run& r) {
           r.budget(2);
           const int64_t period = r.choose(2, "period") ? 86400 : 60;
           EmaHistory(r, true, r.thorough() ? 60 : 40, period, r.choose(2, "prices"));
         });
MC_SPACE("I03", "ema_fields", FIELDS "lengths {1,3,10}, smoothing {1,2}",
         [](Run& r) { EmaHistory(r, false, r.thorough() ? 7 : 6, 60, 4); });
SIZES("I03", "ema_sizes", EmaHistory(r, true, 420, 60, 0));
SCALE("I03", "ema_scale", 1500, EmaHistory(r, true, 1500, 60, 0));
MC_SPACE("I03", "macd", SHORT "3 triples of lengths, dyadic and decimal prices",
         [](Run& r) { MacdHistory(r, false, r.thorough() ? 6 : 5, 60, r.choose(2, "prices")); });
MC_SPACE("I03", "macd_grid", GRID "4 triples of lengths",
         [](Run& r) { MacdHistory(r, false, r.thorough() ? 6 : 5, 60, 2); });
MC_SPACE("I03", "macd_long", LONG "4 triples of lengths, periods {60,86400}",
         [](Run& r) {
           r.budget(2);
           const int64_t period = r.choose(2, "period") ? 86400 : 60;
           MacdHistory(r, true, r.thorough() ? 60 : 40, period, r.choose(2, "prices"));
         });
MC_SPACE("I03", "macd_fields", FIELDS "3 triples of lengths",
         [](Run& r) { MacdHistory(r, false, r.thorough() ? 7 : 6, 60, 4); });
SIZES("I03", "macd_sizes", MacdHistory(r, true, 420, 60, 0));
SCALE("I03", "macd_scale", 1500, MacdHistory(r, true, 1500, 60, 0));
MC_SPACE("I03", "helper",
         "all sequences of up to 6 additions and revisions of the averaging helper over 2 values and 2 weights",
         [](Run& r) {
           ExponentialMovingAverageHelper e;
           double prev = 0, cur = 0;
           int n = 0;
           const int depth = r.thorough() ? 7 : 6;
           uint64_t h = 5;
           for (int i = 0; i < depth; ++i) {
             const bool update = i > 0 && r.choose(2, "revise");
             const double x = r.choose(2, "value") ? 3 : -5, w = r.choose(2, "weight") ? 0.25 : 0.5;
             if (update) {
               e.UpdateCurrentValue((float)x, (float)w);
             } else {
               prev = cur;
               ++n;
               e.AddNewValue((float)x, (float)w);
             }
             cur = n == 1 ? x : w * x + (1 - w) * prev;
             r.step();
             h = mc::Mix(mc::Mix(h, update), mc::Bits(cur));
             r.state(h);
             if (e.GetNumValues() != n) r.fail("GetNumValues is %d, expected %d", e.GetNumValues(), n);
             Compare(r, "average", e.GetExponentialMovingAverage(), cur, 5);
           }
         });

// ------------------------------------------------------------------ I04
void RsiHistory(Run& r, bool deviations, int depth, int64_t period, int prices) {
  const int ns[] = {1, 2, 3, 14};
  const int n = PickN(r, ns, 4, "periods");
  RelativeStrengthIndex x(n, (int)period);
  History(r, period, depth, Shapes(deviations, prices, deviations ? 4 : 3), Times(deviations, prices), deviations, prices,
          [&](const OhlcTick& k) { x.Update(k); },
          [&](const Periods& p) {
            double u = 0, d = 0;
            for (int i = 0; i < p.Size(); ++i) {
              const double c = p.Close(i) - (i == 0 ? (double)p.v[0].open() : p.Close(i - 1));
              const double w = 1.0 / std::min(i + 1, n);
              u = w * std::max(c, 0.0) + (i == 0 ? 0 : (1 - w) * u);
              d = w * std::max(-c, 0.0) + (i == 0 ? 0 : (1 - w) * d);
            }
            const double scale = MaxPrice(p);
            if (x.GetNumOhlcTicks() != p.Size()) r.fail("GetNumOhlcTicks is %d, expected %d", x.GetNumOhlcTicks(), p.Size());
            Compare(r, "upward average", x.GetUpwardChangeModifiedMovingAverage(), u, scale);
            Compare(r, "downward average", x.GetDownwardChangeModifiedMovingAverage(), d, scale);
            const double rsi = x.GetRelativeStrengthIndex();
            if (!(rsi >= 0 && rsi <= 100)) r.fail("the index is %.9g", rsi);
            // Averages near zero are dominated by rounding.
            if (u == 0 && d == 0) {
              r.cover("no change");
              if (prices % 2 == 0 && rsi != 50) r.fail("the index is %.9g without any change", rsi);
            } else if (u + d > 1e-3 * scale) {
              if (d == 0) r.cover("only upward");
              if (u == 0) r.cover("only downward");
              Compare(r, "relative strength index", rsi, 100 * u / (u + d), 100, 1e-4);
            }
          });
}
MC_SPACE("I04", "histories", SHORT "numbers of periods {1,2,3,14}, dyadic and decimal prices",
         [](Run& r) { RsiHistory(r, false, r.thorough() ? 6 : 5, 60, r.choose(2, "prices")); });
MC_SPACE("I04", "grid", GRID "numbers of periods {1,2,3,14}",
         [](Run& r) { RsiHistory(r, false, r.thorough() ? 6 : 5, 60, 2); });
MC_SPACE("I04", "long", LONG "numbers of periods {1,2,3,14}, periods {60,86400}",
         [](Run& r) {
           r.budget(2);
           const int64_t period = r.choose(2, "period") ? 86400 : 60;
           RsiHistory(r, true, r.thorough() ? 60 : 40, period, r.choose(2, "prices"));
         });
MC_SPACE("I04", "fields", FIELDS "numbers of periods {1,2,3,14}",
         [](Run& r) { RsiHistory(r, false, r.thorough() ? 7 : 6, 60, 4); });
SIZES("I04", "sizes", RsiHistory(r, true, 420, 60, 0));
SCALE("I04", "scale", 1500, RsiHistory(r, true, 1500, 60, 0));
MC_SPACE("I04", "closes",
         "all sequences of 8 (thorough 10) closes in {8,10,16} (flat first period or not), numbers of periods {1,2,5,14}: all runs of equal, rising and "
         "falling closes",
         [](Run& r) {
           const int ns[] = {1, 2, 5, 14};
           const int n = ns[r.choose(4, "periods")];
           RelativeStrengthIndex x(n, 60);
           const double al[] = {8, 10, 16};
           double prev = r.choose(2, "open") ? 10 : 8, u = 0, d = 0;
           const int depth = r.thorough() ? 10 : 8;
           uint64_t h = n;
           for (int i = 0; i < depth; ++i) {
             const double c = al[r.choose(3, "close")];
             x.Update(Tick(1500000000 + 60 * i, (float)prev, 16, 8, (float)c, 1));
             const double w = 1.0 / std::min(i + 1, n), e = c - prev;
             u = w * std::max(e, 0.0) + (1 - w) * u;
             d = w * std::max(-e, 0.0) + (1 - w) * d;
             prev = c;
             h = mc::Mix(h, mc::Bits(c));
             r.state(h);
             r.step();
             const double rsi = x.GetRelativeStrengthIndex();
             if (!(rsi >= 0 && rsi <= 100)) r.fail("the index is %.9g", rsi);
             const double want = u == 0 && d == 0 ? 50 : d == 0 ? 100 : 100 - 100 / (1 + u / d);
             if (u + d > 1e-3 || u + d == 0) Compare(r, "relative strength index", rsi, want, 100, 1e-4);
           }
         });

// ------------------------------------------------------------------ I05
void StochasticHistory(Run& r, bool deviations, int depth, int64_t period, int prices) {
  const int ns[] = {1, 2, 3, 14};
  const int n = PickN(r, ns, 4, "periods");
  StochasticOscillator x(n, (int)period);
  // Values of %K at the end of each period.
  std::vector<double> ks;
  History(r, period, depth, Shapes(deviations, prices, deviations ? 4 : 3), Times(deviations, prices), deviations, prices,
          [&](const OhlcTick& k) { x.Update(k); },
          [&](const Periods& p) {
            ks.clear();
            double lo = 0, hi = 0;
            for (int i = 0; i < p.Size(); ++i) {
              lo = p.v[i].low();
              hi = p.v[i].high();
              for (int j = std::max(0, i - n + 1); j <= i; ++j) {
                lo = std::min<double>(lo, p.v[j].low());
                hi = std::max<double>(hi, p.v[j].high());
              }
              ks.push_back(hi - lo < 1e-6 ? 50 : 100 * (p.Close(i) - lo) / (hi - lo));
            }
            auto mean3 = [](const std::vector<double>& v, int i) {
              double s = 0;
              int c = 0;
              for (int j = std::max(0, i - 2); j <= i; ++j) s += v[j], ++c;
              return s / c;
            };
            std::vector<double> fast;
            for (int i = 0; i < p.Size(); ++i) fast.push_back(mean3(ks, i));
            const int e = p.Size() - 1;
            if (x.GetNumOhlcTicks() != p.Size()) r.fail("GetNumOhlcTicks is %d, expected %d", x.GetNumOhlcTicks(), p.Size());
            if (x.GetLow() != (float)lo) r.fail("low is %.9g, expected %.9g", x.GetLow(), lo);
            if (x.GetHigh() != (float)hi) r.fail("high is %.9g, expected %.9g", x.GetHigh(), hi);
            Compare(r, "%K", x.GetK(), ks[e], 100);
            Compare(r, "fast %D", x.GetFastD(), fast[e], 100, Pattern::time < 0 ? 2e-5 : 3e-4);  // float drift
            Compare(r, "slow %D", x.GetSlowD(), mean3(fast, e), 100, Pattern::time < 0 ? 2e-5 : 3e-4);
            for (double y : {x.GetK(), x.GetFastD(), x.GetSlowD()})
              if (!(y >= -1e-3 && y <= 100.001)) r.fail("a value of %.9g", y);
            if (hi == lo) r.cover("empty range");
          });
}
MC_SPACE("I05", "histories", SHORT "numbers of periods {1,2,3,14}, dyadic and decimal prices",
         [](Run& r) { StochasticHistory(r, false, r.thorough() ? 6 : 5, 60, r.choose(2, "prices")); });
MC_SPACE("I05", "flat", "the same with a fourth, flat shape: all histories of up to 4 (thorough 5) updates",
         [](Run& r) {
           const int ns[] = {1, 2, 3};
           const int n = ns[r.choose(3, "periods")];
           StochasticOscillator x(n, 60);
           Feed f(r, 60, 59, 4, 4);
           Periods p(60);
           const int depth = r.thorough() ? 5 : 4;
           for (int i = 0; i < depth; ++i) {
             const OhlcTick k = f.Next(false);
             x.Update(k);
             p.Add(k);
             r.step();
             r.state(mc::Mix(k.timestamp_sec(), mc::Bits((double)x.GetSlowD())));
             double lo = 1e9, hi = 0;
             for (int j = std::max(0, p.Size() - n); j < p.Size(); ++j) {
               lo = std::min<double>(lo, p.v[j].low());
               hi = std::max<double>(hi, p.v[j].high());
             }
             if (hi == lo) r.cover("empty range");
             Compare(r, "%K", x.GetK(), hi == lo ? 50 : 100 * (p.v.back().close() - lo) / (hi - lo), 100);
             for (double y : {x.GetK(), x.GetFastD(), x.GetSlowD()})
               if (!(y >= -1e-3 && y <= 100.001)) r.fail("a value of %.9g", y);
           }
         });
MC_SPACE("I05", "grid", GRID "numbers of periods {1,2,3,14}",
         [](Run& r) { StochasticHistory(r, false, r.thorough() ? 6 : 5, 60, 2); });
MC_SPACE("I05", "long", LONG "numbers of periods {1,2,3,14}, periods {60,86400}",
         [](Run& r) {
           r.budget(2);
           const int64_t period = r.choose(2, "period") ? 86400 : 60;
           StochasticHistory(r, true, r.thorough() ? 60 : 40, period, r.choose(2, "prices"));
         });

MC_SPACE("I05", "fields", FIELDS "numbers of periods {1,2,3,14}",
         [](Run& r) { StochasticHistory(r, false, r.thorough() ? 7 : 6, 60, 4); });
SIZES("I05", "sizes", StochasticHistory(r, true, 420, 60, 0));
SCALE("I05", "scale", 1500, StochasticHistory(r, true, 1500, 60, 0));

// ------------------------------------------------------------------ I06
void VolatilityHistory(Run& r, bool deviations, int depth, int64_t period, bool change, int prices) {
  const int ns[] = {0, 1, 2, 3, 30};
  const int n = PickN(r, ns, deviations ? 5 : 4, "window");
  Volatility x(n, (int)period);
  Feed f(r, period, kStarts[deviations ? 2 : 1], Shapes(deviations, prices, 3), Times(deviations, prices));
  f.prices = prices;
  Periods p(period);
  const double bal[3][2] = {{1, 0}, {2, 100}, {0.5, 3}};
  int b = r.choose(3, "balances");
  std::vector<double> values;
  double first = 0;
  uint64_t h = n * 8 + b;
  for (int i = 0; i < depth; ++i) {
    const OhlcTick k = f.Next(deviations);
    const int added = p.Add(k);
    if (change && i > 0 && added <= 1) b = deviations ? (b + r.deviate(3, "balances")) % 3 : r.choose(3, "balances");
    const double base = bal[b][0], quote = bal[b][1];
    x.Update(k, (float)base, (float)quote);
    r.step();
    if (i == 0) first = base * k.open() + quote;
    if (added == 0) values.back() = base * k.close() + quote;
    for (int j = p.Size() - added; j < p.Size(); ++j) values.push_back(base * p.Close(j) + quote);
    if (Pattern::Sparse(i, depth)) continue;
    std::vector<double> ret;
    for (size_t j = 0; j < values.size(); ++j) ret.push_back(std::log(values[j] / (j == 0 ? first : values[j - 1])));
    const std::vector<double> l(ret.begin() + (n == 0 ? 0 : std::max<int>(0, (int)ret.size() - n)), ret.end());
    double mean = 0, var = 0, scale = prices == 3 ? 1e-4 : 0.05;
    for (double y : ret) scale = std::max(scale, std::fabs(y));
    for (double y : l) mean += y / l.size();
    for (double y : l) var += (y - mean) * (y - mean) / l.size();
    const double v = x.GetVolatility();
    h = mc::Mix(mc::Mix(h, k.timestamp_sec()), mc::Mix(mc::Bits((double)k.close()), b));
    r.state(h);
    if (x.GetNumOhlcTicks() != p.Size()) r.fail("GetNumOhlcTicks is %d, expected %d", x.GetNumOhlcTicks(), p.Size());
    if (!(v >= 0)) r.fail("the volatility is %.9g", v);
    // A return may also be computed as a difference of logarithms, which rounds them.
    double rounding = std::fabs(std::log(first));
    for (double y : values) rounding = std::max(rounding, std::fabs(std::log(y)));
    rounding *= 2.4e-7;
    Compare(r, "squared volatility", v * v, var, scale * scale + (2 * scale + rounding) * rounding / (prices == 3 ? 1e-2 : 1e-5),
            prices == 3 ? 1e-2 : 1e-5);
    r.cover(var > 0 ? "volatile" : "constant");
  }
}
MC_SPACE("I06", "histories", SHORT "window sizes {0,1,2,3}, 3 balances",
         [](Run& r) { VolatilityHistory(r, false, r.thorough() ? 6 : 5, 60, false, false); });
MC_SPACE("I06", "balances",
         "all histories of up to 4 (thorough 5) updates over 4 time steps and 3 shapes with balances changing between all updates, window sizes {0,1,2,3}",
         [](Run& r) { VolatilityHistory(r, false, r.thorough() ? 5 : 4, 60, true, false); });
MC_SPACE("I06", "grid", GRID "window sizes {0,1,2,3}, 3 balances",
         [](Run& r) { VolatilityHistory(r, false, r.thorough() ? 6 : 5, 60, false, 2); });
MC_SPACE("I06", "tiny", "all histories of up to 4 (thorough 5) updates over 4 time steps with returns below 0.1 percent, window sizes {0,1,2,3}, 3 balances",
         [](Run& r) { VolatilityHistory(r, false, r.thorough() ? 5 : 4, 60, false, 3); });
MC_SPACE("I06", "long", "histories of 24 (thorough 40) updates with up to 2 deviations in time, shape or balances, window sizes "
         "{0,1,2,3,30}, 3 balances, periods {60} (thorough {60,86400})",
         [](Run& r) {
           r.budget(2);
           const int64_t period = r.choose(r.thorough() ? 2 : 1, "period") ? 86400 : 60;
           const int prices = r.choose(2, "prices");
           VolatilityHistory(r, true, r.thorough() ? 40 : 24, period, true, prices);
         });
MC_SPACE("I06", "fields", FIELDS "window sizes {0,1,2,3}, 3 balances",
         [](Run& r) { VolatilityHistory(r, false, r.thorough() ? 7 : 6, 60, false, 4); });
SIZES("I06", "sizes", VolatilityHistory(r, true, 420, 60, false, 0));
SCALE("I06", "scale", 1500, VolatilityHistory(r, true, 1500, 60, false, 0));
MC_SPACE("I06", "constant", "40 portfolios of constant value or constant growth over 100 periods, windows {0,1,2,7}: the volatility is 0 (within rounding)",
         [](Run& r) {
           const int ns[] = {0, 1, 2, 7};
           const int n = ns[r.choose(4, "window")];
           const int k = r.choose(40, "growth");
           Volatility x(n, 86400);
           double p = 1000;
           const double g = 1 + 0.001 * (k - 20);
           for (int i = 0; i < 100; ++i) {
             const double o = p;
             p *= g;
             x.Update(Tick(1500000000 + 86400 * i, (float)o, (float)std::max(o, p), (float)std::min(o, p), (float)p, 1), 1, 0);
             r.step();
             if (!(x.GetVolatility() >= 0 && x.GetVolatility() < 1e-4)) r.fail("the volatility is %.9g", x.GetVolatility());
           }
           r.state(mc::Mix(n, k));
         });

// ------------------------------------------------------------------ I07
void SmaHistory(Run& r, bool deviations, int depth, int64_t period, int prices) {
  const int ns[] = {1, 2, 3, 20};
  const int n = PickN(r, ns, 4, "N");
  SimpleMovingAverage x(n, (int)period);
  if (x.GetSimpleMovingAverage() != 0 || x.GetNumOhlcTicks() != 0) r.fail("a new average is not zero");
  History(r, period, depth, Shapes(deviations, prices, deviations ? 4 : 3), Times(deviations, prices), deviations, prices,
          [&](const OhlcTick& k) { x.Update(k); },
          [&](const Periods& p) {
            double s = 0;
            const int c = std::min(n, p.Size());
            for (int i = p.Size() - c; i < p.Size(); ++i) s += p.Close(i);
            if (x.GetNumOhlcTicks() != c) r.fail("GetNumOhlcTicks is %d, expected %d", x.GetNumOhlcTicks(), c);
            Compare(r, "simple moving average", x.GetSimpleMovingAverage(), s / c, MaxPrice(p));
          });
}
MC_SPACE("I07", "sma", SHORT "N {1,2,3,20}, dyadic and decimal prices",
         [](Run& r) { SmaHistory(r, false, r.thorough() ? 6 : 5, 60, r.choose(2, "prices")); });
MC_SPACE("I07", "sma_grid", GRID "N {1,2,3,20}",
         [](Run& r) { SmaHistory(r, false, r.thorough() ? 6 : 5, 60, 2); });
MC_SPACE("I07", "sma_long", LONG "N {1,2,3,20}, periods {60,86400}",
         [](Run& r) {
           r.budget(2);
           const int64_t period = r.choose(2, "period") ? 86400 : 60;
           SmaHistory(r, true, r.thorough() ? 60 : 40, period, r.choose(2, "prices"));
         });
// All indicators at once.
struct All {
  SimpleMovingAverage sma{3, 240};
  ExponentialMovingAverage ema{2, 3, 240};
  MovingAverageConvergenceDivergence macd{2, 4, 3, 240};
  RelativeStrengthIndex rsi{3, 240};
  StochasticOscillator so{2, 240};
  Volatility vol{3, 240};
  void Update(const OhlcTick& k) {
    sma.Update(k);
    ema.Update(k);
    macd.Update(k);
    rsi.Update(k);
    so.Update(k);
    vol.Update(k, 2, 5);
  }
  std::vector<double> Values() const {
    return {sma.GetSimpleMovingAverage(), (double)sma.GetNumOhlcTicks(), ema.GetExponentialMovingAverage(),
            (double)ema.GetNumOhlcTicks(), macd.GetMACDSeries(), macd.GetMACDSignal(), macd.GetDivergence(),
            rsi.GetRelativeStrengthIndex(), so.GetLow(), so.GetHigh(), so.GetK(), so.GetFastD(), so.GetSlowD(),
            vol.GetVolatility(), (double)vol.GetNumOhlcTicks()};
  }
};
MC_SPACE("I07", "sma_fields", FIELDS "N {1,2,3,20}",
         [](Run& r) { SmaHistory(r, false, r.thorough() ? 7 : 6, 60, 4); });
SIZES("I07", "sma_sizes", SmaHistory(r, true, 420, 60, 0));
SCALE("I07", "sma_scale", 1500, SmaHistory(r, true, 1500, 60, 0));
MC_SPACE("I07", "granularity",
         "all histories of 8 (thorough 10) quarter period ticks of 3 shapes or missing, fed as quarter periods, as half periods, and as "
         "whole periods: all six indicators agree at the ends of the periods",
         [](Run& r) {
           const int n = r.thorough() ? 10 : 8;
           const int64_t t0 = 240 * 6250000;
           std::vector<OhlcTick> fine;
           Feed shapes(r, 60, t0, 3, 1);
           for (int i = 0; i < n; ++i) {
             const int c = r.choose(4, "quarter");
             if (c < 3) fine.push_back(shapes.Shape(c, t0 + 60 * i));
           }
           if (fine.empty()) r.prune();
           All a;
           auto half = std::make_unique<All>(), whole = std::make_unique<All>();
           auto aggregate = [&](int64_t period, int64_t from, int64_t to) {
             std::vector<OhlcTick> v;
             for (auto& k : fine) {
               if (k.timestamp_sec() < from || k.timestamp_sec() >= to) continue;
               Periods p(period);
               if (!v.empty()) p.v.push_back(v.back());
               const int64_t t = k.timestamp_sec() / period * period;
               if (!v.empty() && v.back().timestamp_sec() == t) {
                 p.Add(k);
                 v.back() = p.v.back();
               } else {
                 v.push_back(k);
                 v.back().set_timestamp_sec(t);
               }
             }
             return v;
           };
           uint64_t h = 1;
           for (int64_t t = t0; t < t0 + 60 * n; t += 240) {
             const auto q = aggregate(60, t, t + 240), hf = aggregate(120, t, t + 240), w = aggregate(240, t, t + 240);
             for (auto& k : q) a.Update(k), h = mc::Mix(h, mc::Bits((double)k.close()) + k.timestamp_sec());
             for (auto& k : hf) half->Update(k);
             for (auto& k : w) whole->Update(k);
             r.step((int)(q.size() + hf.size() + w.size()));
             const auto x = a.Values(), y = half->Values(), z = whole->Values();
             for (size_t i = 0; i < x.size(); ++i) {
               // Standard deviations magnify rounding errors near zero.
               const double tol = i == 13 ? 2e-3 : 1e-4 * std::max(1.0, std::fabs(z[i]));
               if (!(std::fabs(x[i] - z[i]) <= tol) || !(std::fabs(y[i] - z[i]) <= tol))
                 r.fail("value %zu at the end of the period %lld: %g from quarters, %g from halves, %g from whole periods", i,
                        (long long)(t - t0) / 240, x[i], y[i], z[i]);
             }
           }
           r.state(h);
         });

// Long enough for every counter to pass the borders of 8 and 16 bits. All
// closes are small integers, so that all sums are exact in single precision.
const int kMany = 70000;
bool Checked(int i) { return i % 499 == 0 || i % 65536 < 5 || (i + 3) % 32768 < 6 || i > kMany - 4; }
#define MANY "histories of 70000 periods with one update each, or with every fifth revised, "
struct ManyFeed {
  bool revise;
  explicit ManyFeed(Run& r) : revise(r.choose(2, "revise")) {}
  static double Close(int i) { return i < 0 ? 12 : i * 7 % 3 == 0 ? 20 : i % 11 == 0 ? 24 : 8; }
  void Play(Run& r, const std::function<void(const OhlcTick&)>& update, const std::function<void(int)>& ended) {
    for (int i = 0; i < kMany; ++i) {
      const float o = (float)Close(i - 1), c = (float)Close(i);
      const int64_t t = 1500000000 + 60LL * i;
      if (revise && i % 5 == 2) update(Tick(t, o, 24, 8, 16, 1));
      update(Tick(t + 7, o, 24, 8, c, 1));
      r.step();
      ended(i);
      if (i % 1000 == 0) r.state(mc::Mix(i, revise));
    }
  }
};
#define EXPECT_NEAR(WHAT, GOT, WANT, TOL)                                                                           \
  do {                                                                                                              \
    const double got_ = (GOT), want_ = (WANT);                                                                      \
    if (!(std::fabs(got_ - want_) <= (TOL))) r.fail("%s is %.9g after %d periods, expected %.9g", WHAT, got_, i + 1, want_); \
  } while (0)

MC_SPACE("I01", "counters", MANY "N {1,3,300}",
         [](Run& r) {
           const int n = (const int[]){1, 3, 300}[r.choose(3, "N")];
           LastNOhlcTicks w(n, 60);
           int updated = 0, added = 0, replaced = 0;
           w.RegisterLastTickUpdatedCallback([&](const OhlcTick&, const OhlcTick&) { ++updated; });
           w.RegisterNewTickAddedCallback([&](const OhlcTick&) { ++added; });
           w.RegisterNewTickAddedAndOldestTickRemovedCallback([&](const OhlcTick& old, const OhlcTick& k) {
             ++replaced;
             if (k.timestamp_sec() - old.timestamp_sec() != 60 * n) r.fail("the removed period is not the oldest");
           });
           ManyFeed f(r);
           f.Play(r, [&](const OhlcTick& k) { w.Update(k); },
                  [&](int i) {
                    EXPECT_NEAR("number of periods", w.GetLastNOhlcTicks().size(), std::min(i + 1, n), 0);
                    EXPECT_NEAR("close", w.GetLastNOhlcTicks().back().close(), ManyFeed::Close(i), 0);
                    EXPECT_NEAR("number of added periods", added, std::min(i + 1, n), 0);
                    EXPECT_NEAR("number of replaced periods", replaced, std::max(0, i + 1 - n), 0);
                    EXPECT_NEAR("number of revised periods", updated, f.revise ? (i + 3) / 5 : 0, 0);
                  });
         });
MC_SPACE("I02", "counters",
         "70000 values of {0,1,2,3,4}, two extreme ones after 100 and 200, with every seventh revised or none; window sizes {0,1,3,300,32768,66000}",
         [](Run& r) {
           const int n = (const int[]){0, 1, 3, 300, 32768, 66000}[r.choose(6, "window")];
           const bool revise = r.choose(2, "revise");
           SlidingWindowMeanAndVariance mean(n);
           SlidingWindowMinimum mn(std::max(n, 1));
           SlidingWindowMaximum mx(std::max(n, 1));
           std::vector<double> v, s{0}, s2{0};
           for (int i = 0; i < kMany; ++i) {
             const double x = i == 100 ? -5 : i == 200 ? 9 : i * 37LL % 101 % 5;
             const bool twice = revise && i % 7 == 3;
             const float first = twice ? 30 : (float)x;
             mean.AddNewValue(first);
             mn.AddNewValue(first);
             mx.AddNewValue(first);
             if (twice) {
               mean.UpdateCurrentValue((float)x);
               mn.UpdateCurrentValue((float)x);
               mx.UpdateCurrentValue((float)x);
             }
             v.push_back(x);
             s.push_back(s.back() + x);
             s2.push_back(s2.back() + x * x);
             r.step();
             const int c = n == 0 ? i + 1 : std::min(i + 1, n);
             EXPECT_NEAR("number of values", mean.GetNumValues(), i + 1, 0);
             EXPECT_NEAR("number of values", mn.GetNumValues(), i + 1, 0);
             EXPECT_NEAR("number of values", mx.GetNumValues(), i + 1, 0);
             EXPECT_NEAR("window size", mean.GetWindowSize(), c, 0);
             const double m = (s[i + 1] - s[i + 1 - c]) / c;
             EXPECT_NEAR("mean", mean.GetMean(), m, 1e-4);
             EXPECT_NEAR("variance", mean.GetVariance(), (s2[i + 1] - s2[i + 1 - c]) / c - m * m, 1e-3);
             if (n == 0) continue;
             EXPECT_NEAR("window size of the minimum", mn.GetWindowSize(), c, 0);
             EXPECT_NEAR("window size of the maximum", mx.GetWindowSize(), c, 0);
             if (c > 500 && !Checked(i) && (i - n - 90 < 0 || i - n > 210)) continue;
             if (c > 500 && !Checked(i) && i % 7) continue;
             EXPECT_NEAR("minimum", mn.GetSlidingWindowMinimum(), *std::min_element(v.end() - c, v.end()), 0);
             EXPECT_NEAR("maximum", mx.GetSlidingWindowMaximum(), *std::max_element(v.end() - c, v.end()), 0);
             if (i % 1000 == 0) r.state(mc::Mix(i, n * 2 + revise));
           }
         });
MC_SPACE("I03", "counters", MANY "lengths {1,10} and triples of lengths {2/4/3, 12/26/9}",
         [](Run& r) {
           const int k = r.choose(2, "lengths"), len = k ? 10 : 1;
           const int c[2][3] = {{2, 4, 3}, {12, 26, 9}};
           ExponentialMovingAverage e(2, len, 60);
           MovingAverageConvergenceDivergence m(c[k][0], c[k][1], c[k][2], 60);
           double x = 0, f = 0, s = 0, g = 0;
           ManyFeed(r).Play(r, [&](const OhlcTick& t) { e.Update(t); m.Update(t); },
                            [&](int i) {
                              auto step = [&](double* a, double y, int l) { *a = i == 0 ? y : *a + 2.0 / (1 + l) * (y - *a); };
                              const double y = ManyFeed::Close(i);
                              step(&x, y, len);
                              step(&f, y, c[k][0]);
                              step(&s, y, c[k][1]);
                              step(&g, f - s, c[k][2]);
                              EXPECT_NEAR("number of periods", e.GetNumOhlcTicks(), i + 1, 0);
                              EXPECT_NEAR("number of periods", m.GetNumOhlcTicks(), i + 1, 0);
                              EXPECT_NEAR("average", e.GetExponentialMovingAverage(), x, 1e-3);
                              EXPECT_NEAR("MACD series", m.GetMACDSeries(), f - s, 1e-3);
                              EXPECT_NEAR("MACD signal", m.GetMACDSignal(), g, 1e-3);
                            });
         });
MC_SPACE("I04", "counters", MANY "numbers of periods {1,14,300}",
         [](Run& r) {
           const int n = (const int[]){1, 14, 300}[r.choose(3, "periods")];
           RelativeStrengthIndex x(n, 60);
           double u = 0, d = 0;
           ManyFeed(r).Play(r, [&](const OhlcTick& t) { x.Update(t); },
                            [&](int i) {
                              const double c = ManyFeed::Close(i) - ManyFeed::Close(i - 1), w = 1.0 / std::min(i + 1, n);
                              u += w * (std::max(c, 0.0) - u);
                              d += w * (std::max(-c, 0.0) - d);
                              EXPECT_NEAR("number of periods", x.GetNumOhlcTicks(), i + 1, 0);
                              EXPECT_NEAR("upward average", x.GetUpwardChangeModifiedMovingAverage(), u, 1e-3);
                              EXPECT_NEAR("downward average", x.GetDownwardChangeModifiedMovingAverage(), d, 1e-3);
                              if (u + d > 0.1) EXPECT_NEAR("relative strength index", x.GetRelativeStrengthIndex(), 100 * u / (u + d), 0.1);
                            });
         });
MC_SPACE("I05", "counters", MANY "numbers of periods {1,14,300}",
         [](Run& r) {
           const int n = (const int[]){1, 14, 300}[r.choose(3, "periods")];
           StochasticOscillator x(n, 60);
           std::vector<double> k, d;
           auto mean3 = [](const std::vector<double>& v) {
             const int c = std::min<int>(3, (int)v.size());
             double s = 0;
             for (int j = 0; j < c; ++j) s += v[v.size() - 1 - j];
             return s / c;
           };
           ManyFeed(r).Play(r, [&](const OhlcTick& t) { x.Update(t); },
                            [&](int i) {
                              k.push_back(100 * (ManyFeed::Close(i) - 8) / 16);
                              d.push_back(mean3(k));
                              EXPECT_NEAR("number of periods", x.GetNumOhlcTicks(), i + 1, 0);
                              EXPECT_NEAR("low", x.GetLow(), 8, 0);
                              EXPECT_NEAR("high", x.GetHigh(), 24, 0);
                              EXPECT_NEAR("%K", x.GetK(), k.back(), 1e-2);
                              EXPECT_NEAR("fast %D", x.GetFastD(), d.back(), 0.1);
                              EXPECT_NEAR("slow %D", x.GetSlowD(), mean3(d), 0.5);
                            });
         });
MC_SPACE("I06", "counters", MANY "window sizes {0,2,30}, a portfolio of 2 base and 4 quote currency units",
         [](Run& r) {
           const int n = (const int[]){0, 2, 30}[r.choose(3, "window")];
           Volatility x(n, 60);
           std::vector<double> s{0}, s2{0};
           ManyFeed(r).Play(r, [&](const OhlcTick& t) { x.Update(t, 2, 4); },
                            [&](int i) {
                              const double l = std::log((2 * ManyFeed::Close(i) + 4) / (2 * ManyFeed::Close(i - 1) + 4));
                              s.push_back(s.back() + l);
                              s2.push_back(s2.back() + l * l);
                              const int c = n == 0 ? i + 1 : std::min(i + 1, n);
                              const double m = (s[i + 1] - s[i + 1 - c]) / c;
                              const double var = std::max(0.0, (s2[i + 1] - s2[i + 1 - c]) / c - m * m);
                              EXPECT_NEAR("number of periods", x.GetNumOhlcTicks(), i + 1, 0);
                              EXPECT_NEAR("squared volatility", x.GetVolatility() * x.GetVolatility(), var, 0.01);
                            });
         });
MC_SPACE("I07", "counters", MANY "N {1,3,300,66000}",
         [](Run& r) {
           const int n = (const int[]){1, 3, 300, 66000}[r.choose(4, "N")];
           SimpleMovingAverage x(n, 60);
           std::vector<double> s{0};
           ManyFeed(r).Play(r, [&](const OhlcTick& t) { x.Update(t); },
                            [&](int i) {
                              s.push_back(s.back() + ManyFeed::Close(i));
                              const int c = std::min(i + 1, n);
                              EXPECT_NEAR("number of periods", x.GetNumOhlcTicks(), c, 0);
                              EXPECT_NEAR("simple moving average", x.GetSimpleMovingAverage(), (s[i + 1] - s[i + 1 - c]) / c, 1e-3);
                            });
         });
}  // namespace
