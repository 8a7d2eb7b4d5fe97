// H01-H05, S01: exhaustive exploration of the history transformations and of
// the side input lookups (real code, under AddressSanitizer).
#include <map>

#include "base/history.h"
#include "base/side_input.h"
#include "common.h"

using namespace vt;

namespace {
void Say(Run& r, const PriceHistory& h) {
  if (!r.verbose()) return;
  for (const auto& p : h)
    r.say("rec(%lld p%.9g v%.9g)", (long long)p.timestamp_sec(), p.price(), p.volume());
}
bool SameRecord(const PriceRecord& a, const PriceRecord& b) {
  return a.timestamp_sec() == b.timestamp_sec() && a.price() == b.price() &&
         a.volume() == b.volume();
}

// ---------------------------------------------------------------- H01
void CheckResample(Run& r, const PriceHistory& h, int rate) {
  Say(r, h);
  r.say("rate=%d", rate);
  // Records beyond the given range must not matter.
  PriceHistory padded = h;
  padded.push_back(Price(h.empty() ? 1 : h.back().timestamp_sec() + 7 * rate, 977, 977));
  padded.insert(padded.begin(), Price(1, 991, 991));
  const OhlcHistory got = Resample(padded.begin() + 1, padded.end() - 1, rate);
  // Nothing but invalid memory around the records.
  const PriceHistory tight(h.begin(), h.end());
  const OhlcHistory got2 = Resample(tight.begin(), tight.end(), rate);
  r.step((int)h.size());
  if (got.size() != got2.size()) r.fail("the ticks depend on records beyond the range");
  for (size_t i = 0; i < got.size(); ++i)
    if (!SameTick(got[i], got2[i])) r.fail("tick %zu depends on records beyond the range", i);
  std::map<int64_t, std::vector<const PriceRecord*>> bins;
  for (const auto& p : h) {
    int64_t t = p.timestamp_sec();
    t -= t % rate;
    bins[t].push_back(&p);
  }
  if (h.empty()) {
    if (!got.empty()) r.fail("%zu ticks from an empty history", got.size());
    r.cover("empty");
    return;
  }
  const int64_t first = bins.begin()->first, last = bins.rbegin()->first;
  const size_t n = (size_t)((last - first) / rate + 1);
  uint64_t hash = 0;
  for (size_t i = 0; i < std::min(n, got.size()); ++i) {
    const int64_t t = first + (int64_t)i * rate;
    auto it = bins.find(t);
    OhlcTick want;
    if (it == bins.end()) {
      const float c = got[i - 1].close();
      want = Tick(t, c, c, c, c, 0);
      r.cover("backfilled");
    } else {
      double o = it->second.front()->price(), c = it->second.back()->price();
      double hi = o, lo = o, v = 0;
      for (auto* p : it->second) {
        hi = std::max<double>(hi, p->price());
        lo = std::min<double>(lo, p->price());
        v += p->volume();
      }
      want = Tick(t, o, hi, lo, c, v);
      if (it->second.size() > 1) r.cover("several records per tick");
    }
    if (!SameTick(got[i], want))
      r.fail("tick %zu is %s, expected %s", i, Str(got[i]).c_str(), Str(want).c_str());
    hash = mc::Mix(hash, mc::HashStr(got[i].SerializeAsString()));
  }
  if (got.size() != n) r.fail("%zu ticks, expected %zu", got.size(), n);
  r.state(hash);
}

MC_SPACE("H01", "histories",
         "all price histories of up to 4 (thorough 5) records: time step {0,1,rate-1,rate,rate+1,"
         "3*rate}, price {1,2,3.5}, volume {0,0.5}; offset within the first tick {0,1,rate-1}; rate {60,7}",
         [](Run& r) {
           const int n = r.choose(r.thorough() ? 6 : 5, "n");
           const int rate = r.choose(2, "rate") ? 7 : 60;
           const int offs[] = {0, 1, rate - 1};
           int64_t t = 1546300800LL / rate * rate + offs[n ? r.choose(3, "offset") : 0];
           const int64_t dts[] = {0, 1, rate - 1, rate, rate + 1, 3LL * rate};
           const float ps[] = {1, 2, 3.5f};
           PriceHistory h;
           for (int i = 0; i < n; ++i) {
             if (i) t += dts[r.choose(6, "dt")];
             const float p = ps[r.choose(3, "price")];
             const float v = r.choose(2, "volume") ? 0.5f : 0;
             h.push_back(Price(t, p, v));
           }
           CheckResample(r, h, rate);
         });

MC_SPACE("H01", "long",
         "48 (thorough 36) records (default: one record every 0.4 rate, price pattern) with up to 2 (thorough 3) deviations "
         "(time steps up to 40 rates, equal times, price spikes, zero volumes); rates {1,60,300,86400}; "
         "times around 2019, 2^31 and 2^33",
         [](Run& r) {
           const int rates[] = {60, 300, 86400, 1};
           const int rate = rates[r.choose(4, "rate")];
           const int64_t starts[] = {1546300800LL, 2147483648LL - 900, 8589934592LL};
           int64_t t = starts[r.choose(3, "start")];
           r.budget(r.thorough() ? 3 : 2);
           PriceHistory h;
           for (int i = 0; i < (r.thorough() ? 36 : 48); ++i) {
             float p = 100.0f + (i * 7 % 11), v = 0.25f * (1 + i % 5);
             int64_t dt = std::max<int64_t>(1, rate * 2 / 5);
             switch (r.deviate(6, "dev")) {
               case 1: dt = 0; break;
               case 2: dt = 40LL * rate; break;
               case 3: p = 500; break;
               case 4: p = 1; break;
               case 5: v = 0; break;
             }
             t += dt;
             h.push_back(Price(t, p, v));
           }
           CheckResample(r, h, rate);
         });

MC_SPACE("H01", "scale",
         "4000 records: 5 patterns of time steps (constant, bursts, gaps, many per tick, alternating), steps of {1,7,60,4000} s, "
         "rates {1,60,300,86400}, 3 start times, 2 price patterns",
         [](Run& r) {
           const int rates[] = {60, 300, 86400, 1};
           const int rate = rates[r.choose(4, "rate")];
           const int64_t steps[] = {1, 7, 60, 4000};
           const int64_t step = steps[r.choose(4, "step")];
           const int64_t starts[] = {1, 2147483648LL - 900, 8589934592LL};
           int64_t t = starts[r.choose(3, "start")];
           const int pattern = r.choose(5, "pattern"), prices = r.choose(2, "prices");
           if (step / rate >= 4000) r.prune();
           PriceHistory h;
           for (int i = 0; i < 4000; ++i) {
             int64_t dt = step;
             if (pattern == 1) dt = i % 50 < 40 ? 0 : step;
             if (pattern == 2) dt = i % 700 == 699 ? 300LL * rate : step;
             if (pattern == 3) dt = i % 9 == 0 ? 1 : 0;
             if (pattern == 4) dt = i % 2 ? step : rate;
             t += dt;
             h.push_back(prices ? Price(t, 6e4f + i * 37 % 1009, 1 / 1024.0f) : Price(t, 0.001f * (1 + i * 7 % 11), 0.25f * (i % 5)));
           }
           CheckResample(r, h, rate);
         });
MC_SPACE("H01", "counters",
         "70000 records with steps of {0,1,60} s (at most the rate), and the last one after {the same step, a gap of 70000 ticks}, rates {1,60}; 3 price patterns",
         [](Run& r) {
           const int rate = r.choose(2, "rate") ? 1 : 60;
           const int steps[] = {0, 1, 60};
           const int step = steps[r.choose(3, "step")];
           const bool gap = r.choose(2, "gap");
           const int prices = r.choose(3, "prices");
           if (step > rate) r.prune();
           int64_t t = 2147400000LL;
           PriceHistory h;
           for (int i = 0; i < 70000; ++i) {
             t += i == 69999 && gap ? 70000LL * rate : step;
             h.push_back(Price(t, prices == 0 ? 100 + i : prices == 1 ? 80000 - i : 100 + i * 37 % 1009, 0.5f));
           }
           CheckResample(r, h, rate);
         });

// ---------------------------------------------------------------- H02
// The rule, evaluated in double far from its thresholds.
struct RefOutliers {
  PriceHistory clean;
  std::vector<size_t> outliers;
  bool persistent = false, transient = false, close = false;  // close: within float noise of a limit
};
RefOutliers Outliers(const PriceHistory& h, double dev) {
  RefOutliers x;
  for (size_t i = 0; i < h.size(); ++i) {
    const auto valid = [&](size_t k) { return h[k].price() > 0 && h[k].volume() >= 0; };
    bool keep = valid(i);
    if (keep && !x.clean.empty()) {
      const PriceRecord& ref = x.clean.back();
      const double min = std::max(1.0, (h[i].timestamp_sec() - ref.timestamp_sec()) / 60.0);
      const double f = (1 + dev) * std::sqrt(min);
      const double up = ref.price() * f, down = ref.price() / f;
      const bool ju = h[i].price() > up, jd = h[i].price() < down;
      const auto near = [](double a, double b) { return std::fabs(a - b) < 2e-6 * b; };
      if (near(h[i].price(), up) || near(h[i].price(), down)) x.close = true;
      if (ju || jd) {
        const double limit = 0.8 * (ju ? up : down) + 0.2 * ref.price();
        int seen = 0, persist = 0;
        for (size_t k = i + 1; k < h.size() && seen < 10; ++k) {
          if (!valid(k)) continue;
          ++seen;
          if (near(h[k].price(), limit)) x.close = true;
          persist += ju ? h[k].price() > limit : h[k].price() < limit;
        }
        keep = persist >= 3;
        (keep ? x.persistent : x.transient) = true;
      }
    }
    if (keep) {
      x.clean.push_back(h[i]);
    } else {
      x.outliers.push_back(i);
    }
  }
  return x;
}
void CheckOutliers(Run& r, const PriceHistory& h, float dev) {
  Say(r, h);
  PriceHistory padded = h;  // must not look beyond the given range
  padded.push_back(Price(h.empty() ? 1 : h.back().timestamp_sec(), 1e6f, 1));
  padded.insert(padded.end(), 12, padded.back());
  std::vector<size_t> idx;
  const PriceHistory got =
      RemoveOutliers(padded.begin(), padded.begin() + h.size(), dev, &idx);
  // Nothing but invalid memory around the records.
  const PriceHistory tight(h.begin(), h.end());
  const PriceHistory got2 = RemoveOutliers(tight.begin(), tight.end(), dev, nullptr);
  r.step((int)h.size());
  const RefOutliers want = Outliers(h, dev);
  if (want.close) {
    r.cover("within float noise of a limit");
    return;
  }
  uint64_t hash = 0;
  for (size_t i : idx) hash = mc::Mix(hash, i + 1);
  r.outcome(hash);
  for (const auto& p : h) hash = mc::Mix(mc::Mix(hash, mc::Bits(p.price())), p.timestamp_sec());
  r.state(hash);
  if (want.persistent) r.cover("persistent jump kept");
  if (want.transient) r.cover("transient jump removed");
  if (idx != want.outliers) {
    std::string a, b;
    for (size_t i : idx) a += std::to_string(i) + " ";
    for (size_t i : want.outliers) b += std::to_string(i) + " ";
    r.fail("outliers { %s}, expected { %s}", a.c_str(), b.c_str());
  }
  auto same = [](const PriceHistory& a, const PriceHistory& b) {
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); ++i)
      if (!SameRecord(a[i], b[i])) return false;
    return true;
  };
  if (!same(got, want.clean))
    r.fail("the clean history (%zu records) differs from the input without the outliers (%zu)",
           got.size(), want.clean.size());
  if (!same(got2, want.clean)) r.fail("the clean history depends on the index output, or records beyond the range");
}

MC_SPACE("H02", "histories",
         "all price histories of up to 6 (thorough 7) records: price {100,103,110,180,60,0} and "
         "negative volume, time step {0/1 min,4 min} on the second and fifth record",
         [](Run& r) {
           const int n = r.choose(r.thorough() ? 8 : 7, "n");
           const float ps[] = {100, 103, 110, 180, 60, 0, 100};
           PriceHistory h;
           int64_t t = 1483228800;
           for (int i = 0; i < n; ++i) {
             t += (i == 1 || i == 4) && r.choose(2, "dt") ? 240 : (i % 2 ? 60 : 20);
             const int c = r.choose(7, "record");
             h.push_back(Price(t, ps[c], c == 6 ? -1.0f : (i % 2 ? 0.0f : 2.0f)));
           }
           CheckOutliers(r, h, 0.05f);
         });

MC_SPACE("H02", "lookahead",
         "a jump (up or down, with 0-2 previous records) followed by 11 (thorough 13) records, all "
         "combinations of {previous level, jump level, invalid record}, a minute apart or (with one previous record) all or in pairs at "
         "the same time",
         [](Run& r) {
           const bool up = r.choose(2, "direction") == 0;
           const int before = r.choose(3, "before");
           const int stamps = before == 1 ? r.choose(3, "stamps") : 0;
           PriceHistory h;
           int64_t t = 2147483648LL - 300;
           for (int i = 0; i < before; ++i) h.push_back(Price(t += 60, 100, 1));
           const float level = up ? 130 : 70;
           h.push_back(Price(t += 60, level, 1));
           for (int i = 0; i < (r.thorough() ? 13 : 11); ++i) {
             const int c = r.choose(3, "record");
             t += stamps == 0 || (stamps == 2 && i % 2) ? 60 : 0;
             h.push_back(c == 0   ? Price(t, 100, 1)
                         : c == 1 ? Price(t, level, 0)
                                  : Price(t, i % 2 ? 0 : level, i % 2 ? 1 : -1));
           }
           CheckOutliers(r, h, 0.1f);
         });

MC_SPACE("H02", "levels",
         "14 (thorough 17) records with up to 3 (thorough 4) deviations: levels around the allowed deviation and the "
         "persistence level, long gaps, invalid records, level shifts",
         [](Run& r) {
           r.budget(r.thorough() ? 4 : 3);
           PriceHistory h;
           int64_t t = 1500000000;
           float level = 100;
           for (int i = 0; i < (r.thorough() ? 17 : 14); ++i) {
             float p = level, v = 1;
             int64_t dt = 60;
             switch (r.deviate(9, "dev")) {
               case 1: p = level * 1.045f; break;   // within the deviation
               case 2: p = level * 1.06f; break;    // above it
               case 3: p = level * 0.965f; break;   // within
               case 4: p = level * 0.93f; break;    // below
               case 5: level *= 1.08f; p = level; break;   // level shift up
               case 6: level *= 0.85f; p = level; break;   // level shift down
               case 7: dt = 36000; p = level * 9; break;   // long gap widens the limit
               case 8: p = i % 2 ? -5 : 0; break;
             }
             t += dt;
             h.push_back(Price(t, p, v));
           }
           CheckOutliers(r, h, 0.05f);
         });

MC_SPACE("H02", "exact",
         "two records exactly at, 0.1 percent within or beyond the allowed deviation, upwards and downwards, with deviations {0.25,0.5,1} over "
         "{0.5,1,4,16} minutes, as the last records or followed by 2 at the first level",
         [](Run& r) {
           const int d = r.choose(3, "deviation"), m = r.choose(4, "minutes"), where = r.choose(3, "where");
           const bool up = r.choose(2, "up"), followed = r.choose(2, "followed");
           const float devs[] = {0.25f, 0.5f, 1}, levels[] = {10, 12, 8};
           const int64_t secs[] = {30, 60, 240, 960};
           const float factor = (1 + devs[d]) * (m < 2 ? 1 : m == 2 ? 2 : 4);  // exact, like all prices at the limit
           const float level = levels[d], limit = up ? level * factor : level / factor;
           const float by[] = {1, 0.999f, 1.001f};
           PriceHistory h = {Price(1000, level, 1), Price(1000 + secs[m], up ? limit * by[where] : limit / by[where], 1)};
           if (followed) h.insert(h.end(), 2, Price(1001 + secs[m], level, 1));
           std::vector<size_t> idx;
           const PriceHistory got = RemoveOutliers(h.begin(), h.end(), devs[d], &idx);
           r.step();
           r.state(((d * 4 + m) * 3 + where) * 4 + up * 2 + followed);
           const bool outlier = std::find(idx.begin(), idx.end(), 1) != idx.end();
           r.cover(outlier ? "removed" : "kept");
           if (outlier != (where == 2) || got.size() + idx.size() != h.size())
             r.fail("the record is %s, the allowed price %.9g", outlier ? "removed" : "kept", limit);
         });
MC_SPACE("H02", "scale",
         "600 records: jumps of {1,2,3,4,9,12} records every {5,14,100} records, up, down or alternating, by {1.2,3,1000} times the allowed "
         "deviation, invalid records in none, every 3rd or every 7th place; deviations {0.01,0.05,0.3}; levels {1e-4,100,6e4}; "
         "time steps {0,1,60,600} s",
         [](Run& r) {
           const int lens[] = {1, 2, 3, 4, 9, 12}, everys[] = {5, 14, 100}, invalids[] = {0, 3, 7};
           const int len = lens[r.choose(6, "burst")], every = everys[r.choose(3, "every")];
           if (len >= every) r.prune();
           const int direction = r.choose(3, "direction");
           const double factors[] = {1.2, 3, 1000}, devs[] = {0.05, 0.01, 0.3}, levels[] = {100, 1e-4, 6e4};
           const double factor = factors[r.choose(3, "factor")], dev = devs[r.choose(3, "deviation")];
           const double level = levels[r.choose(3, "level")];
           const int invalid = invalids[r.choose(3, "invalid")];
           const int64_t dts[] = {60, 1, 600, 0};
           const int64_t dt = dts[r.choose(4, "step")];
           PriceHistory h;
           int64_t t = 2147483647LL - 20000;
           for (int i = 0; i < 600; ++i) {
             const int b = i / every;
             double p = level * (1 + 0.1 * dev * (i % 3));
             if (b > 0 && i % every < len) {
               const double f = 1 + dev * factor * std::sqrt(std::max(1.0, dt / 60.0));
               p = direction == 0 || (direction == 2 && b % 2) ? p * f : p / f;
             }
             t += dt;
             h.push_back(Price(t, invalid && i % invalid == 1 ? (i % 2 ? 0 : -1) : (float)p, i % 4));
           }
           CheckOutliers(r, h, (float)dev);
         });

MC_SPACE("H02", "days",
         "a jump up or down after a gap of {1,59,61 min, 23 h, 25 h, 30 d, 1 y, 2^31 s, 2^32 s and a minute} (or as many records before it a "
         "minute apart), {0.5,0.98,1.02,2} times the allowed deviation, followed by up to 11 records a minute, an hour, 25 h, 30 d or 2^31 s apart, "
         "persisting in all, none, the first or last {2,3}, or every other one; deviations {0.01,0.1,0.5}",
         [](Run& r) {
           const int64_t gaps[] = {60, 3540, 3660, 23 * 3600, 25 * 3600, 30 * 86400, 365 * 86400, 1LL << 31, (1LL << 32) + 60};
           const int64_t gap = gaps[r.choose(9, "gap")];
           const int64_t steps[] = {60, 3600, 25 * 3600, 30 * 86400, 1LL << 31};
           const int64_t step = steps[r.choose(5, "step")];
           const double factors[] = {1.02, 0.98, 0.5, 2}, devs[] = {0.1, 0.01, 0.5};
           const double factor = factors[r.choose(4, "factor")], dev = devs[r.choose(3, "deviation")];
           const bool up = r.choose(2, "up");
           const int n = r.choose(12, "records"), shape = r.choose(7, "shape");
           const double jump = factor * (1 + dev) * std::sqrt(gap / 60.0);
           const double level = up ? 100 * jump : 100 / jump;
           PriceHistory h;
           int64_t t = 1483228800;
           for (int i = 0; i < 2; ++i) h.push_back(Price(t += 60, 100, 1));
           h.push_back(Price(t += gap, (float)level, 1));
           for (int i = 0; i < n; ++i) {
             const bool stays = shape == 0   ? true
                                : shape == 1 ? false
                                : shape <= 3 ? i < shape
                                : shape <= 5 ? i >= n - (shape - 2)
                                             : i % 2 == 0;
             h.push_back(Price(t += step, stays ? (float)level : 100, 1));
           }
           CheckOutliers(r, h, (float)dev);
         });

MC_SPACE("H02", "counters",
         "70000 records a second apart, with invalid records and single jumps at {none, every 1000th, around 255, 32767 and 65535 and the last ones} places, "
         "deviations {0.05,0.5}",
         [](Run& r) {
           const int kind = r.choose(3, "outliers");
           const float dev = r.choose(2, "deviation") ? 0.5f : 0.05f;
           const bool up = r.choose(2, "up");
           std::vector<size_t> want, got;
           PriceHistory h;
           for (int i = 0; i < 70000; ++i) {
             const bool border = (i > 250 && i < 260) || (i > 32760 && i < 32775) || (i > 65530 && i < 65545) || i > 69990;
             const bool out = kind == 1 ? i % 1000 == 999 : kind == 2 && border && i % 3 == 0;
             if (out) want.push_back(i);
             h.push_back(Price(1483228800 + i, out ? (i % 2 ? 0 : up ? 1000 : 1) : 100 + i % 2, 1));
           }
           const PriceHistory clean = RemoveOutliers(h.begin(), h.end(), dev, &got);
           r.step(70000);
           r.state(mc::Mix(kind, (dev > 0.1f) * 2 + up));
           if (got != want) {
             size_t i = 0;
             while (i < got.size() && i < want.size() && got[i] == want[i]) ++i;
             r.fail("%zu outliers, expected %zu; outlier %zu is %zd, expected %zd", got.size(), want.size(), i,
                    i < got.size() ? (ssize_t)got[i] : -1, i < want.size() ? (ssize_t)want[i] : -1);
           }
           if (clean.size() + want.size() != h.size()) r.fail("%zu records are kept", clean.size());
         });

// ---------------------------------------------------------------- H03
void CheckGaps(Run& r, const PriceHistory& h, int64_t start, int64_t end, size_t top) {
  Say(r, h);
  r.say("start=%lld end=%lld top_n=%zu", (long long)start, (long long)end, top);
  PriceHistory padded = h;
  padded.push_back(Price(9999999999LL, 1, 1));
  const auto got = GetPriceHistoryGaps(padded.begin(), padded.begin() + h.size(), start, end, top);
  // Nothing but invalid memory around the records.
  const PriceHistory tight(h.begin(), h.end());
  if (GetPriceHistoryGaps(tight.begin(), tight.end(), start, end, top) != got)
    r.fail("the gaps depend on records beyond the range");
  r.step((int)h.size() + 1);
  std::vector<HistoryGap> all;
  if (!h.empty()) {
    if (start > 0) all.push_back({start, h.front().timestamp_sec()});
    for (size_t i = 1; i < h.size(); ++i)
      all.push_back({h[i - 1].timestamp_sec(), h[i].timestamp_sec()});
    if (end > 0) all.push_back({h.back().timestamp_sec(), end});
  }
  const size_t want = std::min(top, all.size());
  if (got.size() != want) r.fail("%zu gaps, expected %zu", got.size(), want);
  std::vector<HistoryGap> rest = all;
  uint64_t hash = mc::Mix(top, all.size());
  for (size_t i = 0; i < got.size(); ++i) {
    auto it = std::find(rest.begin(), rest.end(), got[i]);
    if (it == rest.end())
      r.fail("(%lld,%lld) is not a gap of the history", (long long)got[i].first,
             (long long)got[i].second);
    rest.erase(it);
    if (i && !(got[i - 1].first < got[i].first ||
               (got[i - 1].first == got[i].first && got[i - 1].second <= got[i].second)))
      r.fail("gaps are not sorted chronologically");
    hash = mc::Mix(mc::Mix(hash, got[i].first), got[i].second);
  }
  for (const auto& g : got)
    for (const auto& o : rest)
      if (o.second - o.first > g.second - g.first)
        r.fail("gap of %lld s reported, but not the larger one of %lld s",
               (long long)(g.second - g.first), (long long)(o.second - o.first));
  if (!rest.empty()) r.cover("smaller gaps left out");
  r.state(hash);
}
MC_SPACE("H03", "histories",
         "all histories of up to 6 (thorough 7) records with time steps {0,1,2,5,90000}; start {none, at the "
         "first record, 3 s before}, end {none, at the last record, 3 s after}; top_n 0..5",
         [](Run& r) {
           const int n = r.choose(r.thorough() ? 8 : 7, "n");
           const size_t top = r.choose(6, "top_n");
           const int s = r.choose(3, "start"), e = r.choose(3, "end");
           const int64_t dts[] = {0, 1, 2, 5, 90000};
           int64_t t = 2147483640LL;
           PriceHistory h;
           for (int i = 0; i < n; ++i) {
             if (i) t += dts[r.choose(5, "dt")];
             h.push_back(Price(t, 1, 1));
           }
           CheckGaps(r, h, s ? 2147483640LL - (s == 2 ? 3 : 0) : 0, e ? t + (e == 2 ? 3 : 0) : 0,
                     top);
         });
MC_SPACE("H03", "counters",
         "70000 records every {60,0} s, or with steps that grow or shrink, and up to 2 larger steps at {the first, the 300th, the 65537th, the last} "
         "records; top_n {1,2,3,300}, start and end given or not",
         [](Run& r) {
           const size_t tops[] = {1, 2, 3, 300};
           const size_t top = tops[r.choose(4, "top_n")];
           const int shape = r.choose(4, "shape"), ends = r.choose(2, "ends") * 100;
           const int at[] = {1, 300, 65537, 69999};
           const int a = at[r.choose(4, "first")], b = at[r.choose(4, "second")];
           const int64_t start = 2147000000LL;
           int64_t t = start;
           PriceHistory h;
           for (int i = 0; i < 70000; ++i) {
             if (i) t += i == a ? 500000 : i == b ? 400000 : shape == 0 ? 60 : shape == 1 ? 0 : shape == 2 ? i : 70000 - i;
             h.push_back(Price(t, 1, 1));
           }
           CheckGaps(r, h, ends ? start - ends : 0, ends ? t + ends : 0, top);
         });
MC_SPACE("H03", "long",
         "60 (thorough 40) records every 60 s with up to 2 (thorough 3) deviating steps {0,61,3600,2^33}; top_n {1,2,5,50 (30),all but one,all,200}",
         [](Run& r) {
           const size_t tops[] = {1, 2, 5, r.thorough() ? 30u : 50u, r.thorough() ? 38u : 58u, r.thorough() ? 39u : 59u, 200};
           const size_t top = tops[r.choose(7, "top_n")];
           r.budget(r.thorough() ? 3 : 2);
           const int64_t dts[] = {60, 0, 61, 3600, 8589934592LL};
           int64_t t = 1000000000;
           PriceHistory h;
           for (int i = 0; i < (r.thorough() ? 40 : 60); ++i) {
             t += dts[r.deviate(5, "dt")];
             h.push_back(Price(t, 1, 1));
           }
           CheckGaps(r, h, 0, 0, top);
         });

// ---------------------------------------------------------------- H04
void CheckContexts(Run& r, const std::vector<size_t>& idx, size_t size, size_t left, size_t right, size_t last) {
  const auto got = GetOutlierIndicesWithContext(idx, size, left, right, last);
  r.step();
  std::vector<size_t> sel = idx;
  if (last > 0 && sel.size() > last) {
    sel.erase(sel.begin(), sel.end() - last);
    r.cover("earlier outliers left out");
  }
  std::map<size_t, bool> want;
  for (size_t j : sel) {
    for (size_t k = j - std::min(j, left); k < j; ++k) want[k] |= false;
    for (size_t k = j + 1; k < size && k - j <= right; ++k) want[k] |= false;
    want[j] = true;
  }
  uint64_t hash = size;
  for (auto& p : got) hash = mc::Mix(mc::Mix(hash, p.first), p.second);
  r.state(hash);
  if (got != want) {
    std::string a, b;
    for (auto& p : got) a += std::to_string(p.first) + (p.second ? "x " : " ");
    for (auto& p : want) b += std::to_string(p.first) + (p.second ? "x " : " ");
    r.fail("size=%zu left=%zu right=%zu last_n=%zu: { %s}, expected { %s}", size, left, right,
           last, a.substr(0, 200).c_str(), b.substr(0, 200).c_str());
  }
}
MC_SPACE("H04", "contexts",
         "all sets of outlier indices of histories of up to 9 (thorough 12) records; left and right context "
         "{0,1,2,3,100}; last_n {0,1,2,3,50}",
         [](Run& r) {
           const size_t size = 1 + r.choose(r.thorough() ? 12 : 9, "size");
           const size_t cs[] = {0, 1, 2, 3, 100};
           const size_t ls[] = {0, 1, 2, 3, 50};
           const size_t left = cs[r.choose(5, "left")], right = cs[r.choose(5, "right")];
           const size_t last = ls[r.choose(5, "last_n")];
           std::vector<size_t> idx;
           for (size_t i = 0; i < size; ++i)
             if (r.choose(2, "outlier")) idx.push_back(i);
           CheckContexts(r, idx, size, left, right, last);
         });
MC_SPACE("H04", "long",
         "histories of 300 and 70000 records, all sets of outliers at 11 indices (the borders, around 255 and 65535, neighbours); "
         "left and right context {0,1,5,40}; last_n {0,1,3}",
         [](Run& r) {
           const size_t size = r.choose(2, "size") ? 70000 : 300;
           const size_t cs[] = {0, 1, 5, 40};
           const size_t ls[] = {0, 1, 3};
           const size_t left = cs[r.choose(4, "left")], right = cs[r.choose(4, "right")];
           const size_t last = ls[r.choose(3, "last_n")];
           const size_t at[] = {0, 3, 100, 254, 256, 261, 280, 65535, 65540, size - 2, size - 1};
           std::vector<size_t> idx;
           for (size_t i : at)
             if (i < size && (idx.empty() || i > idx.back()) && r.choose(2, "outlier")) idx.push_back(i);
           CheckContexts(r, idx, size, left, right, last);
         });

MC_SPACE("H04", "scale",
         "{256,257,300,1000,66000} outliers, every {1,2,7} records; left and right context {0,2,300}; last_n {0,1,20,43,255,256,299,65540}",
         [](Run& r) {
           const size_t ns[] = {300, 256, 257, 1000, 66000}, everys[] = {1, 2, 7}, cs[] = {0, 2, 300};
           const size_t ls[] = {0, 1, 20, 43, 255, 256, 299, 65540};
           const size_t n = ns[r.choose(5, "outliers")], every = everys[r.choose(3, "every")];
           const size_t left = cs[r.choose(3, "left")], right = cs[r.choose(3, "right")], last = ls[r.choose(8, "last_n")];
           if (n > 1000 && left + right > 4 && (last == 0 || last > 300)) r.prune();
           std::vector<size_t> idx;
           for (size_t i = 0; i < n; ++i) idx.push_back(3 + every * i);
           CheckContexts(r, idx, every * n + 3, left, right, last);
         });

// ---------------------------------------------------------------- H05
template <typename T>
T Rec(int64_t t, int id);
template <>
OhlcTick Rec<OhlcTick>(int64_t t, int id) {
  return Tick(t, 1, 2, 1, 2, id);
}
template <>
PriceRecord Rec<PriceRecord>(int64_t t, int id) {
  return Price(t, 1, id);
}
template <>
SideInputRecord Rec<SideInputRecord>(int64_t t, int id) {
  SideInputRecord s;
  s.set_timestamp_sec(t);
  s.add_signal(id);
  return s;
}
template <typename T>
std::vector<T> Recs(const std::vector<int64_t>& ts) {
  std::vector<T> h;
  for (size_t i = 0; i < ts.size(); ++i) h.push_back(Rec<T>(ts[i], (int)i));
  return h;
}
template <typename T>
void CheckSubset(Run& r, const std::vector<int64_t>& ts, const std::vector<T>& h, int64_t start, int64_t end) {
  const auto sub = HistorySubset(h, start, end);
  const std::vector<T> copy = HistorySubsetCopy(h, start, end);
  r.step(2);
  std::vector<size_t> want;
  for (size_t i = 0; i < h.size(); ++i)
    if ((start <= 0 || ts[i] >= start) && (end <= 0 || ts[i] < end)) want.push_back(i);
  r.state(mc::Mix(mc::Mix(ts.size(), want.size()), want.empty() ? 99 : want[0]));
  if (sub.second - sub.first != (long)want.size())
    r.fail("[%lld,%lld) selects %ld records, expected %zu", (long long)start, (long long)end,
           (long)(sub.second - sub.first), want.size());
  if (copy.size() != want.size())
    r.fail("[%lld,%lld) copies %zu records, expected %zu", (long long)start, (long long)end,
           copy.size(), want.size());
  if (!want.empty() && sub.first != h.begin() + want[0]) r.fail("wrong first record selected");
  for (size_t i = 0; i < want.size(); ++i)
    if (want.size() > 100 && i > 3 && i + 4 < want.size() ? copy[i].timestamp_sec() != ts[want[i]]
                                                          : copy[i].SerializeAsString() != h[want[i]].SerializeAsString())
      r.fail("record %zu differs from the original", i);
  if (want.empty() && !h.empty()) r.cover("empty selection");
}
MC_SPACE("H05", "subsets",
         "all sorted histories (with equal times) of up to 6 (thorough 7) records over 7 instants (around 2^31), "
         "all intervals over {unbounded, negative, 9 instants}, 3 record types",
         [](Run& r) {
           const int type = r.choose(3, "type");
           const int64_t base = 2147483644LL;
           const int s = r.choose(11, "start"), e = r.choose(11, "end");
           const int64_t start = s == 0 ? 0 : s == 10 ? -5 : base + s - 1;
           const int64_t end = e == 0 ? 0 : e == 10 ? -5 : base + e - 1;
           const int n = r.choose(r.thorough() ? 8 : 7, "n");
           std::vector<int64_t> ts;
           int cur = 0;
           for (int i = 0; i < n; ++i) {
             cur += r.choose(7 - cur, "time");
             ts.push_back(base + 1 + cur);
           }
           if (r.verbose()) {
             for (int64_t t : ts) r.say("t=%lld", (long long)t);
             r.say("[%lld,%lld)", (long long)start, (long long)end);
           }
           if (type == 0) CheckSubset(r, ts, Recs<OhlcTick>(ts), start, end);
           if (type == 1) CheckSubset(r, ts, Recs<PriceRecord>(ts), start, end);
           if (type == 2) CheckSubset(r, ts, Recs<SideInputRecord>(ts), start, end);
         });

MC_SPACE("H05", "large",
         "70000 records, every 3 s or in pairs of equal times: all intervals with start and end unbounded or up to 1 s around 5 records "
         "(the borders, around 255 and 65535), 3 record types",
         [](Run& r) {
           static const auto* all = [] {
             auto* v = new std::array<std::vector<int64_t>, 2>;
             for (int i = 0; i < 70000; ++i)
               for (int k = 0; k < 2; ++k) (*v)[k].push_back(2147400000LL + 3 * (k ? i / 2 : i));
             return v;
           }();
           const int pairs = r.choose(2, "pairs"), type = r.choose(3, "type");
           const std::vector<int64_t>& ts = (*all)[pairs];
           const int at[] = {0, 256, 40000, 65536, 69999};
           const auto bound = [&](const char* what) {
             const int k = r.choose(16, what);
             return k == 0 ? 0 : ts[at[(k - 1) / 3]] + (k - 1) % 3 - 1;
           };
           const int64_t start = bound("start"), end = bound("end");
           static std::vector<OhlcTick> ho[2];
           static std::vector<PriceRecord> hp[2];
           static std::vector<SideInputRecord> hs[2];
           if (type == 0 && ho[pairs].empty()) ho[pairs] = Recs<OhlcTick>(ts);
           if (type == 1 && hp[pairs].empty()) hp[pairs] = Recs<PriceRecord>(ts);
           if (type == 2 && hs[pairs].empty()) hs[pairs] = Recs<SideInputRecord>(ts);
           if (type == 0) CheckSubset(r, ts, ho[pairs], start, end);
           if (type == 1) CheckSubset(r, ts, hp[pairs], start, end);
           if (type == 2) CheckSubset(r, ts, hs[pairs], start, end);
         });

// ---------------------------------------------------------------- S01
SideHistory Side(const std::vector<int64_t>& ts, int signals) {
  SideHistory h;
  for (size_t i = 0; i < ts.size(); ++i) {
    h.emplace_back();
    h.back().set_timestamp_sec(ts[i]);
    for (int k = 0; k < signals; ++k) h.back().add_signal(0.5f + 16 * i + k);
  }
  return h;
}
int Latest(const std::vector<int64_t>& ts, int64_t t) {
  int x = -1;
  for (size_t i = 0; i < ts.size(); ++i)
    if (ts[i] <= t) x = (int)i;
  return x;
}
void CheckQuery(Run& r, const SideInput& in, const std::vector<int64_t>& ts, int64_t t, int hint) {
  const int want = Latest(ts, t);
  const int a = in.GetSideInputIndex(t);
  const int b = in.GetSideInputIndex(t, hint);
  r.step(2);
  if (a != want) r.fail("record %d at the time %lld, expected %d", a, (long long)t, want);
  if (b != want)
    r.fail("record %d at the time %lld with the hint %d, expected %d", b, (long long)t, hint, want);
}
void CheckContent(Run& r, const SideInput& in, const SideHistory& h, int signals) {
  if (in.GetNumberOfRecords() != (int)h.size() || in.GetNumberOfSignals() != signals)
    r.fail("%d records with %d signals, expected %zu and %d", in.GetNumberOfRecords(),
           in.GetNumberOfSignals(), h.size(), signals);
  for (size_t i = 0; i < h.size(); ++i) {
    if (in.GetSideInputTimestamp((int)i) != h[i].timestamp_sec()) r.fail("wrong timestamp");
    std::vector<float> v = {-7};
    in.GetSideInputSignals((int)i, v);
    if ((int)v.size() != signals + 1 || v[0] != -7) r.fail("signals are not appended");
    for (int k = 0; k < signals; ++k)
      if (v[k + 1] != h[i].signal(k) || in.GetSideInputSignal((int)i, k) != h[i].signal(k))
        r.fail("wrong signal %d of the record %zu", k, i);
  }
}
MC_SPACE("S01", "lookups",
         "all non-empty sets of up to 8 (thorough 10) record times over as many instants (around 2^31), 0-3 signals; all "
         "query times and all hints that are not after the query",
         [](Run& r) {
           const int m = r.thorough() ? 10 : 8;
           const int signals = r.choose(4, "signals");
           std::vector<int64_t> ts;
           for (int i = 0; i < m; ++i)
             if (r.choose(2, "record")) ts.push_back(2147483644LL + i);
           if (ts.empty()) r.prune();
           const SideHistory h = Side(ts, signals);
           const SideInput in(h);
           CheckContent(r, in, h, signals);
           const int64_t t = 2147483643LL + r.choose(m + 2, "query");
           const int hint = r.choose(Latest(ts, t) + 2, "hint") - 1;
           r.state(mc::Mix(mc::Mix(ts.size(), Latest(ts, t) + 1), hint + 1));
           CheckQuery(r, in, ts, t, hint);
         });
MC_SPACE("S01", "long",
         "100 records (default every 10 s; up to 1 (thorough 2) deviating steps {1,1000,2^32}); queries at and around every "
         "10th record with every 7th hint",
         [](Run& r) {
           r.budget(r.thorough() ? 2 : 1);
           const int64_t dts[] = {10, 1, 1000, 4294967296LL};
           std::vector<int64_t> ts;
           int64_t t = 5;
           for (int i = 0; i < 100; ++i) ts.push_back(t += dts[r.deviate(4, "dt")]);
           const SideHistory h = Side(ts, 2);
           const SideInput in(h);
           CheckContent(r, in, h, 2);
           for (int i = 0; i < 100; i += (i % 10 == 0 ? 9 : 1) * (i >= 90 ? 0 : 1) + (i >= 90))
             for (int64_t d = -1; d <= 1; ++d) {
               const int last = Latest(ts, ts[i] + d);
               for (int hint = -1; hint <= last; hint += 7) CheckQuery(r, in, ts, ts[i] + d, hint);
               if (last >= 1) CheckQuery(r, in, ts, ts[i] + d, last - 1);
               if (last >= 2) CheckQuery(r, in, ts, ts[i] + d, last - 2);
               if (last >= 0) CheckQuery(r, in, ts, ts[i] + d, last);
             }
           r.state(mc::Mix(ts[50], ts[99]));
         });
MC_SPACE("S01", "large",
         "70000 records every 3 s: queries up to 1 s around 10 records (the borders, around 255 and 65535), with all hints up to 2 "
         "around the same records and the answer",
         [](Run& r) {
           static const auto* ts = [] {
             auto* v = new std::vector<int64_t>;
             for (int i = 0; i < 70000; ++i) v->push_back(2147400000LL + 3 * i);
             return v;
           }();
           static const SideInput* in = new SideInput(Side(*ts, 1));
           const int at[] = {0, 1, 254, 255, 256, 40000, 65535, 65536, 69998, 69999};
           const int64_t t = (*ts)[at[r.choose(10, "record")]] + r.choose(3, "delta") - 1;
           const int last = Latest(*ts, t);
           const int k = r.choose(11, "hint near");
           const int hint = (k ? at[k - 1] : last) + r.choose(5, "hint delta") - 2;
           if (hint < -1 || hint > last) r.prune();
           r.state(mc::Mix(last + 1, hint + 1));
           CheckQuery(r, *in, *ts, t, hint);
         });
MC_SPACE("S01", "contents",
         "{1,200,300,20000,70000} records of {1,2,5,129,257,33000,70000} signals (up to 3 million values, all different): the time and all "
         "signals of every record",
         [](Run& r) {
           const int ns[] = {1, 200, 300, 20000, 70000}, ks[] = {1, 2, 5, 129, 257, 33000, 70000};
           const int n = ns[r.choose(5, "records")], k = ks[r.choose(7, "signals")];
           if ((int64_t)n * k > 3000000) r.prune();
           SideHistory h(n);
           int x = 0;
           for (int i = 0; i < n; ++i) {
             h[i].set_timestamp_sec(2147400000LL + 3 * i);
             for (int j = 0; j < k; ++j) h[i].add_signal((float)x++);
           }
           const SideInput in(h);
           r.step(n);
           r.state(mc::Mix(n, k));
           r.cover(x > 65536 ? "more than 65536 values" : x > 32768 ? "more than 32768 values" : "fewer values");
           CheckContent(r, in, h, k);
         });
MC_SPACE("S01", "walks",
         "all nondecreasing query walks of up to 5 (thorough 6) steps over 6 records, each query hinted with the "
         "previous answer",
         [](Run& r) {
           const std::vector<int64_t> ts = {10, 11, 13, 20, 21, 40};
           const SideInput in(Side(ts, 1));
           int64_t t = 8;
           int hint = -1;
           const int64_t dts[] = {0, 1, 2, 3, 7, 8, 30};
           for (int i = 0; i < (r.thorough() ? 6 : 5); ++i) {
             t += dts[r.choose(7, "dt")];
             CheckQuery(r, in, ts, t, hint);
             hint = in.GetSideInputIndex(t, hint);
             r.state(mc::Mix(t, hint + 1));
           }
         });
}  // namespace
