// E06: data race monitor. The batches run freely under ThreadSanitizer.
#include "batch_common.h"
#include "traders/trader_factory.h"

using namespace vt;

namespace {
MC_SPACE("E06", "races",
         "ThreadSanitizer over free-running batches: {1,2,3,8,20} traders, {1,4,24} ticks, with and without side input, "
         "fast mode and monthly periods; 3 (thorough 30) repetitions",
         [](Run& r) {
           const int ns[] = {2, 1, 3, 8, 20}, ts[] = {4, 1, 24};
           const int n = ns[r.choose(5, "traders")];
           const int ticks = ts[r.choose(3, "ticks")];
           const bool side = r.choose(2, "side") == 0, fast = r.choose(2, "fast") == 1;
           const int months = r.choose(2, "months");
           r.choose(r.thorough() ? 30 : 3, "repetition");
           BatchCase c;
           BuildCase(&c, n, ticks, side, fast, months, false);
           r.step(n);
           r.state(mc::Mix(n, ticks * 8 + side * 4 + fast * 2 + months));
           const std::string e = CompareResults(
               c, EvaluateBatchOfTraders(c.account, c.eval, c.history, c.side.get(), c.emitters));
           if (!e.empty()) r.fail("%s", e.c_str());
         },
         false, 0, 60, 16);
MC_SPACE("E06", "traders",
         "ThreadSanitizer over free-running batches of the built-in traders: the batches of both kinds (all, first 8, last 8), 60 ticks a "
         "minute or an hour less a second apart, with and without side input, fast mode and monthly periods; 2 (thorough 10) repetitions",
         [](Run& r) {
           const bool stop = r.choose(2, "kind");
           const int part = r.choose(3, "part");
           const int64_t dt = (const int64_t[]){3599, 60}[r.choose(2, "dt")];
           const bool side = r.choose(2, "side") == 1, fast = r.choose(2, "fast") == 1;
           const int months = r.choose(2, "months");
           r.choose(r.thorough() ? 10 : 2, "repetition");
           BatchCase c;
           BuildCase(&c, 0, 4, side, fast, months, false);
           c.history.clear();
           float price = 16;
           for (int i = 0; i < 60; ++i) {
             const float open = price;
             price *= i % 9 < 5 ? 1.125f : 0.875f;
             // Across the end of a month.
             c.history.push_back(Tick(1548892800 + 86400 - 30 * dt + i * dt, open, std::max(open, price) * 1.0625f,
                                      std::min(open, price) * 0.9375f, price, 4096));
           }
           auto all = GetBatchOfTraders(stop ? "stop" : "rebalancing");
           const size_t n = all.size();
           for (size_t i = 0; i < n; ++i)
             if (part == 0 || (part == 1 ? i < 8 : i + 8 >= n)) c.emitters.push_back(std::move(all[i]));
           if (c.emitters.empty()) r.fail("no traders");
           const auto got = EvaluateBatchOfTraders(c.account, c.eval, c.history, c.side.get(), c.emitters);
           r.step((int)c.emitters.size());
           if (got.size() != c.emitters.size()) r.fail("%zu results for %zu traders", got.size(), c.emitters.size());
           for (size_t i = 0; i < got.size(); ++i) {
             const EvaluationResult want = EvaluateTrader(c.account, c.eval, c.history, c.side.get(), *c.emitters[i], nullptr);
             r.state(mc::Mix(i, stop * 64 + part * 16 + (dt == 60) * 8 + side * 4 + fast * 2 + months));
             if (got[i].SerializeAsString() != want.SerializeAsString())
               r.fail("the result of %s differs from evaluating the trader alone:\n%s\nexpected\n%s", want.name().c_str(),
                      got[i].ShortDebugString().c_str(), want.ShortDebugString().c_str());
             if (want.period(0).result().total_executed_orders()) r.cover("trades");
           }
         },
         false, 0, 60, 16);
}  // namespace
