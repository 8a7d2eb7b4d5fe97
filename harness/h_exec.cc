// Exhaustive exploration of trader executions: every history over a tick
// alphabet x every decision of the trader, on the real ExecuteTrader, against
// the causal reference model in exec_common.h.
#include <map>
#include <sstream>

#include "exec_common.h"
#include "logging/csv_logger.h"

using namespace vt;

namespace {
struct Alphabet {
  std::vector<OhlcTick> ticks;  // timestamps are replaced
  std::vector<std::vector<Order>> emissions;
};
Order M(Order::Side s, bool base, float amount) {
  return MakeOrder(Order::MARKET, s, base, amount, 0);
}
const Order kBuyQ = M(Order::BUY, false, 20), kSellB = M(Order::SELL, true, 4),
            kBuyB = M(Order::BUY, true, 1), kSellB1 = M(Order::SELL, true, 1),
            kLimBuy = MakeOrder(Order::LIMIT, Order::BUY, true, 2, 3),
            kLimSellQ = MakeOrder(Order::LIMIT, Order::SELL, false, 9, 8),
            kLimSell = MakeOrder(Order::LIMIT, Order::SELL, true, 3, 5),
            kStopSell = MakeOrder(Order::STOP, Order::SELL, true, 3, 3),
            kStopBuyQ = MakeOrder(Order::STOP, Order::BUY, false, 12, 6);

const Alphabet& A(bool zero) {
  static const Alphabet* v[2] = {};
  if (v[zero] == nullptr) {
    auto* a = new Alphabet;
    a->ticks = {Tick(0, 4, 8, 2, 4, 8), Tick(0, 4, 4, 4, 4, 2), Tick(0, 8, 8, 4, 6, 16),
                Tick(0, 2, 4, 2, 3, 4)};
    if (zero) {
      a->ticks[2] = Tick(0, 4, 4, 4, 4, 0);
      a->ticks[3] = Tick(0, 2, 8, 2, 8, 0);
    }
    a->emissions = {{},
                    {kBuyQ},
                    {kSellB},
                    {kBuyQ, kSellB},
                    {kSellB, kBuyQ},
                    {kLimBuy, kStopSell},
                    {kStopBuyQ, kLimSellQ, kBuyB},
                    {kLimSell, kLimSell, kSellB1}};
    v[zero] = a;
  }
  return *v[zero];
}
AccountConfig Config(Run& r) {
  AccountConfig c;
  c.set_start_base_balance(6);
  c.set_start_quote_balance(26);
  c.set_base_unit(0.25f);
  c.set_quote_unit(0.5f);
  c.set_market_liquidity(0.5f);
  c.set_max_volume_ratio(r.choose(2, "ratio") ? 0.0f : 0.5f);
  c.mutable_market_order_fee_config()->set_relative_fee(0.125f);
  c.mutable_stop_order_fee_config()->set_fixed_fee(1);
  c.mutable_limit_order_fee_config()->set_minimum_fee(0.5f);
  return c;
}

void CompareSeen(Run& r, const std::vector<Seen>& got, const std::vector<Seen>& want,
                 bool signals) {
  for (size_t i = 0; i < got.size() && i < want.size(); ++i) {
    if (!got[i].empty_orders) r.fail("update %zu did not get an empty list of orders", i);
    if (!SameTick(got[i].tick, want[i].tick))
      r.fail("update %zu got %s instead of %s", i, Str(got[i].tick).c_str(),
             Str(want[i].tick).c_str());
    if (!SameSeen(got[i], want[i]))
      r.fail("update %zu (t=%lld) saw base %.9g quote %.9g, expected base %.9g quote %.9g", i,
             (long long)got[i].tick.timestamp_sec(), got[i].base, got[i].quote, want[i].base,
             want[i].quote);
    if (signals && got[i].signals != want[i].signals) {
      std::string g, w;
      for (float f : got[i].signals) g += std::to_string(f) + " ";
      for (float f : want[i].signals) w += std::to_string(f) + " ";
      r.fail("update at t=%lld got side input [%s], expected [%s]",
             (long long)got[i].tick.timestamp_sec(), g.c_str(), w.c_str());
    }
  }
  if (got.size() != want.size())
    r.fail("trader updated %zu times, expected %zu", got.size(), want.size());
}
void CompareEnd(Run& r, const ExecutionResult& res, const RefExec& ref) {
  if (res.total_executed_orders() != ref.executed)
    r.fail("%d orders executed, expected %d", res.total_executed_orders(), ref.executed);
  if (res.end_base_balance() != ref.acc.base || res.end_quote_balance() != ref.acc.quote)
    r.fail("final balances %.9g / %.9g, expected %.9g / %.9g", res.end_base_balance(),
           res.end_quote_balance(), ref.acc.base, ref.acc.quote);
}

// E01 / E02: all histories x all decisions.
void Lifecycle(Run& r, bool zero, int depth) {
  const Alphabet& a = A(zero);
  const AccountConfig cfg = Config(r);
  OhlcHistory h;
  bool any_zero = false;
  for (int i = 0; i < depth; ++i) {
    OhlcTick t = r.pick(a.ticks, "tick");
    t.set_timestamp_sec(1483228800 + 300 * i);
    any_zero |= t.volume() == 0;
    h.push_back(t);
  }
  if (zero && !any_zero) r.prune();
  ScriptTrader trader([&](int, const OhlcTick& t) {
    // What is emitted on the last tick can never be executed: one choice.
    if (t.timestamp_sec() == h.back().timestamp_sec()) return a.emissions[3];
    return r.pick(a.emissions, "emit");
  });
  const ExecutionResult res =
      ExecuteTrader(cfg, h.begin(), h.end(), nullptr, /*fast_eval=*/true, trader, nullptr);
  r.step(depth);
  const RefExec ref = RefExecute(cfg, h, nullptr, trader.emitted);
  if (r.verbose()) {
    for (const auto& t : h) r.say("%s", Str(t).c_str());
    for (const auto& s : trader.seen)
      r.say("update t=%lld base %.9g quote %.9g", (long long)s.tick.timestamp_sec(), s.base,
            s.quote);
  }
  CompareSeen(r, trader.seen, ref.seen, true);
  CompareEnd(r, res, ref);
  r.cover(ref.executed == 0 ? "no order executed" : ref.executed == 1 ? "one order executed"
                                                                     : "several orders executed");
  const uint64_t h2 = mc::Mix(mc::Bits(ref.acc.base), mc::Bits(ref.acc.quote));
  r.state(mc::Mix(h2, ref.executed));
  r.outcome(h2);
}
// Long histories with few deviations from the default tick and decision.
void LongRun(Run& r, bool zero, int length, int deviations) {
  const AccountConfig cfg = Config(r);
  const Alphabet& a = A(zero);
  std::vector<std::vector<Order>> emissions = a.emissions;
  std::vector<Order> many;  // more orders than usual in one update
  for (int i = 0; i < 4; ++i)
    for (const Order& o : {kBuyB, kLimSell, kSellB1}) many.push_back(o);
  emissions.push_back(many);
  r.budget(deviations);
  const int tick0 = r.choose((int)a.ticks.size(), "default tick");
  const int emit0 = r.choose((int)emissions.size(), "default decision");
  OhlcHistory h;
  for (int i = 0; i < length; ++i) {
    const int k = r.deviate((int)a.ticks.size(), "tick");
    OhlcTick t = a.ticks[(k + tick0) % a.ticks.size()];
    t.set_timestamp_sec(4102444800LL + 60 * i);  // beyond 32 bits
    h.push_back(t);
  }
  ScriptTrader trader([&](int, const OhlcTick&) {
    return emissions[(emit0 + r.deviate((int)emissions.size(), "emit")) % emissions.size()];
  });
  const ExecutionResult res =
      ExecuteTrader(cfg, h.begin(), h.end(), nullptr, true, trader, nullptr);
  r.step(length);
  const RefExec ref = RefExecute(cfg, h, nullptr, trader.emitted);
  CompareSeen(r, trader.seen, ref.seen, true);
  CompareEnd(r, res, ref);
  r.state(mc::Mix(mc::Mix(mc::Bits(ref.acc.base), mc::Bits(ref.acc.quote)), ref.executed));
}
MC_SPACE("E01", "histories", "all histories of 4 (thorough 5) traded ticks x all decisions of 8",
         [](Run& r) { Lifecycle(r, false, r.thorough() ? 5 : 4); });
MC_SPACE("E01", "gaps", "all histories of 4 (thorough 5) ticks with zero-volume ticks x all decisions of 8",
         [](Run& r) { Lifecycle(r, true, r.thorough() ? 5 : 4); });
MC_SPACE("E01", "long", "histories of 14 (thorough 24) traded ticks with up to 2 deviations from 36 default behaviours",
         [](Run& r) { LongRun(r, false, r.thorough() ? 24 : 14, 2); });
MC_SPACE("E01", "long_gaps", "histories of 14 (thorough 24) ticks with gaps and up to 2 deviations from 36 default behaviours",
         [](Run& r) { LongRun(r, true, r.thorough() ? 24 : 14, 2); });

// All short lists of orders, executed in the order of emission: every fill
// as logged.
void Combos(Run& r) {
  static const std::vector<Order> kOrders = [] {
    std::vector<Order> v;
    for (auto side : {Order::BUY, Order::SELL})
      for (auto type : {Order::MARKET, Order::STOP, Order::LIMIT})
        for (bool base : {true, false})
          v.push_back(MakeOrder(type, side, base, base ? 4 : 18, side == Order::BUY ? 5 : 4));
    return v;
  }();
  AccountConfig cfg = Config(r);
  const int start = r.choose(4, "balances");
  cfg.set_start_base_balance(start == 0 ? 6 : start == 1 ? 0 : start == 2 ? 1 : 5);
  cfg.set_start_quote_balance(start == 0 ? 26 : start == 1 ? 30 : start == 2 ? 0 : 20);
  const int n = 2 + r.choose(r.thorough() ? 3 : 2, "orders");
  std::vector<Order> list;
  for (int i = 0; i < n; ++i) list.push_back(r.pick(kOrders, "order"));
  OhlcHistory h = {Tick(100, 4, 4, 4, 4, 1)};
  const Alphabet& a = A(r.choose(2, "gap first"));
  h.push_back(r.pick(a.ticks, "tick"));
  h.back().set_timestamp_sec(200);
  h.push_back(Tick(300, 5, 8, 3, 4, 6));
  ScriptTrader trader([&](int call, const OhlcTick&) { return call == 0 ? list : std::vector<Order>(); });
  RecLogger log;
  const ExecutionResult res = ExecuteTrader(cfg, h.begin(), h.end(), nullptr, true, trader, &log);
  r.step(3);
  const RefExec ref = RefExecute(cfg, h, nullptr, trader.emitted);
  size_t k = 0;
  for (const LogEvent& e : log.events) {
    if (e.kind != 1) continue;
    while (k < ref.events.size() && ref.events[k].kind != 1) ++k;
    if (k == ref.events.size()) r.fail("an additional fill: %s", Str(e).c_str());
    const LogEvent& w = ref.events[k++];
    if (e.text != w.text || !SameTick(e.tick, w.tick) || e.base != w.base || e.quote != w.quote)
      r.fail("fill %s, expected %s", Str(e).c_str(), Str(w).c_str());
  }
  CompareSeen(r, trader.seen, ref.seen, true);
  CompareEnd(r, res, ref);
  r.cover(ref.executed < 2 ? "at most one fill" : "several fills");
  r.state(mc::Mix(mc::Mix(mc::Bits(ref.acc.base), mc::Bits(ref.acc.quote)), ref.executed));
}
MC_SPACE("E01", "combos", "all lists of 2 or 3 (thorough 4) orders out of all 12 kinds (type, side, base or quote amount) emitted at once x 4 starting "
         "balances x 8 ticks: the fills as logged, in the order of emission", [](Run& r) { Combos(r); });

// E03: side input delivery.
void SideDelivery(Run& r, int num_ticks, int num_records) {
  const int64_t base = r.choose(2, "epoch") ? 4102444800LL : 1000;
  OhlcHistory h;
  for (int i = 0; i < num_ticks; ++i) {
    const int k = r.choose(3, "tick");  // absent, traded, gap
    if (k == 0) continue;
    h.push_back(Tick(base + 100 * i, 4, 4, 4, 4, k == 1 ? 1 : 0));
  }
  if (h.empty()) r.prune();
  const int num_signals = 1 + r.choose(2, "signals");
  SideHistory side;
  for (int i = 0; i < num_records; ++i) {
    if (r.choose(2, "record") == 0) continue;
    side.emplace_back();
    // before / at / after the ticks
    side.back().set_timestamp_sec(base - 50 + 50 * i);
    for (int j = 0; j < num_signals; ++j) side.back().add_signal(10 * i + j + 0.5f);
  }
  const AccountConfig cfg = [] {
    AccountConfig c;
    c.set_start_quote_balance(100);
    return c;
  }();
  ScriptTrader trader([&](int, const OhlcTick&) { return std::vector<Order>(); });
  std::unique_ptr<SideInput> in;
  if (!side.empty()) in = std::make_unique<SideInput>(side);
  ExecuteTrader(cfg, h.begin(), h.end(), in.get(), true, trader, nullptr);
  r.step((int)h.size());
  const RefExec ref = RefExecute(cfg, h, side.empty() ? nullptr : &side, {});
  CompareSeen(r, trader.seen, ref.seen, true);
  uint64_t hash = 7;
  for (const Seen& s : trader.seen) {
    for (float f : s.signals) hash = mc::Mix(hash, mc::Bits(f));
    r.cover(s.signals.empty() ? "before the first record" : "record delivered");
  }
  r.state(hash);
}
MC_SPACE("E03", "delivery", "all subsets of 4 ticks (absent/traded/gap) x all subsets of 9 records",
         [](Run& r) { SideDelivery(r, r.thorough() ? 6 : 4, r.thorough() ? 12 : 9); });
MC_SPACE("E03", "ages", "all sequences of 3 (thorough 4) ticks or records after the first record over 11 time steps between 1 s and 2^33 s: the age of the record",
         [](Run& r) {
           const int64_t steps[] = {1, 60, 3600, 86399, 86400, 2678401, 31622400, 16777217, 2147483647, 2147483648LL, 8589934592LL};
           int64_t t = 1;
           OhlcHistory h;
           SideHistory side(1);
           side[0].set_timestamp_sec(t);
           side[0].add_signal(0.5f);
           const int n = r.thorough() ? 4 : 3;
           for (int i = 0; i < n; ++i) {
             t += steps[r.choose(11, "step")];
             if (r.choose(2, "record")) {
               side.emplace_back();
               side.back().set_timestamp_sec(t);
               side.back().add_signal(i + 1.5f);
             } else {
               h.push_back(Tick(t, 4, 4, 4, 4, 1));
             }
           }
           if (h.empty()) r.prune();
           AccountConfig cfg;
           cfg.set_start_quote_balance(100);
           ScriptTrader trader([&](int, const OhlcTick&) { return std::vector<Order>(); });
           const SideInput in(side);
           ExecuteTrader(cfg, h.begin(), h.end(), &in, true, trader, nullptr);
           r.step((int)h.size());
           CompareSeen(r, trader.seen, RefExecute(cfg, h, &side, {}).seen, true);
           uint64_t hash = 11;
           for (const Seen& s : trader.seen)
             for (float f : s.signals) hash = mc::Mix(hash, mc::Bits(f));
           r.state(hash);
         });

// E03: which ticks the trader is updated on, and with which balances.
void Updates(Run& r, int depth) {
  // positive, tiny and huge volumes, no volume, and an unset one
  static const std::vector<float> kVolumes = {1, 0, 1e-6f, 1e-30f, 1e12f, 0.25f, -1};
  const Alphabet& a = A(false);
  const AccountConfig cfg = Config(r);
  const int64_t base = r.choose(2, "epoch") ? 4102444800LL : 1;
  const int64_t step = r.choose(2, "step") ? 1 : 90000;
  OhlcHistory h;
  for (int i = 0; i < depth; ++i) {
    OhlcTick t = a.ticks[i % a.ticks.size()];
    const float v = r.pick(kVolumes, "volume");
    if (v < 0) t.clear_volume();
    else t.set_volume(v);
    t.set_timestamp_sec(base + step * i);
    h.push_back(t);
  }
  static const std::vector<std::vector<Order>> kEmit = {
      {}, {kBuyB}, {kSellB1, kLimBuy}, {kStopSell, kBuyQ}};
  const int emit0 = r.choose((int)kEmit.size(), "emit");
  ScriptTrader trader([&](int call, const OhlcTick&) { return kEmit[(emit0 + call) % kEmit.size()]; });
  const ExecutionResult res = ExecuteTrader(cfg, h.begin(), h.end(), nullptr, true, trader, nullptr);
  r.step(depth);
  const RefExec ref = RefExecute(cfg, h, nullptr, trader.emitted);
  if (r.verbose())
    for (const auto& t : h) r.say("%s", Str(t).c_str());
  CompareSeen(r, trader.seen, ref.seen, true);
  CompareEnd(r, res, ref);
  r.cover(trader.seen.empty() ? "never updated" : "updated");
  r.state(mc::Mix(trader.seen.size(), mc::Mix(mc::Bits(ref.acc.base), mc::Bits(ref.acc.quote))));
}
MC_SPACE("E03", "updates", "all histories of 4 (thorough 6) ticks with 7 volumes (tiny, huge, zero, unset)",
         [](Run& r) { Updates(r, r.thorough() ? 6 : 4); });
MC_SPACE("E03", "histories", "all histories of 4 (thorough 5) ticks with gaps x all decisions of 8",
         [](Run& r) { Lifecycle(r, true, r.thorough() ? 5 : 4); });

// E04: figures of the result; the executed range lies inside of a longer history.
void JudgeFigures(Run& r, const AccountConfig& cfg, const OhlcTick& first, const OhlcTick& last,
                  const ExecutionResult& res, const RefExec& ref) {
  auto eq = [&](const char* what, double got, double want) {
    if (got != want) r.fail("%s is %.9g, expected %.9g", what, got, want);
  };
  eq("start base balance", res.start_base_balance(), cfg.start_base_balance());
  eq("start quote balance", res.start_quote_balance(), cfg.start_quote_balance());
  eq("end base balance", res.end_base_balance(), ref.acc.base);
  eq("end quote balance", res.end_quote_balance(), ref.acc.quote);
  const double p0 = first.close(), p1 = last.close();
  eq("start price", res.start_price(), p0);
  eq("end price", res.end_price(), p1);
  eq("start value", res.start_value(), cfg.start_quote_balance() + p0 * cfg.start_base_balance());
  eq("end value", res.end_value(), ref.acc.quote + p1 * ref.acc.base);
  eq("number of executed orders", res.total_executed_orders(), ref.executed);
  eq("total fee", res.total_fee(), ref.acc.total_fee);
}
void Figures(Run& r, int depth) {
  AccountConfig cfg = Config(r);
  static const std::vector<std::array<float, 2>> kBal = {{6, 26}, {0, 40}, {8, 0}};
  const auto& bal = r.pick(kBal, "balances");
  cfg.set_start_base_balance(bal[0]);
  cfg.set_start_quote_balance(bal[1]);
  static const std::vector<OhlcTick> kTicks = {Tick(0, 4, 8, 2, 3, 8), Tick(0, 6, 6, 4, 5, 2),
                                               Tick(0, 8, 8, 4, 7, 0), Tick(0, 2, 4, 2, 2, 4)};
  static const std::vector<std::vector<Order>> kEmit = {
      {}, {kBuyQ}, {kSellB, kSellB1}, {kLimSell, kStopSell}, {kStopBuyQ, kLimBuy}};
  OhlcHistory h;
  const int n = r.choose(depth + 1, "length");
  const bool fast = r.choose(2, "fast");
  h.push_back(Tick(100, 1000, 1000, 1000, 1000, 1000));  // outside of the range
  for (int i = 0; i < n; ++i) {
    OhlcTick t = r.pick(kTicks, "tick");
    t.set_timestamp_sec(200 + 300 * i);
    h.push_back(t);
  }
  h.push_back(Tick(1000000, 2000, 2000, 2000, 2000, 2000));  // outside of the range
  ScriptTrader trader([&](int, const OhlcTick& t) {
    if (t.timestamp_sec() == h[n].timestamp_sec()) return kEmit[0];
    return r.pick(kEmit, "emit");
  });
  const ExecutionResult res = ExecuteTrader(cfg, h.begin() + 1, h.begin() + 1 + n, nullptr, fast,
                                            trader, nullptr);
  r.step(n);
  if (n == 0) {
    r.cover("empty range");
    if (!trader.seen.empty()) r.fail("trader updated on an empty range");
    if (res.ByteSizeLong() != 0) r.fail("non-empty result of an empty range");
    return;
  }
  const RefExec ref =
      RefExecute(cfg, OhlcHistory(h.begin() + 1, h.begin() + 1 + n), nullptr, trader.emitted);
  JudgeFigures(r, cfg, h[1], h[n], res, ref);
  r.cover(ref.executed ? "orders executed" : "no order executed");
  r.state(mc::Mix(mc::Bits(res.end_value()), mc::Bits(res.total_fee())));
  r.outcome(mc::Bits(res.end_value()));
}
MC_SPACE("E04", "figures", "all histories of up to 4 (thorough 5) ticks x 5 decisions x 3 balances x fast",
         [](Run& r) { Figures(r, r.thorough() ? 5 : 4); });

// E02: the log of an execution.
std::string CsvLine(const LogEvent& e, const Order* o) {
  const OhlcTick& t = e.tick;
  char b[400], c[200] = ",,,,";
  if (o != nullptr) {
    char amount[2][40] = {"", ""}, price[40] = "";
    const bool base = o->oneof_amount_case() == Order::kBaseAmount;
    std::snprintf(amount[!base], 40, "%.3f", base ? o->base_amount() : o->quote_amount());
    if (o->price() > 0) std::snprintf(price, 40, "%.3f", o->price());
    static const char* kType[] = {"MARKET", "STOP", "LIMIT"};
    std::snprintf(c, sizeof c, "%s,%s,%s,%s,%s", kType[o->type()],
                  o->side() == Order::BUY ? "BUY" : "SELL", amount[0], amount[1], price);
  }
  std::snprintf(b, sizeof b, "%lld,%.3f,%.3f,%.3f,%.3f,%.3f,%.3f,%.3f,%.3f,%s\n",
                (long long)t.timestamp_sec(), t.open(), t.high(), t.low(), t.close(), t.volume(),
                e.base, e.quote, e.fee, c);
  return b;
}
void JudgeLog(Run& r, const AccountConfig& cfg, const OhlcHistory& h, const RecLogger& logger,
              const RefExec& ref, const ExecutionResult& res) {
  for (size_t i = 0; i < logger.events.size() && i < ref.events.size(); ++i) {
    const LogEvent &g = logger.events[i], &w = ref.events[i];
    if (g.kind == 2 && w.kind == 2 && g.text == w.text) continue;
    if (g.kind != w.kind || !SameTick(g.tick, w.tick) || g.base != w.base || g.quote != w.quote ||
        g.fee != w.fee || g.text != w.text)
      r.fail("log entry %zu is %s, expected %s", i, Str(g).c_str(), Str(w).c_str());
  }
  if (logger.events.size() != ref.events.size())
    r.fail("%zu log entries, expected %zu", logger.events.size(), ref.events.size());
  // Replaying the log alone leads to the reported result.
  float base = cfg.start_base_balance(), quote = cfg.start_quote_balance(), fee = 0;
  int fills = 0;
  size_t ticks = 0;
  for (const LogEvent& e : logger.events) {
    if (e.kind == 0) {
      if (ticks >= h.size() || !SameTick(e.tick, h[ticks])) r.fail("unexpected tick in the log");
      ++ticks;
      if (e.base != base || e.quote != quote || e.fee != fee)
        r.fail("the account changed without a line in the log");
    } else if (e.kind == 1) {
      ++fills;
      base = e.base;
      quote = e.quote;
      fee = e.fee;
    }
  }
  if (ticks != h.size()) r.fail("%zu of %zu ticks in the log", ticks, h.size());
  if (fills != res.total_executed_orders())
    r.fail("%d fills in the log, %d reported", fills, res.total_executed_orders());
  if (base != res.end_base_balance() || quote != res.end_quote_balance() || fee != res.total_fee())
    r.fail("the log ends with %.9g / %.9g fee %.9g, reported %.9g / %.9g fee %.9g", base, quote, fee,
           res.end_base_balance(), res.end_quote_balance(), res.total_fee());
}
void Logs(Run& r, int depth) {
  const AccountConfig cfg = Config(r);
  const Alphabet& a = A(true);
  OhlcHistory h;
  for (int i = 0; i < depth; ++i) {
    OhlcTick t = r.pick(a.ticks, "tick");
    t.set_timestamp_sec(1483228800 + 20000 * i);
    h.push_back(t);
  }
  RecLogger logger;
  ScriptTrader first([&](int, const OhlcTick& t) {
    if (t.timestamp_sec() == h.back().timestamp_sec()) return a.emissions[3];
    return r.pick(a.emissions, "emit");
  });
  const ExecutionResult res = ExecuteTrader(cfg, h.begin(), h.end(), nullptr, true, first, &logger);
  r.step(depth);
  const RefExec ref = RefExecute(cfg, h, nullptr, first.emitted);
  JudgeLog(r, cfg, h, logger, ref, res);
  r.cover(ref.executed ? "fills" : "no fills");
  r.state(mc::Mix(ref.events.size(), mc::Mix(mc::Bits(ref.acc.base), mc::Bits(ref.acc.quote))));
}
std::string JudgeCsv(Run& r, const AccountConfig& cfg, const OhlcHistory& h, const SideInput* side, bool fast,
                     const ScriptTrader& trader, const RefExec& ref) {
  // The same execution with the CSV logger.
  std::ostringstream exchange, state;
  CsvLogger csv(&exchange, &state);
  ScriptTrader again([&](int call, const OhlcTick&) {
    return call < (int)trader.emitted.size() ? trader.emitted[call] : std::vector<Order>();
  });
  ExecuteTrader(cfg, h.begin(), h.end(), side, fast, again, &csv);
  std::string want_exchange, want_state;
  std::map<std::string, Order> all;
  for (const auto& e : trader.emitted)
    for (const Order& x : e) all.emplace(Str(x), x);
  for (const LogEvent& e : ref.events) {
    if (e.kind == 2) {
      want_state += e.text + "\n";
      continue;
    }
    const Order* o = nullptr;
    if (e.kind == 1)
      o = &all.at(e.text);
    want_exchange += CsvLine(e, o);
  }
  if (exchange.str() != want_exchange) r.fail("the exchange log file differs from the execution");
  if (state.str() != want_state) r.fail("the trader log file differs from the execution");
  return want_exchange;
}
void LongLogs(Run& r, int length, int deviations) {
  const AccountConfig cfg = Config(r);
  const Alphabet& a = A(true);
  std::vector<std::vector<Order>> emissions = a.emissions;
  std::vector<Order> many;
  for (int i = 0; i < 4; ++i)
    for (const Order& o : {kBuyB, kLimSell, kSellB1}) many.push_back(o);
  emissions.push_back(many);
  r.budget(deviations);
  const int tick0 = r.choose((int)a.ticks.size(), "default tick");
  const int emit0 = r.choose((int)emissions.size(), "default decision");
  const bool fast = r.choose(2, "fast");
  OhlcHistory h;
  for (int i = 0; i < length; ++i) {
    OhlcTick t = a.ticks[(r.deviate((int)a.ticks.size(), "tick") + tick0) % a.ticks.size()];
    t.set_timestamp_sec(4102444800LL + 60 * i);
    h.push_back(t);
  }
  ScriptTrader trader([&](int, const OhlcTick&) {
    return emissions[(emit0 + r.deviate((int)emissions.size(), "emit")) % emissions.size()];
  });
  RecLogger logger;
  const ExecutionResult res =
      ExecuteTrader(cfg, h.begin(), h.end(), nullptr, fast, trader, &logger);
  r.step(length);
  const RefExec ref = RefExecute(cfg, h, nullptr, trader.emitted);
  JudgeLog(r, cfg, h, logger, ref, res);
  const std::string want_exchange = JudgeCsv(r, cfg, h, nullptr, fast, trader, ref);
  r.state(mc::Mix(mc::HashStr(want_exchange), ref.executed));
}
MC_SPACE("E02", "histories", "all histories of 4 (thorough 5) ticks with gaps x all decisions of 8, complete logs",
         [](Run& r) { Logs(r, r.thorough() ? 5 : 4); });
MC_SPACE("E02", "long", "histories of 8 (thorough 20) ticks with up to 2 deviations from 72 default behaviours, "
         "recorded and CSV logs",
         [](Run& r) { LongLogs(r, r.thorough() ? 20 : 8, 2); });

// The log of an evaluation over several periods is that of the periods.
class ListEmitter : public TraderEmitter {
 public:
  explicit ListEmitter(std::vector<std::vector<Order>> e) : e_(std::move(e)) {}
  std::string GetName() const override { return "list"; }
  std::unique_ptr<Trader> NewTrader() const override {
    return std::make_unique<ScriptTrader>([this](int call, const OhlcTick&) { return e_[call % e_.size()]; });
  }

 private:
  const std::vector<std::vector<Order>> e_;
};
MC_SPACE("E02", "periods",
         "evaluations over {1,2,5} periods of {1,2} months or one whole period, each period with 0 to 3 ticks in all combinations, 4 decisions: "
         "recorded and CSV logs",
         [](Run& r) {
           const AccountConfig cfg = Config(r);
           const Alphabet& a = A(true);
           const int months = r.choose(3, "months");
           const int counts[] = {1, 2, 5};
           const int periods = months == 0 ? 1 : counts[r.choose(3, "periods")];
           const int emit = r.choose(4, "emission");
           const std::vector<std::vector<Order>> emissions = {a.emissions[1 + emit], a.emissions[7 - emit], a.emissions[2]};
           EvaluationConfig ec;
           const int64_t start = 1483228800;  // 2017-01-01, months of 31, 28, 31, 30, ... days
           static const int kDays[] = {0, 31, 59, 90, 120, 151, 181, 212, 243};
           const int spanned = months == 0 ? 5 : periods + months - 1;
           ec.set_start_timestamp_sec(start);
           ec.set_end_timestamp_sec(start + 86400LL * kDays[spanned]);
           ec.set_evaluation_period_months(months);
           ec.set_fast_eval(r.choose(2, "fast"));
           OhlcHistory h;
           for (int m = 0; m < spanned; ++m) {
             const int n = r.choose(spanned > 4 ? 3 : 4, "ticks");
             for (int i = 0; i < n; ++i) {
               OhlcTick t = a.ticks[(m + 2 * i) % a.ticks.size()];
               t.set_timestamp_sec(start + 86400LL * (kDays[m] + 9 * i));
               h.push_back(t);
             }
           }
           RecLogger logger;
           const ListEmitter emitter(emissions);
           const EvaluationResult res = EvaluateTrader(cfg, ec, h, nullptr, emitter, &logger);
           std::ostringstream exchange, state;
           CsvLogger csv(&exchange, &state);
           EvaluateTrader(cfg, ec, h, nullptr, emitter, &csv);
           r.step(2);
           std::vector<LogEvent> want;
           std::string want_exchange, want_state;
           std::map<std::string, Order> all;
           for (const auto& e : emissions)
             for (const Order& x : e) all.emplace(Str(x), x);
           for (int p = 0; p < periods; ++p) {
             OhlcHistory part;
             for (const OhlcTick& t : h) {
               const int64_t day = (t.timestamp_sec() - start) / 86400;
               if (months == 0 || (day >= kDays[p] && day < kDays[p + months])) part.push_back(t);
             }
             std::vector<std::vector<Order>> emitted;
             for (size_t i = 0; i < part.size(); ++i) emitted.push_back(emissions[i % emissions.size()]);
             for (const LogEvent& e : RefExecute(cfg, part, nullptr, emitted).events) {
               want.push_back(e);
               if (e.kind == 2) want_state += e.text + "\n";
               else want_exchange += CsvLine(e, e.kind == 1 ? &all.at(e.text) : nullptr);
             }
           }
           for (size_t i = 0; i < logger.events.size() && i < want.size(); ++i) {
             const LogEvent &g = logger.events[i], &w = want[i];
             if (g.kind == 2 && w.kind == 2 && g.text == w.text) continue;
             if (g.kind != w.kind || !SameTick(g.tick, w.tick) || g.base != w.base || g.quote != w.quote || g.fee != w.fee ||
                 g.text != w.text)
               r.fail("log entry %zu is %s, expected %s", i, Str(g).c_str(), Str(w).c_str());
           }
           if (logger.events.size() != want.size()) r.fail("%zu log entries, expected %zu", logger.events.size(), want.size());
           if (exchange.str() != want_exchange) r.fail("the exchange log file differs from the execution");
           if (state.str() != want_state) r.fail("the trader log file differs from the execution");
           r.cover(res.period_size() > 1 ? "several periods" : "at most one period");
           r.state(mc::HashStr(want_exchange, months));
         });

// E07: logging, fast evaluation, unrelated side input and repetition do not
// influence the execution.
void JudgeModes(Run& r, const AccountConfig& cfg, const OhlcHistory& h, const SideInput* side,
                const ScriptTrader& first, const ExecutionResult& res) {
  for (int mode = 0; mode < 8; ++mode) {
    const bool fast = mode & 1, with_logger = mode & 2, with_side = mode & 4;
    RecLogger logger;
    ScriptTrader t([&](int call, const OhlcTick&) {
      return call < (int)first.emitted.size() ? first.emitted[call] : std::vector<Order>();
    });
    ExecutionResult x = ExecuteTrader(cfg, h.begin(), h.end(), with_side ? side : nullptr, fast, t,
                                      with_logger ? &logger : nullptr);
    CompareSeen(r, t.seen, first.seen, !with_side);
    if (t.emitted.size() != first.emitted.size()) r.fail("another number of updates");
    if (!fast && (!(x.base_volatility() == res.base_volatility()) ||
                  !(x.trader_volatility() == res.trader_volatility())))
      r.fail("the volatility depends on the mode");
    ExecutionResult y = res;
    for (ExecutionResult* z : {&x, &y}) {
      z->clear_base_volatility();
      z->clear_trader_volatility();
    }
    if (x.SerializeAsString() != y.SerializeAsString())
      r.fail("the result depends on the mode (fast %d, logger %d, side input %d):\n%s\nvs\n%s", fast,
             with_logger, with_side, x.ShortDebugString().c_str(), y.ShortDebugString().c_str());
  }
}
void Modes(Run& r, int depth) {
  const AccountConfig cfg = Config(r);
  const Alphabet& a = A(true);
  OhlcHistory h;
  for (int i = 0; i < depth; ++i) {
    OhlcTick t = r.pick(a.ticks, "tick");
    t.set_timestamp_sec(1483228800 + 20000 * i);
    h.push_back(t);
  }
  static const SideInput* side = [] {
    SideHistory s;
    for (int i = 0; i < 6; ++i) {
      s.emplace_back();
      s.back().set_timestamp_sec(1483228800 + 15000 * (i + 1));
      s.back().add_signal(i);
      s.back().add_signal(-i);
    }
    return new SideInput(s);
  }();
  ScriptTrader first([&](int, const OhlcTick& t) {
    if (t.timestamp_sec() == h.back().timestamp_sec()) return a.emissions[3];
    return r.pick(a.emissions, "emit");
  });
  const ExecutionResult res =
      ExecuteTrader(cfg, h.begin(), h.end(), nullptr, false, first, nullptr);
  r.step(depth);
  JudgeModes(r, cfg, h, side, first, res);
  r.state(mc::Mix(mc::Bits(res.end_base_balance()),
                  mc::Mix(mc::Bits(res.end_quote_balance()), res.total_executed_orders())));
}
MC_SPACE("E07", "modes", "all histories of 4 (thorough 5) ticks with gaps x all decisions of 8 x 9 executions in 8 modes",
         [](Run& r) { Modes(r, r.thorough() ? 5 : 4); });

// Long histories of all kinds, with much side input.
void Scale(Run& r, int prop) {
  AccountConfig cfg = Config(r);
  const bool zero = r.choose(2, "gaps");
  const Alphabet& a = A(zero);
  const int lengths[] = {300, 3000};
  const int length = lengths[r.choose(2, "length")];
  if (length == 3000) {
    cfg.set_start_base_balance(3000);
    cfg.set_start_quote_balance(20000);
  }
  const int64_t steps[] = {1, 60, 40000};
  const int64_t step = steps[r.choose(3, "step")];
  const int tick0 = r.choose((int)a.ticks.size(), "first tick");
  std::vector<std::vector<Order>> emissions = a.emissions;
  std::vector<Order> many;
  for (int i = 0; i < 30; ++i)
    for (const Order& o : {kBuyB, kLimSell, kSellB1}) many.push_back(o);
  emissions.push_back(many);
  const int n = (int)emissions.size();
  const int emit0 = r.choose(2 * n, "decisions");  // all in turn, or always the same
  OhlcHistory h;
  for (int i = 0; i < length; ++i) {
    h.push_back(a.ticks[(tick0 + i * (i / 50 % 3 + 1)) % a.ticks.size()]);
    h.back().set_timestamp_sec(2147400000LL + step * i);
  }
  SideHistory records;
  for (int i = 0; i < length / 3; ++i) {
    records.emplace_back();
    records.back().set_timestamp_sec(2147400000LL + step * (2 + 3 * i) + (i % 3 - 1));
    for (int j = 0; j < 40; ++j) records.back().add_signal(i + 0.5f * j);
  }
  const SideInput side(records);
  ScriptTrader trader([&](int call, const OhlcTick&) {
    return emissions[emit0 < n ? (emit0 + call) % n : emit0 - n];
  });
  RecLogger logger;
  const bool fast = prop != 7;
  const ExecutionResult res =
      ExecuteTrader(cfg, h.begin(), h.end(), prop == 7 ? nullptr : &side, fast, trader, prop == 2 ? &logger : nullptr);
  r.step(length);
  const RefExec ref = RefExecute(cfg, h, prop == 7 ? nullptr : &records, trader.emitted);
  if (prop == 1) {
    CompareSeen(r, trader.seen, ref.seen, false);
    CompareEnd(r, res, ref);
  }
  if (prop == 2) {
    JudgeLog(r, cfg, h, logger, ref, res);
    JudgeCsv(r, cfg, h, &side, fast, trader, ref);
  }
  if (prop == 3) CompareSeen(r, trader.seen, ref.seen, true);
  if (prop == 4) JudgeFigures(r, cfg, h.front(), h.back(), res, ref);
  if (prop == 7) JudgeModes(r, cfg, h, &side, trader, res);
  r.cover(ref.executed > 255 ? "more than 255 fills" : "fewer fills");
  r.state(mc::Mix(mc::Mix(mc::Bits(ref.acc.base), mc::Bits(ref.acc.quote)), ref.executed));
}
#define SCALE(P, N) \
  MC_SPACE(P, "scale", "histories of {300,3000} ticks in 4 patterns with and without gaps, every {1,60,40000} s, one side input " \
           "record of 40 signals per 3 ticks, 18 patterns of decisions (up to 90 orders at a time)", [](Run& r) { Scale(r, N); })
SCALE("E01", 1);
SCALE("E02", 2);
SCALE("E03", 3);
SCALE("E04", 4);
SCALE("E07", 7);

// E08: volatilities.
void JudgeVol(Run& r, const std::vector<Seen>& seen, const ExecutionResult& res, double tolerance);
AccountConfig VolConfig(Run& r) {
  AccountConfig cfg;
  static const std::vector<std::array<float, 2>> kBal = {{6, 26}, {8, 0}, {0, 64}};
  const auto& bal = r.pick(kBal, "balances");
  cfg.set_start_base_balance(bal[0]);
  cfg.set_start_quote_balance(bal[1]);
  cfg.set_base_unit(0.25f);
  cfg.set_quote_unit(0.5f);
  cfg.set_market_liquidity(1);
  cfg.mutable_market_order_fee_config()->set_fixed_fee(1);
  return cfg;
}
void Vol(Run& r, int depth) {
  const AccountConfig cfg = VolConfig(r);
  static const std::vector<std::array<float, 2>> kTicks = {{4, 4}, {4, 8}, {4, 2}, {8, 6}};
  // distance to the previous tick: within the day, to the next day, over a gap
  static const std::vector<int64_t> kStep = {28800, 86400, 3 * 86400};
  static const std::vector<std::vector<Order>> kEmit = {{}, {kBuyQ}, {kSellB}};
  OhlcHistory h;
  int64_t time = 17200LL * 86400 + (r.choose(2, "first") ? 57600 : 0);
  std::vector<bool> gap;
  for (int i = 0; i < depth; ++i) {
    gap.push_back(false);
    if (i > 0) {
      const int64_t s = r.pick(kStep, "step");
      gap.back() = (time + s) / 86400 - time / 86400 > 1;
      time += s;
    }
    const auto& p = r.pick(kTicks, "tick");
    h.push_back(Tick(time, p[0], std::max(p[0], p[1]), std::min(p[0], p[1]), p[1], 10));
  }
  ScriptTrader trader([&](int call, const OhlcTick&) {
    if (call + 1 >= depth) return kEmit[0];
    if (gap[call + 1]) return kEmit[0];  // no trade right after a gap (see DESIGN.md)
    return r.pick(kEmit, "emit");
  });
  const ExecutionResult res = ExecuteTrader(cfg, h.begin(), h.end(), nullptr, false, trader, nullptr);
  r.step(depth);
  if ((int)trader.seen.size() != depth) r.fail("trader updated %zu times", trader.seen.size());
  JudgeVol(r, trader.seen, res, 2e-3);
  // The fast mode avoids computing the volatilities.
  ScriptTrader idle([](int, const OhlcTick&) { return std::vector<Order>(); });
  const ExecutionResult fast = ExecuteTrader(cfg, h.begin(), h.end(), nullptr, true, idle, nullptr);
  if (fast.base_volatility() != 0 || fast.trader_volatility() != 0)
    r.fail("volatilities %.9g and %.9g in fast mode", fast.base_volatility(), fast.trader_volatility());
}
void JudgeVol(Run& r, const std::vector<Seen>& seen, const ExecutionResult& res, double tolerance) {
  auto variance = [&](bool base_only) {
    // Value at the end of every day; before the first one: at the very first open.
    std::vector<double> v;
    const Seen& f = seen[0];
    auto value = [&](const Seen& s, double price) {
      return base_only ? price : s.base * price + s.quote;
    };
    v.push_back(value(f, f.tick.open()));
    int64_t day = f.tick.timestamp_sec() / 86400;
    double cur = value(f, f.tick.close());
    for (size_t i = 1; i < seen.size(); ++i) {
      const Seen& s = seen[i];
      const int64_t d = s.tick.timestamp_sec() / 86400;
      for (; day < d; ++day) v.push_back(cur);
      cur = value(s, s.tick.close());
    }
    v.push_back(cur);
    double s1 = 0, s2 = 0;
    const int n = (int)v.size() - 1;
    for (int i = 1; i <= n; ++i) {
      const double x = std::log(v[i] / v[i - 1]);
      s1 += x;
      s2 += x * x;
    }
    return std::max(0.0, s2 / n - (s1 / n) * (s1 / n)) * 365;
  };
  for (int b = 0; b < 2; ++b) {
    const double got = b ? res.base_volatility() : res.trader_volatility();
    const double want = variance(b);
    if (!(got >= 0) || !Near(got * got, want, 1e-4, tolerance))
      r.fail("%s volatility %.9g, expected %.9g", b ? "base" : "trader", got, std::sqrt(want));
  }
  r.cover(res.total_executed_orders() ? "traded" : "not traded");
  r.state(mc::Mix(mc::Bits(res.base_volatility()), mc::Bits(res.trader_volatility())));
}
// Years of daily ticks (thorough: and several per day) with few deviations.
void LongVol(Run& r) {
  const AccountConfig cfg = VolConfig(r);
  const int lengths[] = {30, 366, 500, 1000};
  const int depth = lengths[r.choose(4, "length")];
  const int64_t step = r.choose(2, "step") ? 43200 : 86400;
  const int quiet = r.choose(3, "quiet part");  // none, first half, second half
  const int kind = r.choose(3, "decision"), at = r.choose(5, "at");
  if (kind == 0 && at > 0) r.prune();
  OhlcHistory h;
  for (int i = 0; i < depth; ++i) {
    const bool q = quiet == 1 ? i < depth / 2 : quiet == 2 ? i >= depth / 2 : false;
    const float c[] = {4, 8, 6, 2};
    const float o = i == 0 ? 4 : h.back().close(), x = q ? o : c[i % 4];
    h.push_back(Tick(1483228800 + step * i, o, std::max(o, x), std::min(o, x), x, 10));
  }
  const int points[] = {0, depth / 4, depth / 2, 3 * depth / 4, depth - 2};
  ScriptTrader trader([&](int call, const OhlcTick&) -> std::vector<Order> {
    if (call != points[at] || kind == 0) return {};
    return {kind == 1 ? MakeOrder(Order::MARKET, Order::BUY, false, 20, 0) : MakeOrder(Order::MARKET, Order::SELL, true, 4, 0)};
  });
  const ExecutionResult res = ExecuteTrader(cfg, h.begin(), h.end(), nullptr, false, trader, nullptr);
  r.step(depth);
  JudgeVol(r, trader.seen, res, 2e-2);
}
MC_SPACE("E08", "volatility", "all histories of up to 4 (thorough 5) ticks over days and gaps x 3 decisions",
         [](Run& r) { Vol(r, 1 + r.choose(r.thorough() ? 5 : 4, "length")); });
MC_SPACE("E08", "long", "{30,366,500,1000} ticks, one or two per day, quiet in none, the first or the second half, with no, a buy or a sell order at 5 points",
         LongVol);

// More ticks, executed orders and side input records than 16 bits can count.
// Prices are constant, one market order per tick sells or buys one base unit.
void Many(Run& r, int part) {
  const int kTicks = 70000;
  const bool fast = r.choose(2, "fast"), quiet = r.choose(2, "quiet");
  AccountConfig cfg;
  cfg.set_start_base_balance(1);
  cfg.set_start_quote_balance(100000);
  cfg.set_base_unit(1);
  cfg.set_quote_unit(1);
  cfg.set_market_liquidity(1);
  cfg.mutable_market_order_fee_config()->set_fixed_fee(1);
  OhlcHistory h;
  SideHistory records;
  for (int i = 0; i < kTicks; ++i) {
    h.push_back(Tick(1500000000 + 60LL * i, 4, 4, 4, 4, 8));
    records.emplace_back();
    records.back().set_timestamp_sec(1500000000 + 60LL * i - 7);
    records.back().add_signal((float)(i % 1000));
    records.back().add_signal((float)(i / 1000));
  }
  const SideInput side(records);
  // Quiet: only every tenth update emits an order.
  auto emits = [&](int i) { return !quiet || i % 10 == 0; };
  ScriptTrader trader([&](int call, const OhlcTick&) -> std::vector<Order> {
    if (!emits(call)) return {};
    const int count = quiet ? call / 10 : call;
    return {MakeOrder(Order::MARKET, count % 2 ? Order::BUY : Order::SELL, true, 1, 0)};
  });
  RecLogger log;
  const ExecutionResult x =
      ExecuteTrader(cfg, h.begin(), h.end(), &side, fast, trader, part == 2 ? &log : nullptr);
  r.step(kTicks);
  if ((int)trader.seen.size() != kTicks) r.fail("%zu updates for %d ticks", trader.seen.size(), kTicks);
  int executed = 0;
  size_t e = 0;
  auto next = [&](int kind, int i, const char* what) {
    if (part != 2) return;
    if (e >= log.events.size() || log.events[e].kind != kind) r.fail("no %s of the tick %d is logged", what, i);
    if (kind != 2 && log.events[e].tick.timestamp_sec() != h[i].timestamp_sec()) r.fail("the %s of the tick %d is logged for another one", what, i);
    ++e;
  };
  for (int i = 0; i < kTicks; ++i) {
    next(0, i, "state");
    if (i > 0 && emits(i - 1)) {
      ++executed;
      next(1, i, "order");
    }
    next(2, i, "trader state");
    const Seen& s = trader.seen[i];
    const float base = executed % 2 ? 0 : 1, quote = (float)(100000 - executed + (executed % 2 ? 4 : 0));
    if (part == 1 && (s.base != base || s.quote != quote))
      r.fail("update %d saw base %g quote %g, expected base %g quote %g", i, s.base, s.quote, base, quote);
    if (part == 3 && (s.tick.timestamp_sec() != h[i].timestamp_sec() || s.signals.size() != 3 || s.signals[0] != i % 1000 ||
                      s.signals[1] != i / 1000 || s.signals[2] != 7))
      r.fail("update %d did not see its tick and side input", i);
    if (i % 1000 == 0) r.state(mc::Mix(i, executed * 4 + fast * 2 + quiet));
  }
  if (part == 2 && e != log.events.size()) r.fail("%zu log entries, expected %zu", log.events.size(), e);
  if (part == 4) {
    if (x.total_executed_orders() != executed) r.fail("%d executed orders, expected %d", x.total_executed_orders(), executed);
    if (x.total_fee() != executed) r.fail("the total fee is %g, expected %d", x.total_fee(), executed);
    if (x.end_base_balance() != (executed % 2 ? 0 : 1)) r.fail("the base balance ends at %g", x.end_base_balance());
  }
}
MC_SPACE("E01", "counters", "70000 ticks with a market order on every tick, or every tenth, both modes", [](Run& r) { Many(r, 1); });
MC_SPACE("E02", "counters", "70000 ticks with a market order on every tick, or every tenth, both modes", [](Run& r) { Many(r, 2); });
MC_SPACE("E03", "counters", "70000 ticks and side input records with a market order on every tick, or every tenth, both modes", [](Run& r) { Many(r, 3); });
MC_SPACE("E04", "counters", "70000 ticks with a market order on every tick, or every tenth, both modes", [](Run& r) { Many(r, 4); });
}  // namespace
