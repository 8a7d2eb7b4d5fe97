// E05: exhaustive exploration of evaluations over periods on the real
// EvaluateTrader.
#include "civil.h"
#include "exec_common.h"

using namespace vt;

namespace {
AccountConfig Config() {
  AccountConfig c;
  c.set_start_base_balance(2);
  c.set_start_quote_balance(24);
  c.set_base_unit(0.25f);
  c.set_quote_unit(0.5f);
  c.set_market_liquidity(1);
  c.mutable_market_order_fee_config()->set_fixed_fee(1);
  c.mutable_limit_order_fee_config()->set_relative_fee(0.25f);
  return c;
}
// Orders depend on the number of updates of this instance only.
std::vector<Order> Decide(int call, int kind) {
  const Order buy = MakeOrder(Order::MARKET, Order::BUY, true, 1, 0);
  const Order buyq = MakeOrder(Order::MARKET, Order::BUY, false, 6, 0);
  const Order sell = MakeOrder(Order::LIMIT, Order::SELL, true, 1, 2);
  switch ((call + kind) % 3) {
    case 0:
      return {buy};
    case 1:
      return {sell, buyq};
    default:
      return {};
  }
}
// The trader reports itself to the emitter when it is updated.
struct Tracker {
  std::vector<std::vector<Seen>> per_trader;
};
class TrackedTrader : public Trader {
 public:
  TrackedTrader(Tracker* t, int id, int kind) : t_(t), id_(id), kind_(kind) {}
  void Update(const OhlcTick& tick, const std::vector<float>& signals, float base, float quote,
              std::vector<Order>& orders) override {
    Seen s;
    s.tick = tick;
    s.signals = signals;
    s.base = base;
    s.quote = quote;
    s.empty_orders = orders.empty();
    for (const Order& o : Decide((int)t_->per_trader[id_].size(), kind_)) orders.push_back(o);
    t_->per_trader[id_].push_back(s);
  }
  std::string GetInternalState() const override { return "x"; }

 private:
  Tracker* t_;
  int id_, kind_;
};
class TrackedEmitter : public TraderEmitter {
 public:
  explicit TrackedEmitter(int kind) : kind_(kind) {}
  std::string GetName() const override { return "name-" + std::to_string(kind_); }
  std::unique_ptr<Trader> NewTrader() const override {
    t.per_trader.emplace_back();
    return std::unique_ptr<Trader>(
        new TrackedTrader(&t, (int)t.per_trader.size() - 1, kind_));
  }
  mutable Tracker t;

 private:
  int kind_;
};

void CheckEvaluation(Run& r, const EvaluationConfig& ec, const OhlcHistory& h, int kind,
                     const SideHistory* side) {
  const AccountConfig cfg = Config();
  TrackedEmitter em(kind);
  std::unique_ptr<SideInput> in;
  if (side != nullptr) in.reset(new SideInput(*side));
  if (r.verbose()) {
    r.say("%s", ec.ShortDebugString().c_str());
    for (const auto& t : h) r.say("%s", Str(t).c_str());
  }
  const EvaluationResult res = EvaluateTrader(cfg, ec, h, in.get(), em, nullptr);
  r.step(1 + res.period_size());
  if (res.name() != em.GetName()) r.fail("wrong name %s", res.name().c_str());
  if (res.account_config().SerializeAsString() != cfg.SerializeAsString() ||
      res.eval_config().SerializeAsString() != ec.SerializeAsString())
    r.fail("configuration not reported");
  // The expected periods.
  struct P {
    int64_t start, end;
    OhlcHistory ticks;
  };
  std::vector<P> want;
  const int months = ec.evaluation_period_months();
  for (int i = 0;; ++i) {
    P p;
    p.start = civil::AddMonths(ec.start_timestamp_sec(), i);
    p.end = months > 0 ? civil::AddMonths(p.start, months) : ec.end_timestamp_sec();
    if (p.end > ec.end_timestamp_sec()) break;
    for (const OhlcTick& t : h)
      if ((p.start <= 0 || t.timestamp_sec() >= p.start) &&
          (p.end <= 0 || t.timestamp_sec() < p.end))
        p.ticks.push_back(t);
    if (!p.ticks.empty()) want.push_back(p);
    if (months == 0) break;
  }
  for (int i = 0; i < res.period_size() && i < (int)want.size(); ++i) {
    const auto& p = res.period(i);
    const P& w = want[i];
    if (p.start_timestamp_sec() != w.start || p.end_timestamp_sec() != w.end)
      r.fail("period %d is [%lld, %lld), expected [%lld, %lld)", i,
             (long long)p.start_timestamp_sec(), (long long)p.end_timestamp_sec(),
             (long long)w.start, (long long)w.end);
  }
  if (res.period_size() != (int)want.size())
    r.fail("%d periods, expected %zu", res.period_size(), want.size());
  if (em.t.per_trader.size() != want.size())
    r.fail("%zu traders created for %zu periods", em.t.per_trader.size(), want.size());
  double log_sum = 0, gain = 0, base_gain = 0, orders = 0, fee = 0;
  for (int i = 0; i < (int)want.size(); ++i) {
    const auto& p = res.period(i);
    const P& w = want[i];
    std::vector<std::vector<Order>> emitted;
    for (size_t k = 0; k < em.t.per_trader[i].size(); ++k) emitted.push_back(Decide((int)k, kind));
    const RefExec ref = RefExecute(cfg, w.ticks, side, emitted);
    const auto& seen = em.t.per_trader[i];
    if (seen.size() != ref.seen.size())
      r.fail("period %d: trader updated %zu times, expected %zu", i, seen.size(), ref.seen.size());
    for (size_t k = 0; k < seen.size(); ++k)
      if (!SameSeen(seen[k], ref.seen[k]) || seen[k].signals != ref.seen[k].signals)
        r.fail("period %d: update %zu differs from a fresh execution over the period", i, k);
    const auto& x = p.result();
    if (x.end_base_balance() != ref.acc.base || x.end_quote_balance() != ref.acc.quote ||
        x.total_fee() != ref.acc.total_fee || x.total_executed_orders() != ref.executed ||
        x.start_price() != w.ticks.front().close() || x.end_price() != w.ticks.back().close())
      r.fail("period %d: wrong result %s", i, x.ShortDebugString().c_str());
    if (x.has_trader_volatility() == ec.fast_eval())
      r.fail("period %d: volatility %s", i, ec.fast_eval() ? "computed" : "missing");
    const double start_value = 24 + 2.0 * w.ticks.front().close();
    const double end_value = ref.acc.quote + ref.acc.base * w.ticks.back().close();
    const double g = end_value / start_value;
    const double bg = (double)w.ticks.back().close() / w.ticks.front().close();
    if (!Near(p.final_gain(), g, 1e-5, 0) || !Near(p.base_final_gain(), bg, 1e-5, 0))
      r.fail("period %d: gains %.9g / %.9g, expected %.9g / %.9g", i, p.final_gain(),
             p.base_final_gain(), g, bg);
    log_sum += std::log(g / bg);
    gain += g;
    base_gain += bg;
    orders += ref.executed;
    fee += ref.acc.total_fee;
  }
  const int n = (int)want.size();
  auto avg = [n](double s) { return n ? s / n : 0; };
  const double score = n ? std::exp(log_sum / n) : 0;
  if (!Near(res.score(), score, 2e-5, 0)) r.fail("score %.9g, expected %.9g", res.score(), score);
  if (!Near(res.avg_gain(), avg(gain), 1e-5, 0))
    r.fail("average gain %.9g, expected %.9g", res.avg_gain(), avg(gain));
  if (!Near(res.avg_base_gain(), avg(base_gain), 1e-5, 0))
    r.fail("average base gain %.9g, expected %.9g", res.avg_base_gain(), avg(base_gain));
  if (!Near(res.avg_total_executed_orders(), avg(orders), 1e-5, 0))
    r.fail("average orders %.9g, expected %.9g", res.avg_total_executed_orders(), avg(orders));
  if (!Near(res.avg_total_fee(), avg(fee), 1e-5, 0))
    r.fail("average fee %.9g, expected %.9g", res.avg_total_fee(), avg(fee));
  r.cover(n == 0 ? "no period" : n == 1 ? "one period" : "several periods");
  r.state(mc::Mix(mc::HashStr(res.SerializeAsString()), 1));
  r.outcome(mc::Bits(res.score()));
}

OhlcTick Shape(int64_t t, int k) {
  static const float s[][4] = {{4, 4, 4, 4}, {4, 8, 2, 8}, {8, 8, 4, 4}, {2, 4, 2, 3}};
  return Tick(t, s[k % 4][0], s[k % 4][1], s[k % 4][2], s[k % 4][3], k % 5 == 4 ? 0 : 10);
}

void Periods(Run& r, int span) {
  static const std::vector<int64_t> kStart = {
      civil::Sec(2017, 1, 1), civil::Sec(2019, 11, 15, 12, 30, 1), 0, civil::Sec(2016, 1, 31),
      civil::Sec(2099, 12, 1)};
  static const std::vector<int> kMonths = {0, 1, 2, 3};
  EvaluationConfig ec;
  const int64_t start = r.pick(kStart, "start");
  const int months = r.pick(kMonths, "months");
  ec.set_start_timestamp_sec(start);
  ec.set_evaluation_period_months(months);
  // End of the evaluation: none, before the start, on a period end, around it.
  const int e = r.choose(6, "end");
  const int64_t full = civil::AddMonths(start, span);
  int64_t end = 0;
  switch (e) {
    case 0: end = full; break;
    case 1: end = full - 1; break;
    case 2: end = full + 5 * 86400; break;
    case 3: end = 0; break;
    case 4: end = start > 0 ? start - 10 : 1; break;
    case 5: end = civil::AddMonths(start, 1); break;
  }
  ec.set_end_timestamp_sec(end);
  ec.set_fast_eval(r.choose(2, "fast"));
  const int kind = r.choose(2, "trader");
  std::vector<int64_t> at;
  for (int i = 0; i <= span; ++i) {
    const int64_t s = civil::AddMonths(start, i);
    for (int64_t d : {(int64_t)-60, (int64_t)0, (int64_t)86400 * 9})
      if (s + d > 0 && (at.empty() || s + d > at.back())) at.push_back(s + d);
  }
  OhlcHistory h;
  for (size_t i = 0; i < at.size(); ++i)
    if (r.choose(2, "tick")) h.push_back(Shape(at[i], (int)i + kind));
  CheckEvaluation(r, ec, h, kind, nullptr);
}
// Long evaluations over years, few missing regions.
void Long(Run& r, int total) {
  EvaluationConfig ec;
  const int64_t start = civil::Sec(2015, 1 + 5 * r.choose(3, "month"), 1) + 86400 * r.pick(std::vector<int>{0, 27, 28, 30}, "day");
  static const std::vector<int> kMonths = {1, 6, 12, 13, 24, 0};
  ec.set_start_timestamp_sec(start);
  ec.set_end_timestamp_sec(civil::AddMonths(start, total) + (r.choose(2, "end") ? 86400 : 0));
  ec.set_evaluation_period_months(r.pick(kMonths, "months"));
  ec.set_fast_eval(true);
  r.budget(2);
  OhlcHistory h;
  for (int i = -1; i < total + 2; ++i)
    if (r.deviate(2, "missing") == 0) h.push_back(Shape(civil::AddMonths(start, i) + 3600, i + 3));
  SideHistory side;
  const bool with_side = r.choose(2, "side input");
  for (int i = 0; i < total; i += 5) {
    side.emplace_back();
    side.back().set_timestamp_sec(civil::AddMonths(start, i) + 86400);
    side.back().add_signal(i + 0.5f);
  }
  CheckEvaluation(r, ec, h, 1, with_side ? &side : nullptr);
}
MC_SPACE("E05", "periods", "5 starts x 4 period lengths x 6 ends x all subsets of 8..9 (thorough 11..12) tick instants",
         [](Run& r) { Periods(r, r.thorough() ? 3 : 2); });
MC_SPACE("E05", "long", "evaluations over 27 (thorough 50) months from the 1st, 28th, 29th and 31st day of 3 months, up to 2 missing regions",
         [](Run& r) { Long(r, r.thorough() ? 50 : 27); });
// Sixty years of periods whose gains all point the same way.
MC_SPACE("E05", "scale",
         "evaluations over 720 months with falling, rising and alternating prices, 4 starts, period lengths {1,3,12}, one of 41 regions "
         "missing or none",
         [](Run& r) {
           EvaluationConfig ec;
           const int64_t start = r.pick(std::vector<int64_t>{civil::Sec(1981, 1, 1), civil::Sec(2000, 2, 29), civil::Sec(2010, 8, 31, 23, 59, 59),
                                                             civil::Sec(2061, 12, 15)},
                                        "start");
           ec.set_start_timestamp_sec(start);
           ec.set_end_timestamp_sec(civil::AddMonths(start, 720));
           ec.set_evaluation_period_months(r.pick(std::vector<int>{1, 3, 12}, "months"));
           ec.set_fast_eval(r.choose(2, "fast"));
           const int drift = r.choose(3, "prices");
           const int missing = r.choose(42, "missing") - 1;
           OhlcHistory h;
           for (int i = 0; i < 720; ++i) {
             if (missing >= 0 && i >= 12 * missing - 1 && i < 12 * missing + 14) continue;
             const float from = drift == 0 || (drift == 2 && i % 2) ? 8 : 4, to = 12 - from;
             const int64_t s = civil::AddMonths(start, i);
             h.push_back(Tick(s, from, from, from, from, 10));
             h.push_back(Tick(s + 5 * 86400, from, 8, 4, to, 10));
           }
           CheckEvaluation(r, ec, h, missing & 1, nullptr);
         });
}  // namespace
