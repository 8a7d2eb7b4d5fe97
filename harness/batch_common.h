#ifndef VERIF_BATCH_COMMON_H
#define VERIF_BATCH_COMMON_H
// Traders, histories and the expected results for the batch evaluation.
#include "common.h"
#include "ctl_sched.h"
#include "eval/eval.h"

namespace vt {
inline AccountConfig BatchConfig() {
  AccountConfig c;
  c.set_start_base_balance(4);
  c.set_start_quote_balance(64);
  c.set_base_unit(0.25f);
  c.set_quote_unit(0.5f);
  c.set_market_liquidity(0.5f);
  c.set_max_volume_ratio(0.5f);
  c.mutable_market_order_fee_config()->set_fixed_fee(1);
  c.mutable_limit_order_fee_config()->set_relative_fee(0.25f);
  c.mutable_stop_order_fee_config()->set_minimum_fee(0.5f);
  return c;
}
// Every kind trades differently and depends on everything it is given.
class BatchTrader : public Trader {
 public:
  BatchTrader(int kind, bool yields) : kind_(kind), yields_(yields) {}
  ~BatchTrader() override {
    if (yields_) sched::Yield(kind_, "destroy");
  }
  void Update(const OhlcTick& t, const std::vector<float>& sig, float base, float quote,
              std::vector<Order>& orders) override {
    if (yields_) sched::Yield(kind_, "update");
    int mix = kind_ * 7 + calls_++;
    for (float f : sig) mix += (int)f;
    mix += (int)(base * 4) + (int)quote;
    const float amount = 0.25f * (1 + kind_ % 5);
    switch (((mix % 4) + 4) % 4) {
      case 0:
        orders.push_back(MakeOrder(Order::MARKET, Order::BUY, true, amount, 0));
        break;
      case 1:
        orders.push_back(MakeOrder(Order::LIMIT, Order::SELL, true, amount, t.close()));
        orders.push_back(MakeOrder(Order::STOP, Order::BUY, false, 4 * amount, t.close()));
        break;
      case 2:
        orders.push_back(MakeOrder(Order::STOP, Order::SELL, false, 4 * amount, t.close()));
        break;
      default:
        orders.push_back(MakeOrder(Order::MARKET, Order::SELL, true, amount, 0));
        orders.push_back(MakeOrder(Order::LIMIT, Order::BUY, true, amount, t.close()));
    }
  }
  std::string GetInternalState() const override { return std::to_string(calls_); }

 private:
  int kind_;
  bool yields_;
  int calls_ = 0;
};
class BatchEmitter : public TraderEmitter {
 public:
  BatchEmitter(int kind, bool yields) : kind_(kind), yields_(yields) {}
  std::string GetName() const override {
    if (yields_) sched::Yield(kind_, "name");
    return "kind-" + std::to_string(kind_);
  }
  std::unique_ptr<Trader> NewTrader() const override {
    if (yields_) sched::Yield(kind_, "new");
    return std::unique_ptr<Trader>(new BatchTrader(kind_, yields_));
  }

 private:
  int kind_;
  bool yields_;
};
struct BatchCase {
  AccountConfig account = BatchConfig();
  EvaluationConfig eval;
  OhlcHistory history;
  std::unique_ptr<SideInput> side;
  std::vector<std::unique_ptr<TraderEmitter>> emitters;
  std::vector<std::string> want;  // results of evaluating each trader alone
};
// Days around the end of a month, so that an evaluation by months has several periods.
inline void BuildCase(BatchCase* c, int emitters, int ticks, bool side, bool fast, int months,
                      bool yields) {
  const int64_t start = 1548892800 - 86400LL * 10;  // 2019-01-21
  const float closes[] = {8, 10, 6, 12, 9, 16, 5, 8};
  for (int i = 0; i < ticks; ++i) {
    const float o = closes[i % 8], cl = closes[(i + 1) % 8];
    c->history.push_back(Tick(start + 86400LL * 5 * i, o, std::max(o, cl) + 2, std::min(o, cl) - 1,
                              cl, i % 4 == 2 ? 0 : 8));
  }
  if (side) {
    SideHistory h;
    for (int i = 0; i < ticks + 1; ++i) {
      h.emplace_back();
      h.back().set_timestamp_sec(start - 100 + 86400LL * 3 * i);
      h.back().add_signal((float)(i * 3 % 7));
    }
    c->side.reset(new SideInput(h));
  }
  c->eval.set_start_timestamp_sec(1546300800);  // 2019-01-01
  c->eval.set_end_timestamp_sec(1556668800);    // 2019-05-01
  c->eval.set_evaluation_period_months(months);
  c->eval.set_fast_eval(fast);
  for (int i = 0; i < emitters; ++i)
    c->emitters.emplace_back(new BatchEmitter(i, yields));
  for (int i = 0; i < emitters; ++i)
    c->want.push_back(EvaluateTrader(c->account, c->eval, c->history, c->side.get(),
                                     BatchEmitter(i, false), nullptr)
                          .SerializeAsString());
}
inline std::string CompareResults(const BatchCase& c, const std::vector<EvaluationResult>& got) {
  if (got.size() != c.want.size())
    return std::to_string(got.size()) + " results for " + std::to_string(c.want.size()) + " traders";
  for (size_t i = 0; i < got.size(); ++i) {
    if (got[i].name() != "kind-" + std::to_string(i))
      return "result " + std::to_string(i) + " is that of " + got[i].name();
    if (got[i].SerializeAsString() != c.want[i]) {
      EvaluationResult w;
      w.ParseFromString(c.want[i]);
      return "result " + std::to_string(i) + " differs from evaluating the trader alone:\n" +
             got[i].ShortDebugString() + "\nexpected\n" + w.ShortDebugString();
    }
  }
  return "";
}
}  // namespace vt
#endif
