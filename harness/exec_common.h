#ifndef VERIF_EXEC_COMMON_H
#define VERIF_EXEC_COMMON_H
// Reference model of one trader execution over a history, plus a scripted
// trader and a recording logger.
#include <functional>

#include "base/side_input.h"
#include "base/trader.h"
#include "common.h"
#include "eval/eval.h"

namespace vt {
struct Seen {  // what the trader was given
  OhlcTick tick;
  std::vector<float> signals;
  float base = 0, quote = 0;
  bool empty_orders = true;
};
struct LogEvent {
  int kind = 0;  // 0: tick, 1: order, 2: trader state
  OhlcTick tick;
  float base = 0, quote = 0, fee = 0;
  std::string text;  // order / state
};
inline std::string Str(const LogEvent& e) {
  char b[200];
  std::snprintf(b, sizeof b, "{%s t=%lld base=%.9g quote=%.9g fee=%.9g %s}",
                e.kind == 0 ? "tick" : e.kind == 1 ? "order" : "state",
                (long long)e.tick.timestamp_sec(), e.base, e.quote, e.fee, e.text.c_str());
  return b;
}

class RecLogger : public Logger {
 public:
  std::vector<LogEvent> events;
  void LogExchangeState(const OhlcTick& t, const Account& a) override { Add(0, t, a, ""); }
  void LogExchangeState(const OhlcTick& t, const Account& a, const Order& o) override {
    Add(1, t, a, Str(o));
  }
  void LogTraderState(absl::string_view s) override {
    LogEvent e;
    e.kind = 2;
    e.text = std::string(s);
    events.push_back(e);
  }

 private:
  void Add(int kind, const OhlcTick& t, const Account& a, const std::string& s) {
    LogEvent e;
    e.kind = kind;
    e.tick = t;
    e.base = a.base_balance;
    e.quote = a.quote_balance;
    e.fee = a.total_fee;
    e.text = s;
    events.push_back(e);
  }
};

// Emits the orders returned by the callback.
class ScriptTrader : public Trader {
 public:
  using Emit = std::function<std::vector<Order>(int call, const OhlcTick& tick)>;
  explicit ScriptTrader(Emit emit) : emit_(std::move(emit)) {}
  void Update(const OhlcTick& tick, const std::vector<float>& signals, float base, float quote,
              std::vector<Order>& orders) override {
    Seen s;
    s.tick = tick;
    s.signals = signals;
    s.base = base;
    s.quote = quote;
    s.empty_orders = orders.empty();
    seen.push_back(s);
    std::vector<Order> e = emit_((int)seen.size() - 1, tick);
    emitted.push_back(e);
    for (const Order& o : e) orders.push_back(o);
  }
  std::string GetInternalState() const override {
    return "state-" + std::to_string(seen.size());
  }
  std::vector<Seen> seen;
  std::vector<std::vector<Order>> emitted;

 private:
  Emit emit_;
};

struct RefExec {
  std::vector<Seen> seen;
  std::vector<LogEvent> events;
  RefAccount acc;
  int executed = 0;
  bool traded_after_gap = false;
  // Daily values of the two portfolios (base = 1 base currency unit).
  std::vector<double> base_days, trader_days;
};

// emitted[k]: orders emitted by the k-th update of the trader.
inline RefExec RefExecute(const AccountConfig& cfg, const std::vector<OhlcTick>& ticks,
                          const SideHistory* side,
                          const std::vector<std::vector<Order>>& emitted) {
  RefExec x;
  x.acc.Init(cfg);
  std::vector<Order> pending;
  size_t next_side = 0;  // the first record after the tick
  auto log = [&](int kind, const OhlcTick& t, const std::string& s) {
    LogEvent e;
    e.kind = kind;
    e.tick = t;
    e.base = x.acc.base;
    e.quote = x.acc.quote;
    e.fee = x.acc.total_fee;
    e.text = s;
    x.events.push_back(e);
  };
  for (const OhlcTick& t : ticks) {
    log(0, t, "");
    std::vector<Order> left;
    for (const Order& o : pending) {
      if (x.acc.Execute(o, t).executed) {
        ++x.executed;
        log(1, t, Str(o));
      } else {
        left.push_back(o);
      }
    }
    pending = left;
    if (t.volume() == 0) continue;
    Seen s;
    s.tick = t;
    s.base = x.acc.base;
    s.quote = x.acc.quote;
    if (side != nullptr) {
      while (next_side < side->size() && (*side)[next_side].timestamp_sec() <= t.timestamp_sec()) ++next_side;
      if (next_side > 0) {
        const SideInputRecord* last = &(*side)[next_side - 1];
        s.signals.assign(last->signal().begin(), last->signal().end());
        s.signals.push_back((float)(t.timestamp_sec() - last->timestamp_sec()));
      }
    }
    x.seen.push_back(s);
    const size_t k = x.seen.size() - 1;
    pending = k < emitted.size() ? emitted[k] : std::vector<Order>();
    LogEvent e;
    e.kind = 2;
    e.text = "state-" + std::to_string(k + 1);
    x.events.push_back(e);
  }
  return x;
}
inline bool SameSeen(const Seen& a, const Seen& b) {
  return SameTick(a.tick, b.tick) && a.base == b.base && a.quote == b.quote;
}
}  // namespace vt
#endif
