#ifndef VERIF_COMMON_H
#define VERIF_COMMON_H
#include <algorithm>
#include <cmath>
#include <limits>
#include <string>
#include <vector>

#include "base/base.h"
#include "mc.h"

namespace vt {
using namespace trader;
using mc::Run;

inline OhlcTick Tick(int64_t t, float o, float h, float l, float c, float v) {
  OhlcTick k;
  k.set_timestamp_sec(t);
  k.set_open(o);
  k.set_high(h);
  k.set_low(l);
  k.set_close(c);
  k.set_volume(v);
  return k;
}
inline PriceRecord Price(int64_t t, float p, float v) {
  PriceRecord r;
  r.set_timestamp_sec(t);
  r.set_price(p);
  r.set_volume(v);
  return r;
}
inline Order MakeOrder(Order::Type type, Order::Side side, bool base, float amount,
                       float price) {
  Order o;
  o.set_type(type);
  o.set_side(side);
  if (base) {
    o.set_base_amount(amount);
  } else {
    o.set_quote_amount(amount);
  }
  if (type != Order::MARKET) o.set_price(price);
  return o;
}
inline std::string Str(const Order& o) {
  char b[160];
  std::snprintf(b, sizeof b, "%s-%s %s=%.9g @%.9g",
                Order::Type_Name(o.type()).c_str(), Order::Side_Name(o.side()).c_str(),
                o.oneof_amount_case() == Order::kBaseAmount ? "base" : "quote",
                o.oneof_amount_case() == Order::kBaseAmount ? o.base_amount()
                                                            : o.quote_amount(),
                o.price());
  return b;
}
inline std::string Str(const OhlcTick& t) {
  char b[160];
  std::snprintf(b, sizeof b, "tick(%lld o%.9g h%.9g l%.9g c%.9g v%.9g)",
                (long long)t.timestamp_sec(), t.open(), t.high(), t.low(), t.close(),
                t.volume());
  return b;
}
inline bool SameTick(const OhlcTick& a, const OhlcTick& b) {
  return a.timestamp_sec() == b.timestamp_sec() && a.open() == b.open() &&
         a.high() == b.high() && a.low() == b.low() && a.close() == b.close() &&
         a.volume() == b.volume();
}
inline bool Near(double a, double b, double rel, double abs) {
  return std::fabs(a - b) <= abs + rel * std::max(std::fabs(a), std::fabs(b));
}

// Reference model of the simulated exchange account. Written in double, so it
// is exact on the dyadic alphabets, where the float implementation is exact too.
struct RefFee {
  double rel = 0, fixed = 0, min = 0;
};
inline double RFloor(double x, double u) { return u > 0 ? u * std::floor(x / u) : x; }
inline double RCeil(double x, double u) { return u > 0 ? u * std::ceil(x / u) : x; }
inline double RRound(double x, double u) { return u > 0 ? u * std::round(x / u) : x; }

struct RefResult {
  bool triggered = false, executed = false;
  double price = 0, amount = 0, gross = 0, fee = 0, cost_or_net = 0;
};
struct RefAccount {
  double base = 0, quote = 0, total_fee = 0;
  double bu = 0, qu = 0, liq = 1, ratio = 0;
  RefFee fees[3];  // by order type

  double Fee(const RefFee& f, double amount) const {
    return RCeil(std::max(f.min, f.fixed + amount * f.rel), qu);
  }
  static RefFee FromConfig(const FeeConfig& c) {
    RefFee f;
    f.rel = c.relative_fee();
    f.fixed = c.fixed_fee();
    f.min = c.minimum_fee();
    return f;
  }
  void Init(const AccountConfig& c) {
    base = c.start_base_balance();
    quote = c.start_quote_balance();
    total_fee = 0;
    bu = c.base_unit();
    qu = c.quote_unit();
    liq = c.market_liquidity();
    ratio = c.max_volume_ratio();
    fees[Order::MARKET] = FromConfig(c.market_order_fee_config());
    fees[Order::STOP] = FromConfig(c.stop_order_fee_config());
    fees[Order::LIMIT] = FromConfig(c.limit_order_fee_config());
  }
  // Trigger and price of the order over the tick.
  bool Trigger(const Order& o, const OhlcTick& t, double* price) const {
    const bool buy = o.side() == Order::BUY;
    const double p = o.price();
    switch (o.type()) {
      case Order::MARKET:
        *price = liq * t.open() + (1 - liq) * (buy ? t.high() : t.low());
        return true;
      case Order::STOP:
        *price = buy ? liq * std::max<double>(p, t.open()) + (1 - liq) * t.high()
                     : liq * std::min<double>(p, t.open()) + (1 - liq) * t.low();
        return buy ? t.high() >= p : t.low() <= p;
      default:
        *price = p;
        return buy ? t.low() <= p : t.high() >= p;
    }
  }
  // Executes the order. Updates the balances iff executed.
  RefResult Execute(const Order& o, const OhlcTick& t) {
    RefResult r;
    r.triggered = Trigger(o, t, &r.price);
    if (!r.triggered) return r;
    const double inf = std::numeric_limits<double>::infinity();
    const double cap = o.type() == Order::LIMIT && ratio > 0
                           ? RFloor(ratio * t.volume(), bu)
                           : inf;
    return Trade(fees[o.type()], o.side() == Order::BUY,
                 o.oneof_amount_case() == Order::kBaseAmount,
                 o.oneof_amount_case() == Order::kBaseAmount ? o.base_amount()
                                                             : o.quote_amount(),
                 r.price, cap);
  }
  RefResult Trade(const RefFee& f, bool buy, bool in_base, double amount, double price,
                  double cap) {
    RefResult r;
    r.triggered = true;
    r.price = price;
    double a;
    if (in_base) {
      a = RRound(std::min(amount, cap), bu);
    } else {
      const double q = RRound(amount, qu);
      if (q < qu || (buy && q > quote)) return r;
      const double fee = Fee(f, q);
      if (buy && q <= fee) return r;
      a = RFloor(std::min((buy ? q - fee : q + fee) / price, cap), bu);
    }
    if (a <= 0 || a < bu) return r;
    r.amount = a;
    r.gross = buy ? RCeil(a * price, qu) : RFloor(a * price, qu);
    r.fee = Fee(f, r.gross);
    if (buy) {
      r.cost_or_net = r.gross + r.fee;
      if (r.cost_or_net > quote) return r;
      base = base + a;
      quote = quote - r.cost_or_net;
    } else {
      r.cost_or_net = r.gross - r.fee;
      if (a > base || r.cost_or_net < qu || r.cost_or_net < 0) return r;
      base = base - a;
      quote = quote + r.cost_or_net;
    }
    total_fee += r.fee;
    r.executed = true;
    return r;
  }
};
}  // namespace vt
#endif
