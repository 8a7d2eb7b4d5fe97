// T01-T03: the traders and their factory.
#include <map>
#include <memory>
#include <set>

#include "base/account.h"
#include "common.h"
#include "traders/rebalancing_trader.h"
#include "traders/stop_trader.h"
#include "traders/trader_factory.h"

using namespace vt;

namespace {
constexpr int64_t kT0 = 1483228800;
std::string Fmt(const char* f, ...) {
  char b[400];
  va_list a;
  va_start(a, f);
  std::vsnprintf(b, sizeof b, f, a);
  va_end(a);
  return b;
}
bool SameOrder(const Order& a, const Order& b) {
  return a.type() == b.type() && a.side() == b.side() && a.oneof_amount_case() == b.oneof_amount_case() &&
         a.base_amount() == b.base_amount() && a.quote_amount() == b.quote_amount() && a.price() == b.price();
}
bool SameOrders(const std::vector<Order>& a, const std::vector<Order>& b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i)
    if (!SameOrder(a[i], b[i])) return false;
  return true;
}
std::string Str(const std::vector<Order>& v) {
  std::string s;
  for (const Order& o : v) s += (s.empty() ? "" : "; ") + vt::Str(o);
  return "[" + s + "]";
}
struct Update {
  int64_t t;
  float close, base, quote;
};
OhlcTick TickOf(const Update& u, int shape = 0) {
  switch (shape) {
    case 0: return Tick(u.t, u.close, u.close, u.close, u.close, 10);
    case 1: return Tick(u.t, u.close * 0.5f, u.close * 2, u.close * 0.25f, u.close, 0);
    default: return Tick(u.t, u.close * 4, u.close * 8, u.close, u.close, 1000);
  }
}
std::vector<Order> Feed(Trader* t, const Update& u, int shape = 0, const std::vector<float>& signals = {}) {
  std::vector<Order> orders;
  t->Update(TickOf(u, shape), signals, u.base, u.quote, orders);
  return orders;
}

// ------------------------------------------------------------------ T01
RebalancingTraderConfig RConfig(float alpha, float epsilon) {
  RebalancingTraderConfig c;
  c.set_alpha(alpha);
  c.set_epsilon(epsilon);
  return c;
}
const float kAlphas[] = {0.5f, 0.7f, 0.1f, 0.25f, 0.9f, 0.3f, 0.99f, 0.01f};
const float kEpsilons[] = {0.05f, 0.2f, 0.01f, 0.1f, 0.5f, 0.9f};

// Checks the emitted orders against the definition, in double.
void CheckRebalancing(Run& r, float alpha_f, float epsilon_f, const Update& u, const std::vector<Order>& got) {
  const double alpha = alpha_f, eps = epsilon_f, price = u.close, base = u.base, quote = u.quote;
  const double pv = base * price + quote, beta = base * price / pv;
  const double up = alpha * (1 + eps), down = alpha * (1 - eps);
  const std::string at = Fmt("alpha %.9g epsilon %.9g price %.9g base %.9g quote %.9g (allocation %.9g): %s", alpha_f,
                             epsilon_f, price, base, quote, beta, Str(got).c_str());
  // Within rounding of the border of the band either side is right.
  const bool near_up = std::fabs(beta - up) <= 4e-6, near_down = std::fabs(beta - down) <= 4e-6;
  const bool market = got.size() == 1 && got[0].type() == Order::MARKET;
  for (const Order& o : got) {
    if (o.oneof_amount_case() != Order::kBaseAmount) r.fail("an order without a base amount: %s", at.c_str());
    if (!(o.base_amount() > 0)) r.fail("an order of nothing: %s", at.c_str());
    if (o.type() != Order::MARKET && !(o.price() > 0)) r.fail("an order without a price: %s", at.c_str());
  }
  if (market || (beta > up && !near_up) || (beta < down && !near_down)) {
    if (beta > up ? near_up : beta < down ? near_down : near_up || near_down) {
      r.cover("at the border of the band");
    }
    const bool sell = std::fabs(beta - up) < std::fabs(beta - down) ? beta > up - 4e-6 : beta > down + 4e-6;
    const bool outside = beta > up - 4e-6 || beta < down + 4e-6;
    if (!outside) r.fail("a market order within the band: %s", at.c_str());
    if (!market) r.fail("expected exactly one market order: %s", at.c_str());
    const Order& o = got[0];
    if (o.side() != (sell ? Order::SELL : Order::BUY)) r.fail("wrong side: %s", at.c_str());
    const double after = sell ? base - o.base_amount() : base + o.base_amount();
    // The filled order gives the target allocation at this price.
    if (std::fabs(after * price - alpha * pv) > 2e-6 * pv)
      r.fail("after the market order the allocation is %.9g: %s", after * price / pv, at.c_str());
    r.cover(sell ? "market sell" : "market buy");
    return;
  }
  // Inside the band: limit orders at its borders.
  const Order *sell = nullptr, *buy = nullptr;
  for (const Order& o : got) {
    if (o.type() != Order::LIMIT) r.fail("an order other than a limit order within the band: %s", at.c_str());
    const Order*& slot = o.side() == Order::SELL ? sell : buy;
    if (slot) r.fail("two limit orders of one side: %s", at.c_str());
    slot = &o;
  }
  if (base <= 1e-6 || quote <= 1e-6) {
    if (!got.empty() && (base == 0 || quote == 0)) r.fail("orders without both balances: %s", at.c_str());
    return;
  }
  auto check = [&](const Order* o, double border, bool is_sell) {
    // The price at which the allocation would be at the border.
    const double want = border < 1 ? border * quote / ((1 - border) * base) : INFINITY;
    const double near = 1e-5 / std::max(1e-3, 1 - border);
    const bool leaves = is_sell ? want > price : want < price;
    const bool far = is_sell ? want > 100 * price : want < price / 100;
    const bool unclear = std::fabs(want / price - 1) < near || std::fabs(want / (100 * price) - 1) < near ||
                         std::fabs(want * 100 / price - 1) < near || std::fabs(border - 1) < 1e-6;
    if (!o) {
      if (leaves && !far && !unclear) r.fail("no limit %s order at %.9g: %s", is_sell ? "sell" : "buy", want, at.c_str());
      return;
    }
    if ((!leaves || far) && !unclear) r.fail("a limit %s order beyond reach: %s", is_sell ? "sell" : "buy", at.c_str());
    if (is_sell ? o->price() <= u.close : o->price() >= u.close)
      r.fail("the limit %s order is on the wrong side of the price: %s", is_sell ? "sell" : "buy", at.c_str());
    const double p = o->price();
    if (std::fabs(base * p - border * (base * p + quote)) > 4e-6 * (base * p + quote))
      r.fail("the limit %s order is at %.9g, the allocation leaves the band at %.9g: %s", is_sell ? "sell" : "buy", p, want,
             at.c_str());
    const double after = is_sell ? base - o->base_amount() : base + o->base_amount();
    if (std::fabs(after * p - alpha * (base * p + quote)) > 6e-6 * (base * p + quote))
      r.fail("the filled limit %s order gives the allocation %.9g: %s", is_sell ? "sell" : "buy",
             after * p / (base * p + quote), at.c_str());
    r.cover(is_sell ? "limit sell" : "limit buy");
  };
  check(sell, up, true);
  check(buy, down, false);
  if (got.empty()) r.cover("no orders");
}

MC_SPACE("T01", "orders",
         "8 target allocations x 6 tolerances x 6 prices (1e-3 to 6e4) x 5 portfolio sizes x 61 allocations (0, 1, at and around both "
         "borders and the target, on a grid), x 3 tick shapes",
         [](Run& r) {
           const float alpha = r.pick(std::vector<float>(kAlphas, kAlphas + 8), "alpha");
           const float eps = r.pick(std::vector<float>(kEpsilons, kEpsilons + 6), "epsilon");
           const float price = r.pick(std::vector<float>{1, 0.001f, 0.3f, 123.456f, 7000, 60000}, "price");
           const double pv = r.pick(std::vector<double>{1000, 1, 12345.67, 1e6, 64}, "value");
           const int k = r.choose(61, "allocation");
           double beta;
           if (k < 41) {
             beta = k / 40.0;
           } else {
             const double at[] = {alpha, alpha * (1.0 + eps), alpha * (1.0 - eps)};
             const double off[] = {0, 1e-7, -1e-7, 1e-4, -1e-4, 1e-2, -1e-2};
             beta = at[(k - 41) % 3] * (1 + off[(k - 41) / 3 % 7]);
           }
           if (!(beta >= 0 && beta <= 1)) r.prune();
           const Update u{kT0, price, (float)(beta * pv / price), (float)((1 - beta) * pv)};
           if (!(u.base > 0 || u.quote > 0)) r.prune();
           RebalancingTrader t(RConfig(alpha, eps));
           const auto got = Feed(&t, u, r.choose(3, "shape"));
           r.step();
           r.state(mc::HashStr(Str(got)));
           CheckRebalancing(r, alpha, eps, u, got);
           const std::string want = Fmt("%lld,%.3f,%.3f,%.3f", (long long)u.t, u.base, u.quote, u.close);
           if (t.GetInternalState() != want)
             r.fail("the internal state is %s, expected %s", t.GetInternalState().c_str(), want.c_str());
         });
MC_SPACE("T01", "fine",
         "default configuration and {0.5,0.05}, prices {1,8,100}: allocations on a grid of 4000 (thorough 40000) steps",
         [](Run& r) {
           const bool d = r.choose(2, "default");
           const float price = r.pick(std::vector<float>{100, 1, 8}, "price");
           const int n = r.thorough() ? 40000 : 4000;
           const double beta = (double)r.choose(n + 1, "allocation") / n;
           RebalancingTrader t(RConfig(d ? 0.7f : 0.5f, 0.05f));
           const Update u{kT0, price, (float)(beta * 1000 / price), (float)((1 - beta) * 1000)};
           const auto got = Feed(&t, u);
           r.step();
           r.state(mc::HashStr(Str(got)));
           CheckRebalancing(r, d ? 0.7f : 0.5f, 0.05f, u, got);
         });
const Update kStates[] = {{0, 100, 7, 300}, {0, 100, 10, 0},  {0, 100, 0, 1000}, {0, 120, 7, 300}, {0, 80, 7, 300},
                          {0, 100, 5, 500}, {0, 1, 3, 1.25f}, {0, 6e4f, 1e-3f, 1e3f}};
MC_SPACE("T01", "histories",
         "all histories of 4 (thorough 5) updates over 8 combinations of price and balances, 3 time steps, side input signals or not: "
         "every update is decided by its own close and balances alone",
         [](Run& r) {
           const float alpha = kAlphas[r.choose(3, "alpha")], eps = kEpsilons[r.choose(2, "epsilon")];
           RebalancingTrader t(RConfig(alpha, eps));
           int64_t now = kT0;
           uint64_t h = 0;
           const int depth = r.thorough() ? 5 : 4;
           for (int i = 0; i < depth; ++i) {
             const int c = r.choose(8, "update");
             Update u = kStates[c];
             u.t = now;
             const bool sig = i % 2;
             const auto got = Feed(&t, u, (c + i) % 3, sig ? std::vector<float>{1.0f, -3.0f} : std::vector<float>{});
             RebalancingTrader fresh(RConfig(alpha, eps));
             const auto want = Feed(&fresh, u);
             r.step();
             h = mc::Mix(h, c * 3 + now % 7);
             r.state(h);
             if (!SameOrders(got, want))
               r.fail("update %d gives %s, a new trader gives %s", i + 1, Str(got).c_str(), Str(want).c_str());
             CheckRebalancing(r, alpha, eps, u, got);
             const std::string s = Fmt("%lld,%.3f,%.3f,%.3f", (long long)u.t, u.base, u.quote, u.close);
             if (t.GetInternalState() != s) r.fail("the internal state is %s, expected %s", t.GetInternalState().c_str(), s.c_str());
             now += i == 0 ? (const int64_t[]){1, 300, 86400 * 40}[r.choose(3, "dt")] : 300;
           }
         });
MC_SPACE("T01", "fills",
         "8 target allocations x 6 tolerances x 41 allocations x 3 prices: every emitted order executed by the real account (no fees, units "
         "or slippage) at a tick that reaches its price brings the portfolio to the target allocation, and the next update emits no market order",
         [](Run& r) {
           const float alpha = kAlphas[r.choose(8, "alpha")], eps = kEpsilons[r.choose(6, "epsilon")];
           const float price = r.pick(std::vector<float>{100, 0.3f, 7000}, "price");
           const double beta = r.choose(41, "allocation") / 40.0;
           Update u{kT0, price, (float)(beta * 1000 / price), (float)((1 - beta) * 1000)};
           RebalancingTrader t(RConfig(alpha, eps));
           const auto got = Feed(&t, u);
           if (got.empty()) r.prune();
           const Order& o = got[r.choose((int)got.size(), "order")];
           const float p = o.type() == Order::MARKET ? price : o.price();
           AccountConfig c;
           c.set_start_base_balance(u.base);
           c.set_start_quote_balance(u.quote);
           c.set_market_liquidity(1);
           Account a;
           a.InitAccount(c);
           const float lo = std::min(p, price), hi = std::max(p, price);
           if (!a.ExecuteOrder(c, o, Tick(kT0 + 300, price, hi, lo, p, 1e9f))) {
             // A purchase at the edge of the means may fail by rounding only.
             if (o.side() == Order::BUY && o.base_amount() * (double)p > u.quote * (1 - 1e-5)) r.prune();
             r.fail("%s is not executed with base %.9g quote %.9g at %.9g", vt::Str(o).c_str(), u.base, u.quote, p);
           }
           r.step(2);
           const double after = (double)a.base_balance * p / ((double)a.base_balance * p + a.quote_balance);
           if (std::fabs(after - alpha) > 1e-5) r.fail("%s leaves the allocation %.9g", vt::Str(o).c_str(), after);
           r.cover(o.type() == Order::MARKET ? (o.side() == Order::BUY ? "market buy" : "market sell")
                                             : (o.side() == Order::BUY ? "limit buy" : "limit sell"));
           const auto next = Feed(&t, {kT0 + 300, p, a.base_balance, a.quote_balance});
           for (const Order& n : next)
             if (n.type() == Order::MARKET) r.fail("a market order %s right after rebalancing", vt::Str(n).c_str());
         });

MC_SPACE("T01", "scale",
         "histories of 2000 updates of one trader in 6 price patterns (level, rising, falling, walks, jumps) and 4 balance patterns, steps of "
         "{60, 300, 86400} seconds, 8 target allocations, 6 tolerances: every update is decided by its own close and balances alone",
         [](Run& r) {
           const float alpha = kAlphas[r.choose(8, "alpha")], eps = kEpsilons[r.choose(6, "epsilon")];
           const int64_t dt = (const int64_t[]){60, 300, 86400}[r.choose(3, "dt")];
           const int prices = r.choose(6, "prices"), balances = r.choose(4, "balances");
           RebalancingTrader t(RConfig(alpha, eps));
           uint64_t h = mc::Mix(mc::Bits(alpha), mc::Bits(eps));
           double price = 100, base = 7, quote = 300;
           for (int i = 0; i < 2000; ++i) {
             const double f[] = {1, 1.002, 0.998, i % 7 < 3 ? 1.03 : 0.978, i % 50 ? 1.0 : i % 100 ? 3.0 : 1 / 3.0, i % 2 ? 1.5 : 1 / 1.5};
             price *= f[prices];
             if (balances == 1 && i % 3 == 0) base = 7 + i % 11, quote = 300 - i % 13;
             if (balances == 2) std::swap(base, quote);
             if (balances == 3 && i % 10 == 0) quote = base * price * (i % 20 ? 0.4 : 1.7);
             const Update u{kT0 + i * dt, (float)price, (float)base, (float)quote};
             const auto got = Feed(&t, u, i % 3, i % 2 ? std::vector<float>{1.0f, -3.0f} : std::vector<float>{});
             RebalancingTrader fresh(RConfig(alpha, eps));
             if (!SameOrders(got, Feed(&fresh, u)))
               r.fail("update %d gives %s, a new trader %s", i + 1, Str(got).c_str(), Str(Feed(&fresh, u)).c_str());
             CheckRebalancing(r, alpha, eps, u, got);
             const std::string s = Fmt("%lld,%.3f,%.3f,%.3f", (long long)u.t, u.base, u.quote, u.close);
             if (t.GetInternalState() != s) r.fail("the internal state is %s, expected %s", t.GetInternalState().c_str(), s.c_str());
             r.step();
             h = mc::Mix(h, mc::HashStr(s));
             r.state(h);
           }
         });

// ------------------------------------------------------------------ T02
StopTraderConfig SConfig(float margin, float move, float inc, float dec) {
  StopTraderConfig c;
  c.set_stop_order_margin(margin);
  c.set_stop_order_move_margin(move);
  c.set_stop_order_increase_per_day(inc);
  c.set_stop_order_decrease_per_day(dec);
  return c;
}
struct RefStop {
  double margin, move, inc, dec;
  int64_t last = 0;
  int mode = 0;  // 1 long, 2 cash
  double stop = 0, scale = 0;
  bool reset = false;
  // The number of float roundings the stop price has seen.
  int roundings = 0;
  explicit RefStop(const StopTraderConfig& c)
      : margin(c.stop_order_margin()), move(c.stop_order_move_margin()), inc(c.stop_order_increase_per_day()),
        dec(c.stop_order_decrease_per_day()) {}
  void Step(const Update& u) {
    const int m = (double)u.base * u.close >= u.quote ? 1 : 2;
    const double price = u.close;
    reset = m != mode || u.t >= last + 3600;
    if (reset) {
      stop = m == 1 ? (1 - margin) * price : (1 + margin) * price;
      roundings = 1;
    } else if (m == 1) {
      const double border = (1 - move) * price;
      if (stop <= border) stop = std::max(stop, std::min(border, stop * std::pow(1 + inc, (u.t - last) / 86400.0)));
      ++roundings;
    } else {
      const double border = (1 + move) * price;
      if (stop >= border) stop = std::min(stop, std::max(border, stop * std::pow(1 - dec, (u.t - last) / 86400.0)));
      ++roundings;
    }
    mode = m;
    last = u.t;
  }
};
void StopStep(Run& r, StopTrader* t, RefStop* ref, const Update& u, int shape, float* last_stop, uint64_t* h) {
  const int mode = ref->mode;
  const auto got = Feed(t, u, shape);
  ref->Step(u);
  r.step();
  const std::string at = Fmt("time +%lld close %.9g base %.9g quote %.9g: %s", (long long)(u.t - kT0), u.close, u.base, u.quote,
                             Str(got).c_str());
  if (got.size() != 1) r.fail("%d orders instead of one at %s", (int)got.size(), at.c_str());
  const Order& o = got[0];
  *h = mc::Mix(mc::Mix(*h, u.t), mc::Bits((double)o.price()) ^ ref->mode);
  r.state(*h);
  if (o.type() != Order::STOP) r.fail("not a stop order at %s", at.c_str());
  if (ref->mode == 1) {
    if (o.side() != Order::SELL || o.oneof_amount_case() != Order::kBaseAmount || o.base_amount() != u.base)
      r.fail("expected to sell the whole base balance at %s", at.c_str());
  } else {
    if (o.side() != Order::BUY || o.oneof_amount_case() != Order::kQuoteAmount || o.quote_amount() != u.quote)
      r.fail("expected to buy for the whole quote balance at %s", at.c_str());
  }
  if (std::fabs(o.price() - ref->stop) > 2.5e-7 * (1 + ref->roundings) * ref->stop)
    r.fail("the stop price is %.9g, expected %.9g at %s", o.price(), ref->stop, at.c_str());
  if (!ref->reset) {
    if (ref->mode == 1 ? o.price() < *last_stop : o.price() > *last_stop)
      r.fail("the stop price has moved away from the market from %.9g at %s", *last_stop, at.c_str());
    r.cover(o.price() == *last_stop ? "unchanged" : ref->mode == 1 ? "raised" : "lowered");
  } else {
    r.cover(mode == 0 ? "first" : mode != ref->mode ? "position changed" : "gap");
  }
  *last_stop = o.price();
  const std::string s = Fmt("%lld,%.3f,%.3f,%.3f,%s,%.3f", (long long)u.t, u.base, u.quote, u.close,
                            ref->mode == 1 ? "LONG" : "CASH", o.price());
  if (t->GetInternalState() != s) r.fail("the internal state is %s, expected %s", t->GetInternalState().c_str(), s.c_str());
}
// margin, move margin, increase, decrease
const float kStop[][4] = {{0.1f, 0.1f, 0.01f, 0.1f}, {0.25f, 0.125f, 0.5f, 0.25f}, {0.05f, 0.2f, 0.1f, 0.01f},
                          {0.2f, 0.05f, 1.0f, 0.9f}, {0.15f, 0.15f, 0.05f, 0.05f}, {0.125f, 0.0625f, 3.0f, 0.99f}};
const float kBalances[][2] = {{1, 0}, {0, 100}, {1, 99}, {1, 121}};
MC_SPACE("T02", "histories",
         "all histories of 4 (thorough 5) updates over 4 time steps (one minute, one second below, at and far above one hour), 4 "
         "closes, 3 positions (long, cash, mixed, decided by the close), 6 configurations",
         [](Run& r) {
           const float* c = kStop[r.choose(6, "config")];
           StopTrader t(SConfig(c[0], c[1], c[2], c[3]));
           RefStop ref(SConfig(c[0], c[1], c[2], c[3]));
           const int64_t dts[] = {60, 3599, 3600, 200000};
           const float closes[] = {100, 90, 120, 160};
           int64_t now = kT0;
           float last = 0;
           uint64_t h = mc::Bits((double)c[3]);
           const int depth = r.thorough() ? 5 : 4;
           for (int i = 0; i < depth; ++i) {
             if (i) now += dts[r.choose(4, "dt")];
             const float* b = kBalances[r.choose(3, "position")];
             Update u{now, closes[r.choose(i ? 4 : 2, "close")], b[0], b[1]};
             StopStep(r, &t, &ref, u, i % 3, &last, &h);
           }
         });
MC_SPACE("T02", "far",
         "all histories of 4 updates from 10 starts (just after 1970, around 2^31 and 2^32, far) over 7 time steps (one minute, at the "
         "hour, beyond 2^31, a multiple of 2^32 and a minute or an hour later), long or cash, 2 configurations",
         [](Run& r) {
           const float* c = kStop[r.choose(2, "config")];
           StopTrader t(SConfig(c[0], c[1], c[2], c[3]));
           RefStop ref(SConfig(c[0], c[1], c[2], c[3]));
           const int64_t k32 = 1LL << 32;
           const int64_t starts[] = {kT0, 1, 2, 60, 3600, k32 / 2 - 60, k32 / 2 + 100, k32 - 90, k32 + 3000, 3 * k32 + k32 / 2};
           const int64_t dts[] = {60, 3599, 3600, k32 / 2, k32 + 60, k32 - 60, 2 * k32 + 3600};
           int64_t now = starts[r.choose(10, "start")];
           const float* b = kBalances[r.choose(2, "position")];
           const float closes[] = {100, 120, 90, 130};
           float last = 0;
           uint64_t h = mc::Mix(now, (int64_t)(b[0] + 2 * b[1]));
           for (int i = 0; i < 4; ++i) {
             if (i) now += dts[r.choose(7, "dt")];
             StopStep(r, &t, &ref, {now, closes[b[0] > 0 ? i : 3 - i], b[0], b[1]}, 0, &last, &h);
           }
         });
MC_SPACE("T02", "trailing",
         "all walks of 8 (thorough 10) closes up, level or down, 3 time steps of one kind, long and cash, 6 configurations",
         [](Run& r) {
           const float* c = kStop[r.choose(6, "config")];
           const int64_t dt = (const int64_t[]){300, 1, 3599}[r.choose(3, "dt")];
           const float* b = kBalances[r.choose(2, "position")];
           const float step = r.choose(2, "step") ? 0.25f : 0.015625f;
           StopTrader t(SConfig(c[0], c[1], c[2], c[3]));
           RefStop ref(SConfig(c[0], c[1], c[2], c[3]));
           float close = 1024, last = 0;
           uint64_t h = mc::Bits((double)c[3]) ^ dt;
           const int depth = r.thorough() ? 10 : 8;
           for (int i = 0; i < depth; ++i) {
             Update u{kT0 + i * dt, close, b[0], b[1]};
             StopStep(r, &t, &ref, u, 0, &last, &h);
             const int k = r.choose(3, "close");
             close *= k == 0 ? 1 + step : k == 1 ? 1 : 1 / (1 + step);
           }
         });
MC_SPACE("T02", "long",
         "histories of 24 (thorough 60) updates with up to 2 deviations in time, position or close, 3 (thorough 6) configurations, steps of "
         "{60, 1800, 3599} seconds, steady, rising and falling prices",
         [](Run& r) {
           r.budget(2);
           const float* c = kStop[r.choose(r.thorough() ? 6 : 3, "config")];
           const int64_t dt = (const int64_t[]){60, 1800, 3599}[r.choose(3, "dt")];
           const float drift = (const float[]){1, 1.01f, 0.99f}[r.choose(3, "drift")];
           int b = r.choose(2, "position");
           StopTrader t(SConfig(c[0], c[1], c[2], c[3]));
           RefStop ref(SConfig(c[0], c[1], c[2], c[3]));
           float close = 50, last = 0;
           int64_t now = kT0;
           uint64_t h = mc::Bits((double)c[3]) ^ dt;
           const int depth = r.thorough() ? 60 : 24;
           const int64_t other[] = {0, 1, 3599, 3600, 86400};
           for (int i = 0; i < depth; ++i) {
             StopStep(r, &t, &ref, {now, close, b ? 0.f : 2.f, b ? 1000.f : 0.f}, 0, &last, &h);
             close *= drift;
             const int k = r.deviate(8, "deviation");
             now += k >= 1 && k <= 4 ? other[k] : dt;
             if (k == 5) b = !b;
             if (k == 6) close *= 1.3f;
             if (k == 7) close *= 0.8f;
           }
         });
MC_SPACE("T02", "position",
         "all prices 2^k, base and quote balances over 9 values each (0 and powers of two around the price): the position is long exactly if "
         "the base balance is worth at least the quote balance",
         [](Run& r) {
           const float* c = kStop[r.choose(2, "config")];
           StopTrader t(SConfig(c[0], c[1], c[2], c[3]));
           RefStop ref(SConfig(c[0], c[1], c[2], c[3]));
           const float v[] = {0, 0.125f, 0.5f, 1, 1.5f, 2, 4, 64, 1024};
           float last = 0;
           uint64_t h = 0;
           for (int i = 0; i < 2; ++i) {
             const Update u{kT0 + 60 * i, v[1 + r.choose(8, "close")], v[r.choose(9, "base")], v[r.choose(9, "quote")]};
             if (u.base == 0 && u.quote == 0) r.prune();
             StopStep(r, &t, &ref, u, 0, &last, &h);
           }
         });

MC_SPACE("T02", "scale",
         "histories of 3000 updates in 8 price patterns (level, slow and fast trends, walks, jumps), steps of {1, 60, 300, 3599} seconds with "
         "no gap or a gap every 700 updates, long, cash and switching every 450 updates, 6 configurations: every step follows the stop price "
         "before it",
         [](Run& r) {
           const float* c = kStop[r.choose(6, "config")];
           StopTrader t(SConfig(c[0], c[1], c[2], c[3]));
           RefStop ref(SConfig(c[0], c[1], c[2], c[3]));
           const int prices = r.choose(8, "prices"), position = r.choose(3, "position");
           const int64_t dt = (const int64_t[]){1, 60, 300, 3599}[r.choose(4, "dt")];
           const bool gaps = r.choose(2, "gaps");
           float last = 0;
           int64_t now = kT0;
           double price = 100;
           uint64_t h = mc::Bits((double)c[3]) ^ dt;
           for (int i = 0; i < 3000; ++i) {
             const double f[] = {1,     1.0001, 0.9999, 1.004, 0.996, i % 7 < 3 ? 1.03 : 0.978, i % 50 ? 1.0 : i % 100 ? 1.6 : 1 / 1.6,
                                 i % 300 < 150 ? 1.002 : 1 / 1.002};
             price *= f[prices];
             const bool cash = position == 2 ? i / 450 % 2 : position;
             StopStep(r, &t, &ref, {now, (float)price, cash ? 0.f : 2.f, cash ? 1e3f : 0.f}, i % 3, &last, &h);
             // The next step is judged from the price that has been observed.
             ref.stop = last;
             ref.roundings = 1;
             now += gaps && i % 700 == 699 ? 5000 : dt;
           }
         });

// ------------------------------------------------------------------ T03
// What the traders of an emitter do on a fixed history: their configuration
// shows in the orders.
std::vector<std::vector<Order>> Behaviour(Trader* t) {
  const Update us[] = {{kT0, 100, 7, 300},          {kT0 + 300, 130, 7, 300},  {kT0 + 3800, 250, 7, 100},
                       {kT0 + 4000, 90, 0.01f, 900}, {kT0 + 7500, 60, 0.01f, 900}, {kT0 + 7900, 61, 5, 305},
                       {kT0 + 8000, 61, 50, 305}};
  std::vector<std::vector<Order>> out;
  for (const Update& u : us) out.push_back(Feed(t, u));
  return out;
}
bool SameBehaviour(const std::vector<std::vector<Order>>& a, const std::vector<std::vector<Order>>& b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i)
    if (!SameOrders(a[i], b[i])) return false;
  return true;
}
struct Want {
  std::string name;
  std::unique_ptr<Trader> trader;
};
Want WantRebalancing(float a, float e) {
  return {Fmt("rebalancing-trader[%.3f|%.3f]", a, e), std::unique_ptr<Trader>(new RebalancingTrader(RConfig(a, e)))};
}
Want WantStop(float a, float b, float c, float d) {
  return {Fmt("stop-trader[%.3f|%.3f|%.3f|%.3f]", a, b, c, d), std::unique_ptr<Trader>(new StopTrader(SConfig(a, b, c, d)))};
}
void CheckEmitters(Run& r, const std::vector<std::unique_ptr<TraderEmitter>>& got, std::vector<Want> want) {
  if (got.size() != want.size()) r.fail("%d traders, expected %d", (int)got.size(), (int)want.size());
  std::map<std::string, std::vector<std::vector<Order>>> by_name;
  for (Want& w : want) {
    if (by_name.count(w.name)) r.prune();  // the parameters are told apart by 3 decimals only
    by_name[w.name] = Behaviour(w.trader.get());
  }
  std::set<std::string> seen;
  for (const auto& e : got) {
    const std::string name = e->GetName();
    if (!by_name.count(name)) r.fail("unexpected trader %s", name.c_str());
    if (!seen.insert(name).second) r.fail("two traders %s", name.c_str());
    if (name.find(',') != std::string::npos) r.fail("the name %s is not a single CSV column", name.c_str());
    if (!SameBehaviour(Behaviour(e->NewTrader().get()), by_name[name]))
      r.fail("%s does not behave according to its parameters", name.c_str());
    r.step();
    r.state(mc::HashStr(name));
  }
}
MC_SPACE("T03", "factory", "the default traders and batches of both kinds: names, parameters and behaviour of all 166 traders",
         [](Run& r) {
           std::vector<std::unique_ptr<TraderEmitter>> got;
           std::vector<Want> want;
           switch (r.choose(4, "which")) {
             case 0:
               got.push_back(GetTrader("rebalancing"));
               want.push_back(WantRebalancing(0.7f, 0.05f));
               break;
             case 1:
               got.push_back(GetTrader("stop"));
               want.push_back(WantStop(0.1f, 0.1f, 0.01f, 0.1f));
               break;
             case 2:
               got = GetBatchOfTraders("rebalancing");
               for (float a : {0.1f, 0.3f, 0.5f, 0.7f, 0.9f})
                 for (float e : {0.01f, 0.05f, 0.1f, 0.2f}) want.push_back(WantRebalancing(a, e));
               break;
             default:
               got = GetBatchOfTraders("stop");
               for (float a : {0.05f, 0.1f, 0.15f, 0.2f})
                 for (float b : {0.05f, 0.1f, 0.15f, 0.2f})
                   for (float c : {0.01f, 0.05f, 0.1f})
                     for (float d : {0.01f, 0.05f, 0.1f}) want.push_back(WantStop(a, b, c, d));
           }
           CheckEmitters(r, got, std::move(want));
         });
const std::vector<float> kLists[] = {{0.5f}, {0.2f, 0.3f}, {}, {0.9f, 0.1f, 0.4f}, {0.25f, 0.125f, 0.75f, 0.6f}};
MC_SPACE("T03", "grids", "all grids of 5 value lists (0 to 4 values, unordered) per parameter: one trader per combination",
         [](Run& r) {
           std::vector<Want> want;
           if (r.choose(2, "kind")) {
             const auto &a = kLists[r.choose(5, "margins")], &b = kLists[r.choose(5, "move margins")],
                        &c = kLists[r.choose(5, "increases")], &d = kLists[r.choose(5, "decreases")];
             for (float w : a)
               for (float x : b)
                 for (float y : c)
                   for (float z : d) want.push_back(WantStop(w, x, y, z));
             CheckEmitters(r, StopTraderEmitter::GetBatchOfTraders(a, b, c, d), std::move(want));
           } else {
             const auto &a = kLists[r.choose(5, "alphas")], &b = kLists[r.choose(5, "epsilons")];
             for (float w : a)
               for (float x : b) want.push_back(WantRebalancing(w, x));
             CheckEmitters(r, RebalancingTraderEmitter::GetBatchOfTraders(a, b), std::move(want));
           }
         });
MC_SPACE("T03", "independence",
         "all interleavings of the updates and the creation of 3 traders with 3 (thorough 4) updates each from one or two emitters of both "
         "kinds: each trader emits the orders, and reports the state, that it does alone; names never change",
         [](Run& r) {
           const int kind = r.choose(4, "kind");
           const int len = r.thorough() ? 4 : 3;
           std::unique_ptr<TraderEmitter> e1, e2;
           e1.reset(kind < 2 ? (TraderEmitter*)new StopTraderEmitter(SConfig(0.1f, 0.05f, 0.5f, 0.5f))
                             : new RebalancingTraderEmitter(RConfig(0.5f, 0.1f)));
           e2.reset(kind % 2 == 0 ? (TraderEmitter*)new StopTraderEmitter(SConfig(0.2f, 0.1f, 0.1f, 0.2f))
                                  : new RebalancingTraderEmitter(RConfig(0.7f, 0.05f)));
           const std::string n1 = e1->GetName(), n2 = e2->GetName();
           auto up = [](int t, int k) {
             const float closes[3][4] = {{100, 110, 130, 90}, {100, 80, 60, 75}, {50, 55, 70, 71}};
             return Update{kT0 + 600 * k + t, closes[t][k], t == 1 ? 0.f : 1.f, t == 0 ? 0.f : 60.f};
           };
           // Alone: from emitters of their own.
           std::vector<std::vector<Order>> alone[3];
           std::vector<std::string> states[3];
           for (int t = 0; t < 3; ++t) {
             std::unique_ptr<Trader> x;
             if (t < 2)
               x.reset(kind < 2 ? (Trader*)new StopTrader(SConfig(0.1f, 0.05f, 0.5f, 0.5f))
                                : new RebalancingTrader(RConfig(0.5f, 0.1f)));
             else
               x.reset(kind % 2 == 0 ? (Trader*)new StopTrader(SConfig(0.2f, 0.1f, 0.1f, 0.2f))
                                     : new RebalancingTrader(RConfig(0.7f, 0.05f)));
             for (int k = 0; k < len; ++k) {
               alone[t].push_back(Feed(x.get(), up(t, k)));
               states[t].push_back(x->GetInternalState());
             }
           }
           std::unique_ptr<Trader> tr[3];
           int pc[3] = {-1, -1, -1};
           for (;;) {
             int run[3], n = 0;
             for (int t = 0; t < 3; ++t)
               if (pc[t] < len) run[n++] = t;
             if (n == 0) break;
             const int t = run[r.choose(n, "trader")];
             if (pc[t] < 0) {
               tr[t] = (t < 2 ? e1 : e2)->NewTrader();
             } else {
               const auto got = Feed(tr[t].get(), up(t, pc[t]));
               if (!SameOrders(got, alone[t][pc[t]]))
                 r.fail("update %d of trader %d gives %s, alone %s", pc[t] + 1, t + 1, Str(got).c_str(),
                        Str(alone[t][pc[t]]).c_str());
               if (tr[t]->GetInternalState() != states[t][pc[t]])
                 r.fail("trader %d reports %s, alone %s", t + 1, tr[t]->GetInternalState().c_str(), states[t][pc[t]].c_str());
             }
             ++pc[t];
             r.step();
             r.state(mc::Mix(mc::Mix(kind, pc[0]), mc::Mix(pc[1], pc[2])));
           }
           if (e1->GetName() != n1 || e2->GetName() != n2) r.fail("the name of the emitter changes");
         });
}  // namespace

