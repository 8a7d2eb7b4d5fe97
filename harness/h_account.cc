// Exhaustive exploration of the simulated exchange account: every sequence of
// orders x ticks up to a depth from every configuration of the alphabet, on the
// real Account, in lockstep with the reference model.
#include "base/account.h"
#include "common.h"

using namespace vt;

namespace {
enum Prop { A01, A02, A03, A04, A05 };

struct FeeSet {
  FeeConfig m, s, l;
};
FeeConfig Fee(float rel, float fixed, float min) {
  FeeConfig f;
  f.set_relative_fee(rel);
  f.set_fixed_fee(fixed);
  f.set_minimum_fee(min);
  return f;
}
const std::vector<FeeSet>& FeeSets() {
  static const std::vector<FeeSet>* s = new std::vector<FeeSet>{
      {Fee(0.25f, 0, 0), Fee(0.125f, 1, 0), Fee(0.0625f, 0, 2)},
      {FeeConfig(), FeeConfig(), FeeConfig()},
      {Fee(0.125f, 0.5f, 1.5f), Fee(0, 0, 3), Fee(0.25f, 0.25f, 0)},
      {Fee(0, 2, 1), Fee(0.25f, 0, 1), Fee(0.125f, 1, 2)},
  };
  return *s;
}

struct Menu {
  std::vector<std::array<float, 2>> units;     // base, quote
  std::vector<std::array<float, 2>> exec;      // liquidity, volume ratio
  std::vector<std::array<float, 2>> balances;  // base, quote
  std::vector<OhlcTick> ticks;
  std::vector<Order> orders;
};

std::vector<Order> Orders(const std::vector<float>& base, const std::vector<float>& quote,
                          const std::vector<float>& prices) {
  std::vector<Order> v;
  for (int type = 0; type < 3; ++type)
    for (int side = 0; side < 2; ++side)
      for (float p : prices) {
        if (type == Order::MARKET && p != prices[0]) continue;
        for (float a : base)
          v.push_back(MakeOrder((Order::Type)type, (Order::Side)side, true, a, p));
        for (float a : quote)
          v.push_back(MakeOrder((Order::Type)type, (Order::Side)side, false, a, p));
      }
  return v;
}

// Whole and fractional units; every value is a small dyadic number.
const Menu& UnitMenu() {
  static const Menu* m = [] {
    auto* x = new Menu;
    x->units = {{1, 1}, {0.25f, 0.5f}, {1, 0}, {0.5f, 2}};
    x->exec = {{1, 0}, {0.5f, 0.5f}, {0, 1}, {0.75f, 0.25f}};
    x->balances = {{0, 40}, {8, 0}, {6, 26}, {40, 400}};
    x->ticks = {Tick(1, 4, 8, 2, 6, 16), Tick(2, 6, 6, 6, 6, 4),
                Tick(3, 2, 3, 1, 3, 0),  Tick(4, 8, 10, 8, 10, 5),
                Tick(5, 5, 5, 3, 3, 1)};
    x->orders = Orders({0.25f, 1, 3.25f, 4.75f, 8}, {0.75f, 4, 9.25f, 20, 26}, {3, 6, 8});
    return x;
  }();
  return *m;
}
// No indivisible units (disabled by zero): prices are powers of two so that the
// float arithmetic stays exact.
const Menu& ZeroUnitMenu() {
  static const Menu* m = [] {
    auto* x = new Menu;
    x->units = {{0, 0}, {0, 1}, {0, 0.25f}};
    x->exec = {{1, 0}, {0, 0.5f}, {1, 1}, {0, 0}};
    x->balances = {{0, 40}, {8, 0}, {6, 26}, {2, 400}};
    x->ticks = {Tick(1, 4, 8, 2, 4, 16), Tick(2, 4, 4, 4, 4, 1), Tick(3, 2, 2, 1, 1, 0),
                Tick(4, 8, 16, 8, 16, 8)};
    x->orders = Orders({0.375f, 1, 3.25f, 8}, {0.5f, 4, 12, 26}, {2, 4, 8});
    return x;
  }();
  return *m;
}
// Large magnitudes: the number of units exceeds the 32-bit range, while all
// sums still fit into the float mantissa.
const Menu& LargeMenu() {
  static const Menu* m = [] {
    auto* x = new Menu;
    const float t14 = 1.0f / 16384, t20 = 1048576.0f;
    x->units = {{t14, 1}, {1, t14}, {t14, t14}, {0, 0}};
    x->exec = {{1, 0}, {0, 0.5f}, {0, 1}};
    x->balances = {{0, t20 / 4}, {t20 / 4, 0}, {t20 / 8, t20 / 16}};
    x->ticks = {Tick(1, 1, 2, 0.5f, 1, t20 / 4), Tick(2, 1, 1, 1, 1, t20 / 32),
                Tick(3000000000LL, 2, 2, 1, 1, 4)};
    x->orders = Orders({4, 16384, t20 / 8}, {1024, 16384, t20 / 8}, {0.5f, 1, 2});
    return x;
  }();
  return *m;
}

// Amounts of zero and around half a unit (only through the order methods, as
// such orders are not valid for ExecuteOrder).
const Menu& TinyMenu() {
  static const Menu* m = [] {
    auto* x = new Menu;
    x->units = {{1, 1}, {0.25f, 0.5f}, {0, 0}, {0, 1}, {1, 0}, {2, 4}};
    x->exec = {{1, 0}, {0, 0.5f}, {1, 1}, {0, 0.25f}};
    x->balances = {{0, 40}, {8, 0}, {6, 26}, {0, 0}, {0.5f, 1}, {6, 24}};
    x->ticks = {Tick(1, 4, 8, 2, 4, 16), Tick(2, 4, 4, 4, 4, 0), Tick(4, 8, 16, 8, 16, 0.125f)};
    x->orders = Orders({0, 0.0625f, 0.125f, 0.25f, 0.5f, 1}, {0, 0.125f, 0.25f, 0.5f, 1, 2}, {2, 4, 8});
    return x;
  }();
  return *m;
}

struct Obs {
  float b, q, f;
};
Obs Get(const Account& a) { return {a.base_balance, a.quote_balance, a.total_fee}; }

void Setup(Run& r, const Menu& m, AccountConfig* cfg) {
  const auto& u = r.pick(m.units, "units");
  const auto& e = r.pick(m.exec, "exec");
  const auto& fs = r.pick(FeeSets(), "fees");
  const auto& bal = r.pick(m.balances, "balances");
  for (int i = 0; i < 2; ++i)
    if (u[i] > 0 && std::fmod(bal[i], u[i]) != 0) r.prune();  // not whole units at the start
  cfg->set_start_base_balance(bal[0]);
  cfg->set_start_quote_balance(bal[1]);
  cfg->set_base_unit(u[0]);
  cfg->set_quote_unit(u[1]);
  cfg->set_market_liquidity(e[0]);
  cfg->set_max_volume_ratio(e[1]);
  *cfg->mutable_market_order_fee_config() = fs.m;
  *cfg->mutable_stop_order_fee_config() = fs.s;
  *cfg->mutable_limit_order_fee_config() = fs.l;
  r.say("units %g/%g liq %g ratio %g start %g/%g", u[0], u[1], e[0], e[1], bal[0], bal[1]);
}

// Judges one transition p --order--> n for one property. "x" is what the
// reference model does with the same order in the state p.
void Judge(Run& r, Prop prop, const RefAccount& cfg, const RefResult& x, const Order& o,
           const OhlcTick& t, bool ok, Obs p, Obs n) {
  const bool buy = o.side() == Order::BUY;
  const std::string w = r.verbose() ? Str(o) + " on " + Str(t) : std::string();
  const double db = buy ? (double)n.b - p.b : (double)p.b - n.b;
  const double fee = (double)n.f - p.f;
  const double dq = buy ? (double)p.q - n.q : (double)n.q - p.q;
  const double gross = buy ? RCeil(db * x.price, cfg.qu) : RFloor(db * x.price, cfg.qu);
  const bool same = n.b == p.b && n.q == p.q && n.f == p.f;
  switch (prop) {
    case A01:
      if (ok != x.executed)
        r.fail("order %s but should%s be executed: %s", ok ? "executed" : "refused",
               x.executed ? "" : " not", w.c_str());
      if (ok && db != x.amount)
        r.fail("exchanged base amount %.9g, expected %.9g: %s", db, x.amount, w.c_str());
      return;
    case A02: {
      if (!(n.b >= 0) || !(n.q >= 0))
        r.fail("negative balance: base %.9g quote %.9g after %s", n.b, n.q, w.c_str());
      if (!ok) {
        if (!same) r.fail("an order that is not executed changed the account: %s", w.c_str());
        return;
      }
      if (!(db > 0)) r.fail("executed order exchanged %.9g base: %s", db, w.c_str());
      if (!(dq >= 0))
        r.fail("both balances %s: base by %.9g, quote by %.9g: %s", buy ? "increased" : "decreased",
               db, -dq, w.c_str());
      if (fee < 0) r.fail("negative fee %.9g: %s", fee, w.c_str());
      const double want = buy ? gross + fee : gross - fee;
      if (dq != want)
        r.fail("quote balance changed by %.9g, expected %.9g (= %.9g %c fee %.9g): %s", dq, want,
               gross, buy ? '+' : '-', fee, w.c_str());
      if (cfg.bu > 0 && std::floor(n.b / cfg.bu) * cfg.bu != n.b)
        r.fail("base balance %.9g is not a multiple of the unit: %s", n.b, w.c_str());
      if (cfg.qu > 0 && std::floor(n.q / cfg.qu) * cfg.qu != n.q)
        r.fail("quote balance %.9g is not a multiple of the unit: %s", n.q, w.c_str());
      return;
    }
    case A03: {
      if (!ok) {
        if (fee != 0) r.fail("fee %.9g charged for an order that is not executed: %s", fee, w.c_str());
        return;
      }
      const double want = cfg.Fee(cfg.fees[o.type()], gross);
      if (fee != want)
        r.fail("fee %.9g, expected %.9g for the exchanged quote %.9g: %s", fee, want, gross,
               w.c_str());
      if (dq != (buy ? gross + want : gross - want))
        r.fail("fee %.9g is not taken from the quote balance (changed by %.9g for %.9g): %s", want,
               dq, gross, w.c_str());
      return;
    }
    case A04:
      if (ok && !x.triggered) r.fail("order executed although not triggered: %s", w.c_str());
      if (x.executed && !ok) r.fail("triggered and affordable order not executed: %s", w.c_str());
      if (ok) {
        const double got = buy ? dq - fee : dq + fee;
        if (got != gross)
          r.fail("executed at a wrong price: exchanged %.9g base for %.9g quote, expected %.9g "
                 "(price %.9g): %s", db, got, gross, x.price, w.c_str());
      }
      return;
    case A05: {
      if (!ok) {
        if (!same) r.fail("rejected order changed the account: %s", w.c_str());
        if (x.triggered && !x.executed) r.cover("rejected");
        return;
      }
      if (x.triggered && !x.executed) r.fail("invalid or unaffordable order executed: %s", w.c_str());
      const bool in_base = o.oneof_amount_case() == Order::kBaseAmount;
      const double amount = in_base ? RRound(o.base_amount(), cfg.bu) : RRound(o.quote_amount(), cfg.qu);
      if (amount <= 0 || amount < (in_base ? cfg.bu : cfg.qu))
        r.fail("order below the smallest unit executed: %s", w.c_str());
      if (in_base && !buy && o.type() != Order::LIMIT && amount > p.b)
        r.fail("sold more than the balance: %s", w.c_str());
      if (!in_base && buy && amount > p.q) r.fail("spent more than the balance: %s", w.c_str());
      return;
    }
  }
}

void Coverage(Run& r, const Order& o, const RefResult& x, bool ok) {
  if (!x.triggered) r.cover("not triggered");
  else if (!x.executed) r.cover("refused");
  if (ok) {
    static const char* names[3][2] = {{"market buy", "market sell"},
                                      {"stop buy", "stop sell"},
                                      {"limit buy", "limit sell"}};
    r.cover(names[o.type()][o.side()]);
  }
}

// An account that was used before is as good as a new one after its initialisation.
void InitUsed(Run& r, Prop prop, Account& a, const AccountConfig& cfg) {
  static const Account* used = [] {
    AccountConfig c;
    c.set_start_base_balance(3);
    c.set_start_quote_balance(50);
    c.set_base_unit(0.5f);
    c.set_quote_unit(0.5f);
    c.set_market_liquidity(0.25f);
    c.set_max_volume_ratio(0.125f);
    c.mutable_market_order_fee_config()->set_fixed_fee(3);
    auto* x = new Account;
    x->InitAccount(c);
    x->ExecuteOrder(c, MakeOrder(Order::MARKET, Order::SELL, true, 2, 1), Tick(1, 8, 8, 8, 8, 4));
    return x;
  }();
  a = *used;
  a.InitAccount(cfg);
  const Obs o = Get(a);
  if (prop == A03 && o.f != 0) r.fail("the total fee is %.9g at the start", o.f);
  if (prop == A02 && (o.b != cfg.start_base_balance() || o.q != cfg.start_quote_balance()))
    r.fail("the balances are %.9g and %.9g at the start", o.b, o.q);
}

void Sequences(Run& r, Prop prop, const Menu& m, int depth) {
  AccountConfig cfg;
  Setup(r, m, &cfg);
  Account a;
  InitUsed(r, prop, a, cfg);
  RefAccount ref;
  ref.Init(cfg);
  uint64_t salt = mc::Mix(0, 0);
  // All orders are applied on every tick at every level; the account state is
  // the only thing that determines the future.
  salt = mc::HashStr(cfg.SerializeAsString());
  for (int d = 0; d < depth; ++d) {
    const uint64_t h =
        mc::Mix(mc::Mix(mc::Mix(salt, mc::Bits(a.base_balance)), mc::Bits(a.quote_balance)),
                prop == A03 ? mc::Bits(a.total_fee) : 0);
    r.state(h);
    r.visit(mc::Mix(h, depth - d));
    const OhlcTick& t = r.pick(m.ticks, "tick");
    const Order& o = r.pick(m.orders, "order");
    const Obs p = Get(a);
    ref.base = p.b;
    ref.quote = p.q;
    ref.total_fee = p.f;
    const RefResult x = ref.Execute(o, t);
    const bool ok = a.ExecuteOrder(cfg, o, t);
    r.step();
    const Obs n = Get(a);
    if (r.verbose())
      r.say("%s on %s -> %s base %.9g quote %.9g fee %.9g", Str(o).c_str(), Str(t).c_str(),
            ok ? "executed" : "refused", n.b, n.q, n.f);
    Coverage(r, o, x, ok);
    Judge(r, prop, ref, x, o, t, ok, p, n);
    if (d + 1 < depth && !ok) r.prune();  // nothing changed
  }
  r.outcome(mc::Mix(mc::Bits(a.base_balance), mc::Bits(a.quote_balance)));
}

// The same, through the individual order methods of the public interface.
void DirectCalls(Run& r, Prop prop, const Menu& m) {
  AccountConfig cfg;
  Setup(r, m, &cfg);
  Account a;
  InitUsed(r, prop, a, cfg);
  RefAccount ref;
  ref.Init(cfg);
  const OhlcTick& t = r.pick(m.ticks, "tick");
  const Order& o = r.pick(m.orders, "order");
  const bool buy = o.side() == Order::BUY;
  const bool in_base = o.oneof_amount_case() == Order::kBaseAmount;
  // Selling for nothing without a smallest quote unit is not specified.
  if (!buy && !in_base && o.quote_amount() == 0 && cfg.quote_unit() == 0) r.prune();
  const float amt = in_base ? o.base_amount() : o.quote_amount();
  const Obs p = Get(a);
  bool ok = false;
  RefResult x;
  const FeeConfig& fm = cfg.market_order_fee_config();
  const FeeConfig& fs = cfg.stop_order_fee_config();
  const FeeConfig& fl = cfg.limit_order_fee_config();
  if (o.type() == Order::MARKET) {
    // Orders at a specific price with a cap on the base amount.
    static const std::vector<float> kPrices = {2, 4, 8};
    static const std::vector<float> kCaps = {std::numeric_limits<float>::max(), 0, 2.25f};
    const float price = r.pick(kPrices, "price");
    const int how = r.choose(in_base ? 1 : 3, "cap");
    x = ref.Trade(ref.fees[Order::MARKET], buy, in_base, amt, price,
                  how == 0 ? std::numeric_limits<double>::infinity() : kCaps[how]);
    if (in_base)
      ok = buy ? a.BuyBase(fm, amt, price) : a.SellBase(fm, amt, price);
    else if (how == 0)
      ok = buy ? a.BuyAtQuote(fm, amt, price) : a.SellAtQuote(fm, amt, price);
    else
      ok = buy ? a.BuyAtQuote(fm, amt, price, kCaps[how])
               : a.SellAtQuote(fm, amt, price, kCaps[how]);
    if (prop == A04) {
      // Published price functions.
      Order mb = MakeOrder(Order::MARKET, Order::BUY, true, 1, 0), ms = mb, sb = mb, ss = mb;
      ms.set_side(Order::SELL);
      sb.set_type(Order::STOP);
      ss.set_type(Order::STOP);
      ss.set_side(Order::SELL);
      double w;
      ref.Trigger(mb, t, &w);
      if (a.GetMarketBuyPrice(t) != w) r.fail("market buy price %.9g != %.9g", a.GetMarketBuyPrice(t), w);
      ref.Trigger(ms, t, &w);
      if (a.GetMarketSellPrice(t) != w) r.fail("market sell price");
      for (float sp : {1.0f, 3.0f, 4.0f, 6.0f, 8.0f}) {
        sb.set_price(sp);
        ss.set_price(sp);
        if (ref.Trigger(sb, t, &w) && a.GetStopBuyPrice(t, sp) != w) r.fail("stop buy price");
        if (ref.Trigger(ss, t, &w) && a.GetStopSellPrice(t, sp) != w) r.fail("stop sell price");
      }
    }
    if (prop == A03) {
      for (float q : {0.0f, 1.0f, 7.0f, 100.0f})
        if (a.GetFee(fl, q) != ref.Fee(ref.fees[Order::LIMIT], q)) r.fail("GetFee(%g)", q);
    }
  } else if (o.type() == Order::STOP) {
    x = ref.Execute(o, t);
    if (in_base)
      ok = buy ? a.StopBuy(fs, t, amt, o.price()) : a.StopSell(fs, t, amt, o.price());
    else
      ok = buy ? a.StopBuyAtQuote(fs, t, amt, o.price()) : a.StopSellAtQuote(fs, t, amt, o.price());
  } else {
    x = ref.Execute(o, t);
    if (in_base)
      ok = buy ? a.LimitBuy(fl, t, amt, o.price()) : a.LimitSell(fl, t, amt, o.price());
    else
      ok = buy ? a.LimitBuyAtQuote(fl, t, amt, o.price())
               : a.LimitSellAtQuote(fl, t, amt, o.price());
  }
  r.step();
  const Obs n = Get(a);
  if (r.verbose())
    r.say("direct %s on %s -> %d base %.9g quote %.9g fee %.9g", Str(o).c_str(), Str(t).c_str(),
          ok, n.b, n.q, n.f);
  Coverage(r, o, x, ok);
  r.state(mc::Mix(mc::Mix(mc::Bits(n.b), mc::Bits(n.q)), mc::Bits(n.f)));
  Judge(r, prop, ref, x, o, t, ok, p, n);
}

// Realistic decimal units and prices: the float implementation rounds, so only
// exact inequalities and tolerance bounded equalities are judged.
// The same order executed many times: all fills are alike, and nothing drifts.
void Repeated(Run& r, Prop prop) {
  static const std::vector<float> kPrices = {0.37f, 1, 19.99f, 700.12f, 33333.3f};
  static const std::vector<std::array<float, 2>> kUnits = {
      {0.00001f, 0.01f}, {0.001f, 0.1f}, {0.1f, 0.05f}, {1e-6f, 1e-3f}};
  static const std::vector<std::array<float, 3>> kFees = {
      {0.005f, 0, 0.05f}, {0, 0.1f, 0}, {0.001f, 0.03f, 0.07f}, {0.0026f, 0, 0}};
  static const std::vector<int> kAmounts = {1, 3, 7, 10, 33};  // in units of base, or in units of quote
  const auto& units = r.pick(kUnits, "units");
  const auto& fee = r.pick(kFees, "fees");
  const float price = r.pick(kPrices, "price");
  const bool buy = r.choose(2, "side") == 0;
  const double want_gross = r.pick(kAmounts, "amount") * 10.0 * units[1];
  const double k = std::max(1.0, std::round(want_gross / price / units[0]));
  const float base = (float)(k * units[0]);
  AccountConfig cfg;
  const double fee1 = std::max((double)fee[2], fee[1] + k * units[0] * price * fee[0]);
  const int n = r.thorough() ? 400 : 150;
  const double gross = k * units[0] * price;
  // Enough for all fills, as few as possible (the floats are finer).
  const double start_units = buy ? std::ceil((gross + fee1 + 3 * units[1]) / units[1]) * (n + 2) : k * (n + 2);
  if (start_units > 2e6 || (!buy && gross < fee1 + 3 * units[1])) return r.prune();
  if (buy && k * (n + 2) > 2e6) return r.prune();
  if (!buy && (gross + fee1) * (n + 2) / units[1] > 2e6) return r.prune();
  cfg.set_start_base_balance(buy ? 0 : (float)(start_units * units[0]));
  cfg.set_start_quote_balance(buy ? (float)(start_units * units[1]) : 0);
  cfg.set_base_unit(units[0]);
  cfg.set_quote_unit(units[1]);
  cfg.set_market_liquidity(1);
  for (FeeConfig* f : {cfg.mutable_market_order_fee_config(), cfg.mutable_stop_order_fee_config(),
                       cfg.mutable_limit_order_fee_config()}) {
    f->set_relative_fee(fee[0]);
    f->set_fixed_fee(fee[1]);
    f->set_minimum_fee(fee[2]);
  }
  Account a;
  InitUsed(r, prop, a, cfg);
  const Obs s = Get(a);
  const Order o = MakeOrder(Order::MARKET, buy ? Order::BUY : Order::SELL, true, base, 1);
  const OhlcTick t = Tick(1, price, price, price, price, 1e9f);
  double fee_units = 0, quote_units = 0;
  for (int i = 1; i <= n; ++i) {
    const bool ok = a.ExecuteOrder(cfg, o, t);
    const Obs c = Get(a);
    r.step();
    if (!ok) {
      if (prop == A01) r.fail("affordable order %d not executed", i);
      return;
    }
    if (i == 1) {
      fee_units = std::round(((double)c.f - s.f) / units[1]);
      quote_units = std::round(((double)c.q - s.q) / units[1]);
      if (prop == A03 && (s.f != 0 || std::fabs(fee_units - fee1 / units[1]) > 1.1 + 1e-5 * fee_units ||
                          fee_units < fee1 / units[1] - (buy ? 0 : fee[0]) - 1e-3 - 1e-5 * fee_units))
        r.fail("fee of the first fill %.9g (was %.9g), expected about %.9g", c.f, s.f, fee1);
    }
    const auto near = [&](double v, double units_count, double unit) {
      return std::fabs(v / unit - units_count) <= 0.05 + 4e-7 * std::fabs(units_count);
    };
    const double start_q = std::round((double)s.q / units[1]), start_b = std::round((double)s.b / units[0]);
    if (prop == A03 && !near(c.f, i * fee_units, units[1]))
      r.fail("total fee %.9g after %d fills of %g units", c.f, i, fee_units);
    if (prop == A02 && !near(c.q, start_q + i * quote_units, units[1]))
      r.fail("quote balance %.9g (started with %.9g) after %d fills of %g units", c.q, s.q, i, quote_units);
    if ((prop == A01 || prop == A02) && !near(c.b, start_b + (buy ? i : -i) * k, units[0]))
      r.fail("base balance %.9g (started with %.9g) after %d fills of %g units", c.b, s.b, i, k);
  }
  r.cover("all");
}

void Decimal(Run& r, Prop prop, int depth) {
  static const std::vector<std::array<float, 2>> kBal = {{1, 0}, {0, 1000}, {2.5f, 12345.67f}};
  static const std::vector<float> kLiq = {0.5f, 1, 0};
  static const std::vector<OhlcTick> kTicks = {
      Tick(1, 700.12f, 712.34f, 690.01f, 705.55f, 3.1f),
      Tick(2, 9999.99f, 10400.5f, 9500.25f, 9800.1f, 0.7f),
      Tick(3, 33.3f, 33.7f, 32.9f, 33.1f, 1000.3f)};
  static const std::vector<Order> kOrders =
      Orders({0.00001f, 0.1f, 0.333333f, 1, 2.5f}, {0.01f, 5.55f, 700.12f, 1000, 12345.67f},
             {33.2f, 701.7f, 9700.3f});
  AccountConfig cfg;
  const auto& bal = r.pick(kBal, "balances");
  cfg.set_start_base_balance(bal[0]);
  cfg.set_start_quote_balance(bal[1]);
  cfg.set_base_unit(0.00001f);
  cfg.set_quote_unit(0.01f);
  cfg.set_market_liquidity(r.pick(kLiq, "liquidity"));
  cfg.set_max_volume_ratio(0.5f);
  const float rel = r.choose(2, "fee") ? 0.0f : 0.005f;
  for (FeeConfig* f : {cfg.mutable_market_order_fee_config(), cfg.mutable_stop_order_fee_config(),
                       cfg.mutable_limit_order_fee_config()}) {
    f->set_relative_fee(rel);
    f->set_fixed_fee(0);
    f->set_minimum_fee(rel > 0 ? 0.05f : 0);
  }
  Account a;
  InitUsed(r, prop, a, cfg);
  RefAccount ref;
  ref.Init(cfg);
  const uint64_t salt = mc::HashStr(cfg.SerializeAsString());
  for (int d = 0; d < depth; ++d) {
    const uint64_t h = mc::Mix(
        mc::Mix(mc::Mix(salt, mc::Bits(a.base_balance)), mc::Bits(a.quote_balance)),
        mc::Bits(a.total_fee));
    r.state(h);
    r.visit(mc::Mix(h, depth - d));
    const OhlcTick& t = r.pick(kTicks, "tick");
    const Order& o = r.pick(kOrders, "order");
    const bool buy = o.side() == Order::BUY;
    const Obs p = Get(a);
    const bool ok = a.ExecuteOrder(cfg, o, t);
    r.step();
    const Obs n = Get(a);
    if (r.verbose())
      r.say("%s on %s -> %s base %.9g quote %.9g fee %.9g", Str(o).c_str(), Str(t).c_str(),
            ok ? "executed" : "refused", n.b, n.q, n.f);
    if (ok) r.cover("executed");
    ref.base = p.b;
    ref.quote = p.q;
    double price;
    const bool trig = ref.Trigger(o, t, &price);
    const bool same = n.b == p.b && n.q == p.q && n.f == p.f;
    if (prop == A02) {
      if (!(n.b >= 0) || !(n.q >= 0)) r.fail("negative balance %.9g / %.9g", n.b, n.q);
      if (!ok && !same) r.fail("an order that is not executed changed the account");
    } else if (prop == A03) {
      if (!(n.f >= p.f)) r.fail("the total fee decreased");
    } else if (prop == A04) {
      if (ok && !trig) r.fail("order executed although not triggered");
    } else if (prop == A05) {
      if (!ok && !same) r.fail("rejected order changed the account");
      if (ok && same) r.fail("executed order changed nothing");
    }
    // Clear cases of affordable and of unaffordable orders.
    if (trig && (prop == A01 || prop == A05)) {
      const bool in_base = o.oneof_amount_case() == Order::kBaseAmount;
      double base = in_base ? o.base_amount() : o.quote_amount() / price;
      if (o.type() == Order::LIMIT) base = std::min(base, 0.5 * t.volume());
      const double cost = base * price * (1 + rel) + (rel > 0 ? 0.05 : 0);
      const double have = buy ? p.q : p.b;
      const double need = buy ? (in_base ? cost : (double)o.quote_amount())
                              : in_base ? base : std::min(base + (rel > 0 ? std::max(base * price * rel, 0.05) : 0.0) / price,
                                                          o.type() == Order::LIMIT ? 0.5 * t.volume() : 1e30);
      if (ok && (in_base || buy) && need > have * 1.0001 + (buy ? 0.05 : 2e-5)) r.fail("unaffordable order executed");
      if (!ok && prop == A01 && base > 2e-5 && base * price > 0.2 &&
          need * 1.001 + (buy ? 0.1 : 2e-5) < have)
        r.fail("affordable order not executed");
    }
    if (prop == A02 && ok) {
      // The balances and the fee stay on the grid of units (no drift).
      const auto on_grid = [](float v, float u) {
        const double k = std::round((double)v / u);
        return k >= 4194304 || std::fabs(k * (double)u - v) <= 4e-7 * v;
      };
      if (!on_grid(n.b, cfg.base_unit()))
        r.fail("base balance %.9g is not a multiple of the unit", n.b);
      if (!on_grid(n.q, cfg.quote_unit()))
        r.fail("quote balance %.9g is not a multiple of the unit", n.q);
      if (!on_grid(n.f, cfg.quote_unit()))
        r.fail("total fee %.9g is not a multiple of the unit", n.f);
    }
    if (ok && trig) {
      const double db = buy ? (double)n.b - p.b : (double)p.b - n.b;
      const double dq = buy ? (double)p.q - n.q : (double)n.q - p.q;
      const double fee = (double)n.f - p.f;
      const double gross = db * price;
      // float rounding of the balances, two quote units and half a base unit
      const double tol = 0.02 + 1e-6 * (std::fabs(p.q) + std::fabs(n.q) + p.f) +
                         price * (1e-5 + 3e-7 * (p.b + n.b));
      const double want_fee = std::max(rel > 0 ? 0.05 : 0.0, gross * (double)rel);
      // Values and fees are rounded in favour of the exchange: only float noise on the other side.
      const double noise = 0.002 + price * 3e-7 * (p.b + n.b) +
                           2.5e-7 * (std::fabs(p.q) + std::fabs(n.q) + p.f + n.f);
      if (prop == A02 && (buy ? dq < gross + fee - noise : dq > gross - fee + noise))
        r.fail("value given away: quote change %.9g vs gross %.9g fee %.9g", dq, gross, fee);
      if (prop == A03 && fee < want_fee - noise)
        r.fail("fee %.9g, expected at least %.9g", fee, want_fee);
      if (prop == A02 || prop == A04) {
        if (std::fabs(dq - (buy ? gross + fee : gross - fee)) > tol)
          r.fail("quote change %.9g vs gross %.9g fee %.9g", dq, gross, fee);
      } else if (prop == A03) {
        if (std::fabs(fee - want_fee) > tol) r.fail("fee %.9g, expected about %.9g", fee, want_fee);
      } else if (prop == A01) {
        if (o.oneof_amount_case() == Order::kBaseAmount) {
          if (db > o.base_amount() + 1e-5 + 1e-6 * (p.b + n.b)) r.fail("exchanged more base than requested");
        } else if (dq > o.quote_amount() + tol) {
          r.fail("%s more quote than requested: %.9g > %.9g", buy ? "spent" : "received", dq,
                 o.quote_amount());
        }
        if (o.type() == Order::LIMIT && db > 0.5 * t.volume() + 1e-5 + 1e-6 * (p.b + n.b))
          r.fail("exceeded the volume cap");
      }
    }
    if (d + 1 < depth && !ok) r.prune();
  }
}

#define FOR_PROP(P)                                                                        \
  MC_SPACE(#P, "units", "4 unit pairs x 4 exec x 4 fees x 4 balances, all order sequences " \
           "to depth 2 (thorough 3) over 5 ticks x 140 orders",                            \
           [](Run& r) { Sequences(r, P, UnitMenu(), r.thorough() ? 3 : 2); });             \
  MC_SPACE(#P, "zero_units", "disabled units, powers of two, depth 2 (thorough 3)",        \
           [](Run& r) { Sequences(r, P, ZeroUnitMenu(), r.thorough() ? 3 : 2); });         \
  MC_SPACE(#P, "large", "unit counts beyond 2^31, depth 2",                                \
           [](Run& r) { Sequences(r, P, LargeMenu(), 2); });                               \
  MC_SPACE(#P, "direct", "all public order methods called directly, dyadic units",         \
           [](Run& r) { DirectCalls(r, P, UnitMenu()); });                                 \
  MC_SPACE(#P, "direct_zero", "all public order methods, disabled units",                  \
           [](Run& r) { DirectCalls(r, P, ZeroUnitMenu()); });                             \
  MC_SPACE(#P, "tiny", "all public order methods, amounts of zero to two units",           \
           [](Run& r) { DirectCalls(r, P, TinyMenu()); });                                 \
  MC_SPACE(#P, "decimal", "decimal units (1e-5, 0.01), depth 2 (thorough 3)",              \
           [](Run& r) { Decimal(r, P, r.thorough() ? 3 : 2); });
#define REPEATED(P)                                                                        \
  MC_SPACE(#P, "repeated", "the same order executed 150 (thorough 400) times: 4 pairs of " \
           "decimal units x 4 fees x 5 prices x 5 amounts, bought or sold, on a used account",  \
           [](Run& r) { Repeated(r, P); });
FOR_PROP(A01)
FOR_PROP(A02)
FOR_PROP(A03)
FOR_PROP(A04)
FOR_PROP(A05)
REPEATED(A01)
REPEATED(A02)
REPEATED(A03)
}  // namespace
