// D01, D02: times and months. L01: the log lines.
#include <memory>
#include <sstream>

#include "absl/time/time.h"
#include "base/account.h"
#include "civil.h"
#include "common.h"
#include "logging/csv_logger.h"
#include "util/time.h"

using namespace vt;

namespace {
std::string Fmt(const char* f, ...) {
  char b[600];
  va_list a;
  va_start(a, f);
  std::vsnprintf(b, sizeof b, f, a);
  va_end(a);
  return b;
}
// ------------------------------------------------------------------ D01
std::string Spell(int format, int64_t y, int m, int d, int hh, int mm, int ss, int off) {
  const std::string date = Fmt("%04lld-%02d-%02d", (long long)y, m, d), time = Fmt("%02d:%02d:%02d", hh, mm, ss);
  const int a = std::abs(off);
  const std::string o = Fmt("%c%02d:%02d", off < 0 ? '-' : '+', a / 60, a % 60);
  switch (format) {
    case 0: return date;
    case 1: return date + " " + o;
    case 2: return date + " " + time;
    case 3: return date + " " + time + " " + o;
    default: return date + "T" + time + o;
  }
}
void Accept(Run& r, const std::string& s, int64_t want) {
  const auto t = ParseTime(s);
  r.step();
  if (!t.ok()) r.fail("'%s' is rejected", s.c_str());
  if (*t != absl::FromUnixSeconds(want))
    r.fail("'%s' parses to %s, expected %lld", s.c_str(), absl::FormatTime(*t, absl::UTCTimeZone()).c_str(), (long long)want);
}
void Reject(Run& r, const std::string& s) {
  const auto t = ParseTime(s);
  r.step();
  if (t.ok())
    r.fail("'%s' is accepted as %s", s.c_str(), absl::FormatTime(*t, absl::UTCTimeZone()).c_str());
  if (t.status().code() != absl::StatusCode::kInvalidArgument) r.fail("'%s' gives %s", s.c_str(), t.status().ToString().c_str());
}
// Formatting in UTC and parsing again.
void RoundTrip(Run& r, int64_t t) {
  const int64_t days = civil::FloorDiv(t, 86400);
  const int sec = (int)(t - days * 86400);
  const civil::Date x = civil::FromDays(days);
  const std::string s = FormatTimeUTC(absl::FromUnixSeconds(t));
  const std::string want = Fmt("%lld-%02d-%02d %02d:%02d:%02d", (long long)x.y, x.m, x.d, sec / 3600, sec / 60 % 60, sec % 60);
  r.step();
  if (s != want) r.fail("%lld is formatted as '%s', expected '%s'", (long long)t, s.c_str(), want.c_str());
  Accept(r, s, t);
}
MC_SPACE("D01", "days",
         "all 31 * 12 day numbers of all years 1600 to 2400 (thorough 1000 to 3000): every existing day in all 5 formats and formatted, every missing day "
         "(and month 0, 13, day 0, 32) rejected in all of them",
         [](Run& r) {
           const int y = r.thorough() ? 1000 + r.choose(2001, "year") : 1600 + r.choose(801, "year");
           for (int m = 0; m <= 13; ++m)
             for (int d = 0; d <= 32; ++d) {
               const bool exists = m >= 1 && m <= 12 && d >= 1 && d <= civil::DaysInMonth(y, m);
               for (int f = 0; f < 5; ++f) {
                 const int off = (d - 16) * 45;
                 const std::string s = Spell(f, y, m, d, (d + m) % 24, (d * 7) % 60, (y + d) % 60, off);
                 if (!exists) {
                   Reject(r, s);
                   continue;
                 }
                 int64_t want = civil::Sec(y, m, d);
                 if (f >= 2) want += (d + m) % 24 * 3600 + (d * 7) % 60 * 60 + (y + d) % 60;
                 if (f == 1 || f >= 3) want -= off * 60;
                 Accept(r, s, want);
                 r.state(want);
               }
               if (exists) RoundTrip(r, civil::Sec(y, m, d, m, d, 59));
             }
         });
MC_SPACE("D01", "times",
         "all 26 x 63 x 63 times of day of 6 days in the 3 formats with a time, all 86400 seconds of 8 days formatted; hours above 23, minutes and "
         "seconds above 59 (60 for seconds) rejected",
         [](Run& r) {
           const int64_t days[][3] = {{2017, 1, 1}, {2016, 2, 29}, {1999, 12, 31}, {1970, 1, 1}, {2038, 1, 19}, {1969, 12, 31}};
           const auto& d = days[r.choose(6, "day")];
           const int hh = r.choose(26, "hour"), mm = r.choose(63, "minute");
           for (int ss = 0; ss < 63; ++ss) {
             const bool ok = hh < 24 && mm < 60 && ss < 60;
             for (int f = 2; f < 5; ++f) {
               if (hh < 24 && mm < 60 && ss == 60) continue;  // leap seconds are not specified
               const std::string s = Spell(f, d[0], (int)d[1], (int)d[2], hh, mm, ss, 330);
               const int64_t want = civil::Sec(d[0], (int)d[1], (int)d[2], hh, mm, ss);
               if (ok) {
                 Accept(r, s, want - (f >= 3 ? 330 * 60 : 0));
                 r.state(want);
               } else {
                 Reject(r, s);
               }
             }
             if (ok) RoundTrip(r, civil::Sec(d[0], (int)d[1], (int)d[2], hh, mm, ss));
           }
         });
// The local time zone of the process must not matter.
const char* Zone(Run& r) {
  static const char* const kZones[] = {"UTC", "America/New_York", "Asia/Kolkata", "EST5EDT", "Fixed/UTC+05:30:00"};
  const char* z = kZones[r.choose(5, "time zone")];
  setenv("TZ", z, 1);
  tzset();
  return z;
}
struct RestoreZone {
  ~RestoreZone() {
    setenv("TZ", "UTC", 1);
    tzset();
  }
};
MC_SPACE("D01", "zones", "all hours of all days of 2017 in all 5 formats and formatted, with the process in 5 local time zones",
         [](Run& r) {
           RestoreZone restore;
           Zone(r);
           const int64_t day = civil::Days(2017, 1, 1) + r.choose(366, "day");
           const civil::Date x = civil::FromDays(day);
           for (int hh = 0; hh < 24; ++hh) {
             const int64_t t = day * 86400 + hh * 3600 + 61;
             for (int f = 0; f < 5; ++f) {
               if (f < 2 && hh) continue;
               const int off = f == 1 || f >= 3 ? -90 : 0;
               Accept(r, Spell(f, x.y, x.m, x.d, hh, 1, 1, off), (f < 2 ? day * 86400 : t) - 60 * off);
             }
             RoundTrip(r, t);
             r.state(t);
           }
         });
MC_SPACE("D01", "offsets", "all offsets -23:59 to +23:59 with 12 days and times in the 3 formats with an offset; minutes above 59 rejected",
         [](Run& r) {
           const int64_t t[][6] = {{2017, 1, 1, 0, 0, 0},    {2017, 1, 1, 23, 59, 59},  {2016, 2, 29, 12, 0, 0},  {2016, 3, 1, 1, 2, 3},
                                   {1970, 1, 1, 0, 0, 0},    {2000, 2, 28, 22, 0, 0},   {2000, 12, 31, 23, 30, 0}, {1900, 3, 1, 0, 0, 1},
                                   {2100, 2, 28, 18, 45, 0}, {2021, 10, 31, 2, 30, 30}, {2021, 3, 28, 2, 30, 0},  {2038, 1, 19, 3, 14, 8}};
           const auto& x = t[r.choose(12, "time")];
           const int hours = r.choose(24, "hours"), sign = r.choose(2, "sign") ? -1 : 1;
           const int formats[] = {1, 3, 4};
           const int f = formats[r.choose(3, "format")];
           const int64_t base = f == 1 ? civil::Sec(x[0], (int)x[1], (int)x[2])
                                       : civil::Sec(x[0], (int)x[1], (int)x[2], (int)x[3], (int)x[4], (int)x[5]);
           for (int m = 0; m < 60; ++m) {
             const int off = sign * (hours * 60 + m);
             if (off == 0 && sign < 0) continue;
             Accept(r, Spell(f, x[0], (int)x[1], (int)x[2], (int)x[3], (int)x[4], (int)x[5], off), base - off * 60);
             r.state(mc::Mix(base, off));
           }
           std::string s = Spell(f, x[0], (int)x[1], (int)x[2], (int)x[3], (int)x[4], (int)x[5], sign * hours * 60);
           for (int m = 60; m < 100; ++m) Reject(r, s.substr(0, s.size() - 2) + Fmt("%02d", m));
         });

// A string is of an accepted spelling, certainly none, or (deviating in digits
// and white space only) not specified.
enum Verdict { kYes, kNo, kOpen };
struct Scan {
  const std::string& s;
  size_t i = 0;
  bool strict = true;
  explicit Scan(const std::string& str) : s(str) {}
  bool Space() {
    bool any = false;
    while (i < s.size() && std::isspace((unsigned char)s[i])) any = true, ++i;
    return any;
  }
  bool Int(int digits, int64_t* v) {
    size_t n = 0;
    *v = 0;
    while (i < s.size() && std::isdigit((unsigned char)s[i]) && n < 10) *v = *v * 10 + (s[i++] - '0'), ++n;
    if (n == 0) return false;
    if ((int)n != digits) strict = false;
    return true;
  }
  bool Ch(char c) {
    if (i < s.size() && s[i] == c) return ++i, true;
    return false;
  }
};
Verdict Classify(const std::string& str, int64_t* value) {
  for (unsigned char c : str)
    if (!std::isdigit(c) && !std::strchr("-:+ TtZz\t\n", c)) return kNo;
  Scan s(str);
  int64_t y, m, d, hh = 0, mm = 0, ss = 0, off = 0;
  if (s.Space()) s.strict = false;
  if (s.Ch('-') || s.Ch('+')) s.strict = false;
  if (!s.Int(4, &y)) return kNo;
  if (s.Space()) return kOpen;
  if (!s.Ch('-')) return kNo;
  if (!s.Int(2, &m) || !s.Ch('-') || !s.Int(2, &d)) return s.strict ? kNo : kOpen;
  if (m < 1 || m > 12 || d < 1 || d > 31) return s.strict ? kNo : kOpen;
  if (s.strict && d > civil::DaysInMonth(y, (int)m)) return kNo;
  *value = civil::Sec(y, (int)m, (int)d);
  if (s.i == str.size()) return s.strict ? kYes : kOpen;
  const bool t = s.Ch('T');
  if (!t && (s.Ch('t'))) s.strict = false;
  if (!t && s.strict) {
    if (!s.Ch(' ')) s.strict = false;
  }
  if (s.Space()) s.strict = false;
  if (s.i == str.size()) return kOpen;
  auto offset = [&]() -> Verdict {
    const bool neg = str[s.i] == '-';
    if (str[s.i] != '+' && str[s.i] != '-') return str[s.i] == 'Z' || str[s.i] == 'z' ? kOpen : kNo;
    ++s.i;
    int64_t a = 0, b = 0;
    if (!s.Int(2, &a)) return kNo;
    if (!s.Ch(':')) return kOpen;
    if (!s.Int(2, &b)) return kOpen;
    if (s.strict && (a > 23 || b > 59)) return a > 23 ? kOpen : kNo;
    if (s.i < str.size() && (str[s.i] == ':' || std::isdigit((unsigned char)str[s.i]))) return kOpen;  // seconds of offset
    off = (neg ? -1 : 1) * (a * 60 + b) * 60;
    if (s.i < str.size()) return s.Space() && s.i == str.size() ? kOpen : s.strict ? kNo : kOpen;
    *value -= off;
    return s.strict ? kYes : kOpen;
  };
  if (str[s.i] == '+' || str[s.i] == '-' || str[s.i] == 'Z' || str[s.i] == 'z') return t ? kNo : offset();
  if (!s.Int(2, &hh)) return s.strict ? kNo : kOpen;
  if (!s.Ch(':')) return s.strict ? kNo : kOpen;
  if (!s.Int(2, &mm)) return s.strict ? kNo : kOpen;
  if (!s.Ch(':')) return s.strict ? kNo : kOpen;
  if (!s.Int(2, &ss)) return s.strict ? kNo : kOpen;
  if (hh > 23 || mm > 59 || ss > 60) return s.strict ? kNo : kOpen;
  if (ss == 60) return kOpen;
  *value += hh * 3600 + mm * 60 + ss;
  if (s.i == str.size()) return t ? (s.strict ? kNo : kOpen) : s.strict ? kYes : kOpen;
  if (!t) {
    if (!s.Ch(' ')) s.strict = false;
  }
  if (s.Space()) s.strict = false;
  if (s.i == str.size()) return kOpen;
  return offset();
}
void Judge(Run& r, const std::string& s) {
  int64_t want = 0;
  switch (Classify(s, &want)) {
    case kYes:
      r.cover("valid");
      Accept(r, s, want);
      break;
    case kNo:
      r.cover("invalid");
      Reject(r, s);
      break;
    default:
      r.cover("not specified");
      (void)ParseTime(s);
  }
}
const char kChars[] = "0123456789-:+ TZx./,";
MC_SPACE("D01", "near_misses",
         "6 times in all 5 formats with every insertion, deletion, replacement of one character (and, thorough, of two) out of 20, and every truncation: classified by an "
         "independent grammar as valid (with its value), invalid or not specified (digit counts, white space)",
         [](Run& r) {
           const int64_t t[][6] = {{2017, 1, 1, 0, 0, 0}, {2016, 2, 29, 23, 59, 59}, {1999, 12, 31, 10, 20, 30},
                                   {2021, 10, 8, 7, 6, 5}, {1970, 1, 1, 1, 1, 1},    {2038, 11, 30, 19, 45, 9}};
           const auto& x = t[r.choose(6, "time")];
           std::string s = Spell(r.choose(5, "format"), x[0], (int)x[1], (int)x[2], (int)x[3], (int)x[4], (int)x[5],
                                 x[0] % 2 ? -210 : 345);
           const int edits = r.thorough() ? 2 : 1;
           for (int e = 0; e < edits; ++e) {
             const int op = r.choose(e ? 4 : 5, "edit"), at = op == 0 ? 0 : r.choose((int)s.size() + 1, "at");
             if (op == 0) break;
             if (op == 1) {
               s.insert(s.begin() + at, kChars[r.choose(20, "char")]);
             } else {
               if (at == (int)s.size()) r.prune();
               if (op == 2) s.erase(at, 1);
               if (op == 3) s[at] = kChars[r.choose(20, "char")];
               if (op == 4) s.resize(at);
             }
           }
           r.state(mc::HashStr(s));
           Judge(r, s);
         });
MC_SPACE("D01", "short_strings", "all strings of up to 4 (thorough 5) of the 20 characters, and dates with all suffixes of up to 3 (4) of them",
         [](Run& r) {
           const bool date = r.choose(2, "date");
           const int n = r.choose((date ? 4 : 5) + (r.thorough() ? 1 : 0), "length");
           std::string s = date ? "2017-03-04" : "";
           for (int i = 0; i < n; ++i) s += kChars[r.choose(20, "char")];
           r.state(mc::HashStr(s));
           Judge(r, s);
         });

// ------------------------------------------------------------------ D02
void CheckMonths(Run& r, int64_t t, int months) {
  const int64_t want = civil::AddMonths(t, months);
  const int64_t got = AddMonthsToTimestampSec(t, months);
  r.step();
  if (got != want)
    r.fail("%lld (%s) plus %d months is %lld (%s), expected %lld (%s)", (long long)t,
           FormatTimeUTC(absl::FromUnixSeconds(t)).c_str(), months, (long long)got,
           FormatTimeUTC(absl::FromUnixSeconds(got)).c_str(), (long long)want,
           FormatTimeUTC(absl::FromUnixSeconds(want)).c_str());
  const absl::Time a = AddMonthsToTime(absl::FromUnixSeconds(t), months);
  if (a != absl::FromUnixSeconds(want))
    r.fail("%lld plus %d months as a time is %s", (long long)t, months, absl::FormatTime(a, absl::UTCTimeZone()).c_str());
}
MC_SPACE("D02", "days", "all days of the years 1996 to 2005 (thorough 1890 to 2110), with 3 times of day, and all month offsets -40 to 40",
         [](Run& r) {
           const int64_t from = civil::Days(r.thorough() ? 1890 : 1996, 1, 1), to = civil::Days(r.thorough() ? 2111 : 2006, 1, 1);
           const int64_t weeks = (to - from + 6) / 7;
           const int64_t w = from + 7 * r.choose((int)weeks, "week");
           for (int64_t d = w; d < w + 7 && d < to; ++d)
             for (int months = -40; months <= 40; ++months)
               for (int sec : {0, 45296, 86399}) {
                 CheckMonths(r, d * 86400 + sec, months);
                 r.state(mc::Mix(d, months));
               }
         });
MC_SPACE("D02", "zones", "all days of 2016 and 2017 at 4 times of day and all month offsets -14 to 14, with the process in 5 local time zones",
         [](Run& r) {
           RestoreZone restore;
           Zone(r);
           const int64_t day = civil::Days(2016, 1, 1) + r.choose(731, "day");
           for (int months = -14; months <= 14; ++months)
             for (int sec : {0, 7200, 45296, 86399}) CheckMonths(r, day * 86400 + sec, months);
           r.state(day);
         });
MC_SPACE("D02", "far", "the first and last day of every month from 1890 to 2110, and all offsets of -1300 to 1300 months in steps of 1 around multiples of 12",
         [](Run& r) {
           const int y = 1890 + r.choose(221, "year"), m = 1 + r.choose(12, "month");
           const bool last = r.choose(2, "last");
           const int64_t t = civil::Sec(y, m, last ? civil::DaysInMonth(y, m) : 1, 12, 34, 56);
           r.state(t);
           for (int years = -108; years <= 108; years += 4)
             for (int k = -2; k <= 2; ++k) CheckMonths(r, t, years * 12 + k);
         });
MC_SPACE("D02", "chains",
         "consecutive periods as used for the evaluation: from the first 28 days of the months of 4 years, n single steps of one month reach the same time as "
         "one step of n months, and back",
         [](Run& r) {
           const int y = 1999 + r.choose(4, "year"), m = 1 + r.choose(12, "month"), d = 1 + r.choose(28, "day");
           const int64_t t = civil::Sec(y, m, d, 1, 2, 3);
           int64_t step = t;
           r.state(t);
           for (int n = 1; n <= 60; ++n) {
             const int64_t next = AddMonthsToTimestampSec(step, 1);
             if (next <= step) r.fail("one month after %lld is %lld", (long long)step, (long long)next);
             step = next;
             CheckMonths(r, t, n);
             if (step != AddMonthsToTimestampSec(t, n)) r.fail("%d single months after %lld give %lld", n, (long long)t, (long long)step);
             if (AddMonthsToTimestampSec(step, -n) != t) r.fail("%d months back from %lld do not give %lld", n, (long long)step, (long long)t);
           }
         });

// ------------------------------------------------------------------ L01
const float kValues[] = {0, 1, 0.0004f, 0.0005f, 0.0015f, 1.9996f, 123456.789f, 1e9f, 33554432.0f, 3e20f, 0.1f};
constexpr int kN = 11;
std::string F(float v) { return Fmt("%.3f", (double)v); }
std::string TickCsv(const OhlcTick& t) {
  return Fmt("%lld,", (long long)t.timestamp_sec()) + F(t.open()) + "," + F(t.high()) + "," + F(t.low()) + "," + F(t.close()) + "," +
         F(t.volume());
}
std::string AccountCsv(const Account& a) { return F(a.base_balance) + "," + F(a.quote_balance) + "," + F(a.total_fee); }
std::string OrderCsv(const Order& o) {
  const char* types[] = {"MARKET", "STOP", "LIMIT"};
  std::string s;
  s += o.type() == Order::MARKET ? types[0] : o.type() == Order::STOP ? types[1] : types[2];
  s += o.side() == Order::BUY ? ",BUY," : ",SELL,";
  if (o.oneof_amount_case() == Order::kBaseAmount) s += F(o.base_amount());
  s += ",";
  if (o.oneof_amount_case() == Order::kQuoteAmount) s += F(o.quote_amount());
  s += ",";
  if (o.price() > 0) s += F(o.price());
  return s;
}
Account MakeAccount(float base, float quote, float fee) {
  Account a;
  a.base_balance = base;
  a.quote_balance = quote;
  a.total_fee = fee;
  a.base_unit = 7;
  a.quote_unit = 8;
  a.market_liquidity = 0.25f;
  a.max_volume_ratio = 0.125f;
  return a;
}
void CheckLine(Run& r, const std::string& got, const std::string& want) {
  r.step();
  r.state(mc::HashStr(got));
  if (got != want) r.fail("logged '%s', expected '%s'", got.c_str(), want.c_str());
  if (std::count(got.begin(), got.end(), ',') != 13) r.fail("'%s' has no 14 columns", got.c_str());
}
MC_SPACE("L01", "ticks", "all values out of 11 in every pair of the tick and account columns, 8 times, with and without an order",
         [](Run& r) {
           float v[8] = {1, 2, 3, 4, 5, 6, 7, 8};
           const int a = r.choose(8, "column"), b = r.choose(8, "column");
           if (b < a) r.prune();
           v[a] = kValues[r.choose(kN, "value")];
           v[b] = kValues[r.choose(kN, "value")];
           const int64_t times[] = {0, 1, 1483228800, 2147483647, 2147483648LL, 4294967296LL, 253402300799LL, 1000000000000LL};
           const OhlcTick t = Tick(times[r.choose(8, "time")], v[0], v[1], v[2], v[3], v[4]);
           const Account acc = MakeAccount(v[5], v[6], v[7]);
           std::ostringstream os;
           CsvLogger log(&os, nullptr);
           if (r.choose(2, "order")) {
             const Order o = MakeOrder(Order::LIMIT, Order::SELL, true, 11, 12);
             log.LogExchangeState(t, acc, o);
             CheckLine(r, os.str(), TickCsv(t) + "," + AccountCsv(acc) + "," + OrderCsv(o) + "\n");
           } else {
             log.LogExchangeState(t, acc);
             CheckLine(r, os.str(), TickCsv(t) + "," + AccountCsv(acc) + ",,,,,\n");
           }
         });
MC_SPACE("L01", "orders", "all orders: 3 types x 2 sides x no, base or quote amount x 11 amounts x 12 prices (with and without a price)",
         [](Run& r) {
           Order o;
           o.set_type((Order::Type[]){Order::MARKET, Order::STOP, Order::LIMIT}[r.choose(3, "type")]);
           o.set_side(r.choose(2, "side") ? Order::SELL : Order::BUY);
           const int kind = r.choose(3, "amount of");
           const float amount = kValues[r.choose(kN, "amount")];
           if (kind == 1) o.set_base_amount(amount);
           if (kind == 2) o.set_quote_amount(amount);
           const int p = r.choose(kN + 1, "price");
           if (p < kN) o.set_price(kValues[p]);
           const OhlcTick t = Tick(1483228800, 1, 2, 0.5f, 1, 3);
           const Account acc = MakeAccount(1, 2, 3);
           std::ostringstream os;
           CsvLogger log(&os, nullptr);
           log.LogExchangeState(t, acc, o);
           CheckLine(r, os.str(), TickCsv(t) + "," + AccountCsv(acc) + "," + OrderCsv(o) + "\n");
         });
MC_SPACE("L01", "sequences",
         "all sequences of up to 6 (thorough 7) calls (state, state with one of two orders, one of 5 trader states) with each of the two logs present, "
         "absent or both in one stream, over 2 loggers used alternately",
         [](Run& r) {
           const int mode = r.choose(5, "streams");
           std::ostringstream ex[2], tr[2];
           std::string want_ex[2], want_tr[2];
           std::unique_ptr<CsvLogger> log[2];
           for (int i = 0; i < 2; ++i)
             log[i].reset(new CsvLogger(mode == 1 || mode == 3 ? nullptr : &ex[i],
                                        mode == 2 || mode == 3 ? nullptr : mode == 4 ? &ex[i] : &tr[i]));
           const char* states[] = {"a,b,1.0", "", "%s%d%n", "x y;\"z\"", "1483228800,1.000,LONG"};
           const Order orders[] = {MakeOrder(Order::MARKET, Order::BUY, false, 5, 0), MakeOrder(Order::STOP, Order::SELL, true, 0.5f, 70)};
           const int n = r.thorough() ? 7 : 6;
           uint64_t h = mode;
           for (int i = 0; i < n; ++i) {
             const int k = r.choose(7, "call");
             h = mc::Mix(h, k);
             r.state(h);
             if (k == 0) break;
             const int w = i % 2;
             const OhlcTick t = Tick(1483228800 + 60 * i, 100 + i, 110, 90, 105, 7);
             const Account acc = MakeAccount(1 + i, 1000, 0.25f * i);
             if (k == 1) {
               log[w]->LogExchangeState(t, acc);
               want_ex[w] += TickCsv(t) + "," + AccountCsv(acc) + ",,,,,\n";
             } else if (k <= 3) {
               log[w]->LogExchangeState(t, acc, orders[k - 2]);
               want_ex[w] += TickCsv(t) + "," + AccountCsv(acc) + "," + OrderCsv(orders[k - 2]) + "\n";
             } else {
               const char* s = states[k == 4 ? i % 3 : k - 2];
               log[w]->LogTraderState(s);
               (mode == 4 ? want_ex[w] : want_tr[w]) += std::string(s) + "\n";
             }
             r.step();
             for (int j = 0; j < 2; ++j) {
               if (ex[j].str() != (mode == 1 || mode == 3 ? "" : want_ex[j]))
                 r.fail("the exchange log %d is '%s' after call %d, expected '%s'", j, ex[j].str().c_str(), i + 1, want_ex[j].c_str());
               if (tr[j].str() != (mode == 2 || mode == 3 ? "" : want_tr[j]))
                 r.fail("the trader log %d is '%s' after call %d, expected '%s'", j, tr[j].str().c_str(), i + 1, want_tr[j].c_str());
             }
           }
         });
}  // namespace
