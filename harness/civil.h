#ifndef VERIF_CIVIL_H
#define VERIF_CIVIL_H
// Independent proleptic Gregorian calendar arithmetic (UTC).
#include <cstdint>
namespace civil {
inline int64_t FloorDiv(int64_t a, int64_t b) {
  int64_t q = a / b;
  return (a % b != 0 && (a < 0) != (b < 0)) ? q - 1 : q;
}
inline bool Leap(int64_t y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
inline int DaysInMonth(int64_t y, int m) {
  static const int d[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
  return m == 2 && Leap(y) ? 29 : d[m - 1];
}
// Days since 1970-01-01 of the first day of the year.
inline int64_t DaysToYear(int64_t y) {
  const int64_t p = y - 1;
  const int64_t q = 1969;
  auto leaps = [](int64_t x) { return FloorDiv(x, 4) - FloorDiv(x, 100) + FloorDiv(x, 400); };
  return 365 * (y - 1970) + leaps(p) - leaps(q);
}
inline int64_t Days(int64_t y, int m, int d) {
  int64_t n = DaysToYear(y);
  for (int i = 1; i < m; ++i) n += DaysInMonth(y, i);
  return n + d - 1;
}
struct Date {
  int64_t y;
  int m, d;
};
inline Date FromDays(int64_t n) {
  Date r;
  r.y = 1970 + FloorDiv(n, 366);
  while (DaysToYear(r.y + 1) <= n) ++r.y;
  while (DaysToYear(r.y) > n) --r.y;
  n -= DaysToYear(r.y);
  r.m = 1;
  while (n >= DaysInMonth(r.y, r.m)) n -= DaysInMonth(r.y, r.m++);
  r.d = (int)n + 1;
  return r;
}
// Moves the month; days that do not exist carry over into the next month.
inline int64_t AddMonths(int64_t t, int64_t months) {
  const int64_t days = FloorDiv(t, 86400), sec = t - days * 86400;
  Date x = FromDays(days);
  const int64_t mm = x.y * 12 + (x.m - 1) + months;
  const int64_t y = FloorDiv(mm, 12);
  const int m = (int)(mm - y * 12) + 1;
  return (Days(y, m, 1) + x.d - 1) * 86400 + sec;
}
inline int64_t Sec(int64_t y, int m, int d, int hh = 0, int mm = 0, int ss = 0) {
  return Days(y, m, d) * 86400 + hh * 3600 + mm * 60 + ss;
}
}  // namespace civil
#endif
