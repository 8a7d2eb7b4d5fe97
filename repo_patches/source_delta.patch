From e3ef66a566f80b5d7d494e0b680a472e195fe653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:42 +0000
Subject: [PATCH 01/15] fix: execute every emitted order at most once across
 zero volume ticks

ExecuteTrader kept the whole list of emitted orders over a zero volume OHLC
tick, including the orders that were already executed, so these were executed
again on every follow-up tick. Keep only the orders that were not executed.
---
 eval/eval.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/eval/eval.cc b/eval/eval.cc
index e290f2e..15bf414 100644
--- a/eval/eval.cc
+++ b/eval/eval.cc
@@ -86,7 +86,9 @@ ExecutionResult ExecuteTrader(const AccountConfig& account_config,
     // The trader was updated on the previous OHLC tick T[i-1] and emitted
     // "orders". There are no other active orders on the exchange.
     // Execute (or cancel) "orders" on the current OHLC tick T[i].
-    for (const Order& order : orders) {
+    size_t num_unfilled_orders = 0;
+    for (size_t order_index = 0; order_index < orders.size(); ++order_index) {
+      const Order& order = orders[order_index];
       const bool success =
           account.ExecuteOrder(account_config, order, ohlc_tick);
       if (success) {
@@ -95,13 +97,18 @@ ExecutionResult ExecuteTrader(const AccountConfig& account_config,
         if (logger != nullptr) {
           logger->LogExchangeState(ohlc_tick, account, order);
         }
+      } else {
+        std::swap(orders[num_unfilled_orders], orders[order_index]);
+        ++num_unfilled_orders;
       }
     }
+    // Orders that were already executed must never be executed again.
+    orders.resize(num_unfilled_orders);
     if (ohlc_tick.volume() == 0) {
       // Zero volume OHLC tick indicates a gap in a price history. Such gap
       // could have been caused by an unresponsive exchange (or its API).
       // Therefore, we do not update the trader and simply keep the previously
-      // emitted orders.
+      // emitted orders that were not executed yet.
       continue;
     }
     // Update the trader internal state on the current OHLC tick T[i].
-- 
2.43.0


From 790d3a0420918fb625a0d5ba7f4670617df22340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:42 +0000
Subject: [PATCH 02/15] fix: terminate the evaluation of a single period
 without OHLC ticks

EvaluateTrader looped forever when evaluation_period_months was zero and there
were no OHLC ticks within the evaluated time period.
---
 eval/eval.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/eval/eval.cc b/eval/eval.cc
index 15bf414..3e6cda6 100644
--- a/eval/eval.cc
+++ b/eval/eval.cc
@@ -171,6 +171,9 @@ EvaluationResult EvaluateTrader(const AccountConfig& account_config,
     const auto ohlc_history_subset = HistorySubset(
         ohlc_history, start_eval_timestamp_sec, end_eval_timestamp_sec);
     if (ohlc_history_subset.first == ohlc_history_subset.second) {
+      if (eval_config.evaluation_period_months() == 0) {
+        break;
+      }
       continue;
     }
     std::unique_ptr<Trader> trader = trader_emitter.NewTrader();
-- 
2.43.0


From f2b382428e17a7ba0d12c744d9552ae5cf668763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:43 +0000
Subject: [PATCH 03/15] fix: return an empty HistorySubset when the interval
 ends before it starts

The end iterator was located before the begin iterator, so that the returned
pair of iterators was not a valid range.
---
 base/base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/base.h b/base/base.h
index ae54983..9eb073e 100644
--- a/base/base.h
+++ b/base/base.h
@@ -62,7 +62,7 @@ HistorySubset(const std::vector<T>& history, int64_t start_timestamp_sec,
           : history.begin();
   const auto record_end =
       end_timestamp_sec > 0
-          ? std::lower_bound(history.begin(), history.end(), end_timestamp_sec,
+          ? std::lower_bound(record_begin, history.end(), end_timestamp_sec,
                              record_compare)
           : history.end();
   return {record_begin, record_end};
-- 
2.43.0


From 66bd67fe5a419b2269a3c9cfcdcae602627c6e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:43 +0000
Subject: [PATCH 04/15] fix: never return more than top_n price history gaps

The leading gap was returned even when top_n was zero.
---
 base/history.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/base/history.cc b/base/history.cc
index 562ed20..9747fe9 100644
--- a/base/history.cc
+++ b/base/history.cc
@@ -32,6 +32,9 @@ std::vector<HistoryGap> GetPriceHistoryGaps(PriceHistory::const_iterator begin,
   std::vector<HistoryGap> history_gaps;
   if (start_timestamp_sec > 0) {
     gap_queue.push(HistoryGap{start_timestamp_sec, begin->timestamp_sec()});
+    if (gap_queue.size() > top_n) {
+      gap_queue.pop();
+    }
   }
   auto it_prev = end;
   for (auto it = begin; it != end; ++it) {
-- 
2.43.0


From 784c6830cdd440e4ee1618e1460f9484ea2b9465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:43 +0000
Subject: [PATCH 05/15] fix: divide the rebalancing limit order prices by the
 base balance

The price p at which the base allocation b * p / (b * p + q) reaches a bound c
is c * q / ((1 - c) * b). The division by the base balance b was missing, so
the limit orders had wrong prices whenever b was different from 1.
---
 traders/rebalancing_trader.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/traders/rebalancing_trader.cc b/traders/rebalancing_trader.cc
index 017692b..2acc218 100644
--- a/traders/rebalancing_trader.cc
+++ b/traders/rebalancing_trader.cc
@@ -40,8 +40,8 @@ void RebalancingTrader::Update(const OhlcTick& ohlc_tick,
     order.set_base_amount(market_buy_base_amount);
   } else if (base_balance > 1.0e-6f && quote_balance > 1.0e-6f) {
     if (alpha * (1 + epsilon) < 1) {
-      const float sell_price =
-          (alpha * (1 + epsilon) * quote_balance) / (1 - alpha * (1 + epsilon));
+      const float sell_price = (alpha * (1 + epsilon) * quote_balance) /
+                               ((1 - alpha * (1 + epsilon)) * base_balance);
       if (sell_price > price && sell_price < 100.0f * price) {
         const float sell_base_amount = base_balance * epsilon / (1 + epsilon);
         orders.emplace_back();
@@ -52,8 +52,8 @@ void RebalancingTrader::Update(const OhlcTick& ohlc_tick,
         sell_order.set_price(sell_price);
       }
     }
-    const float buy_price =
-        (alpha * (1 - epsilon) * quote_balance) / (1 - alpha * (1 - epsilon));
+    const float buy_price = (alpha * (1 - epsilon) * quote_balance) /
+                            ((1 - alpha * (1 - epsilon)) * base_balance);
     if (buy_price < price && buy_price > price / 100.0f) {
       const float buy_base_amount = base_balance * epsilon / (1 - epsilon);
       orders.emplace_back();
-- 
2.43.0


From 07ca0b72c3b26daea2343667fdb34ca8ff9aebaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:52 +0000
Subject: [PATCH 06/15] fix: never return a negative sliding window variance

Rounding errors could make the variance of (nearly) equal values negative and
the standard deviation (and thus the reported volatility) NaN.
---
 indicators/util.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/indicators/util.cc b/indicators/util.cc
index 0da1c03..6b65777 100644
--- a/indicators/util.cc
+++ b/indicators/util.cc
@@ -17,8 +17,10 @@ float SlidingWindowMeanAndVariance::GetVariance() const {
   }
   const int window_size = GetWindowSize();
   const float mean = (current_value_ + window_sum_) / window_size;
-  return (std::pow(current_value_, 2) + window_sum_2_) / window_size -
-         std::pow(mean, 2);
+  // Rounding errors could otherwise make the variance (slightly) negative.
+  return std::max(0.0, (std::pow(current_value_, 2) + window_sum_2_) /
+                               window_size -
+                           std::pow(mean, 2));
 }
 
 float SlidingWindowMeanAndVariance::GetStandardDeviation() const {
-- 
2.43.0


From 91cbcaa30e3d774d079a23949cf5ebc625473137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:29 +0000
Subject: [PATCH 07/15] fix: report failures to write the delimited messages

The data is written to the output stream when the (gzip) output streams are
destroyed, so the write errors (e.g. no space left) were silently ignored.
---
 util/proto.h | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/util/proto.h b/util/proto.h
index 5b7ebeb..1ecc091 100644
--- a/util/proto.h
+++ b/util/proto.h
@@ -106,24 +106,30 @@ absl::Status WriteDelimitedMessagesToOStream(InputIterator first,
                                              InputIterator last,
                                              std::ostream& stream,
                                              bool compress) {
-  google::protobuf::io::OstreamOutputStream out_stream(&stream);
+  {
+    google::protobuf::io::OstreamOutputStream out_stream(&stream);
 #ifdef HAVE_ZLIB
-  google::protobuf::io::GzipOutputStream::Options options;
-  options.format = google::protobuf::io::GzipOutputStream::GZIP;
-  options.compression_level = compress ? Z_DEFAULT_COMPRESSION : 0;
-  google::protobuf::io::GzipOutputStream gzip_stream(&out_stream, options);
+    google::protobuf::io::GzipOutputStream::Options options;
+    options.format = google::protobuf::io::GzipOutputStream::GZIP;
+    options.compression_level = compress ? Z_DEFAULT_COMPRESSION : 0;
+    google::protobuf::io::GzipOutputStream gzip_stream(&out_stream, options);
 #else
-  google::protobuf::io::ZeroCopyOutputStream& gzip_stream = out_stream;
+    google::protobuf::io::ZeroCopyOutputStream& gzip_stream = out_stream;
 #endif
-  while (first != last) {
-    bool serialized =
-        google::protobuf::util::SerializeDelimitedToZeroCopyStream(
-            *first, &gzip_stream);
-    if (!serialized) {
-      return absl::InvalidArgumentError(absl::StrFormat(
-          "Cannot serialize the message:\n%s", first->DebugString()));
+    while (first != last) {
+      bool serialized =
+          google::protobuf::util::SerializeDelimitedToZeroCopyStream(
+              *first, &gzip_stream);
+      if (!serialized) {
+        return absl::InvalidArgumentError(absl::StrFormat(
+            "Cannot serialize the message:\n%s", first->DebugString()));
+      }
+      ++first;
     }
-    ++first;
+    // The buffered data is written to the stream by the destructors.
+  }
+  if (!stream.flush()) {
+    return absl::UnavailableError("Cannot write to the output stream");
   }
   return absl::OkStatus();
 }
-- 
2.43.0


From 2be5b94ef7a737074b7ff6b74fe563a11fbdd006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:10 +0000
Subject: [PATCH 08/15] fix: report input stream errors when reading the
 delimited messages

A read error or a decompression error at a message boundary (e.g. when the
input is a directory, is not compressed, or has a corrupted checksum) was
treated as a regular end of the input, silently dropping messages.
---
 util/proto.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/util/proto.h b/util/proto.h
index 1ecc091..0a13a5d 100644
--- a/util/proto.h
+++ b/util/proto.h
@@ -46,6 +46,14 @@ absl::Status ReadDelimitedMessagesFromIStream(
         &message, &gzip_stream, &clean_eof);
     if (!parsed) {
       if (clean_eof) {
+        if (stream.bad()) {
+          return absl::DataLossError("Cannot read the input stream");
+        }
+#ifdef HAVE_ZLIB
+        if (gzip_stream.ZlibErrorCode() < 0) {
+          return absl::DataLossError("Cannot decompress the input stream");
+        }
+#endif
         return absl::OkStatus();
       }
       return absl::InvalidArgumentError("Cannot parse the input stream");
-- 
2.43.0


From 27c967e50afcf55edc03fe3f69a25051a3b406f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:10 +0000
Subject: [PATCH 09/15] fix: never reuse the values from the previous CSV lines

When a line could not be (fully) parsed, the missing values were taken from the
previous lines, inventing records that are not in the input CSV file.
---
 convert.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/convert.cc b/convert.cc
index fd6d36b..1df5a12 100644
--- a/convert.cc
+++ b/convert.cc
@@ -81,6 +81,10 @@ absl::StatusOr<PriceHistory> ReadPriceHistoryFromCsvFile(
   PriceHistory price_history;
   while (std::getline(infile, line)) {
     ++row;
+    // Never reuse the values from the previous lines.
+    timestamp_sec = 0;
+    price = 0;
+    volume = -1;
     std::sscanf(line.c_str(), "%lld,%f,%f", &timestamp_sec, &price, &volume);
     if (start_timestamp_sec > 0 && timestamp_sec < start_timestamp_sec) {
       continue;
@@ -137,6 +141,10 @@ absl::StatusOr<OhlcHistory> ReadOhlcHistoryFromCsvFile(
   OhlcHistory ohlc_history;
   while (std::getline(infile, line)) {
     ++row;
+    // Never reuse the values from the previous lines.
+    timestamp_sec = 0;
+    open = high = low = close = 0;
+    volume = -1;
     std::sscanf(line.c_str(), "%lld,%f,%f,%f,%f,%f",  // nowrap
                 &timestamp_sec, &open, &high, &low, &close, &volume);
     if (start_timestamp_sec > 0 && timestamp_sec < start_timestamp_sec) {
-- 
2.43.0


From 0317dd03939abf102e99ed5a858ceb1c3c89b79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:10 +0000
Subject: [PATCH 10/15] fix: ignore the side input without records within the
 time period

SideInput expects a non-empty side history, so the trader crashed when the
side input file had no records within the selected time period.
---
 trader.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/trader.cc b/trader.cc
index e8675fb..60f4dfe 100644
--- a/trader.cc
+++ b/trader.cc
@@ -197,7 +197,9 @@ int main(int argc, char* argv[]) {
             absl::GetFlag(FLAGS_input_side_history_delimited_proto_file),
             start_time, end_time);
     CheckOk(side_history_status.status());
-    side_input = absl::make_unique<SideInput>(side_history_status.value());
+    if (!side_history_status.value().empty()) {
+      side_input = absl::make_unique<SideInput>(side_history_status.value());
+    }
   }
 
   const absl::Time latency_start_time = absl::Now();
-- 
2.43.0


From a2cb03e6e2ea10552f58684138d581598ef9da78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:10 +0000
Subject: [PATCH 11/15] fix: never execute an order that does not exchange
 anything

When the base unit is not used, a limit order that could not be filled at all
(e.g. on a zero volume OHLC tick) was executed with a zero base amount, which
charged the fixed (or minimum) fee and counted as an executed order.
---
 base/account.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/base/account.cc b/base/account.cc
index f74272b..cd56b82 100644
--- a/base/account.cc
+++ b/base/account.cc
@@ -79,7 +79,7 @@ bool Account::BuyBase(const FeeConfig& fee_config, float base_amount,
   assert(price > 0);
   assert(base_amount >= 0);
   base_amount = Round(base_amount, base_unit);
-  if (base_amount < base_unit) {
+  if (base_amount <= 0 || base_amount < base_unit) {
     return false;
   }
   const float quote_amount = Ceil(base_amount * price, quote_unit);
@@ -119,7 +119,8 @@ bool Account::SellBase(const FeeConfig& fee_config, float base_amount,
   assert(price > 0);
   assert(base_amount >= 0);
   base_amount = Round(base_amount, base_unit);
-  if (base_amount < base_unit || base_amount > base_balance) {
+  if (base_amount <= 0 || base_amount < base_unit ||
+      base_amount > base_balance) {
     return false;
   }
   const float quote_amount = Floor(base_amount * price, quote_unit);
-- 
2.43.0


From 64b1ed48031d18f5f6799425f1b57fb0c952ff5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:17 +0000
Subject: [PATCH 12/15] fix: reject prices and volumes that are not finite
 numbers

---
 convert.cc | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/convert.cc b/convert.cc
index 1df5a12..7b18243 100644
--- a/convert.cc
+++ b/convert.cc
@@ -1,5 +1,7 @@
 // Copyright © 2023 Peter Cerno. All rights reserved.
 
+#include <cmath>
+
 #include "absl/flags/flag.h"
 #include "absl/flags/parse.h"
 #include "absl/status/status.h"
@@ -58,6 +60,14 @@ void CheckOk(const absl::Status status) {
   }
 }
 
+// Returns true iff the price is a (finite) positive number.
+bool IsValidPrice(float price) { return std::isfinite(price) && price > 0; }
+
+// Returns true iff the volume is a (finite) non-negative number.
+bool IsValidVolume(float volume) {
+  return std::isfinite(volume) && volume >= 0;
+}
+
 // Reads the input CSV file containing the historical prices.
 absl::StatusOr<PriceHistory> ReadPriceHistoryFromCsvFile(
     const std::string& file_name, const absl::Time start_time,
@@ -96,11 +106,11 @@ absl::StatusOr<PriceHistory> ReadPriceHistoryFromCsvFile(
       return absl::InvalidArgumentError(
           absl::StrFormat("Invalid timestamp on the line %d: %s", row, line));
     }
-    if (price <= 0) {
+    if (!IsValidPrice(price)) {
       return absl::InvalidArgumentError(
           absl::StrFormat("Invalid price on the line %d: %s", row, line));
     }
-    if (volume < 0) {
+    if (!IsValidVolume(volume)) {
       return absl::InvalidArgumentError(
           absl::StrFormat("Invalid volume on the line %d: %s", row, line));
     }
@@ -157,12 +167,13 @@ absl::StatusOr<OhlcHistory> ReadOhlcHistoryFromCsvFile(
       return absl::InvalidArgumentError(
           absl::StrFormat("Invalid timestamp on the line %d: %s", row, line));
     }
-    if (open <= 0 || high <= 0 || low <= 0 || close <= 0 || low > open ||
-        low > high || low > close || high < open || high < close) {
+    if (!IsValidPrice(open) || !IsValidPrice(high) || !IsValidPrice(low) ||
+        !IsValidPrice(close) || low > open || low > high || low > close ||
+        high < open || high < close) {
       return absl::InvalidArgumentError(
           absl::StrFormat("Invalid OHLC prices on the line %d: %s", row, line));
     }
-    if (volume < 0) {
+    if (!IsValidVolume(volume)) {
       return absl::InvalidArgumentError(
           absl::StrFormat("Invalid volume on the line %d: %s", row, line));
     }
@@ -297,10 +308,10 @@ absl::StatusOr<PriceHistory> ReadPriceHistoryFromDelimitedProtoFile(
       file_name, start_time, end_time,
       /*validate=*/
       [](const PriceRecord& price_record) -> absl::Status {
-        if (price_record.price() <= 0) {
+        if (!IsValidPrice(price_record.price())) {
           return absl::InvalidArgumentError("Invalid price");
         }
-        if (price_record.volume() < 0) {
+        if (!IsValidVolume(price_record.volume())) {
           return absl::InvalidArgumentError("Invalid volume");
         }
         return absl::OkStatus();
@@ -315,8 +326,9 @@ absl::StatusOr<OhlcHistory> ReadOhlcHistoryFromDelimitedProtoFile(
       file_name, start_time, end_time,
       /*validate=*/
       [](const OhlcTick& ohlc_tick) -> absl::Status {
-        if (ohlc_tick.open() <= 0 || ohlc_tick.high() <= 0 ||
-            ohlc_tick.low() <= 0 || ohlc_tick.close() <= 0 ||
+        if (!IsValidPrice(ohlc_tick.open()) ||
+            !IsValidPrice(ohlc_tick.high()) || !IsValidPrice(ohlc_tick.low()) ||
+            !IsValidPrice(ohlc_tick.close()) ||
             ohlc_tick.low() > ohlc_tick.open() ||
             ohlc_tick.low() > ohlc_tick.high() ||
             ohlc_tick.low() > ohlc_tick.close() ||
@@ -324,7 +336,7 @@ absl::StatusOr<OhlcHistory> ReadOhlcHistoryFromDelimitedProtoFile(
             ohlc_tick.high() < ohlc_tick.close()) {
           return absl::InvalidArgumentError("Invalid OHLC prices");
         }
-        if (ohlc_tick.volume() < 0) {
+        if (!IsValidVolume(ohlc_tick.volume())) {
           return absl::InvalidArgumentError("Invalid volume");
         }
         return absl::OkStatus();
-- 
2.43.0


From 0c61fecaa75441bcb2454eaf4532290f8547f848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:22 +0000
Subject: [PATCH 13/15] fix: reject side input lines with text after the time
 or the signals

---
 convert.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/convert.cc b/convert.cc
index 7b18243..3ea53c4 100644
--- a/convert.cc
+++ b/convert.cc
@@ -1,5 +1,6 @@
 // Copyright © 2023 Peter Cerno. All rights reserved.
 
+#include <cctype>
 #include <cmath>
 
 #include "absl/flags/flag.h"
@@ -230,12 +231,20 @@ absl::StatusOr<SideHistory> ReadSideHistoryFromCsvFile(
       return absl::InvalidArgumentError(
           absl::StrFormat("Invalid timestamp on the line %d: %s", row, line));
     }
+    if (!iss.eof() && !std::isspace(iss.peek())) {
+      return absl::InvalidArgumentError(
+          absl::StrFormat("Invalid timestamp on the line %d: %s", row, line));
+    }
     timestamp_sec_prev = timestamp_sec;
     side_history.emplace_back();
     side_history.back().set_timestamp_sec(timestamp_sec);
     while (iss >> signal) {
       side_history.back().add_signal(signal);
     }
+    if (!iss.eof()) {
+      return absl::InvalidArgumentError(
+          absl::StrFormat("Invalid signal on the line %d: %s", row, line));
+    }
     if (num_signals == 0) {
       num_signals = side_history.back().signal_size();
     }
-- 
2.43.0


From 5c20534b18f7c38c9ecdbba6e17796b2af855594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:11 +0000
Subject: [PATCH 14/15] fix: compute the score of many periods without overflow
 or underflow

---
 eval/eval.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/eval/eval.cc b/eval/eval.cc
index 3e6cda6..4e908bd 100644
--- a/eval/eval.cc
+++ b/eval/eval.cc
@@ -26,12 +26,14 @@ float GetGeometricAverage(const C& container, F selector) {
   if (container.empty()) {
     return 0;
   }
-  double mul = 1;
+  // Averaging logarithms avoids the overflow (or underflow) of the product.
+  double log_sum = 0;
   for (const auto& element : container) {
-    mul *= selector(element);
+    const double value = selector(element);
+    assert(value >= 0);
+    log_sum += std::log(value);
   }
-  assert(mul >= 0);
-  return static_cast<float>(std::pow(mul, 1.0 / container.size()));
+  return static_cast<float>(std::exp(log_sum / container.size()));
 }
 }  // namespace
 
-- 
2.43.0


From e806b64c02c3d90a61a68068498a6b42a4ec1dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:51 +0000
Subject: [PATCH 15/15] fix: report logs that could not be written completely

---
 trader.cc | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/trader.cc b/trader.cc
index 60f4dfe..75148e4 100644
--- a/trader.cc
+++ b/trader.cc
@@ -120,6 +120,19 @@ absl::StatusOr<std::unique_ptr<std::ofstream>> OpenLogFile(
   return log_stream;
 }
 
+// Closes the log file and checks that everything was written.
+absl::Status CloseLogFile(absl::string_view log_filename,
+                          std::ofstream* log_stream) {
+  if (log_stream != nullptr) {
+    log_stream->close();
+    if (log_stream->fail()) {
+      return absl::DataLossError(
+          absl::StrFormat("Cannot write the file: %s", log_filename));
+    }
+  }
+  return absl::OkStatus();
+}
+
 void PrintBatchEvalResults(const std::vector<EvaluationResult>& eval_results,
                            size_t top_n) {
   const size_t eval_count = std::min(top_n, eval_results.size());
@@ -233,6 +246,10 @@ int main(int argc, char* argv[]) {
         EvaluateTrader(account_config, eval_config, ohlc_history,
                        side_input.get(), *trader_emitter, &logger);
     PrintTraderEvalResult(eval_result);
+    CheckOk(CloseLogFile(absl::GetFlag(FLAGS_output_exchange_log_file),
+                         exchange_log_stream_status.value().get()));
+    CheckOk(CloseLogFile(absl::GetFlag(FLAGS_output_trader_log_file),
+                         trader_log_stream_status.value().get()));
   }
   LogInfo(
       absl::StrFormat("\nEvaluated in %.3f seconds",
-- 
2.43.0

