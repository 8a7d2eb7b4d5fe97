#!/usr/bin/env python3
"""Generates properties.jsonl, MANIFEST.json and checks.json from one table."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, harness, technique, note,
         observe=None, state=None, level="model_checking", assumptions=None, safety=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why,
                  files=files, mech=mech, harness=harness, technique=technique, note=note,
                  observe=observe or [], state=state or [], level=level,
                  assumptions=assumptions or [], safety=safety))


ENUM = "exhaustive bounded enumeration of executions of the real code against a reference model"
STATEFUL = "explicit-state search over the real object (states deduplicated) against a reference model"
TRUST = ("Every execution within the stated bounds is enumerated, none is sampled; the compiled code of the "
         "working tree is what runs. Trusted: the reference model, the explorer, compiler and libraries. ")
DYADIC = "Amounts and prices are dyadic, so that float arithmetic is exact and compared exactly. "

# ----------------------------------------------------------------- account
ACC = ["base/account.cc", "base/account.h", "base/base.proto"]
prop("A01", "Orders trade exactly the requested, affordable and available amount",
     "An order that triggers trades the requested base amount, or the largest amount that the requested quote "
     "amount can buy or yield after the fee, rounded to the smallest base unit and, for limit orders, capped by "
     "the configured fraction of the tick volume. It is executed if and only if that amount is positive, of at "
     "least one unit, and covered by the balance it draws from (including the fee).",
     ["inputs", "histories", "configurations"],
     "every order, tick, balance, fee, unit and liquidity configuration, after every sequence of earlier orders",
     "The tests execute a few dozen orders with hand-picked numbers; the rounding, capping and affordability rules "
     "interact for every combination of balances, fees, units and prices.",
     ACC, [{"name": "buy/sell at base or quote amount with rounding and affordability checks",
            "where": "base/account.cc: BuyBase, BuyAtQuote, SellBase, SellAtQuote"},
           {"name": "limit order volume cap", "where": "base/account.cc: GetMaxBaseAmount"}],
     "account", STATEFUL, TRUST + DYADIC + "Decimal alphabets are compared with a tolerance.",
     observe=["Account::ExecuteOrder return value and balances"],
     state=[{"name": "balances", "meaning": "base and quote balance, total fee", "where": "base/account.h: Account"}])
prop("A02", "Balances never become negative and always are whole units",
     "No sequence of orders ever makes a balance negative, nor gives away value: each fill changes the two "
     "balances in opposite directions and the quote balance only by the traded value and the fee. Where a smallest "
     "unit is configured and the starting balances are whole units, the balances remain whole units, and an order "
     "that is not executed changes nothing.",
     ["histories", "inputs", "configurations"],
     "all sequences of orders over all ticks and configurations",
     "It is an invariant over order histories; the tests check single fills.",
     ACC, [{"name": "checks before the balances are updated and re-rounding after",
            "where": "base/account.cc: BuyBase, SellBase"}],
     "account", STATEFUL, TRUST + "The decimal space bounds the drift from the unit grid by float precision.",
     observe=["Account balances after every order"])
prop("A03", "Every fill is charged the configured fee, and fees add up",
     "The fee of a fill is the larger of the minimum fee and the fixed fee plus the relative fee of the traded "
     "quote amount, rounded up to the smallest quote unit, using the fee schedule of the order's own type. It is "
     "taken from the quote balance, and the reported total fee is the sum over all fills.",
     ["inputs", "histories", "configurations"],
     "all fee schedules (different per order type), fills and sequences of fills",
     "The tests use one fee schedule at a time; mixing up schedules, rounding and minimum needs their products.",
     ACC, [{"name": "fee computation", "where": "base/account.cc: GetFee"},
           {"name": "fee schedule per order type", "where": "base/account.cc: ExecuteOrder"}],
     "account", ENUM, TRUST + DYADIC, observe=["Account::total_fee", "Account::quote_balance"])
prop("A04", "Orders trigger only within the tick, at the price the liquidity implies",
     "A market order always triggers, a stop or limit order exactly if the range of the tick reaches its price on "
     "the right side. Market and stop orders trade at the price interpolated, by the market liquidity, between the best price "
     "(the opening or stop price, whichever is worse) and the worst price of the tick; limit orders trade at "
     "their own price.",
     ["inputs", "configurations"],
     "all ticks, order types, sides, order prices (inside, at the edges of and outside the tick) and liquidities",
     "The tests cover a few relative positions of the order price and the tick.",
     ACC, [{"name": "execution prices", "where": "base/account.cc: GetMarketBuyPrice, GetStopBuyPrice, ..."},
           {"name": "trigger conditions", "where": "base/account.cc: StopBuy, LimitBuy, StopSell, LimitSell, ..."}],
     "account", ENUM, TRUST + DYADIC, observe=["Account::ExecuteOrder"])
prop("A05", "Invalid and unaffordable orders are rejected without any effect",
     "An order whose amount, rounded to whole units, is zero or below the smallest unit, or is not covered by the balance, is "
     "never executed, whatever its type and side. A rejected order leaves balances and fees exactly as they were.",
     ["inputs", "histories"],
     "all order types, sides, amounts around zero, the unit and the balance, in all account states",
     "The tests try a few rejections; the boundary cases multiply with fees, units and price rounding.",
     ACC, [{"name": "amount and balance checks", "where": "base/account.cc: BuyBase, BuyAtQuote, SellBase, SellAtQuote"}],
     "account", ENUM, TRUST + DYADIC, observe=["Account::ExecuteOrder return value and balances"])

# --------------------------------------------------------------- execution
EV = ["eval/eval.cc", "base/trader.h", "base/account.cc"]
prop("E01", "Orders are matched on the ticks after their emission, at most once each",
     "The orders emitted at a tick are tried, in the order of emission, against later ticks only: against the "
     "zero-volume ticks that follow and finally the next traded tick, after which the rest is cancelled. Each "
     "order is filled at most once, and a fill changes the account exactly as the exchange model prescribes.",
     ["histories", "programs"],
     "all price histories with and without zero-volume gaps, and all sequences of orders emitted by the trader",
     "The tests run one scripted trader over short histories without gaps between the emission and the fill.",
     EV, [{"name": "pending order loop", "where": "eval/eval.cc: ExecuteTrader"},
          {"name": "order execution", "where": "base/account.cc: ExecuteOrder"}],
     "exec", ENUM, TRUST + DYADIC + "Histories are deviation-bounded beyond the short exhaustive ones.",
     observe=["balances at each trader update", "exchange log"])
prop("E02", "The logs tell the whole story of an execution",
     "The exchange log has, for every tick in time order, one line with the account before the tick, followed by "
     "one line per fill on that tick with the account after it; the trader log has one line per trader update. "
     "Replaying the log reproduces the final balances, fees and number of executed orders.",
     ["histories", "programs"],
     "all histories and sequences of emitted orders, including zero-volume ticks and several fills per tick",
     "The tests compare the log of one scenario.",
     ["eval/eval.cc", "logging/logger.h"],
     [{"name": "logging within the execution loop", "where": "eval/eval.cc: ExecuteTrader"}],
     "exec", ENUM, TRUST + DYADIC, observe=["Logger callbacks"])
prop("E03", "The trader sees each traded tick once, in order, with current information only",
     "A trader is updated exactly once for every tick with a volume, in time order, and never for a zero-volume "
     "tick, with the balances after the fills on that tick and an empty list of orders. The side input it "
     "gets is the latest record at or before the tick time (nothing from the future), followed by the record's age, or nothing "
     "if there is none.",
     ["histories", "inputs"],
     "all histories and side input histories, with arbitrary relative times",
     "The tests have a handful of ticks and aligned side inputs.",
     ["eval/eval.cc", "base/side_input.cc"],
     [{"name": "update of the trader", "where": "eval/eval.cc: ExecuteTrader"},
      {"name": "side input lookup", "where": "base/side_input.cc: GetSideInputIndex"}],
     "exec", ENUM, TRUST + DYADIC, observe=["arguments of Trader::Update"])
prop("E04", "Reported figures of an execution agree with what happened",
     "The result reports the starting balances, the final balances, the closing prices of the first and last tick, "
     "the portfolio values these imply, the number of executed orders and the total fee. An execution over no "
     "ticks reports an empty result.",
     ["histories", "configurations"],
     "all histories (including empty and single-tick ones, and gaps at either end) and account configurations",
     "The tests check the figures of two scenarios.",
     ["eval/eval.cc", "eval/eval.proto"], [{"name": "result assembly", "where": "eval/eval.cc: ExecuteTrader"}],
     "exec", ENUM, TRUST + DYADIC, observe=["ExecutionResult"])
prop("E05", "Evaluation covers exactly the requested periods, each from a fresh start",
     "An evaluation over periods of m months reports, in order, every period that starts i calendar months after "
     "the start time, ends by the end time and contains ticks; without a period length it reports the single "
     "whole period. Every period is executed by a fresh trader and account on exactly the ticks within it, and the "
     "score and the averages are those of the reported periods.",
     ["histories", "configurations", "inputs"],
     "all start and end times, period lengths and tick histories",
     "The tests evaluate one history with three configurations.",
     ["eval/eval.cc", "util/time.cc", "base/base.h"],
     [{"name": "period loop", "where": "eval/eval.cc: EvaluateTrader"},
      {"name": "calendar arithmetic", "where": "util/time.cc: AddMonthsToTimestampSec"}],
     "eval", ENUM, TRUST + "Independent civil calendar; months that roll over days follow the documented normalization.",
     observe=["EvaluationResult", "ticks seen by each created trader"])
prop("E06", "Batch evaluation equals evaluating each trader alone, under every schedule",
     "Evaluating a batch of traders returns exactly one result per trader, in the order of the batch, each equal "
     "to the result of evaluating that trader alone. This holds for every interleaving of the parallel "
     "evaluations, which neither deadlock nor race on the shared history, side input or configuration.",
     ["schedules", "configurations"],
     "all interleavings of the parallel evaluations of up to 12 traders",
     "The test runs one batch under whatever schedule the machine picks.",
     ["eval/eval.cc", "base/side_input.cc"],
     [{"name": "parallel evaluation", "where": "eval/eval.cc: EvaluateBatchOfTraders"},
      {"name": "thread-safe read-only side input", "where": "base/side_input.h: SideInput"}],
     "batch", "stateless model checking under a controlled scheduler (all interleavings / preemption-bounded), plus a data race monitor",
     TRUST + "Interleavings are exhaustive at trader-callback granularity and preemption-bounded at function granularity; "
     "ThreadSanitizer observes separate free-running executions (a monitor, not exhaustive).",
     observe=["vector of EvaluationResult"])
prop("E07", "Logging, fast mode and repetition do not change an outcome",
     "Executing the same trader over the same history with or without a logger, with or without "
     "the volatility computation, with unrelated side input or repeatedly gives the same balances, fees and executed orders.",
     ["histories", "configurations"],
     "all histories and emitted orders, and all combinations of the modes",
     "No test compares the modes with each other.",
     ["eval/eval.cc"], [{"name": "mode switches", "where": "eval/eval.cc: ExecuteTrader"}],
     "exec", ENUM, TRUST, observe=["ExecutionResult"])
prop("E08", "Reported volatilities are those of the daily portfolio values",
     "The base volatility is the standard deviation of the daily logarithmic returns of holding the base currency, "
     "and the trader volatility that of the trader's portfolio, both scaled by the square root of 365. Neither "
     "is ever negative or undefined; the fast mode leaves both out.",
     ["histories"],
     "all tick histories over several days and emitted orders",
     "The tests check one constant and one short history.",
     ["eval/eval.cc", "indicators/volatility.cc", "indicators/util.cc"],
     [{"name": "daily volatility", "where": "indicators/volatility.cc: Update"}],
     "exec", ENUM, TRUST + "Compared with a floating point tolerance. Days without any traded tick are excluded when the balances changed.",
     observe=["ExecutionResult volatilities"])

# -------------------------------------------------------------------- data
H = ["base/history.cc", "base/history.h"]
prop("H01", "Resampling covers every interval once and keeps all prices and volumes",
     "Resampling returns one tick per sampling interval from the first to the last record, without holes or "
     "duplicates. A tick has the first, highest, lowest and last price and the total volume of the records within "
     "its interval; an interval without records repeats the previous closing price with zero volume.",
     ["histories", "configurations"], "all price histories (unaligned, with equal times and gaps) and sampling rates",
     "The tests resample three hand-written histories.",
     H, [{"name": "resampling", "where": "base/history.cc: Resample"}],
     "data", ENUM, TRUST + DYADIC + "Runs under AddressSanitizer.", observe=["OhlcHistory"])
prop("H02", "Outlier removal drops exactly the invalid and non-persistent jumps",
     "Outlier removal returns the input records, unchanged and in order, without the reported indices: the records with a "
     "non-positive price or negative volume, and those whose price jumped from the previous kept one by "
     "more than the allowed deviation (scaled by the square root of the elapsed minutes) unless at least 3 of the next "
     "10 valid records confirm the jump. A record within the allowed deviation is always kept.",
     ["histories", "configurations"], "all price histories, up to and beyond the lookahead of 10 records",
     "The tests have five short histories; persistence depends on all combinations of the following records.",
     H, [{"name": "outlier rule with lookahead", "where": "base/history.cc: RemoveOutliers"}],
     "data", ENUM, TRUST + "Prices keep clear of the exact thresholds (float rounding there is not specified). AddressSanitizer.",
     observe=["clean history and outlier indices"])
prop("H03", "The reported gaps are the largest ones, in time order, and no more than asked",
     "The reported gaps of a price history are real distances between consecutive records (or to the given start and end), "
     "at most as many as asked for, in time order, and no unreported gap is larger than a reported one. The converter lists exactly these.",
     ["histories", "configurations"], "all histories, start and end times and numbers of gaps (including zero and more than exist)",
     "The tests use one history.",
     H + ["convert.cc"], [{"name": "top-n selection", "where": "base/history.cc: GetPriceHistoryGaps; convert.cc: PrintPriceHistoryGaps"}],
     "listed", ENUM, TRUST + "Which of equally large gaps is reported is left open. AddressSanitizer.", observe=["gaps"])
prop("H04", "Outliers are shown with their whole context, each marked correctly",
     "The selected indices are exactly the last n outliers (all if n is zero) with their left and right neighbours "
     "within the history, and exactly these outliers are marked as outliers, also where contexts overlap. The converter "
     "lists them so, with the values of each record.",
     ["inputs", "configurations"], "all outlier sets, history sizes, context sizes and n",
     "The tests use one set of outliers; overlapping contexts and edges multiply.",
     H + ["convert.cc"], [{"name": "context union", "where": "base/history.cc: GetOutlierIndicesWithContext; convert.cc: PrintOutliersWithContext"}],
     "listed", ENUM, TRUST + "AddressSanitizer.", observe=["index map"])
prop("H05", "Selecting a time interval returns exactly the records within it",
     "Selecting an interval of a sorted history, as a view or as a copy, yields exactly the records at or after "
     "the start and before the end, in order, where a non-positive bound means unbounded. An interval that ends "
     "before it starts selects nothing.",
     ["histories", "inputs"], "all sorted histories with equal times, all intervals, and all record types",
     "The tests use one history without equal times and only proper intervals.",
     ["base/base.h"], [{"name": "binary search", "where": "base/base.h: HistorySubset, HistorySubsetCopy"}],
     "data", ENUM, TRUST + "AddressSanitizer.", observe=["iterator pair, copy"])
prop("S01", "Side input lookup finds the latest record that is not in the future",
     "Looking up the side input at a time gives the latest record at or before it, or none if all are later, "
     "whatever hint of an earlier answer is given. The records keep their times and all their signals.",
     ["histories", "inputs"], "all side input histories, query times and valid hints",
     "The tests query two histories with some hints.",
     ["base/side_input.cc", "base/side_input.h"],
     [{"name": "lookup with hint", "where": "base/side_input.cc: GetSideInputIndex"}],
     "data", ENUM, TRUST + "AddressSanitizer.", observe=["index, timestamp, signals"])

# ------------------------------------------------------------------- files
PR = ["util/proto.h"]
prop("F01", "A written file reads back as the same records",
     "Whatever records are written, compressed or not, reading the file returns the same records in the same order, "
     "however the stream delivers the bytes. Reading with a callback sees each record once, stops where the callback says "
     "so, and reports a callback error.",
     ["inputs", "fault_sequences", "histories"], "all record sequences, compression modes, chunk patterns of the stream and callback decisions",
     "The tests round-trip two sequences through in-memory streams that deliver everything at once.",
     PR, [{"name": "delimited messages through gzip", "where": "util/proto.h: ReadDelimitedMessagesFromIStream, WriteDelimitedMessagesToOStream"}],
     "proto", "exhaustive enumeration of inputs, stream chunkings and callback decisions on the real reader and writer", TRUST,
     observe=["records read, status"])
prop("F02", "Writing never claims success unless every byte was written",
     "If the output stream or file refuses any byte at any point of a write, including at the final flush, the write "
     "reports an error. A write that reports success has produced a file that reads back completely.",
     ["fault_sequences", "inputs"], "a write failure at every byte position and at every flush, for every kind of stream buffering",
     "The tests have no failing output streams.",
     PR, [{"name": "flush and status after the last message", "where": "util/proto.h: WriteDelimitedMessagesToOStream"}],
     "proto", "exhaustive fault injection: a failure at every output position of the real writer", TRUST,
     observe=["returned status"], level="fault_enumeration")
prop("F03", "Damaged or unreadable input is reported and never yields invented records",
     "If reading fails at any byte, or the compressed data is corrupted, the reader reports an error, unless what was delivered "
     "before is a complete file. The records handed out before an error are always a prefix of "
     "the written ones where the damage is a truncation or a read error.",
     ["fault_sequences", "inputs"], "a read error or truncation at every byte position and every single-byte corruption of files",
     "The tests read one undecodable string.",
     PR, [{"name": "error and end-of-file discrimination", "where": "util/proto.h: ReadDelimitedMessagesFromIStream"}],
     "proto", "exhaustive fault injection: read error, truncation and corruption at every input position of the real reader",
     TRUST + "A truncation at a point where the decompressor has delivered only whole records is indistinguishable from a "
     "complete file for the library used, and is not claimed.",
     observe=["returned status, records delivered"], level="fault_enumeration")

# --------------------------------------------------------------------- CLI
prop("C01", "Price and OHLC imports are exact, and invalid lines are rejected",
     "Importing a CSV price or OHLC history yields exactly one record per line within the time window, with that line's own "
     "values. A line with a time within the window but a missing or invalid price or volume, an inconsistent OHLC range or a time "
     "before the previous line makes the import fail without writing any output; so does, without a start time, a line without a "
     "valid time, which never yields a record. A valid price is a finite positive number.",
     ["inputs", "histories", "configurations"], "all sequences of valid and invalid lines and all time windows",
     "There are no tests of the command line tool.",
     ["convert.cc"], [{"name": "CSV parsing and validation", "where": "convert.cc: ReadPriceHistoryFromCsvFile, ReadOhlcHistoryFromCsvFile"}],
     "cli", "exhaustive enumeration of input files run through the real command line tool",
     TRUST + "Trailing extra columns are not specified.", observe=["exit status, output file"])
prop("C02", "Conversion applies cleaning, resampling and the time window as requested",
     "Converting a price history writes the records within [start, end) unchanged as prices and, as OHLC ticks, the result of removing outliers and "
     "resampling with the requested (or default) parameters; an OHLC history passes through unchanged. Record files are validated like CSV and give the "
     "same result as the original import, compressed or not. Exactly one input is accepted, and the gaps and outliers it lists are those of the history.",
     ["inputs", "configurations", "histories"], "all short histories, flag combinations and time windows",
     "There are no tests of the command line tool.",
     ["convert.cc", "base/history.cc", "util/proto.h"],
     [{"name": "conversion pipeline", "where": "convert.cc: main, ConvertPriceHistoryToOhlcHistory"}],
     "cli", "exhaustive enumeration of inputs and flag combinations run through the real command line tool", TRUST,
     observe=["exit status, output files"])
prop("C03", "The trader tool reports what evaluating the selected data gives",
     "Running the trader tool on a history evaluates exactly the ticks and side inputs within [start, end) with the "
     "requested (or default) account, trader and period length. The printed results and the log files agree with that evaluation, and a batch run lists "
     "its best traders in descending order of their scores. An unreadable input, an invalid time or a log that cannot be written makes it fail.",
     ["inputs", "configurations", "histories", "fault_sequences"], "all short histories, side inputs, flag combinations and time windows",
     "There are no tests of the command line tool.",
     ["trader.cc", "eval/eval.cc", "logging/csv_logger.cc"],
     [{"name": "selection, evaluation and printing", "where": "trader.cc: main, ReadHistory, PrintTraderEvalResult, PrintBatchEvalResults"}],
     "cli", "exhaustive enumeration of inputs and flag combinations run through the real command line tool", TRUST,
     observe=["exit status, standard output, log files"])
prop("C04", "Side input imports are exact, and invalid lines are rejected",
     "Importing a CSV side input history yields exactly one record per line within the time window, with that line's time and "
     "all its signals in order. A line without a valid, strictly increasing time in whole seconds, without signals, with another number "
     "of signals than the first or with anything but numbers makes the import fail without writing any output.",
     ["inputs", "histories", "configurations"], "all sequences of valid and invalid lines and all time windows",
     "There are no tests of the command line tool.",
     ["convert.cc"], [{"name": "CSV parsing and validation", "where": "convert.cc: ReadSideHistoryFromCsvFile"}],
     "cli", "exhaustive enumeration of input files run through the real command line tool",
     TRUST, observe=["exit status, output file"])

# -------------------------------------------------------------- indicators
IND_N = TRUST + DYADIC
prop("I01", "The last-N window holds the last N periods and announces every change",
     "After any updates, the window holds the last N periods up to the latest update (fewer if fewer passed), each aggregating exactly the updates within it, "
     "with flat zero-volume periods for gaps. Every change is announced once by the matching callback with the values "
     "before and after it.",
     ["histories", "configurations"], "all update sequences (within a period, next period, across gaps), N and period sizes",
     "The tests run a few update sequences.",
     ["indicators/last_n_ohlc_ticks.cc", "indicators/last_n_ohlc_ticks.h"],
     [{"name": "window update with backfill", "where": "indicators/last_n_ohlc_ticks.cc: Update"}],
     "ind", ENUM, IND_N, observe=["deque contents", "callbacks"])
prop("I02", "Sliding window statistics equal those of the values in the window",
     "Mean, variance, standard deviation, minimum and maximum equal those of the last N values (all values for the unbounded "
     "window), however values are added and the current one is revised. The variance is never negative or undefined.",
     ["histories", "configurations"], "all sequences of additions and revisions, and window sizes",
     "The tests run a few sequences with window sizes up to 4.",
     ["indicators/util.cc", "indicators/util.h"],
     [{"name": "incremental sums and monotonic queue", "where": "indicators/util.cc"}],
     "ind", ENUM, IND_N + "Variance is also checked on decimal values with a tolerance.", observe=["getter values"])
prop("I03", "Exponential averages and MACD follow their recurrences at period granularity",
     "The exponential average starts with the first close and moves to each later close by its weight, counting "
     "each period once with its latest close and gap periods with the carried close. The MACD series, signal and divergence "
     "are the differences and averages of the fast and slow averages so defined.",
     ["histories", "configurations"], "all update sequences (within a period, next period, across gaps) and lengths",
     "The tests run a few sequences.",
     ["indicators/exponential_moving_average.cc", "indicators/moving_average_convergence_divergence.cc", "indicators/util.cc"],
     [{"name": "recurrences", "where": "indicators/util.cc: ExponentialMovingAverageHelper"}],
     "ind", ENUM, TRUST + "Compared with a floating point tolerance.", observe=["getter values"])
prop("I04", "The relative strength index follows from the averaged up and down moves",
     "The index is 100 - 100 / (1 + U / D), where U and D are the smoothed averages of the upward and downward "
     "changes of the period closes, 50 without any change and 100 without downward changes. It always lies "
     "between 0 and 100.",
     ["histories", "configurations"], "all update sequences and numbers of periods",
     "The tests run a few sequences.",
     ["indicators/relative_strength_index.cc"],
     [{"name": "smoothed averages", "where": "indicators/relative_strength_index.cc"}],
     "ind", ENUM, TRUST + "Compared with a floating point tolerance.", observe=["getter values"])
prop("I05", "The stochastic oscillator relates the close to the range of the last N periods",
     "High and low are the extremes of the last N periods, %K is the position of the latest close within them in "
     "percent (50 for an empty range), and fast and slow %D are the 3-period means of %K and of fast %D. All of "
     "them lie between 0 and 100.",
     ["histories", "configurations"], "all update sequences and numbers of periods",
     "The tests run a few sequences.",
     ["indicators/stochastic_oscillator.cc", "indicators/util.cc"],
     [{"name": "sliding extremes and means", "where": "indicators/stochastic_oscillator.cc"}],
     "ind", ENUM, TRUST + "Compared with a floating point tolerance.", observe=["getter values"])
prop("I06", "Volatility is the standard deviation of the portfolio's logarithmic returns",
     "The volatility is the standard deviation of the logarithmic returns between the portfolio values at the closes of the "
     "periods in the window, where the first return starts from the first opening price. It is never negative or undefined.",
     ["histories", "configurations"], "all update sequences with changing balances and window sizes",
     "The tests run a few sequences.",
     ["indicators/volatility.cc", "indicators/util.cc"],
     [{"name": "portfolio values and sliding variance", "where": "indicators/volatility.cc"}],
     "ind", ENUM, TRUST + "Compared with a floating point tolerance. Gap periods with changed balances are not specified.",
     observe=["GetVolatility"])
prop("I07", "The simple average is the mean close of the last N periods at any granularity",
     "The simple moving average equals the mean of the closes of the last N periods, with gaps carrying the last close. "
     "Feeding the same prices in finer ticks gives the same indicator values at the period ends as feeding whole periods, for "
     "every indicator.",
     ["histories", "configurations"], "all update sequences, window sizes and ways of splitting periods into ticks",
     "The tests run a few sequences at one granularity.",
     ["indicators/simple_moving_average.cc", "indicators/last_n_ohlc_ticks.cc"],
     [{"name": "incremental sum", "where": "indicators/simple_moving_average.cc"}],
     "ind", ENUM, IND_N, observe=["getter values"])

# ----------------------------------------------------------------- traders
prop("T01", "The rebalancing trader emits the orders that restore its allocation",
     "Outside the allowed band the rebalancing trader emits one market order that restores the "
     "target allocation, and inside it limit orders at the prices where the allocation would leave the band, sized to restore the target "
     "allocation there. A fill of any of them at its price brings the allocation to the target.",
     ["histories", "configurations", "inputs"], "all balances, prices, allocations and tolerances, and all histories of updates",
     "The tests check four states of one configuration.",
     ["traders/rebalancing_trader.cc"],
     [{"name": "order computation", "where": "traders/rebalancing_trader.cc: Update"}],
     "traders", ENUM, TRUST + "Compared with a floating point tolerance.", observe=["orders emitted by Update"])
prop("T02", "The stop trader keeps one protective stop order that only tightens",
     "On every update the stop trader emits exactly one stop order for its whole position on the protective side of its position. "
     "Its price is set at the configured margin when the position or the data continuity changes, and otherwise only moves towards the "
     "market, by at most the configured daily rate and never past the move margin.",
     ["histories", "configurations", "inputs"], "all histories of ticks, balances and configurations",
     "The tests run a few sequences.",
     ["traders/stop_trader.cc", "traders/stop_trader.h"],
     [{"name": "stop price update", "where": "traders/stop_trader.cc: Update, UpdateStopOrderPrice"}],
     "traders", ENUM, TRUST + "Compared with a floating point tolerance.", observe=["orders emitted by Update, internal state"])
prop("T03", "Batches contain every combination once, and emitters create independent traders",
     "A batch of traders contains exactly one trader per combination of the given parameters, and the default traders and "
     "batches have the documented parameters, visible in unique names. Traders from one emitter are independent: each behaves as if it "
     "were alone.",
     ["configurations", "programs"], "all parameter grids and all interleavings of updates of several traders",
     "The tests check names and the size of one batch.",
     ["traders/trader_factory.cc", "traders/rebalancing_trader.cc", "traders/stop_trader.cc"],
     [{"name": "grids and factories", "where": "traders/trader_factory.cc: GetBatchOfTraders"}],
     "traders", ENUM, TRUST, observe=["emitter names, orders of the traders"])

# -------------------------------------------------------------------- misc
prop("D01", "Times in all supported formats parse to the instant they denote",
     "A time in any of the five supported formats parses to the instant it denotes, UTC unless it gives an offset, and "
     "formatting an instant in UTC and parsing it again gives the same instant. Anything that is no calendar time in these formats is rejected.",
     ["inputs"], "all calendar days, times of day, offsets and formats, and near misses of the formats",
     "The tests parse a dozen strings.",
     ["util/time.cc"], [{"name": "format list", "where": "util/time.cc: ParseTime"}],
     "misc", "exhaustive enumeration of inputs against an independent calendar", TRUST, observe=["ParseTime, FormatTimeUTC"])
prop("D02", "Adding months follows the calendar and keeps the day and time",
     "Adding months moves to the same day and time of the month that many months later or earlier, across years and leap "
     "years; days that do not exist there roll over into the following month. Adding to a timestamp and to a time agree.",
     ["inputs"], "all days over several leap cycles and month offsets of both signs",
     "The tests add to four dates.",
     ["util/time.cc"], [{"name": "civil time normalization", "where": "util/time.cc: AddMonthsToTime"}],
     "misc", "exhaustive enumeration of inputs against an independent calendar", TRUST, observe=["AddMonthsToTimestampSec"])
prop("L01", "Log lines have fixed columns that show the tick, account and order",
     "Every exchange log line has the 6 tick, 3 account and 5 order columns in this order with 3 decimals, leaving exactly those order columns "
     "empty that do not apply; trader log lines are the trader states. Either log can be switched "
     "off without affecting the other.",
     ["inputs", "histories"], "all orders, ticks, accounts and call sequences",
     "The tests log a few lines.",
     ["logging/csv_logger.cc"], [{"name": "formatting", "where": "logging/csv_logger.cc"}],
     "misc", ENUM, TRUST, observe=["log streams"])

prop("M01", "Nothing crashes, overflows or touches memory that it does not own",
     "For every history, side input, configuration, order, file and command line that the other properties range over, "
     "the library and the tools never read or write outside their data or through dangling references, never overflow "
     "integer arithmetic, divide by zero or convert a number out of the range of its type, and never die of a signal, a "
     "failed assertion or an exception nobody handles.",
     ["inputs", "histories", "configurations", "faults"],
     "all executions of the other properties' spaces (operation sequences, inputs, faults of the files)",
     "The tests execute a few inputs without sanitizers; an access one past the end, at the last record or of an empty "
     "window, mostly goes unnoticed and needs the one input that reaches it.",
     ["base/account.cc", "base/history.cc", "base/side_input.cc", "eval/eval.cc", "indicators/util.cc",
      "indicators/last_n_ohlc_ticks.cc", "traders/stop_trader.cc", "util/proto.h", "util/time.cc", "convert.cc", "trader.cc"],
     [{"name": "iteration over histories and windows, indexing, conversions", "where": "base/history.cc, base/side_input.cc, indicators/, eval/eval.cc"},
      {"name": "buffers of the delimited reader and writer", "where": "util/proto.h"}],
     "safety", "exhaustive bounded enumeration of executions of the real code under address and undefined behaviour monitors",
     TRUST + "Every execution of the enumerated spaces runs with AddressSanitizer and UndefinedBehaviorSanitizer as the monitor; "
     "results are not compared here (the other checks do). Reads of variables that were never set are left to the other checks, "
     "whose builds fill such variables with a pattern.",
     observe=["sanitizer reports, signals and exit statuses"],
     safety=(["A01/zero_units", "A01/large", "A01/direct", "A01/direct_zero", "A01/tiny", "A01/decimal", "A01/repeated",
              "E01/histories", "E01/gaps", "E04/scale", "E02/histories", "E03/*", "E04/figures", "E07/modes", "E08/*",
              "E05/periods", "H01/*", "H02/*", "H03/*", "H04/*", "H05/*", "S01/*", "F01/values", "F01/chunks",
              "F01/splits", "F01/callback", "F01/files", "F02/*", "F03/*", "I01/callbacks", "I01/histories", "I01/gaps",
              "I01/scale", "I02/sequences", "I02/decimals", "I02/constant", "I02/scale", "I03/ema", "I03/ema_grid", "I03/ema_scale",
              "I03/macd", "I03/macd_grid", "I03/macd_scale", "I03/helper", "I04/histories", "I04/grid", "I04/scale", "I04/closes",
              "I05/flat", "I05/grid", "I05/scale", "I06/histories", "I06/balances", "I06/grid", "I06/tiny",
              "I06/scale", "I06/constant", "I07/sma", "I07/sma_grid", "I07/sma_scale", "I07/granularity",
              "T01/orders", "T01/fills", "T01/fine", "T01/histories", "T02/histories", "T02/position", "T02/scale",
              "T02/trailing", "T03/*", "D01/*", "D02/*", "L01/*", "C01/far_price", "C01/far_ohlc", "C01/borders",
              "C01/values", "C02/records", "C02/faults", "C02/inputs", "C02/limits", "C03/windows", "C03/batch", "C03/flags",
              "C04/far_side", "C04/signals", "C04/borders"],
             ["%s/*" % x for x in "A01 E01 E02 E03 E04 E05 E07 E08 H01 H02 H03 H04 H05 S01 F01 F02 F03 I01 I02 I03 I04 I05 "
              "I06 I07 T01 T02 T03 D01 D02 L01 C01 C02 C03 C04".split()]))

NOT_APPLICABLE = []


def main():
    have = {h for h in {p["harness"] for p in P}
            if h in ("safety", "listed") or os.path.exists(os.path.join(ROOT, "harness", "h_%s.cc" % h))}
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            a = {"files": p["files"], "mechanism": p["mech"]}
            if p["state"]:
                a["state"] = p["state"]
            if p["observe"]:
                a["observe_at"] = p["observe"]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["qtext"]},
                                "why_tests_cant": p["why"], "anchors": a}) + "\n")
    checks, man, na = {}, [], list(NOT_APPLICABLE)
    for p in P:
        if p["harness"] not in have:
            na.append({"property": p["id"], "reason": "its check is not built yet"})
            continue
        c = {"harness": p["harness"], "level": p["level"]}
        if p["level"] == "fault_enumeration":
            c["rule"] = "a fault at every position of the byte stream, on top of every enumerated input"
        if p["assumptions"]:
            c["assumptions"] = p["assumptions"]
        if p["safety"]:
            c["safety"], c["safety_thorough"] = p["safety"]
        checks[p["id"]] = c
        man.append({"property": p["id"], "quick_cmd": "python3 check.py %s" % p["id"],
                    "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
                    "technique": p["technique"], "level": p["level"], "level_note": p["note"].strip()})
    with open(os.path.join(ROOT, "checks.json"), "w") as f:
        json.dump(checks, f, indent=1)
        f.write("\n")
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": "python3 check.py --build-all", "checks": man,
                   "not_applicable": na}, f, indent=1)
        f.write("\n")


main()
