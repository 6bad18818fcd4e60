#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for property texts)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,
              "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
J="juno/src/"
TR=J+"trading/traders.rs"; TM=J+"trading/mod.rs"
p("T01","Backtest positions form one ordered, non-overlapping timeline",
 "In every backtest the reported positions are in time order and never overlap: each closes after it opens (at once only if opened on the last candle) and no later than the next one opens. Every open and close happens at the end of one of the supplied candles (candle time plus the trading interval) at exactly that candle's close price, a position left open at the end of data is closed on the last candle as cancelled, and no other position is ever marked cancelled. The reported period runs from the first candle's time to the end of the last candle, and the reported starting cash is the cash that was given.",
 ["inputs","histories","configurations"],"every trading configuration, every ascending candle history (gaps included), every fee/filter/borrow setting",
 "No existing test drives a backtest and looks at the positions; the benchmark only times one run.",
 [TR,TM],[("tick loop and forced close","juno/src/trading/traders.rs: trade, tick"),("position records","juno/src/trading/mod.rs: LongPosition, ShortPosition, TradingSummary")],
 ["TradingSummary.positions / start / end returned by a backtest"])
p("T02","Every fill obeys exchange filters, precision, fees and the cash ledger",
 "Every trade is made at the close of a candle. A long spends at most the available cash on the largest size the exchange's size filter allows, pays the taker fee in base rounded half up, and later sells the largest allowed part of what it holds, paying the fee in quote; a short pledges all cash, borrows the affordable size times (margin multiplier - 1) capped by the borrow limit, and buys back the borrowed amount plus interest for every started interest interval plus fee. All sizes, quotes and fees are rounded to the exchange's precision (quotes and sizes down, fees and interest half up). The cash available for each trade equals the starting cash plus the profits of all earlier positions, so no money is created or lost.",
 ["inputs","histories","configurations"],"every candle history, fees, size filter, precisions, interest rate/interval, borrow limit, margin multiplier and starting cash that the exchange data can describe",
 "Unit tests check two rounding examples; no test ever looks at a fill, interest or a sequence of trades.",
 [TR,TM,J+"math.rs",J+"filters.rs"],[("opening/closing long and short positions","juno/src/trading/traders.rs: try_open_*_position, close_*_position"),("rounding","juno/src/math.rs: round_down, round_half_up, ceil_multiple; juno/src/filters.rs: Size::round_down")],
 ["fills, collateral, borrowed, profit() of the returned positions"],[("cash","cash available to the trader","juno/src/trading/traders.rs: State.quote")])
p("T03","Positions open and close exactly when advice, stop loss, take profit say so",
 "A position opens only on the candle where the strategy's advice turns to that direction, only if that direction is enabled and no position is open, and always then unless the affordable size is zero, in which case trading ends for good. An open position closes on the first candle where the strategy's advice turns to the opposite direction or to liquidate, else the stop loss is hit, else the take profit is hit (in that precedence), and the recorded close reason says which one. A reversal closes the old position and opens the opposite one on the same candle, and stop loss and take profit always measure from the candle at which the current position was opened.",
 ["inputs","histories","configurations"],"every strategy, stop-loss and take-profit configuration, every candle history, and the four long/short enablements",
 "Existing tests call a handful of strategies on one price file and never the trader; none combines advice with stop loss or take profit.",
 [TR,J+"utils/changed.rs"],[("decision order","juno/src/trading/traders.rs: tick"),("change filter","juno/src/utils/changed.rs: Changed::update"),("reference point reset","juno/src/stop_loss, juno/src/take_profit: clear")],
 ["open/close times and close reasons of returned positions"])
p("T04","Backtests never look ahead, are deterministic and shift with time",
 "Appending or changing candles after some moment never changes any position that was opened and closed before it, nor the opening of a position still open then. Running the same backtest twice, or in several threads at once, gives identical results. Moving the whole history by a whole number of periods only moves the reported times.",
 ["inputs","histories","configurations"],"every trading configuration (strategy, stop loss, take profit) and every pair of candle histories sharing a prefix",
 "Look-ahead, hidden global state and clock dependence are relations between two runs; the tests compare single runs with stored values.",
 [TR,J+"strategies/mod.rs",J+"indicators/mod.rs",J+"utils/buffered_candle.rs"],[("candle-by-candle simulation","juno/src/trading/traders.rs: trade, tick")],
 ["TradingSummary of two runs"])
p("T05","No valid configuration or market history can crash a backtest",
 "Any trading configuration the optimizer can produce can be backtested on any valid market history - empty, a single candle, shorter than the strategy's warm-up, flat prices, extreme price moves, gaps, losses beyond the starting cash - and the backtest and all performance statistics complete without a crash. All amounts in the result are finite numbers, and evaluating such a configuration as an optimizer candidate gives a comparable (non-NaN) fitness.",
 ["inputs","histories","configurations"],"every generated, crossed-over and mutated configuration times every candle history with positive finite prices",
 "Tests use one benign price file and fixed parameters; degenerate markets and the random parameter space are never visited.",
 [TR,J+"statistics/extended.rs",J+"statistics/core.rs",J+"trading/evaluation.rs",J+"strategies/mod.rs"],[("trade","juno/src/trading/traders.rs: trade"),("statistics","juno/src/statistics/mod.rs: Statistics::compose"),("parameter generators","juno/src/strategies/*.rs, juno/src/stop_loss/*.rs, juno/src/take_profit/*.rs")],
 ["panics, NaN/inf in TradingSummary and Statistics"])
p("S01","Stop losses trigger exactly at their stated loss",
 "A fixed stop loss fires for a long (short) exactly when the current close is at or beyond its threshold fraction below (above) the close at which the position was opened; a trailing one measures from the highest (lowest) close seen since then; the combined one fires when either does. The legacy one does the same as selected by its trail switch and is inactive with a zero threshold, and the no-op one never fires.",
 ["inputs","histories","configurations"],"every threshold, every sequence of position openings and candle closes",
 "No existing test constructs a stop loss.",
 [J+"stop_loss/basic.rs",J+"stop_loss/trailing.rs",J+"stop_loss/basic_plus_trailing.rs",J+"stop_loss/legacy.rs",J+"stop_loss/noop.rs",J+"stop_loss/mod.rs"],
 [("hit conditions","juno/src/stop_loss/*.rs: upside_hit, downside_hit"),("reference point","juno/src/stop_loss/*.rs: clear, update")],["upside_hit/downside_hit after any sequence of clear/update"])
p("S02","Take profits trigger exactly at their stated gain",
 "A fixed take profit fires for a long (short) exactly when the current close is at or beyond its threshold fraction above (below) the close at which the position was opened; the legacy one does the same and is inactive with a zero threshold, and the no-op one never fires. The trending one interpolates between its two thresholds, separately per direction, by its easing curve applied to current trend strength (ADX/100), giving the first threshold at full eased progress and the second at zero; when locked it keeps the thresholds from the moment the position was opened, otherwise it follows every candle.",
 ["inputs","histories","configurations"],"every threshold pair, easing, period, lock setting and candle history",
 "No existing test constructs a take profit or an easing.",
 [J+"take_profit/basic.rs",J+"take_profit/legacy.rs",J+"take_profit/trending.rs",J+"take_profit/noop.rs",J+"easing.rs"],
 [("hit conditions","juno/src/take_profit/*.rs"),("easing table","juno/src/easing.rs: EASINGS, tween"),("interpolation","juno/src/math.rs: lerp")],["upside_hit/downside_hit after any sequence of clear/update"])
p("I01","Every moving average equals its published definition",
 "At every step from maturity on, each moving average (simple, exponential, SMA-seeded exponential, smoothed, double exponential, Kaufman adaptive, Arnaud Legoux) equals its textbook definition computed from the raw price history, for every period and smoothing. Consequently each simple/weighted/exponential average stays within the range of the prices it has seen, a constant price series yields that constant, and scaling or shifting prices scales or shifts the average.",
 ["inputs","histories"],"every period, smoothing/offset/sigma, and price history of any length",
 "The stored-value tests use one short series with one period per indicator, so window wrap-around, other periods and long histories are unseen.",
 [J+"indicators/sma.rs",J+"indicators/ema.rs",J+"indicators/ema2.rs",J+"indicators/smma.rs",J+"indicators/dema.rs",J+"indicators/kama.rs",J+"indicators/alma.rs"],
 [("incremental updates","juno/src/indicators/*.rs: MA::update")],["value() after each update"])
p("I02","Oscillators and trend indicators equal their definitions and stay finite",
 "RSI, stochastic, MACD, directional movement, directional indicator, DX and ADX equal their published (Wilder/Tulip) definitions computed from the raw history at every step from maturity on. RSI, stochastic, DX and ADX always lie in [0, 100] and every indicator value is a finite number on every valid history, including flat markets where the textbook ratio is 0/0 (then the value counts as 0). A flat stretch never disables an indicator: once prices move again it recovers.",
 ["inputs","histories"],"every period combination and every candle history, flat stretches included",
 "The stored-value tests use one short lively series; flat windows, other periods and long runs are never tried.",
 [J+"indicators/rsi.rs",J+"indicators/stoch.rs",J+"indicators/macd.rs",J+"indicators/dm.rs",J+"indicators/di.rs",J+"indicators/dx.rs",J+"indicators/adx.rs"],
 [("incremental updates","juno/src/indicators/*.rs: update")],["public value fields after each update"])
p("I03","Indicators mature exactly when announced; lookup codes and periods agree",
 "Every indicator announces how many inputs it needs, reports itself immature before that many inputs and mature from exactly that input on, for any period, and its value is already meaningful on the first mature step. A moving average looked up by the numeric code (checksum of its lower-case name) behaves identically to one built from named parameters with the default settings, a code that stands for no moving average is refused, and a moving average's reported period is the one it was configured with.",
 ["inputs","histories","configurations"],"every indicator kind, period and history length",
 "Existing tests skip the first N stored outputs and never compare announced and actual maturity across periods.",
 [J+"indicators/mod.rs",J+"indicators/adx.rs",J+"indicators/ema2.rs",J+"math.rs"],[("maturity bookkeeping","juno/src/indicators/*.rs: maturity, mature"),("code lookup","juno/src/indicators/mod.rs: ma_from_adler32, adler32")],["maturity()/mature()/value()"])
p("G01","Each signal strategy advises exactly by its trading rule",
 "At every mature candle each strategy's advice follows its rule on its indicators: double MA by which average is higher (optionally by a percentage threshold), triple MA by full ordering with liquidation when the short average crosses both, single MA by price and slope, MACD by line versus signal, four-week rule by channel breakout with moving-average exit, and double MA + stochastic by MA direction gated by the stochastic with exits on reversal or extremes. Where the rule says nothing the previous advice stays, and the advice depends only on the candles seen so far.",
 ["inputs","histories","configurations"],"every parameterization of the seven signal strategies and every candle history",
 "Stored-value tests cover one parameter set and one price file per strategy and only the final advice trace on it.",
 [J+"strategies/double_ma.rs",J+"strategies/double_ma_2.rs",J+"strategies/triple_ma.rs",J+"strategies/single_ma.rs",J+"strategies/macd.rs",J+"strategies/four_week_rule.rs",J+"strategies/double_ma_stoch.rs"],
 [("advice rules","juno/src/strategies/*.rs: update")],["advice() after each update"])
p("G02","Oscillator gating and advice pipelines combine exactly as configured",
 "Oscillators report overbought at or above the upper threshold and oversold strictly below the lower one, never before maturity. A filtered signal passes its inner signal's advice through the mid-trend and persistence filters (agreement passes, silence from either silences, conflict liquidates), fed with candles aggregated to its buffer interval when one is set. With an oscillator, advice is first gated: enforced mode keeps long only when oversold and short only when overbought, preventing mode drops long only when overbought and short only when oversold, and gated-out advice becomes liquidate.",
 ["inputs","histories","configurations"],"every inner signal, oscillator, threshold, filter mode, persistence, mid-trend policy, buffer interval and candle history",
 "Two stored-value tests exercise one pipeline configuration each; gating modes and policies are otherwise unvisited.",
 [J+"strategies/sig.rs",J+"strategies/sig_osc.rs",J+"strategies/rsi.rs",J+"strategies/stoch.rs"],
 [("gating","juno/src/strategies/sig_osc.rs: filter_enforce, filter_prevent"),("pipeline","juno/src/strategies/sig.rs: update")],["advice(), overbought(), oversold()"])
p("G03","No advice before maturity; maturity comes exactly when announced",
 "Every strategy announces a number of candles it needs, is immature before that many and mature from then on, whatever the parameters and prices. It never advises anything before its indicators have all matured. A trader acting on its advice therefore opens no position earlier.",
 ["inputs","histories","configurations"],"every parameterization of every strategy and every candle history",
 "Tests check a warm-up on one parameter set; warm-up arithmetic must hold for all combinations of nested parameters.",
 [J+"strategies/mod.rs",J+"strategies/sig.rs",J+"strategies/sig_osc.rs",J+"strategies/four_week_rule.rs",J+"strategies/single_ma.rs"],
 [("maturity arithmetic","juno/src/strategies/*.rs: maturity, mature")],["maturity()/mature()/advice()"])
p("G04","Advice filters: change detection, persistence, mid-trend and combination",
 "The change filter emits an advice exactly when it is non-empty and differs from the last emitted one, and reports the prevailing advice and how many updates it has prevailed. The persistence filter emits an advice only after it has been repeated for more than its level of consecutive updates (level zero passes everything) and otherwise nothing, or the last persisted advice if configured so. The ignore policy of the mid-trend filter suppresses the advice already in force at start until it first changes while the other policies pass everything; combining two advices yields nothing if either is empty, the common advice if equal and liquidate otherwise.",
 ["inputs","histories","configurations"],"every sequence of advices and every filter configuration",
 "No direct tests of these filters exist beyond one strategy trace; their state machines are only meaningful over arbitrary sequences.",
 [J+"utils/changed.rs",J+"utils/persistence.rs",J+"utils/mid_trend.rs",J+"utils/mod.rs"],
 [("state machines","juno/src/utils/*.rs: update"),("combine","juno/src/utils/mod.rs: combine")],["update() outputs"])
p("B01","Aggregated candles are exactly the calendar windows they stand for",
 "Aggregating candles to a longer interval emits, for every calendar window (minute to month) of the stream that is complete or is followed by a later candle, exactly one candle carrying the window's start time, first open, highest high, lowest low, last close and summed volume. Missing input candles, also at window borders, never mix data of two windows. With no or an equal target interval every candle passes through unchanged, and a target shorter than the input interval is refused.",
 ["inputs","histories","configurations"],"every pair of intervals (target up to a week or exactly a month) and every aligned candle stream with arbitrary gaps, except gap patterns that are documented to be rejected",
 "Unit tests cover two-candle windows on an artificial interval with at most one missing candle.",
 [J+"utils/buffered_candle.rs",J+"lib.rs",J+"primitives/timestamp.rs"],
 [("buffering","juno/src/utils/buffered_candle.rs: BufferedCandle::buffer"),("merging","juno/src/lib.rs: Candle::add_assign")],["return values of buffer()"])
G=J+"genetics/"
p("E01","An optimization run is a pure function of its seed",
 "Running the same optimization with the same seed, data and settings gives the same generations, individuals and fitnesses every time: in the same process, in another process, and with any number of worker threads. When no seed is given, the seed reported with the result reproduces the run. Different seeds explore different candidates.",
 ["inputs","schedules","configurations"],"every seed, population/generation/hall-of-fame size, operator setting, and thread schedule; across processes",
 "Every test runs in a single process and none runs an evolution at all; hash-map iteration order or thread timing differences only show across runs.",
 [G+"algorithm.rs",J+"easing.rs",J+"trading/evaluation.rs",J+"utils/mid_trend.rs"],
 [("seeded generator","juno/src/genetics/algorithm.rs: evolve"),("parameter choice tables","juno/src/easing.rs: gen_easing; juno/src/indicators/mod.rs: gen_ma_params")],["Evolution returned by evolve; bytes of generated configurations"])
p("E02","Evolution delivers all generations with a true, sorted, monotone hall of fame",
 "An evolution over G generations returns the initial generation plus G further ones, announcing each one in order to the progress callback. Each generation's hall of fame holds the best individuals of that generation, best first, of the requested size (at most the population), each with the fitness the evaluation really assigns to it. With elite reinsertion the best fitness never decreases from one generation to the next.",
 ["inputs","configurations","histories"],"every population size >= 2, generation count >= 0, hall-of-fame size, selection/reinsertion/crossover/mutation setting, fitness landscape and seed",
 "No test runs the evolution loop.",
 [G+"algorithm.rs",G+"mod.rs",G+"reinsertion.rs"],
 [("evolution loop","juno/src/genetics/algorithm.rs: evolve, run_generation"),("ordering","juno/src/genetics/mod.rs: fitness_desc")],["Evolution.generations and the callback"])
p("E03","Crossover and mutation touch exactly the addressed gene",
 "A configuration has a fixed number of genes, equal to the number of its independently tunable fields (nested ones and the variant choice included). Crossing two configurations at one gene index swaps exactly that gene between them and changes nothing else, and doing it twice restores both. Mutating at one index changes at most that gene, and every gene can be reached by some index.",
 ["inputs","configurations"],"every pair of configurations, every gene index and random state, for the trading configuration and for user-defined nested/enum configurations",
 "Tests check a three-field toy structure with a few indices; the derived code for the real nested configuration and enums is not enumerated.",
 ["juno_derive/src/macros/derive_chromosome.rs","juno_derive/src/macros/derive_chromosome_enum.rs",TM],
 [("derived operators","juno_derive/src/macros/derive_chromosome.rs, derive_chromosome_enum.rs"),("hand-written gene","juno/src/trading/mod.rs: TraderParams")],["len/cross/mutate results"])
p("E04","Pinned parameters stay pinned through the whole optimization",
 "When the optimization context fixes a parameter (or the strategy, stop-loss or take-profit kind, or the list of allowed intervals), every configuration ever generated, crossed over or mutated in that optimization has that value. Parameters not fixed keep varying. This holds for every combination of fixed parameters, including ones nested inside enum variants.",
 ["inputs","configurations","histories"],"every set of pinned parameters and every sequence of generate/cross/mutate",
 "Tests pin single fields of a toy structure once; pins through nested enums and through evolution are not exercised.",
 ["juno_derive/src/macros/derive_chromosome.rs","juno_derive/src/macros/derive_chromosome_enum.rs",TM],
 [("context handling in derived operators","juno_derive/src/macros/derive_chromosome*.rs"),("interval choice","juno/src/trading/mod.rs: TraderParams::generate/mutate")],["field values of generated/mutated configurations; hall-of-fame individuals"])
p("E05","Every reachable configuration is valid and survives JSON",
 "Every configuration produced by generation, crossover and mutation is valid: short periods are below long ones, thresholds lie in their documented ranges and directions, periods are positive, and the strategy, stop loss and take profit can be constructed from it. Serializing a configuration to JSON and reading it back gives an equivalent configuration with identical trading behaviour. A context given as JSON with fields left out leaves those parameters free.",
 ["inputs","configurations","histories"],"every random state and every sequence of generate/cross/mutate",
 "Tests never generate real trading configurations; range errors and non-round-tripping variants depend on rare random draws.",
 [J+"strategies/mod.rs",J+"stop_loss/mod.rs",J+"take_profit/mod.rs",TM,J+"easing.rs"],
 [("generators","juno/src/strategies/*.rs, stop_loss/*.rs, take_profit/*.rs free functions"),("serde tags","#[serde(tag = \"type\")] enums"),("lenient context","juno_derive/src/macros/derive_chromosome.rs: Context Deserialize/Default")],["generated parameters and their JSON"])
p("E06","Selection, reinsertion, crossover and mutation operators do what they promise",
 "Elite selection yields the best rate-fraction of the parents (shuffled if asked), tournament selection yields the fitter of randomly drawn parents, random selection yields fresh individuals. Elite reinsertion restores the population size with all offspring plus the best parents plus the configured share of fresh evaluated individuals, sorted; fitness reinsertion keeps the best offspring; pure reinsertion keeps all. Uniform crossover and mutation touch each gene independently with the configured probability (never at 0, always at 1).",
 ["inputs","configurations"],"every population, fitness vector, rate, probability and random state",
 "No test touches the operators; several are only used with one setting.",
 [G+"selection.rs",G+"reinsertion.rs",G+"crossover.rs",G+"mutation.rs",G+"algorithm.rs"],
 [("operators","juno/src/genetics/selection.rs, reinsertion.rs, crossover.rs, mutation.rs")],["populations after each operator"])
p("E07","Fitness is the aggregated per-symbol statistic of a real backtest",
 "The fitness of a candidate equals the chosen statistic (profit, return over max drawdown, Sharpe, Sortino) of the backtest of that candidate on each training symbol with margin multiplier two and both directions enabled, using that symbol's own candles of the candidate's interval, fees, filters and borrow terms, combined over symbols by the chosen aggregation. Aggregation is linear, or logarithmic (log10(1+v) for gains, -10^(1-v) for losses, factored: v times ten first), so a better value on any symbol never lowers the fitness. Fitness does not depend on the population around the candidate, symbol order (up to rounding) or threads.",
 ["inputs","configurations","schedules"],"every candidate, population, symbol set, statistic, aggregation and market data",
 "No test constructs an evaluation.",
 [J+"trading/evaluation.rs",J+"statistics/core.rs",J+"statistics/extended.rs"],
 [("evaluation","juno/src/trading/evaluation.rs: BasicEvaluation::evaluate, sum_linear, sum_log10, sum_log10_factored")],["Individual.fitness after evaluate"])
p("A01","Core and per-position statistics follow their definitions",
 "Cost, gain, profit, ROI, annualized ROI, mean position profit and duration, counts of wins, losses, stop losses and take profits, drawdowns and return over max drawdown equal their definitions on the sequence of positions, and per-position statistics likewise; a drawdown compares running cash after each position with its highest value so far, starting cash included. The quick versions used as optimizer objectives give the same profit and return over max drawdown as the full report. With no positions all of them are zero or neutral rather than undefined.",
 ["inputs","histories"],"every sequence of long and short positions and every starting cash and period",
 "One test compares two fields on one two-position example.",
 [J+"statistics/core.rs",J+"statistics/mod.rs",J+"math.rs"],
 [("composition","juno/src/statistics/core.rs: CoreStatistics::compose, get_profit, get_return_over_max_drawdown; statistics/mod.rs: PositionStatistics::compose"),("annualization","juno/src/math.rs: annualized")],["CoreStatistics, PositionStatistics"])
p("A02","Sharpe and Sortino follow the daily mark-to-market definition and are finite",
 "Annualized return, Sharpe and Sortino ratio are computed from the logarithmic returns of the portfolio value (base and quote holdings after all of a period's trades, at that period's closing prices) over each statistics period: 365 times mean, divided by sqrt(365) times the population deviation of all, respectively only the negative, returns. They are always finite numbers, zero where the ratio is undefined (no return, no volatility, no losing period). The quick versions used as optimizer objectives agree with the full report.",
 ["inputs","histories"],"every sequence of positions, price table and period count (a single day included)",
 "One test compares both implementations with each other on one example, and never with the definition or on degenerate input.",
 [J+"statistics/extended.rs",J+"math.rs"],
 [("statistics","juno/src/statistics/extended.rs: ExtendedStatistics::compose, get_sharpe_ratio, get_sortino_ratio")],["ExtendedStatistics and the two quick functions"])
p("A03","Market data, positions and reports survive JSON unchanged",
 "Candles, fees, filters, borrow terms and exchange information are read from JSON objects with exactly the field names of the data provider (candle times as milliseconds or text, candle types as regular or heikin-ashi), and positions, backtest summaries, core and per-position statistics are written as such objects and read back to the same amounts, times, kinds and close reasons, so that statistics of a summary read back are the same. Fields added by later versions are ignored; a missing field or an unknown kind, reason or candle type is an error, never a guess.",
 ["inputs","histories"],"every candle, exchange description and sequence of positions with finite amounts",
 "No test reads or writes any of these.",
 [J+"lib.rs",J+"filters.rs",J+"trading/mod.rs",J+"statistics/mod.rs",J+"statistics/core.rs"],
 [("market data","juno/src/lib.rs: Candle, CandleType, Fees, BorrowInfo, AssetInfo, ExchangeInfo; juno/src/filters.rs"),("results","juno/src/trading/mod.rs: Position, TradingSummary; juno/src/statistics: CoreStatistics, PositionStatistics")],["serde_json values and text"])
p("D01","Interval text and JSON round-trip; malformed intervals are rejected",
 "Every interval prints as a canonical unit string that parses back to the same interval, and a string of number-unit groups (y, M, w, d, h, m, s, ms) parses to the sum of its groups. Any other text - empty, unknown unit, stray characters, overflow - is rejected with a parse error, never a crash or a wrong value. In JSON an interval is accepted as a number of milliseconds or as such a string and written as a number.",
 ["inputs"],"every 64-bit interval and every string",
 "Tests list about ten strings, all well formed.",
 [J+"primitives/interval.rs"],[("parsing/printing","juno/src/primitives/interval.rs: FromStr, Display, Deserialize")],["to_string, parse, serde_json"])
p("D02","Timestamp text and JSON round-trip; unrepresentable dates are rejected",
 "Every timestamp prints as an RFC 3339 UTC date-time that parses back to the same timestamp, and equals the independently computed calendar date. RFC 3339 text with any offset parses to the instant it denotes (to the millisecond), a plain date parses to its UTC midnight, and any other text, including dates before 1970, is rejected with an error rather than a wrong value. In JSON a timestamp is accepted as a number of milliseconds or such a string and written as a number. The current time is the time of the system clock, to the millisecond.",
 ["inputs"],"every timestamp up to year 9999, every offset, and arbitrary strings",
 "Tests list a few fixed dates.",
 [J+"primitives/timestamp.rs"],[("parsing/printing","juno/src/primitives/timestamp.rs: FromStr, Display, Deserialize")],["to_string, parse, serde_json"])
p("D03","Flooring and ceiling times follow the calendar",
 "Flooring a time to an interval gives the latest interval boundary not after it and ceiling the earliest boundary not before it, where boundaries are multiples of the interval since the epoch, Mondays 00:00 UTC for weeks and firsts of month 00:00 UTC for months. Hence both are idempotent, monotone, fix boundaries and differ by at most one interval. Interval ceiling and the integer multiple helpers obey the same laws exactly for all representable values.",
 ["inputs"],"every timestamp (weeks: from the first full week) and every interval up to a week or exactly a month",
 "Tests check a few hand-picked times, none on a month boundary for ceiling or beyond 2^53.",
 [J+"primitives/timestamp.rs",J+"primitives/interval.rs",J+"math.rs"],[("calendar rounding","juno/src/primitives/timestamp.rs: floor, ceil"),("multiples","juno/src/math.rs: ceil_multiple*, floor_multiple*")],["floor/ceil results"])
p("D04","Decimal rounding and exchange filters never exceed what they are given",
 "Rounding down to a precision gives the largest decimal of that precision not above the value, and half-up rounding the nearest one (ties away from zero), for every precision an exchange reports (0 to 18), to within floating-point resolution. A size or price filter rounds a value below its minimum to zero, caps it at the maximum, and otherwise to the largest multiple of the step not above it; zero disables the respective rule. A value within the limits that is a whole number of steps is valid, any other is not. Rounding is monotone and idempotent up to one unit of floating-point noise.",
 ["inputs","configurations"],"every non-negative amount, precision and filter",
 "Tests check one round-down and three half-up examples; filters have no tests.",
 [J+"math.rs",J+"filters.rs"],[("rounding","juno/src/math.rs: round_down, round_half_up"),("filters","juno/src/filters.rs: Price, Size")],["return values"])
p("D05","Time spans: merging, gap finding and paging cover exactly what they should",
 "Merging adjacent spans keeps exactly the same covered time with no two output spans touching end to start. Missing spans are exactly the parts of a requested range not covered by the existing spans, in order. Paging a range into requests of a limited number of intervals yields consecutive pages, each within the limit, that together cover exactly the range.",
 ["inputs"],"every ordered non-overlapping span list, every range, interval and page limit",
 "Tests check one or two examples each and none for paging.",
 [J+"utils/mod.rs"],[("span helpers","juno/src/utils/mod.rs: merge_adjacent_spans, generate_missing_spans, page")],["returned spans"])
p("D06","Numeric and symbol helpers match their definitions",
 "Mean and standard deviation are the arithmetic mean and population deviation, annualization compounds a return to a year of 365.2425 days and is zero for undefined cases, and the checksum of a name is its Adler-32. Pairwise iteration yields each adjacent pair once in order and minimum/maximum the true extremes. A trading symbol splits at its first dash into base and quote asset, and listing the assets of symbols yields base then quote of each in order.",
 ["inputs"],"every finite data vector, duration, return, string and symbol",
 "Tests check one example each; most of these have no test on empty, long or extreme inputs.",
 [J+"math.rs",J+"itertools.rs",J+"primitives/symbol.rs"],[("helpers","juno/src/math.rs: mean, std_deviation, annualized, adler32, lerp; juno/src/itertools.rs; juno/src/primitives/symbol.rs")],["return values"])
p("N01","The data client asks for exactly what was requested and reports errors",
 "Each client call posts one JSON request to its endpoint carrying exactly the given exchange, symbol, interval, start, end, type and assets, and returns exactly the data the server sent. A 4xx answer becomes an API error carrying that status and the server's message, a 5xx answer, malformed body or dropped connection becomes an error, and never data. Concurrent calls never mix their answers.",
 ["inputs","fault_sequences","schedules"],"every request content, server payload, status code and transport fault, sequential or concurrent",
 "No test makes a client call.",
 [J+"clients/juno_core.rs"],[("requests and error mapping","juno/src/clients/juno_core.rs: Client, error_for_juno_status")],["HTTP bytes at a mock server and returned Result"])
p("N02","The backtest endpoint returns each symbol's true backtest",
 "Posting a backtest returns, for every distinct requested symbol, the statistics of backtesting the posted configuration on that symbol's candles, fees, filters and borrow terms as served upstream for the requested period and interval. The service requests candles once per symbol, exchange info, and daily prices in USDT for every asset involved plus bitcoin. If the upstream fails the answer is a 500 with a message, bad requests get a 4xx, and the service keeps serving afterwards.",
 ["inputs","fault_sequences","configurations"],"every configuration, symbol list (duplicates included), period, upstream data and upstream failure",
 "The HTTP services have no tests except for one map-reshaping helper.",
 ["juno_axum/src/routes/backtest.rs","juno_axum/src/exchange.rs","juno_axum/src/error.rs","juno_axum/src/main.rs"],[("gathering","juno_axum/src/exchange.rs: gather_exchange_info_candles_prices, map_of_maps"),("backtesting","juno_axum/src/routes/backtest.rs: par_backtest")],["HTTP responses; requests seen by a mock upstream"])
p("N03","The optimize endpoint reports a reproducible, faithful optimization",
 "Posting an optimization returns the seed and the generations in which any hall-of-fame place improved, each with its true generation number, starting with generation zero; each individual carries its fitness on the training symbols and the statistics of its backtest on every training and validation symbol. Posting again with the returned seed gives the same answer. The result equals running the library's evolution with the service's documented operators on the same data, pinned parameters respected, and asking for the service's options lists all statistics and aggregations.",
 ["inputs","configurations","fault_sequences"],"every population/generation/hall-of-fame size, seed, context, statistic, aggregation, symbol split and upstream data",
 "The HTTP services have no tests.",
 ["juno_axum/src/routes/optimize.rs","juno_axum/src/exchange.rs"],[("optimization","juno_axum/src/routes/optimize.rs: par_optimize"),("gathering","juno_axum/src/exchange.rs")],["HTTP responses; requests seen by a mock upstream"])
p("N04","Web pages of any origin can use the services",
 "Whatever the origin of a page, its browser is allowed to send JSON requests to every endpoint (preflight requests are granted and never reach upstream) and to read every answer: results, options, bad requests, unknown paths and upstream failures alike. The answer does not depend on the origin.",
 ["inputs","configurations","fault_sequences"],"every origin, endpoint, request and outcome",
 "The HTTP services have no tests; permissions missing only on error answers show in no ordinary use.",
 ["juno_axum/src/main.rs","juno_axum/src/error.rs"],[("permissions","juno_axum/src/main.rs: main (CorsLayer)")],["HTTP responses and their headers"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
