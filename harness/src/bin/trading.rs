//! T01-T05: the trading simulation.
use juno::{
    stop_loss::StopLoss, strategies::StrategyMeta, take_profit::TakeProfit,
    statistics::Statistics,
    trading::*,
    genetics::{Chromosome, Evaluation, Individual},
    Advice, Candle, ExchangeInfo, Interval, Timestamp, SymbolExt,
};
use std::collections::HashMap;
use vharness::{engine::*, ensure, fail, gens::*, models::*};

fn run(p: &TradingParams, m: &Market, cs: &[Candle]) -> TradingSummary {
    trade(
        p,
        &TradeInput {
            candles: cs,
            fees: &m.fees,
            filters: &m.filters,
            borrow_info: &m.borrow,
            margin_multiplier: m.mm,
            quote: m.quote,
            long: m.long,
            short: m.short,
        },
    )
}

/// Histories which compound past this are not judged further: sums of money this size leave the range of doubles.
const RICH: f64 = 1e200;

struct Setup {
    p: TradingParams,
    m: Market,
    cs: Vec<Candle>,
    iv: u64,
}

/// Mostly the usual intervals, but any interval can be traded.
fn interval(c: &mut Case) -> u64 {
    if c.scale != Scale::Marathon && c.chance(1, 10) {
        c.pick(&[7 * DAY, 3 * DAY, 30 * DAY, 2_629_746_000, 1000, 5, 123_457])
    } else {
        c.pick(&INTERVALS)
    }
}

fn setup(c: &mut Case, wild: bool) -> Setup {
    let iv = interval(c);
    let (max, len) = match c.scale {
        Scale::Small => {
            let max = c.pick(&[3, 6, 2, 12]);
            (max, c_len(max))
        }
        _ => sized(c),
    };
    let mut p = trading_params(c, max, iv);
    if c.chance(1, 5) {
        contending_exits(c, &mut p);
    }
    let wild = wild && c.scale == Scale::Small;
    let mut cs = candles(c, iv, &CandleOpts { min_len: 0, max_len: len, gaps: true, wild });
    if c.chance(1, 10) {
        // a history which does not start on a period boundary
        let late = c.u64(1, iv - 1);
        cs.iter_mut().for_each(|k| k.time = k.time + Interval(late));
        c.label("between period boundaries");
    }
    let m = market(c, cs.first().map_or(1.0, |k| k.close));
    Setup { p, m, cs, iv }
}
/// Exits which often fire on the same candle: a hair-trigger trailing stop loss next to a near take profit.
fn contending_exits(c: &mut Case, p: &mut TradingParams) {
    use juno::{
        stop_loss::{BasicPlusTrailingParams, BasicParams, LegacyParams, StopLossParams, TrailingParams},
        take_profit::{self, TakeProfitParams},
    };
    let t = |c: &mut Case| c.pick(&[0.0, 0.0, 0.001, 0.01, 0.03]);
    let trailing = TrailingParams { up_threshold: t(c), down_threshold: t(c) };
    p.stop_loss = match c.draw(2) {
        0 => StopLossParams::Legacy(LegacyParams { threshold: 0.001, trail: true }),
        1 => StopLossParams::BasicPlusTrailing(BasicPlusTrailingParams {
            basic: BasicParams { up_threshold: 0.5, down_threshold: 0.5 },
            trailing,
        }),
        _ => StopLossParams::Trailing(trailing),
    };
    let n = |c: &mut Case| c.pick(&[0.001, 0.01, 0.05]);
    p.take_profit = match c.draw(2) {
        0 => TakeProfitParams::Legacy(take_profit::LegacyParams { threshold: n(c) }),
        1 => TakeProfitParams::Trending(take_profit::TrendingParams {
            up_thresholds: (n(c), 0.6),
            down_thresholds: (n(c), 0.6),
            period: c.u32(1, 4),
            lock_threshold: c.chance(1, 4),
            easing: c.pick(&EASINGS),
        }),
        _ => TakeProfitParams::Basic(take_profit::BasicParams { up_threshold: n(c), down_threshold: n(c) }),
    };
}
fn c_len(max: u32) -> usize {
    match max {
        12 => 160,
        6 => 120,
        _ => 80,
    }
}

fn describe(s: &Setup, sum: &TradingSummary) -> String {
    format!(
        "params={} market={:?} candles={} -> {} positions {}",
        json(&s.p),
        s.m,
        dump_candles(&s.cs),
        sum.positions.len(),
        json(&sum.positions)
    )
}

#[derive(Clone, Copy)]
struct V {
    long: bool,
    open: u64,
    close: u64,
    reason: CloseReason,
    open_price: f64,
    close_price: f64,
}
fn view(p: &Position) -> V {
    match p {
        Position::Long(p) => V {
            long: true,
            open: p.open_time.0,
            close: p.close_time.0,
            reason: p.close_reason,
            open_price: p.open_fills[0].price,
            close_price: p.close_fills[0].price,
        },
        Position::Short(p) => V {
            long: false,
            open: p.open_time.0,
            close: p.close_time.0,
            reason: p.close_reason,
            open_price: p.open_fills[0].price,
            close_price: p.close_fills[0].price,
        },
    }
}
fn profit(p: &Position) -> f64 {
    match p {
        Position::Long(p) => p.profit(),
        Position::Short(p) => p.profit(),
    }
}

fn label_positions(c: &mut Case, sum: &TradingSummary) {
    for p in &sum.positions {
        let v = view(p);
        c.label(if v.long { "long" } else { "short" });
        c.label(match v.reason {
            CloseReason::Strategy => "by strategy",
            CloseReason::StopLoss => "by stop loss",
            CloseReason::TakeProfit => "by take profit",
            CloseReason::Cancelled => "cancelled",
        });
    }
    for w in sum.positions.windows(2) {
        if view(&w[0]).close == view(&w[1]).open {
            c.label("reversal");
        }
    }
}

// ---------------------------------------------------------------- T01
fn t01(c: &mut Case) -> Res {
    let s = setup(c, true);
    let sum = run(&s.p, &s.m, &s.cs);
    c.sample(|| describe(&s, &sum));
    label_positions(c, &sum);
    c.nontrivial_if(sum.positions.len() >= 2);
    ensure!(sum.quote == s.m.quote, "starting cash {} reported as {}", s.m.quote, sum.quote);
    if let (Some(f), Some(l)) = (s.cs.first(), s.cs.last()) {
        ensure!(sum.start == f.time, "period start {} is not first candle {}", sum.start.0, f.time.0);
        ensure!(sum.end.0 == l.time.0 + s.iv, "period end {} is not end of last candle {}", sum.end.0, l.time.0 + s.iv);
    } else {
        ensure!(sum.positions.is_empty(), "positions without candles");
        c.label("no candles");
    }
    let ends: HashMap<u64, f64> = s.cs.iter().map(|k| (k.time.0 + s.iv, k.close)).collect();
    let mut prev_close = 0u64;
    let n = sum.positions.len();
    for (i, p) in sum.positions.iter().enumerate() {
        let v = view(p);
        ensure!(v.open >= prev_close, "position {i} opens at {} before previous closes at {prev_close}", v.open);
        ensure!(
            v.close > v.open || (v.close == v.open && v.reason == CloseReason::Cancelled && v.close == sum.end.0),
            "position {i} closes at {} not after open {}",
            v.close,
            v.open
        );
        prev_close = v.close;
        match ends.get(&v.open) {
            Some(&px) => ensure!(px == v.open_price, "position {i} opened at price {} but candle closed at {px}", v.open_price),
            None => fail!("position {i} opens at {} which is not the end of a candle", v.open),
        }
        match ends.get(&v.close) {
            Some(&px) => ensure!(px == v.close_price, "position {i} closed at price {} but candle closed at {px}", v.close_price),
            None => fail!("position {i} closes at {} which is not the end of a candle", v.close),
        }
        if v.reason == CloseReason::Cancelled {
            ensure!(i + 1 == n, "position {i} of {n} is cancelled");
            ensure!(v.close == sum.end.0, "cancelled position closes at {} not at end {}", v.close, sum.end.0);
        }
        let dur = match p {
            Position::Long(p) => p.duration().0,
            Position::Short(p) => p.duration().0,
        };
        ensure!(dur == v.close - v.open, "duration");
    }
    Ok(())
}

// ---------------------------------------------------------------- T02
fn t02(c: &mut Case) -> Res {
    let s = setup(c, true);
    let sum = run(&s.p, &s.m, &s.cs);
    c.sample(|| describe(&s, &sum));
    label_positions(c, &sum);
    c.nontrivial_if(sum.positions.len() >= 2);
    // every trade is made at the close of the candle that just ended
    let close: HashMap<u64, f64> = s.cs.iter().map(|k| (k.time.0 + s.iv, k.close)).collect();
    for (i, p) in sum.positions.iter().enumerate() {
        let v = view(p);
        for (t, px) in [(v.open, v.open_price), (v.close, v.close_price)] {
            if let Some(&want) = close.get(&t) {
                ensure!(px == want, "position {i} trades at {px} at {t}, where the candle closed at {want}");
            }
        }
    }
    check_ledger(c, &s.m, &sum)
}

fn check_ledger(c: &mut Case, m: &Market, sum: &TradingSummary) -> Res {
    let (qp, bp) = (m.filters.quote_precision, m.filters.base_precision);
    let mut cash = m.quote;
    let mut peak = cash.abs();
    for (i, p) in sum.positions.iter().enumerate() {
        let cash_n = near_abs(cash, peak * 1e-14 * (i + 2) as f64);
        let r: Result<f64, String> = (|| match p {
            Position::Long(p) => {
                let (o, k) = (&p.open_fills[0], &p.close_fills[0]);
                let aff = cash_n.div(o.price);
                check_size_down(o.size, &m.filters.size, aff).map_err(|e| format!("opening size: {e}"))?;
                if !(o.size > 0.0) {
                    return Err("opened with zero size".into());
                }
                check_round_down(o.quote, near(o.price * o.size), qp).map_err(|e| format!("opening quote: {e}"))?;
                if o.quote > cash_n.hi {
                    return Err(format!("spent {} of {cash}", o.quote));
                }
                check_half_up(o.fee, near(o.size * m.fees.taker), bp).map_err(|e| format!("opening fee: {e}"))?;
                let held = o.size - o.fee;
                check_size_down(k.size, &m.filters.size, near_abs(held, o.size * 1e-14)).map_err(|e| format!("closing size: {e}"))?;
                check_round_down(k.quote, near(k.price * k.size), qp).map_err(|e| format!("closing quote: {e}"))?;
                check_half_up(k.fee, near(k.quote * m.fees.taker), qp).map_err(|e| format!("closing fee: {e}"))?;
                let pr = k.quote - k.fee - o.quote;
                if !close_abs(p.profit(), pr, 1e-9, peak * 1e-12) {
                    return Err(format!("profit {} but fills say {pr}", p.profit()));
                }
                if !close_abs(p.cost(), o.quote, 1e-12, 0.0) || !close_abs(p.gain(), k.quote - k.fee, 1e-12, 0.0) {
                    return Err("cost or gain disagree with fills".into());
                }
                if !close_abs(p.base_gain(), held, 1e-9, o.size * 1e-12) || p.base_cost() != k.size {
                    return Err("base gain/cost disagree with fills".into());
                }
                Ok(pr)
            }
            Position::Short(p) => {
                let (o, k) = (&p.open_fills[0], &p.close_fills[0]);
                if !(p.collateral >= cash_n.lo && p.collateral <= cash_n.hi) {
                    return Err(format!("collateral {} but cash is {cash}", p.collateral));
                }
                let aff = cash_n.div(o.price);
                if !size_can_be_positive(&m.filters.size, aff) {
                    return Err("short opened although nothing is affordable".into());
                }
                // affordable size under the filter, then leverage, then limit
                let lev = (m.mm - 1) as f64;
                if lev > 0.0 {
                    let limited = close(p.borrowed, m.borrow.limit, 1e-12);
                    let coll = p.borrowed / lev;
                    match check_size_down(coll, &m.filters.size, aff) {
                        Ok(()) if coll > 0.0 => {
                            if p.borrowed > m.borrow.limit * (1.0 + EPS) {
                                return Err(format!("borrowed {} over limit {}", p.borrowed, m.borrow.limit));
                            }
                        }
                        r => {
                            if !limited {
                                return Err(format!("borrowed {}: {}", p.borrowed, r.err().unwrap_or("zero".into())));
                            }
                            // limit applies: what could have been borrowed must reach it
                            let st = if m.filters.size.step > 0.0 { m.filters.size.step } else { 0.0 };
                            let mut max = aff.hi;
                            if m.filters.size.max > 0.0 {
                                max = max.min(m.filters.size.max);
                            }
                            let _ = st;
                            if max * lev < m.borrow.limit * (1.0 - EPS) {
                                return Err(format!("borrowed the limit {} although only {} affordable", p.borrowed, max * lev));
                            }
                        }
                    }
                } else if p.borrowed != 0.0 {
                    return Err("borrowed without leverage".into());
                }
                if o.size != p.borrowed {
                    return Err("sold size differs from borrowed".into());
                }
                check_round_down(o.quote, near(o.price * o.size), qp).map_err(|e| format!("opening quote: {e}"))?;
                check_half_up(o.fee, near(o.quote * m.fees.taker), qp).map_err(|e| format!("opening fee: {e}"))?;
                let dur = p.close_time.0 - p.open_time.0;
                let n = dur / m.borrow.interest_interval + (dur % m.borrow.interest_interval != 0) as u64;
                // the fee rate applies to borrowed + interest; recover interest from size and fee
                let before_fee = k.size - k.fee;
                let interest = before_fee - p.borrowed;
                let exp = p.borrowed * n as f64 * m.borrow.interest_rate;
                let noise = (p.borrowed.abs() + k.size.abs() + exp) * 1e-13;
                // interest recovered with cancellation: snap to grid, then check
                let f = pow10(bp);
                let snapped = (interest * f).round() / f;
                if (snapped - interest).abs() > noise + 1e-7 / f {
                    return Err(format!("interest {interest} is not on the 10^-{bp} grid"));
                }
                let lo = ((exp * (1.0 - EPS)) * f).round() / f - noise;
                let hi = ((exp * (1.0 + EPS)) * f).round() / f + noise;
                if snapped < lo || snapped > hi {
                    return Err(format!("interest {interest}, expected {exp} for {n} intervals"));
                }
                check_half_up(k.fee, near_abs((p.borrowed + interest) * m.fees.taker, noise), bp).map_err(|e| format!("closing fee: {e}"))?;
                check_round_down(k.quote, near(k.price * k.size), qp).map_err(|e| format!("closing quote: {e}"))?;
                let pr = o.quote - o.fee - k.quote;
                let scale = peak.max(o.quote).max(k.quote);
                if !close_abs(p.profit(), pr, 1e-9, scale * 1e-12) {
                    return Err(format!("profit {} but fills say {pr}", p.profit()));
                }
                if p.cost() != p.collateral || !close_abs(p.gain(), p.collateral + pr, 1e-9, scale * 1e-12) {
                    return Err("cost or gain disagree with fills".into());
                }
                if p.base_gain() != p.borrowed || p.base_cost() != p.borrowed {
                    return Err("base gain/cost of a short must be the borrowed amount".into());
                }
                peak = scale;
                Ok(pr)
            }
        })();
        match r {
            Ok(pr) => {
                cash += pr;
                peak = peak.max(cash.abs());
                if cash.abs() > RICH {
                    c.label("wealth beyond judgement");
                    return Ok(());
                }
            }
            Err(e) => fail!("position {i} ({}): {e}", json(p)),
        }
    }
    c.label_if(cash < 0.0, "cash negative at end");
    Ok(())
}

// ---------------------------------------------------------------- T03
fn t03(c: &mut Case) -> Res {
    let s = setup(c, false);
    let sum = run(&s.p, &s.m, &s.cs);
    c.sample(|| describe(&s, &sum));
    label_positions(c, &sum);
    c.nontrivial_if(sum.positions.len() >= 2);
    check_decisions(c, &s, &sum)
}

fn check_decisions(c: &mut Case, s: &Setup, sum: &TradingSummary) -> Res {
    let mut strat = s.p.strategy.construct(&StrategyMeta { interval: Interval(s.iv) });
    let mut sl: Box<dyn StopLoss> = s.p.stop_loss.construct();
    let mut tp: Box<dyn TakeProfit> = s.p.take_profit.construct();
    let mut last_adv = Advice::None; // last non-empty advice
    let mut open: Option<bool> = None; // Some(long?)
    let mut idx = 0usize; // next/current observed position
    let mut cash = s.m.quote;
    let mut peak = cash;
    let mut ended = false;
    for (i, k) in s.cs.iter().enumerate() {
        if ended {
            break;
        }
        sl.update(k);
        tp.update(k);
        strat.update(k);
        let a = strat.advice();
        let turned = if a != Advice::None && a != last_adv {
            last_adv = a;
            Some(a)
        } else {
            None
        };
        let t = k.time.0 + s.iv;
        if let Some(long) = open {
            let against = if long { Advice::Short } else { Advice::Long };
            let reason = if turned == Some(against) || turned == Some(Advice::Liquidate) {
                Some(CloseReason::Strategy)
            } else if if long { sl.upside_hit() } else { sl.downside_hit() } {
                Some(CloseReason::StopLoss)
            } else if if long { tp.upside_hit() } else { tp.downside_hit() } {
                Some(CloseReason::TakeProfit)
            } else {
                None
            };
            let p = &sum.positions[idx];
            let v = view(p);
            let tp_hit = if long { tp.upside_hit() } else { tp.downside_hit() };
            c.label_if(reason == Some(CloseReason::StopLoss) && tp_hit, "both exits hit");
            match reason {
                Some(r) => {
                    ensure!(
                        v.close == t && v.reason == r,
                        "position {idx} should close at candle {i} (t={t}) by {r:?} but closes at {} by {:?}",
                        v.close,
                        v.reason
                    );
                    let pr = profit(p);
                    cash += pr;
                    peak = peak.max(cash.abs());
                    open = None;
                    idx += 1;
                    if cash.abs() > RICH {
                        c.label("wealth beyond judgement");
                        return Ok(());
                    }
                }
                None => ensure!(
                    v.close > t || (v.reason == CloseReason::Cancelled && i + 1 == s.cs.len()),
                    "position {idx} closed at candle {i} (t={t}) by {:?} without reason",
                    v.reason
                ),
            }
        }
        if open.is_none() {
            let want = match turned {
                Some(Advice::Long) if s.m.long => Some(true),
                Some(Advice::Short) if s.m.short => Some(false),
                _ => None,
            };
            let observed = sum.positions.get(idx).map(view).filter(|v| v.open == t);
            match want {
                None => ensure!(observed.is_none(), "position {idx} opened at candle {i} without fresh advice (advice {a:?}, turned {turned:?})"),
                Some(long) => {
                    let aff = near_abs(cash, peak * 1e-13 * (idx + 2) as f64).div(k.close);
                    let zero = size_can_be_zero(&s.m.filters.size, aff);
                    let pos = size_can_be_positive(&s.m.filters.size, aff);
                    match observed {
                        Some(v) => {
                            ensure!(v.long == long, "position {idx} opened in the wrong direction at candle {i}");
                            ensure!(pos, "position {idx} opened although nothing is affordable");
                            open = Some(long);
                            // reference point of both exits is this candle
                            sl.clear(k);
                            tp.clear(k);
                        }
                        None => {
                            ensure!(zero, "advice turned to {} at candle {i} (t={t}) with affordable size {aff:?} but no position opened", if long { "long" } else { "short" });
                            c.label("trading ended for lack of funds");
                            ended = true;
                        }
                    }
                }
            }
        }
    }
    if open.is_some() {
        let v = view(&sum.positions[idx]);
        ensure!(v.reason == CloseReason::Cancelled, "position left open at the end is not cancelled");
        idx += 1;
    }
    ensure!(idx == sum.positions.len(), "{} positions reported, {idx} explained", sum.positions.len());
    Ok(())
}

// ---------------------------------------------------------------- T04
fn pj(p: &Position) -> String {
    json(p)
}

fn t04_prefix(c: &mut Case) -> Res {
    let s = setup(c, false);
    if s.cs.len() < 2 {
        return Err(Fail::Discard);
    }
    let k = c.usize(1, s.cs.len() - 1);
    let full = run(&s.p, &s.m, &s.cs);
    let pre = run(&s.p, &s.m, &s.cs[..k]);
    // also change the suffix: other prices, same grid
    let mut alt = s.cs.clone();
    let f = c.f64(0.2, 5.0);
    for x in &mut alt[k..] {
        x.open *= f;
        x.high *= f;
        x.low *= f;
        x.close *= f;
        x.volume += 1.0;
    }
    if c.bool() {
        let n = c.usize(k, alt.len());
        alt.truncate(n);
    }
    let alt = run(&s.p, &s.m, &alt);
    c.sample(|| format!("cut after {k} candles: {}", describe(&s, &full)));
    c.nontrivial_if(pre.positions.len() >= 2);
    label_positions(c, &pre);
    let end = s.cs[k - 1].time.0 + s.iv;
    for (name, other) in [("full", &full), ("altered", &alt)] {
        let closed_pre: Vec<_> = pre.positions.iter().filter(|p| view(p).reason != CloseReason::Cancelled).map(pj).collect();
        let closed_oth: Vec<_> = other
            .positions
            .iter()
            .filter(|p| view(p).close <= end && view(p).reason != CloseReason::Cancelled)
            .map(pj)
            .collect();
        ensure!(closed_pre == closed_oth, "positions closed within the first {k} candles differ in the {name} history: {closed_pre:?} vs {closed_oth:?}");
        let open_pre = pre.positions.iter().find(|p| view(p).reason == CloseReason::Cancelled);
        let open_oth = other.positions.iter().find(|p| view(p).open <= end && (view(p).close > end || view(p).reason == CloseReason::Cancelled));
        let key = |p: &Position| match p {
            Position::Long(p) => (true, p.open_time.0, json(&p.open_fills), String::new()),
            Position::Short(p) => (false, p.open_time.0, json(&p.open_fills), format!("{} {}", p.collateral, p.borrowed)),
        };
        match (open_pre, open_oth) {
            (None, None) => {}
            // opened on the very last candle of the prefix: force-closed with zero duration is not a position
            (Some(a), Some(b)) => ensure!(key(a) == key(b), "open position differs in the {name} history: {:?} vs {:?}", key(a), key(b)),
            (a, b) => fail!("open position at the cut differs in the {name} history: {:?} vs {:?}", a.map(pj), b.map(pj)),
        }
    }
    Ok(())
}

fn t04_repeat(c: &mut Case) -> Res {
    let s = setup(c, true);
    let a = run(&s.p, &s.m, &s.cs);
    let b = run(&s.p, &s.m, &s.cs);
    c.nontrivial_if(a.positions.len() >= 2);
    c.sample(|| describe(&s, &a));
    ensure!(json(&a) == json(&b), "two runs differ: {} vs {}", json(&a), json(&b));
    // several at once
    if c.chance(1, 40) {
        c.label("concurrent");
        let r: Vec<String> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..3).map(|_| sc.spawn(|| json(&run(&s.p, &s.m, &s.cs)))).collect();
            hs.into_iter().map(|h| h.join().unwrap_or_default()).collect()
        });
        for x in r {
            ensure!(x == json(&a), "concurrent run differs: {x} vs {}", json(&a));
        }
    }
    Ok(())
}

fn t04_shift(c: &mut Case) -> Res {
    let mut s = setup(c, false);
    // with a buffered pipeline now and then
    let buffered = c.chance(1, 4) && INTERVALS.contains(&s.iv);
    if buffered {
        let mult = c.pick(&[2u64, 3, 4]);
        s.p.strategy = juno::strategies::StrategyParams::Sig(sig_params(c, 2, Some(Interval(if s.iv == DAY { WEEK } else { s.iv * mult }))));
        // gap-free: some gap patterns are documented to be rejected by aggregation
        let t0 = s.cs.first().map_or(0, |k| k.time.0);
        for (i, k) in s.cs.iter_mut().enumerate() {
            k.time = Timestamp(t0 + i as u64 * s.iv);
        }
        c.label("buffered");
    }
    let a = run(&s.p, &s.m, &s.cs);
    // by any number of candles, unless windows tie the history to the calendar
    let shift = if buffered || c.chance(1, 3) { 12 * WEEK * c.u64(1, 200) } else { s.iv * c.u64(1, 2000) };
    c.label_if(shift % WEEK != 0, "other day of the week");
    let sh: Vec<Candle> = s.cs.iter().map(|k| Candle { time: Timestamp(k.time.0 + shift), ..*k }).collect();
    let b = run(&s.p, &s.m, &sh);
    c.nontrivial_if(a.positions.len() >= 2);
    c.sample(|| format!("shift {shift}: {}", describe(&s, &a)));
    ensure!(a.positions.len() == b.positions.len(), "shifting by {shift} ms changed the number of positions: {} vs {}", a.positions.len(), b.positions.len());
    if !s.cs.is_empty() {
        ensure!(a.start.0 + shift == b.start.0 && a.end.0 + shift == b.end.0, "period not shifted");
    }
    for (x, y) in a.positions.iter().zip(&b.positions) {
        let mut jx = serde_json::to_value(x).unwrap();
        for f in ["open_time", "close_time"] {
            jx[f] = serde_json::json!(jx[f].as_u64().unwrap() + shift);
        }
        ensure!(jx == serde_json::to_value(y).unwrap(), "shifted position differs: {} vs {}", json(x), json(y));
    }
    Ok(())
}

// ---------------------------------------------------------------- T05
fn evolved_params(c: &mut Case, iv: u64) -> TradingParams {
    let mut rng = c.std_rng();
    let ctx = TradingParamsContext {
        trader: TraderParamsContext { intervals: vec![Interval(iv)] },
        ..Default::default()
    };
    let mut a = TradingParams::generate(&mut rng, &ctx);
    let mut b = TradingParams::generate(&mut rng, &ctx);
    let n = c.usize(0, 6);
    for _ in 0..n {
        let i = c.usize(0, TradingParams::len() - 1);
        if c.bool() {
            a.cross(&mut b, i);
        } else {
            a.mutate(&mut rng, i, &ctx);
        }
    }
    a
}

fn day_prices(c: &mut Case, start: u64, end: u64) -> HashMap<String, Vec<f64>> {
    let n = ((end / DAY).saturating_sub(start / DAY)) as usize + 3;
    let mut m = HashMap::new();
    for a in ["eth", "btc", "usdt"] {
        let flat = c.chance(1, 3);
        let p0 = c.logf(0.01, 50_000.0);
        let mut p = p0;
        m.insert(
            a.to_string(),
            (0..n)
                .map(|_| {
                    if !flat {
                        p = (p * c.f64(0.8, 1.25)).clamp(1e-4, 1e7);
                    }
                    if a == "usdt" { 1.0 } else { p }
                })
                .collect(),
        );
    }
    m
}

fn t05(c: &mut Case) -> Res {
    let iv = interval(c);
    let evolved = c.chance(2, 3);
    let p = if evolved { evolved_params(c, iv) } else { trading_params(c, 4, iv) };
    let max_len = match c.scale {
        Scale::Small => if evolved { c.pick(&[3, 40, 400, 900]) } else { 120 },
        Scale::Large => c.pick(&[2000, 5000]),
        Scale::Marathon => 72_000,
    };
    let cs = candles(c, iv, &CandleOpts { min_len: 0, max_len, gaps: true, wild: c.scale == Scale::Small });
    let mut m = market(c, cs.first().map_or(1.0, |k| k.close));
    // keep sizes payable: a positive size must cost at least one quote unit
    if m.filters.size.step == 0.0 || m.filters.size.min == 0.0 {
        m.filters.size.min = 1e-3;
    }
    m.filters.quote_precision = 8;
    let sum = run(&p, &m, &cs);
    c.sample(|| format!("params={} {} candles {} -> {} positions", json(&p), cs.len(), dump_candles(&cs), sum.positions.len()));
    label_positions(c, &sum);
    c.nontrivial_if(!sum.positions.is_empty() || cs.len() > 50);
    c.label_if(cs.is_empty(), "no candles");
    c.label_if(cs.len() == 1, "one candle");
    if sum.positions.iter().any(|p| profit(p).abs() > RICH) {
        c.label("wealth beyond judgement");
        return Ok(());
    }
    let all = serde_json::to_value(&sum).map_err(|e| Fail::Msg(format!("summary not serializable: {e}")))?;
    ensure!(!has_null(&all), "non-finite amount in {all}");
    let (start, end) = (sum.start.0, sum.end.0);
    let prices = day_prices(c, start, end);
    let st = Statistics::compose(&sum, "eth-btc", &prices, Interval::DAY_MS);
    let v = serde_json::to_value(&st).unwrap();
    for part in ["core", "extended"] {
        for (k, x) in v[part].as_object().unwrap() {
            if k == "annualized_roi" {
                // may overflow over very short periods, but is never undefined
                ensure!(!st.core.annualized_roi.is_nan(), "annualized roi is not a number for roi {}", st.core.roi);
            } else {
                ensure!(!has_null(x), "statistic {part}.{k} is not finite");
            }
        }
    }
    // as an optimizer candidate
    let ex = exchange(&m);
    let mut by_iv = HashMap::new();
    by_iv.insert(Interval(iv), cs.clone());
    let mut candles = HashMap::new();
    candles.insert("eth-btc".to_string(), by_iv);
    let stat = c.pick(&EvaluationStatistic::values());
    let agg = c.pick(&EvaluationAggregation::values());
    let ev = BasicEvaluation::new(&BasicEvaluationInput {
        exchange_info: &ex,
        candles: &candles,
        prices: &prices,
        symbols: &["eth-btc".to_string()],
        intervals: &[Interval(iv)],
        start: Timestamp(start),
        end: Timestamp(end),
        quote: m.quote,
        evaluation_statistic: stat,
        evaluation_aggregation: agg,
    });
    let mut pop = vec![Individual { chromosome: p, fitness: 0.0 }];
    ev.evaluate(&mut pop);
let own = run(&p, &Market { mm: 2, long: true, short: true, ..m }, &cs);
    if own.positions.iter().any(|p| profit(p).abs() > RICH) {
        c.label("wealth beyond judgement");
        return Ok(());
    }
    ensure!(!pop[0].fitness.is_nan(), "fitness ({}, {}) is NaN; statistics {v}, last position {}", json(&stat), json(&agg), own.positions.last().map_or(String::new(), pj));
    Ok(())
}

fn exchange(m: &Market) -> ExchangeInfo {
    let mut ex = ExchangeInfo { assets: HashMap::new(), fees: HashMap::new(), filters: HashMap::new(), borrow_info: HashMap::new() };
    for s in ["eth-btc", "ltc-btc"] {
        ex.fees.insert(s.into(), m.fees);
        ex.filters.insert(s.into(), m.filters);
        ex.borrow_info.insert(s.into(), HashMap::from([(s.base_asset().to_string(), m.borrow)]));
    }
    ex
}

fn has_null(v: &serde_json::Value) -> bool {
    match v {
        serde_json::Value::Null => true,
        serde_json::Value::Array(a) => a.iter().any(has_null),
        serde_json::Value::Object(o) => o.values().any(has_null),
        _ => false,
    }
}

fn main() {
    vharness::engine::main(vec![
        Prop {
            id: "T01",
            rule: "a case is a random trading configuration (9 strategies, 5 stop losses, 4 take profits, small periods) on a random candle history (7 price regimes, gaps) with random market terms; non-trivial when at least two positions result",
            assumptions: &["candles ascend and lie on the interval grid", "borrow interest interval > 0, margin multiplier >= 1"],
            subs: vec![sub("timeline", 1_000_000, 40_000_000, t01), sub("timeline_large", 8000, 300000, |c| large(c, t01)), sub("timeline_marathon", 300, 6000, |c| marathon(c, t01))],
        },
        Prop {
            id: "T02",
            rule: "as T01; every fill of every position is recomputed from the observed inputs of that fill, with the cash carried over by the reference ledger; non-trivial when at least two positions result",
            assumptions: &["products and quotients may be re-associated: results may differ by one rounding unit only where a value is within 1e-12 of a rounding boundary"],
            subs: vec![sub("ledger", 1_500_000, 50_000_000, t02), sub("ledger_large", 8000, 300000, |c| large(c, t02)), sub("ledger_marathon", 300, 6000, |c| marathon(c, t02))],
        },
        Prop {
            id: "T03",
            rule: "as T01 without price regimes beyond 1e6; the reference trader steps the configured strategy, stop loss and take profit objects candle by candle; non-trivial when at least two positions result",
            assumptions: &["strategy, stop loss and take profit objects are themselves decided by G01-G04, S01, S02"],
            subs: vec![sub("decisions", 1_500_000, 50_000_000, t03), sub("decisions_large", 8000, 300000, |c| large(c, t03)), sub("decisions_marathon", 300, 6000, |c| marathon(c, t03))],
        },
        Prop {
            id: "T04",
            rule: "pairs of backtests: history against its prefix and against a changed suffix, the same run repeated and concurrent, the history shifted by whole weeks; non-trivial when the shorter run has at least two positions",
            assumptions: &["shifts are multiples of 12 weeks, a common multiple of all used intervals"],
            subs: vec![
                sub("prefix", 700_000, 25_000_000, t04_prefix), sub("prefix_large", 4000, 150000, |c| large(c, t04_prefix)), sub("prefix_marathon", 100, 2000, |c| marathon(c, t04_prefix)),
                sub("repeat", 150_000, 4_000_000, t04_repeat), sub("repeat_large", 1000, 30000, |c| large(c, t04_repeat)),
                sub("shift", 400_000, 12_000_000, t04_shift), sub("shift_large", 3000, 100000, |c| large(c, t04_shift)), sub("shift_marathon", 60, 1200, |c| marathon(c, t04_shift)),
            ],
        },
        Prop {
            id: "T05",
            rule: "a configuration from the optimizer's own generator plus 0-6 crossovers/mutations (or a small-period one) on a random history of 0-900 candles, then all statistics and the optimizer fitness; non-trivial when there is a position or more than 50 candles",
            assumptions: &["positive finite prices in [1e-4, 1e6]", "a minimum trade size is configured so a position always costs at least one quote unit", "annualized rates may overflow and are not amounts"],
            subs: vec![sub("total", 500_000, 15_000_000, t05), sub("total_large", 3000, 100000, |c| large(c, t05)), sub("total_marathon", 100, 2000, |c| marathon(c, t05))],
        },
    ]);
}
