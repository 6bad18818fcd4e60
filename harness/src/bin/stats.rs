//! A01, A02: statistics.
use juno::{
    math::annualized,
    statistics::*,
    trading::{trade, CloseReason, LongPosition, Position, ShortPosition, TradeInput, TradingSummary},
    filters::{Price, Size},
    AssetInfo, BorrowInfo, Candle, CandleType, ExchangeInfo, Fees, Fill, Filters, Interval, Timestamp,
};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::collections::HashMap;
use vharness::{
    engine::{large, marathon, quiet, sub, Case, Fail, Prop, Res, Scale},
    ensure,
    gens::*,
    models::{close, close_abs},
    perf::{reference, times},
};

const YEAR: f64 = 31_556_952_000.0; // 365.2425 days

fn cost_of(p: &Position) -> f64 {
    match p {
        Position::Long(p) => p.open_fills[0].quote,
        Position::Short(p) => p.collateral,
    }
}
fn gain_of(p: &Position) -> f64 {
    match p {
        Position::Long(p) => p.close_fills[0].quote - p.close_fills[0].fee,
        Position::Short(p) => p.collateral + p.open_fills[0].quote - p.open_fills[0].fee - p.close_fills[0].quote,
    }
}
fn reason(p: &Position) -> CloseReason {
    match p {
        Position::Long(p) => p.close_reason,
        Position::Short(p) => p.close_reason,
    }
}
/// Size of the amounts a position's profit is the difference of.
fn scale(p: &Position) -> f64 {
    match p {
        Position::Long(p) => p.open_fills[0].quote.abs() + p.close_fills[0].quote.abs(),
        Position::Short(p) => p.collateral.abs() + p.open_fills[0].quote.abs() + p.close_fills[0].quote.abs(),
    }
}

/// A sequence of positions, hand-made or from a backtest.
fn summary(c: &mut Case) -> TradingSummary {
    if c.chance(1, 4) {
        c.label("from a backtest");
        let iv = c.pick(&[HOUR, 4 * HOUR, DAY]);
        let p = trading_params(c, 4, iv);
        let cs = candles(c, iv, &CandleOpts { min_len: 0, max_len: if c.scale == Scale::Small { 150 } else { 4000 }, gaps: true, wild: false });
        let mut m = market(c, cs.first().map_or(1.0, |k| k.close));
        if m.filters.size.step == 0.0 || m.filters.size.min == 0.0 {
            m.filters.size.min = 1e-3;
        }
        m.filters.quote_precision = 8;
        return trade(
            &p,
            &TradeInput {
                candles: &cs,
                fees: &m.fees,
                filters: &m.filters,
                borrow_info: &m.borrow,
                margin_multiplier: m.mm,
                quote: m.quote,
                long: m.long,
                short: m.short,
            },
        );
    }
    let dyadic = c.bool();
    let unit = c.pick(&[HOUR, DAY, 4 * HOUR, 60_000, 1]);
    let start = c.draw(20_000) * DAY / 2 + c.draw(1) * c.draw(DAY);
    let quote = if dyadic { c.pick(&[1.0, 1024.0, 100.0]) } else { c.logf(0.01, 1e6) };
    let n = c.weighted(&[1, 2, 2, 2, 1, 1, 1]);
    let n = match c.scale {
        Scale::Small if n == 6 => c.usize(6, 30),
        Scale::Small => n,
        Scale::Large => c.len(0, 1500),
        Scale::Marathon => c.len(0, 70_000),
    };
    // long histories move slowly, so that the account lives through them
    let slow = c.scale != Scale::Small;
    let most = if slow { c.pick(&[1, 4, 40]) } else { 40 };
    let mut t = start;
    let mut cash = quote;
    let level = c.pick(&[0.25, 1.0, 64.0]);
    let mut positions = vec![];
    let part = |c: &mut Case| if dyadic { (1 + c.draw(15)) as f64 / 16.0 } else { c.f64(0.01, 1.0) };
    for _ in 0..n {
        t += c.draw(most) * unit;
        let open = t;
        t += c.draw(most) * unit;
        let size = if dyadic { (1 + c.draw(63)) as f64 / 8.0 } else { c.logf(1e-3, 1e4) };
        let reason = c.pick(&[CloseReason::Strategy, CloseReason::StopLoss, CloseReason::TakeProfit, CloseReason::Cancelled]);
        let cost = cash * part(c);
        let size = if slow { cost / (level * if dyadic { 1.0 } else { c.f64(0.9, 1.1) }) } else { size };
        // profit factor; 1 means break even
        let f = match c.weighted(&[4, 2, 1]) {
            _ if slow && dyadic => (64 - 2 + c.draw(4)) as f64 / 64.0,
            _ if slow => c.f64(0.98, 1.02),
            0 if dyadic => (8 + c.draw(16)) as f64 / 16.0,
            0 => c.f64(0.5, 1.5),
            1 => c.pick(&[1.0, 0.5, 2.0, 1.25]),
            _ => c.f64(0.01, 3.0),
        };
        let fill = |size: f64, quote: f64, fee: f64| Fill { price: quote / size, size, quote, fee };
        let p = if c.bool() {
            let fee_open = if c.bool() { size / 64.0 } else { 0.0 };
            let gross = cost * f;
            let fee = if c.bool() && !(slow && dyadic) { gross / if slow { 1024.0 } else { 32.0 } } else { 0.0 };
            Position::Long(LongPosition {
                open_time: Timestamp(open),
                open_fills: [fill(size, cost, fee_open)],
                close_time: Timestamp(t),
                close_fills: [fill(size - fee_open, gross, fee)],
                close_reason: reason,
            })
        } else {
            // the short sells borrowed base worth up to the collateral
            let gross = cost * part(c);
            let fee = if c.bool() && !(slow && dyadic) { gross / if slow { 1024.0 } else { 32.0 } } else { 0.0 };
            let back = (gross * (2.0 - f)).max(gross / 16.0);
            Position::Short(ShortPosition {
                open_time: Timestamp(open),
                collateral: cost,
                borrowed: size,
                open_fills: [fill(size, gross, fee)],
                close_time: Timestamp(t),
                close_fills: [fill(size * 1.03125, back, 0.0)],
                close_reason: reason,
            })
        };
        cash += gain_of(&p) - cost_of(&p);
        positions.push(p);
        if cash <= 1e-9 * quote {
            break;
        }
    }
    let end = t + c.draw(40) * unit;
    let mut s = TradingSummary::new(Timestamp(start), Timestamp(end), quote);
    s.positions = positions;
    s
}

fn check_annualized(got: f64, duration: u64, roi: f64, what: &str) -> Result<(), String> {
    let n = duration as f64 / YEAR;
    if n == 0.0 {
        return if got == 0.0 { Ok(()) } else { Err(format!("{what} over no time is {got}")) };
    }
    if (1.0 + roi).abs() < 1e-9 {
        return Ok(()); // total loss to within rounding
    }
    if roi < -1.0 {
        // an even power of a negative number is defined; anything else counts as zero
        let e = 1.0 / n;
        if e.fract() == 0.0 || (e - e.round()).abs() < 1e-6 {
            return Ok(());
        }
        return if got == 0.0 { Ok(()) } else { Err(format!("{what} for roi {roi} is {got}")) };
    }
    let want = (roi.ln_1p() / n).exp() - 1.0;
    let tol = 1e-9 + 2e-15 / n * (1.0 + 1.0 / (1.0 + roi));
    if got == want || (got > 1e300 && want > 1e300) || close_abs(got, want, tol, tol * (1.0 + want.abs())) {
        Ok(())
    } else {
        Err(format!("{what} is {got}, but {roi} over {n} years is {want}"))
    }
}

fn describe(s: &TradingSummary) -> String {
    serde_json::to_string(s).unwrap()
}

/// Whether sums of the position's amounts are exact in any order.
fn exact(p: &Position) -> bool {
    let ok = |x: f64| x.abs() < 1e6 && (x * 1048576.0).fract() == 0.0;
    let fills = |f: &Fill| ok(f.quote) && ok(f.fee);
    match p {
        Position::Long(p) => fills(&p.open_fills[0]) && fills(&p.close_fills[0]),
        Position::Short(p) => ok(p.collateral) && fills(&p.open_fills[0]) && fills(&p.close_fills[0]),
    }
}

/// Compounded beyond amounts whose sums and products still fit.
fn rich(s: &TradingSummary) -> bool {
    s.positions.iter().any(|p| scale(p).is_nan() || scale(p) > 1e100)
}

fn a01(c: &mut Case) -> Res {
    let s = summary(c);
    c.sample(|| describe(&s));
    let n = s.positions.len();
    c.nontrivial_if(n >= 2);
    c.label_if(n == 0, "no positions");
    if rich(&s) {
        return Err(Fail::Discard);
    }
    let st = quiet(|| CoreStatistics::compose(&s))?;
    let mut profit = 0.0;
    let mut mag = s.quote.abs();
    let (mut win, mut loss, mut sl, mut tp) = (0u32, 0u32, 0u32, 0u32);
    let mut doubtful = false;
    let mut total = 0u64;
    let mut cash = vec![s.quote];
    for p in &s.positions {
        let x = gain_of(p) - cost_of(p);
        profit += x;
        mag += scale(p);
        if x.abs() < 1e-12 * scale(p) && !exact(p) {
            doubtful = true;
        }
        if x >= 0.0 {
            win += 1
        } else {
            loss += 1
        }
        match reason(p) {
            CloseReason::StopLoss => sl += 1,
            CloseReason::TakeProfit => tp += 1,
            _ => {}
        }
        let (o, k) = times(p);
        total += k - o;
        cash.push(cash.last().unwrap() + x);
    }
    c.label_if(win > 0 && loss > 0, "wins and losses");
    let tol = 1e-12 * mag;
    ensure!(st.start == s.start && st.end == s.end, "period");
    ensure!(st.duration.0 == s.end.0 - s.start.0, "duration {}", st.duration.0);
    ensure!(st.cost == s.quote, "cost {} of {}", st.cost, s.quote);
    ensure!(close_abs(st.profit, profit, 1e-12, tol), "profit {} instead of {profit}", st.profit);
    ensure!(close_abs(st.gain, s.quote + profit, 1e-12, tol), "gain {} instead of {}", st.gain, s.quote + profit);
    ensure!(close_abs(st.roi, profit / s.quote, 1e-11, tol / s.quote), "roi {} instead of {}", st.roi, profit / s.quote);
    check_annualized(st.annualized_roi, st.duration.0, st.roi, "annualized roi")?;
    ensure!(st.num_positions as usize == n, "{} positions counted of {n}", st.num_positions);
    if !doubtful {
        ensure!(st.num_positions_in_profit == win && st.num_positions_in_loss == loss, "{} wins, {} losses instead of {win}, {loss}", st.num_positions_in_profit, st.num_positions_in_loss);
    }
    ensure!(st.num_positions_in_profit + st.num_positions_in_loss == n as u32, "wins and losses do not add up");
    ensure!(st.num_stop_losses == sl && st.num_take_profits == tp, "{} stop losses, {} take profits instead of {sl}, {tp}", st.num_stop_losses, st.num_take_profits);
    let (mean_profit, mean_duration) = if n == 0 { (0.0, 0) } else { (profit / n as f64, total / n as u64) };
    ensure!(close_abs(st.mean_position_profit, mean_profit, 1e-12, tol), "mean position profit {} instead of {mean_profit}", st.mean_position_profit);
    ensure!(st.mean_position_duration.0.abs_diff(mean_duration) <= 1, "mean position duration {} instead of {mean_duration}", st.mean_position_duration.0);
    // drawdowns from the whole cash history
    let mut dd = vec![];
    let mut top = cash[0];
    for x in &cash[1..] {
        top = top.max(*x);
        dd.push((top - x) / top);
    }
    let max_dd = dd.iter().copied().fold(0.0, f64::max);
    let mean_dd = if n == 0 { 0.0 } else { dd.iter().sum::<f64>() / n as f64 };
    let dtol = 4.0 * tol / s.quote;
    ensure!(close_abs(st.max_drawdown, max_dd, 1e-11, dtol), "max drawdown {} instead of {max_dd}", st.max_drawdown);
    ensure!(close_abs(st.mean_drawdown, mean_dd, 1e-11, dtol), "mean drawdown {} instead of {mean_dd}", st.mean_drawdown);
    let ratio = if max_dd == 0.0 { 0.0 } else { profit / s.quote / max_dd };
    if max_dd == 0.0 || max_dd > 1e6 * dtol {
        c.label_if(max_dd > 0.0, "drawdown");
        ensure!(close_abs(st.return_over_max_drawdown, ratio, 1e-5, 2.0 * tol / s.quote / max_dd.max(1e-300)) || (max_dd == 0.0 && st.max_drawdown != 0.0), "return over max drawdown {} instead of {ratio}", st.return_over_max_drawdown);
        if max_dd > 0.0 {
            let tight = 1e-9 + 4.0 * dtol / max_dd;
            ensure!(close_abs(st.return_over_max_drawdown, ratio, tight, 2.0 * tol / s.quote / max_dd), "return over max drawdown {} instead of {ratio}", st.return_over_max_drawdown);
        }
        let q = get_return_over_max_drawdown(&s);
        ensure!(close(q, st.return_over_max_drawdown, 1e-9), "quick return over max drawdown {q} against {}", st.return_over_max_drawdown);
    }
    ensure!(st.return_over_max_drawdown.is_finite() && st.max_drawdown.is_finite(), "not finite");
    let q = get_profit(&s);
    ensure!(close_abs(q, st.profit, 1e-12, tol), "quick profit {q} against {}", st.profit);
    if n == 0 {
        ensure!(
            st.profit == 0.0 && st.roi == 0.0 && st.annualized_roi == 0.0 && st.mean_position_profit == 0.0 && st.max_drawdown == 0.0 && st.mean_drawdown == 0.0 && st.return_over_max_drawdown == 0.0 && st.gain == s.quote && q == 0.0,
            "statistics without positions are not neutral: {st:?}"
        );
    }
    Ok(())
}

fn a01_positions(c: &mut Case) -> Res {
    let s = summary(c);
    c.sample(|| describe(&s));
    c.nontrivial_if(!s.positions.is_empty());
    if rich(&s) {
        return Err(Fail::Discard);
    }
    for p in &s.positions {
        let st = quiet(|| PositionStatistics::compose(p))?;
        let (cost, gain) = (cost_of(p), gain_of(p));
        let tol = 1e-12 * scale(p);
        let (o, k) = times(p);
        ensure!(matches!((p, &st.type_), (Position::Long(_), PositionType::Long) | (Position::Short(_), PositionType::Short)), "position type");
        ensure!(st.open_time.0 == o && st.close_time.0 == k && st.duration.0 == k - o, "times {} {} {}", st.open_time.0, st.close_time.0, st.duration.0);
        ensure!(st.close_reason == reason(p), "close reason {:?}", st.close_reason);
        ensure!(close(st.cost, cost, 1e-12), "cost {} instead of {cost}", st.cost);
        ensure!(close_abs(st.gain, gain, 1e-12, tol), "gain {} instead of {gain}", st.gain);
        ensure!(close_abs(st.profit, gain - cost, 1e-12, tol), "profit {} instead of {}", st.profit, gain - cost);
        if cost == 0.0 {
            // filled for a quote rounded down to nothing: there is no return on no investment
            c.label("free position");
            continue;
        }
        ensure!(close_abs(st.roi, (gain - cost) / cost, 1e-11, tol / cost), "roi {} instead of {}", st.roi, (gain - cost) / cost);
        check_annualized(st.annualized_roi, k - o, st.roi, "annualized roi")?;
        ensure!(st.annualized_roi == annualized(k - o, st.roi) || close(st.annualized_roi, annualized(k - o, st.roi), 1e-9), "annualized roi differs from the helper");
    }
    // and the report lists exactly these
    let mut prices = HashMap::new();
    let len = ((s.end.0 / DAY).saturating_sub(s.start.0 / DAY)) as usize + 2;
    for a in ["eth", "btc"] {
        prices.insert(a.to_string(), vec![1.0; len]);
    }
    let r = quiet(|| Statistics::compose(&s, "eth-btc", &prices, Interval::DAY_MS))?;
    ensure!(r.positions.len() == s.positions.len(), "report lists {} of {} positions", r.positions.len(), s.positions.len());
    for (a, p) in r.positions.iter().zip(&s.positions) {
        let b = PositionStatistics::compose(p);
        ensure!(serde_json::to_string(a).unwrap() == serde_json::to_string(&b).unwrap(), "report lists another position");
    }
    ensure!(format!("{:?}", r.core) == format!("{:?}", CoreStatistics::compose(&s)), "report's core statistics differ");
    Ok(())
}

fn a02(c: &mut Case) -> Res {
    let s = summary(c);
    let iv = c.pick(&[DAY, DAY, DAY, HOUR * 8, HOUR]);
    let (start, end) = (s.start.0 / iv * iv, s.end.0 / iv * iv);
    let n = ((end - start) / iv) as usize;
    if rich(&s) || n > if c.scale == Scale::Small { 3000 } else { 12_000 } {
        return Err(Fail::Discard);
    }
    let style = c.weighted(&[3, 1, 1]);
    let table = |c: &mut Case, flat: bool, p0: f64| -> Vec<f64> {
        let mut p = p0;
        let mut seg = 0;
        (0..=n)
            .map(|_| {
                if !flat {
                    if seg == 0 {
                        seg = if n > 200 { c.usize(1, 40) } else { 1 };
                    }
                    seg -= 1;
                    if seg == 0 {
                        p = match style {
                            // long tables stay around the prices of the trades
                            0 if c.scale != Scale::Small => p0 * c.f64(0.8, 1.25),
                            1 if c.scale != Scale::Small => p0 * c.pick(&[0.75, 1.0, 1.25]),
                            0 => (p * c.f64(0.8, 1.25)).clamp(1e-6, 1e7),
                            1 => c.pick(&[0.5, 1.0, 2.0, 4.0]),
                            _ => (p * c.pick(&[1.0, 1.0, 1.01, 0.99])).clamp(1e-6, 1e7),
                        };
                    }
                }
                p
            })
            .collect()
    };
    // base prices in the range of the trades, so holdings matter
    let p0 = s.positions.first().map_or(1.0, |p| match p {
        Position::Long(p) => p.open_fills[0].price,
        Position::Short(p) => p.open_fills[0].price,
    });
    let flat = c.chance(1, 5);
    let base = table(c, flat, p0);
    let flatq = c.chance(1, 2);
    let quote = table(c, flatq, 1.0);
    c.sample(|| format!("interval={iv} base={:?} quote={:?} {}", &base[..base.len().min(8)], &quote[..quote.len().min(8)], describe(&s)));
    let prices = HashMap::from([("eth".to_string(), base.clone()), ("btc".to_string(), quote.clone())]);
    let interval = Interval(iv);
    let st = quiet(|| ExtendedStatistics::compose(&s, "eth-btc", &prices, interval))?;
    let qs = quiet(|| get_sharpe_ratio(&s, "eth-btc", &prices, interval))?;
    let qo = quiet(|| get_sortino_ratio(&s, "eth-btc", &prices, interval))?;
    for (x, k) in [(st.annualized_return, "annualized return"), (st.sharpe_ratio, "Sharpe ratio"), (st.sortino_ratio, "Sortino ratio"), (qs, "quick Sharpe ratio"), (qo, "quick Sortino ratio")] {
        ensure!(x.is_finite(), "{k} is {x}");
    }
    let r = reference(&s, &base, &quote, iv);
    c.label_if(r.undefined && r.periods > 0, "portfolio wiped out");
    c.label_if(r.periods == 0, "no full period");
    c.label_if(s.positions.iter().any(|p| matches!(p, Position::Short(_))), "shorts");
    c.label_if(r.losing >= 2, "several losing periods");
    c.nontrivial_if(r.periods >= 3 && !s.positions.is_empty() && r.sd > 1e-6);
    if r.zero || (r.undefined && !r.doubtful_sign) {
        ensure!(st.annualized_return == 0.0, "annualized return {} although undefined or unchanged", st.annualized_return);
        ensure!(st.sharpe_ratio == 0.0 && qs == 0.0 && st.sortino_ratio == 0.0 && qo == 0.0, "ratios {} {qs} {} {qo} although undefined", st.sharpe_ratio, st.sortino_ratio);
        return Ok(());
    }
    if r.undefined {
        return Ok(());
    }
    ensure!(close_abs(st.annualized_return, r.annual, 1e-9, 365.0 * 4.0 * r.noise), "annualized return {} instead of {}", st.annualized_return, r.annual);
    // ratios where neither return nor risk drown in rounding noise
    let rel = |risk: f64| 1e-9 + 40.0 * r.noise / risk;
    let abs = |risk: f64| 365.0 * 8.0 * r.noise / risk / 19.0;
    if r.sd > 1e3 * r.noise {
        for (x, k) in [(st.sharpe_ratio, "Sharpe ratio"), (qs, "quick Sharpe ratio")] {
            ensure!(close_abs(x, r.sharpe, rel(r.sd), abs(r.sd)), "{k} {x} instead of {}", r.sharpe);
        }
    }
    if !r.doubtful_sign {
        if r.losing < 2 {
            c.label("at most one losing period");
            ensure!(st.sortino_ratio == 0.0 && qo == 0.0, "Sortino ratio {} {qo} with {} losing periods", st.sortino_ratio, r.losing);
        } else if r.nsd > 1e3 * r.noise {
            c.label("Sortino ratio judged");
            for (x, k) in [(st.sortino_ratio, "Sortino ratio"), (qo, "quick Sortino ratio")] {
                ensure!(close_abs(x, r.sortino, rel(r.nsd), abs(r.nsd)), "{k} {x} instead of {}", r.sortino);
            }
        }
    }
    Ok(())
}

fn a01_large(c: &mut Case) -> Res {
    large(c, a01)
}
fn a01_marathon(c: &mut Case) -> Res {
    marathon(c, a01)
}
fn a01_positions_large(c: &mut Case) -> Res {
    large(c, a01_positions)
}
fn a02_large(c: &mut Case) -> Res {
    large(c, a02)
}

/// Exact equality of JSON values: amounts to the last bit.
fn same(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Number(x), Value::Number(y)) => match (x.as_u64(), y.as_u64()) {
            (Some(x), Some(y)) => x == y,
            _ => x.as_f64().map(f64::to_bits) == y.as_f64().map(f64::to_bits) || x.as_f64() == Some(0.0) && y.as_f64() == Some(0.0),
        },
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(x, y)| same(x, y)),
        (Value::Object(x), Value::Object(y)) => x.len() == y.len() && x.iter().all(|(k, v)| y.get(k).map_or(false, |w| same(v, w))),
        _ => a == b,
    }
}
fn fill_value(f: &Fill) -> Value {
    json!({"price": f.price, "size": f.size, "quote": f.quote, "fee": f.fee})
}
fn reason_name(r: CloseReason) -> &'static str {
    match r {
        CloseReason::Strategy => "Strategy",
        CloseReason::StopLoss => "StopLoss",
        CloseReason::TakeProfit => "TakeProfit",
        CloseReason::Cancelled => "Cancelled",
    }
}
/// What a summary looks like in JSON.
fn summary_value(s: &TradingSummary) -> Value {
    let ps: Vec<Value> = s
        .positions
        .iter()
        .map(|p| match p {
            Position::Long(p) => json!({"type": "Long", "open_time": p.open_time.0, "open_fills": [fill_value(&p.open_fills[0])],
                "close_time": p.close_time.0, "close_fills": [fill_value(&p.close_fills[0])], "close_reason": reason_name(p.close_reason)}),
            Position::Short(p) => json!({"type": "Short", "open_time": p.open_time.0, "collateral": p.collateral, "borrowed": p.borrowed,
                "open_fills": [fill_value(&p.open_fills[0])], "close_time": p.close_time.0, "close_fills": [fill_value(&p.close_fills[0])],
                "close_reason": reason_name(p.close_reason)}),
        })
        .collect();
    json!({"positions": ps, "start": s.start.0, "end": s.end.0, "quote": s.quote})
}
fn core_value(s: &CoreStatistics) -> Value {
    json!({"start": s.start.0, "end": s.end.0, "duration": s.duration.0, "cost": s.cost, "gain": s.gain, "profit": s.profit, "roi": s.roi,
        "annualized_roi": s.annualized_roi, "mean_position_profit": s.mean_position_profit, "mean_position_duration": s.mean_position_duration.0,
        "return_over_max_drawdown": s.return_over_max_drawdown, "max_drawdown": s.max_drawdown, "mean_drawdown": s.mean_drawdown,
        "num_positions": s.num_positions, "num_positions_in_profit": s.num_positions_in_profit, "num_positions_in_loss": s.num_positions_in_loss,
        "num_stop_losses": s.num_stop_losses, "num_take_profits": s.num_take_profits})
}
fn position_value(s: &PositionStatistics) -> Value {
    json!({"type": match s.type_ { PositionType::Long => "Long", PositionType::Short => "Short" }, "open_time": s.open_time.0, "close_time": s.close_time.0,
        "cost": s.cost, "gain": s.gain, "profit": s.profit, "duration": s.duration.0, "roi": s.roi, "annualized_roi": s.annualized_roi,
        "close_reason": reason_name(s.close_reason)})
}
/// Drops one field somewhere in the value; returns its name.
fn drop_field(c: &mut Case, v: &mut Value) -> Option<String> {
    match v {
        Value::Array(xs) if !xs.is_empty() => {
            let i = c.usize(0, xs.len() - 1);
            drop_field(c, &mut xs[i])
        }
        Value::Object(o) if !o.is_empty() => {
            let names: Vec<String> = o.keys().cloned().collect();
            let k = c.pick(&names);
            if c.bool() {
                if let Some(n) = drop_field(c, &mut o[&k]) {
                    return Some(n);
                }
            }
            o.remove(&k);
            Some(k)
        }
        _ => None,
    }
}
/// Adds a field nobody knows to every object.
fn add_unknown(v: &mut Value, maps: bool) {
    match v {
        Value::Array(xs) => xs.iter_mut().for_each(|x| add_unknown(x, true)),
        Value::Object(o) => {
            o.values_mut().for_each(|x| add_unknown(x, true));
            if maps {
                o.insert("zzz_later_addition".into(), json!({"x": [1, null, "y"]}));
            }
        }
        _ => {}
    }
}
fn numbers_close(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Number(x), Value::Number(y)) => close(x.as_f64().unwrap(), y.as_f64().unwrap(), 1e-15),
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(x, y)| numbers_close(x, y)),
        (Value::Object(x), Value::Object(y)) => x.len() == y.len() && x.iter().all(|(k, v)| y.get(k).map_or(false, |w| numbers_close(v, w))),
        _ => a == b,
    }
}
fn finite(v: &Value) -> bool {
    match v {
        Value::Null => false,
        Value::Array(x) => x.iter().all(finite),
        Value::Object(x) => x.values().all(finite),
        _ => true,
    }
}
/// `x` is written as `want`, reads back from it (also as text, and with fields of later versions added) and needs every field.
fn round_trip<T: Serialize + DeserializeOwned>(c: &mut Case, x: &T, want: &Value, k: &str) -> Res {
    let v = quiet(|| serde_json::to_value(x))?.map_err(|e| Fail::from(format!("{k} cannot be written: {e}")))?;
    ensure!(same(&v, want), "{k} is written as {v} instead of {want}");
    if !finite(want) {
        c.label("not a number somewhere");
        return Ok(());
    }
    let read = |v: &Value| quiet(|| serde_json::from_value::<T>(v.clone()));
    let y = read(want)?.map_err(|e| Fail::from(format!("{k} {want} is rejected: {e}")))?;
    let w = serde_json::to_value(&y).unwrap();
    ensure!(same(&w, want), "{k} {want} is read as {w}");
    let mut more = want.clone();
    add_unknown(&mut more, true);
    let y = read(&more)?.map_err(|e| Fail::from(format!("{k} with unknown fields {more} is rejected: {e}")))?;
    let w = serde_json::to_value(&y).unwrap();
    ensure!(same(&w, want), "{k} {want} with unknown fields is read as {w}");
    let text = if c.bool() { serde_json::to_string(x).unwrap() } else { serde_json::to_string_pretty(x).unwrap() };
    let y: T = quiet(|| serde_json::from_str(&text))?.map_err(|e| Fail::from(format!("{k} {text} is rejected: {e}")))?;
    let w = serde_json::to_value(&y).unwrap();
    ensure!(numbers_close(&w, want), "{k} {text} is read as {w}");
    let mut less = want.clone();
    if let Some(f) = drop_field(c, &mut less) {
        ensure!(read(&less)?.is_err(), "{k} without {f} is accepted: {less}");
    }
    Ok(())
}

/// A value of closed set `k` with no such name is rejected, and reads as no known one.
fn unknown_name<T: DeserializeOwned>(c: &mut Case, v: &Value, path: &[&str]) -> Res {
    let mut bad = v.clone();
    let mut x = &mut bad;
    for p in path {
        x = &mut x[*p];
    }
    let name = x.as_str().unwrap_or("").to_string();
    let n = match c.draw(7) {
        0 => name.to_uppercase() + "_",
        1 => format!("{name}s"),
        2 => "Unknown".into(),
        3 => String::new(),
        4 => "Other".into(),
        5 => format!(" {name}"),
        6 => "Margin".into(),
        _ => name[..name.len().saturating_sub(1)].to_string(),
    };
    *x = json!(n);
    let r = quiet(|| serde_json::from_value::<T>(bad.clone()).is_ok())?;
    ensure!(!r, "{n:?} is accepted as {} in {bad}", path.join("/"));
    Ok(())
}

fn a03_results(c: &mut Case) -> Res {
    let s = summary(c);
    c.sample(|| describe(&s));
    c.nontrivial_if(!s.positions.is_empty());
    let want = summary_value(&s);
    round_trip(c, &s, &want, "summary")?;
    let st = quiet(|| CoreStatistics::compose(&s))?;
    round_trip(c, &st, &core_value(&st), "core statistics")?;
    for p in &s.positions {
        let ps = quiet(|| PositionStatistics::compose(p))?;
        let v = position_value(&ps);
        round_trip(c, &ps, &v, "position statistics")?;
        if finite(&v) {
            unknown_name::<PositionStatistics>(c, &v, &["type"])?;
            unknown_name::<PositionStatistics>(c, &v, &["close_reason"])?;
        }
        let v = match p {
            Position::Long(_) => "Long",
            Position::Short(_) => "Short",
        };
        c.label(v);
    }
    if finite(&want) {
        if let Some(i) = s.positions.len().checked_sub(1).map(|n| c.usize(0, n)) {
            unknown_name::<Position>(c, &want["positions"][i], &["type"])?;
            unknown_name::<Position>(c, &want["positions"][i], &["close_reason"])?;
        }
        let back: TradingSummary = serde_json::from_value(want).unwrap();
        let again = quiet(|| CoreStatistics::compose(&back))?;
        ensure!(same(&core_value(&again), &core_value(&st)), "the statistics of the summary read back are {:?} instead of {st:?}", again);
    }
    Ok(())
}

fn a03_market(c: &mut Case) -> Res {
    let num = |c: &mut Case| match c.draw(4) {
        0 => c.draw(1000) as f64,
        1 => c.logf(1e-9, 1e9),
        2 => 0.0,
        3 => c.logf(1e-3, 1e3),
        _ => f64::from_bits((1 + c.draw(2045)) << 52 | c.draw((1 << 52) - 1)),
    };
    let t = match c.draw(2) {
        0 => c.draw(100_000) * 60_000,
        1 => c.draw(253_402_300_799_999),
        _ => c.draw(10),
    };
    let k = Candle { time: Timestamp(t), open: num(c), high: num(c), low: num(c), close: num(c), volume: num(c) };
    c.sample(|| format!("{k:?}"));
    c.nontrivial_if(t > 0 && k.open != k.close);
    let want = json!({"time": t, "open": k.open, "high": k.high, "low": k.low, "close": k.close, "volume": k.volume});
    round_trip(c, &k, &want, "candle")?;
    // times may be text as well
    let mut v = want.clone();
    v["time"] = json!(k.time.to_string());
    let y: Candle = quiet(|| serde_json::from_value(v.clone()))?.map_err(|e| Fail::from(format!("candle {v} is rejected: {e}")))?;
    ensure!(y == k, "candle {v} is read as {y:?}");
    let list = vec![Some(k), None, Some(k)];
    let v = json!([want, null, want]);
    let y: Vec<Option<Candle>> = quiet(|| serde_json::from_value(v.clone()))?.map_err(|e| Fail::from(format!("candles {v} are rejected: {e}")))?;
    ensure!(y == list, "candles {v} are read as {y:?}");
    for (t, name) in [(CandleType::Regular, "regular"), (CandleType::HeikinAshi, "heikin-ashi")] {
        ensure!(t.as_ref() == name && serde_json::to_value(&t).unwrap() == json!(name), "candle type {name} is called {:?} {:?}", t.as_ref(), serde_json::to_value(&t));
        let y: CandleType = quiet(|| serde_json::from_value(json!(name)))?.map_err(|e| Fail::from(format!("candle type {name}: {e}")))?;
        ensure!(y.as_ref() == name, "candle type {name} is read as {y:?}");
        unknown_name::<CandleType>(c, &json!({ "type": name })["type"], &[])?;
    }

    let name = |c: &mut Case| {
        let n = c.usize(1, 6);
        (0..n).map(|_| (b'a' + c.draw(25) as u8) as char).collect::<String>()
    };
    let pf = |c: &mut Case| Price { min: num(c), max: num(c), step: num(c) };
    let sf = |c: &mut Case| Size { min: num(c), max: num(c), step: num(c) };
    let mut ex = ExchangeInfo { assets: HashMap::new(), fees: HashMap::new(), filters: HashMap::new(), borrow_info: HashMap::new() };
    let mut want = json!({"assets": {}, "fees": {}, "filters": {}, "borrow_info": {}});
    for _ in 0..c.usize(0, 4) {
        let a = name(c);
        let precision = c.u32(0, 18);
        ex.assets.insert(a.clone(), AssetInfo { precision });
        want["assets"][&a] = json!({"precision": precision});
        let s = format!("{}-{}", name(c), a);
        let f = Fees { maker: num(c), taker: num(c) };
        ex.fees.insert(s.clone(), f);
        want["fees"][&s] = json!({"maker": f.maker, "taker": f.taker});
        round_trip(c, &f, &want["fees"][&s], "fees")?;
        let f = Filters { price: pf(c), size: sf(c), base_precision: c.u32(0, 18), quote_precision: c.u32(0, 18) };
        ex.filters.insert(s.clone(), f);
        want["filters"][&s] = json!({"price": {"min": f.price.min, "max": f.price.max, "step": f.price.step},
            "size": {"min": f.size.min, "max": f.size.max, "step": f.size.step}, "base_precision": f.base_precision, "quote_precision": f.quote_precision});
        round_trip(c, &f, &want["filters"][&s], "filters")?;
        let mut m = HashMap::new();
        want["borrow_info"][&s] = json!({});
        for _ in 0..c.usize(0, 2) {
            let a = name(c);
            let b = BorrowInfo { interest_interval: c.draw(100 * DAY), interest_rate: num(c), limit: num(c) };
            m.insert(a.clone(), b);
            want["borrow_info"][&s][&a] = json!({"interest_interval": b.interest_interval, "interest_rate": b.interest_rate, "limit": b.limit});
            round_trip(c, &b, &want["borrow_info"][&s][&a], "borrow terms")?;
        }
        ex.borrow_info.insert(s, m);
    }
    let v = quiet(|| serde_json::to_value(&ex))?.map_err(|e| Fail::from(e.to_string()))?;
    ensure!(same(&v, &want), "exchange info is written as {v} instead of {want}");
    let y: ExchangeInfo = quiet(|| serde_json::from_value(want.clone()))?.map_err(|e| Fail::from(format!("exchange info {want} is rejected: {e}")))?;
    let w = serde_json::to_value(&y).unwrap();
    ensure!(same(&w, &want), "exchange info {want} is read as {w}");
    for k in ["assets", "fees", "filters", "borrow_info"] {
        let mut less = want.clone();
        less.as_object_mut().unwrap().remove(k);
        ensure!(serde_json::from_value::<ExchangeInfo>(less).is_err(), "exchange info without {k} is accepted");
    }
    Ok(())
}

fn main() {
    vharness::engine::main(vec![
        Prop {
            id: "A01",
            rule: "a case is a sequence of 0-30 (large cases: up to 1500, marathon cases: up to 70000) long/short positions, hand-made (dyadic or arbitrary amounts, fees, break-even included) or from a random backtest; non-trivial with at least two positions (positions: one)",
            assumptions: &["a break-even position counts as a win", "amounts compounded beyond 1e100 are not judged", "quantities are compared to 1e-12 of the amounts they are differences of"],
            subs: vec![sub("core", 1_500_000, 50_000_000, a01), sub("core_large", 2000, 60_000, a01_large), sub("core_marathon", 24, 600, a01_marathon), sub("positions_large", 1000, 30_000, a01_positions_large), sub("positions", 500_000, 20_000_000, a01_positions)],
        },
        Prop {
            id: "A03",
            rule: "results: position sequences as for A01 with their core and per-position statistics, non-trivial with a position; market: random candles, candle lists with gaps, fees, filters, borrow terms and exchange information, non-trivial with a positive time and different open and close",
            assumptions: &["numbers in JSON text are compared to one unit of floating-point resolution, in JSON values exactly", "amounts that are not finite have no JSON and are not read back"],
            subs: vec![sub("results", 60_000, 3_000_000, a03_results), sub("market", 60_000, 3_000_000, a03_market)],
        },
        Prop {
            id: "A02",
            rule: "position sequences as for A01 (large cases: up to 12000 periods) with random price tables (random walk, jumps, near-flat, flat) and statistics intervals; every period's holdings are recomputed from all trades; non-trivial with at least three periods, a position and real volatility",
            assumptions: &["price tables start with the opening price of the first period", "trades at the very end instant belong to the period after the last one", "ratios are compared only where return and risk exceed floating-point noise"],
            subs: vec![sub("ratios", 400_000, 15_000_000, a02), sub("ratios_large", 1500, 40_000, a02_large)],
        },
    ]);
}
