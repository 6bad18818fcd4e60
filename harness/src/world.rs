//! Random multi-symbol market data for optimizer and service checks.
use crate::{engine::{Case, Scale}, gens::*};
use juno::{
    trading::{BasicEvaluation, BasicEvaluationInput, EvaluationAggregation, EvaluationStatistic, TradingParams, TradingParamsContext},
    BorrowInfo, Candle, ExchangeInfo, Fees, Interval, SymbolExt, Timestamp,
};
use serde_json::{json, Value};
use std::collections::HashMap;

pub struct World {
    pub ex: ExchangeInfo,
    pub candles: HashMap<String, HashMap<Interval, Vec<Candle>>>,
    pub prices: HashMap<String, Vec<f64>>,
    pub symbols: Vec<String>,
    pub intervals: Vec<Interval>,
    pub start: u64,
    pub end: u64,
    pub quote: f64,
    pub stat: EvaluationStatistic,
    pub agg: EvaluationAggregation,
}
pub const SYMBOLS: [&str; 12] = [
    "eth-btc", "ltc-btc", "ada-btc", "eth-usdt", "xrp-btc", "btc-usdt", "ltc-usdt", "xrp-eth", "dot-usdt", "ada-eth", "usdt-eth", "1inch-btc",
];

pub fn world(c: &mut Case, max_days: usize) -> World {
    let large = c.scale != Scale::Small;
    let ns = if large { c.usize(1, 10) } else { c.usize(1, 3) };
    let mut pool: Vec<&str> = SYMBOLS.to_vec();
    let mut symbols = vec![];
    for _ in 0..ns {
        let i = c.usize(0, pool.len() - 1);
        let known = pool.remove(i).to_string();
        // or one nobody has heard of
        let s = if c.chance(1, 6) {
            let n = c.usize(1, 9);
            let base: String = (0..n).map(|_| c.pick(&['a', 'b', 'c', 'd', 'e', 'h', 'i', 'o', 's', 't', 'u', 'x', 'z', '0', '1', '2', '5', '9'])).collect();
            format!("{base}-{}", c.pick(&["btc", "usdt", "eth", "bnb", "tusd"]))
        } else {
            known
        };
        if !symbols.contains(&s) && s.base_asset() != s.quote_asset() {
            symbols.push(s);
        }
    }
    if symbols.is_empty() {
        symbols.push("eth-btc".to_string());
    }
    let ivs: Vec<u64> = match c.draw(4) {
        0 => vec![4 * HOUR],
        1 => vec![4 * HOUR, 12 * HOUR],
        2 => vec![2 * HOUR, 6 * HOUR, DAY],
        3 => vec![DAY],
        _ => vec![DAY, 8 * HOUR],
    };
    let days = c.usize(2, max_days);
    let start = match c.draw(3) {
        0 => (14_600 + c.draw(14_600)) * DAY,
        _ => 1_514_764_800_000 + c.draw(600) * DAY,
    };
    let end = start + days as u64 * DAY;
    let mut ex = ExchangeInfo { assets: HashMap::new(), fees: HashMap::new(), filters: HashMap::new(), borrow_info: HashMap::new() };
    let mut candles = HashMap::new();
    for s in &symbols {
        ex.fees.insert(s.clone(), Fees { maker: c.pick(&[0.0, 0.001]), taker: c.pick(&[0.001, 0.0, 0.002, 0.01, 0.00075, 0.05]) });
        let mut f = filters(c);
        f.quote_precision = c.pick(&[8, 8, 8, 6, 3]);
        f.size.min = f.size.min.max(1e-3);
        ex.filters.insert(s.clone(), f);
        // exchanges list terms for both assets of a pair
        let mut terms = HashMap::new();
        for a in [s.quote_asset(), s.base_asset()] {
            terms.insert(
                a.to_string(),
                BorrowInfo {
                    interest_interval: c.pick(&[HOUR, DAY]),
                    interest_rate: c.pick(&[1e-5, 1e-4, 1e-3]),
                    limit: c.pick(&[1e7, 30.0, 1.0, 1e7, 30.0, 0.0]),
                },
            );
        }
        ex.borrow_info.insert(s.clone(), terms);
        let mut by = HashMap::new();
        for &iv in &ivs {
            let n = ((end - start) / iv) as usize;
            let gaps = c.chance(1, 3);
            // listed late
            let first = if c.chance(1, 10) { c.usize(0, n / 2) } else { 0 };
            let mut cs = vec![];
            for (i, (o, h, l, cl)) in bars(c, n, false).into_iter().enumerate() {
                if i < first || gaps && i > first && c.chance(1, 12) {
                    continue;
                }
                cs.push(Candle { time: Timestamp(start + i as u64 * iv), open: o, high: h, low: l, close: cl, volume: 1.0 });
            }
            by.insert(Interval(iv), cs);
        }
        candles.insert(s.clone(), by);
    }
    let mut prices = HashMap::new();
    let mut assets = vec!["btc".to_string()];
    for a in symbols.iter().flat_map(|s| [s.base_asset(), s.quote_asset()]) {
        if !assets.iter().any(|x| x == a) {
            assets.push(a.to_string());
        }
    }
    for a in &assets {
        let mut p = c.logf(0.1, 10_000.0);
        let v = (0..days + 2)
            .map(|_| {
                p = (p * c.f64(0.8, 1.25)).clamp(1e-4, 1e7);
                if a == "usdt" || a == "tusd" {
                    1.0
                } else {
                    p
                }
            })
            .collect();
        prices.insert(a.to_string(), v);
    }
    // the requested period need not start and end on period boundaries
    let (start, end) = if c.chance(1, 3) { (start - c.pick(&[0, 1, HOUR, HOUR + 12_345, 30 * 60_000]), end + c.pick(&[0, 1, HOUR - 1, 5 * HOUR, 40 * DAY, 500 * DAY + 1, 3000 * DAY])) } else { (start, end) };
    World {
        ex,
        candles,
        prices,
        symbols,
        intervals: ivs.iter().map(|&i| Interval(i)).collect(),
        start,
        end,
        quote: c.pick(&[1.0, 100.0, 5000.0, 1e6, 1234.56]),
        stat: c.pick(&EvaluationStatistic::values()),
        agg: c.pick(&EvaluationAggregation::values()),
    }
}
impl World {
    pub fn evaluation(&self, symbols: &[String]) -> BasicEvaluation {
        BasicEvaluation::new(&BasicEvaluationInput {
            exchange_info: &self.ex,
            candles: &self.candles,
            prices: &self.prices,
            symbols,
            intervals: &self.intervals,
            start: Timestamp(self.start),
            end: Timestamp(self.end),
            quote: self.quote,
            evaluation_statistic: self.stat,
            evaluation_aggregation: self.agg,
        })
    }
    pub fn ctx(&self, extra: Value) -> TradingParamsContext {
        let mut v = json!({"trader": {"intervals": self.intervals}});
        for (k, x) in extra.as_object().unwrap() {
            v[k] = x.clone();
        }
        serde_json::from_value(v).expect("context")
    }
    pub fn describe(&self) -> String {
        format!(
            "symbols={:?} intervals={:?} start={} end={} quote={} stat={} agg={} fees={}",
            self.symbols,
            self.intervals.iter().map(|i| i.0).collect::<Vec<_>>(),
            self.start,
            self.end,
            self.quote,
            json(&self.stat),
            json(&self.agg),
            json(&self.ex.fees)
        )
    }
}

/// Candidates that trade within a short history.
pub fn quick_params(c: &mut Case, w: &World) -> TradingParams {
    let iv = c.pick(&w.intervals);
    let max = if c.scale == Scale::Small { 4 } else { c.pick(&[4, 12, 40]) };
    trading_params(c, max, iv.0)
}

