//! Shared generators: candle histories, market terms, trading configurations.
use crate::engine::{Case, Scale};
use juno::{
    easing::Easing,
    filters::{Price, Size},
    indicators::*,
    stop_loss::{self, StopLossParams},
    strategies::*,
    take_profit::{self, TakeProfitParams},
    trading::{TraderParams, TradingParams},
    utils::MidTrendPolicy,
    BorrowInfo, Candle, Fees, Filters, Interval, Timestamp,
};

pub const HOUR: u64 = 3_600_000;
pub const DAY: u64 = 86_400_000;
pub const WEEK: u64 = 604_800_000;

pub const EASINGS: [Easing; 31] = [
    Easing::Linear,
    Easing::QuadIn,
    Easing::QuadOut,
    Easing::QuadInout,
    Easing::CubicIn,
    Easing::CubicOut,
    Easing::CubicInout,
    Easing::QuartIn,
    Easing::QuartOut,
    Easing::QuartInout,
    Easing::QuintIn,
    Easing::QuintOut,
    Easing::QuintInout,
    Easing::SineIn,
    Easing::SineOut,
    Easing::SineInout,
    Easing::CircIn,
    Easing::CircOut,
    Easing::CircInout,
    Easing::ExpoIn,
    Easing::ExpoOut,
    Easing::ExpoInout,
    Easing::ElasticIn,
    Easing::ElasticOut,
    Easing::ElasticInout,
    Easing::BackIn,
    Easing::BackOut,
    Easing::BackInout,
    Easing::BounceIn,
    Easing::BounceOut,
    Easing::BounceInout,
];

pub struct CandleOpts {
    pub min_len: usize,
    pub max_len: usize,
    pub gaps: bool,
    pub wild: bool,
}

/// One OHLC bar around open/close.
fn bar(c: &mut Case, open: f64, close: f64, wick: f64) -> (f64, f64) {
    let hi = open.max(close);
    let lo = open.min(close);
    if wick == 0.0 {
        return (hi, lo);
    }
    let h = hi * (1.0 + c.unit() * wick);
    let l = lo * (1.0 - c.unit() * wick.min(0.9));
    (h, l)
}

/// A price path of `n` bars; returns (open, high, low, close).
pub fn bars(c: &mut Case, n: usize, wild: bool) -> Vec<(f64, f64, f64, f64)> {
    let mut out = path(c, n, wild);
    // quoted in a much larger or smaller unit; a power of two, so that ties stay ties
    let k = match c.weighted(&[10, 1, 1]) {
        0 => 1.0,
        1 => 2f64.powi(-(c.u64(1, 26) as i32)),
        _ => 2f64.powi(c.u64(1, 14) as i32),
    };
    if k != 1.0 {
        for b in &mut out {
            *b = (b.0 * k, b.1 * k, b.2 * k, b.3 * k);
        }
    }
    out
}

fn path(c: &mut Case, n: usize, wild: bool) -> Vec<(f64, f64, f64, f64)> {
    let style = c.weighted(if wild { &[4, 3, 3, 3, 3, 1, 1] } else { &[4, 3, 3, 3, 0, 1, 0] });
    let mut out = Vec::with_capacity(n);
    match style {
        // drifting segments: alternating trends, good at producing crossings
        0 => {
            let mut p = c.logf(0.01, 10_000.0);
            let vol = c.pick(&[0.002, 0.01, 0.05, 0.15]);
            let mut seg = 0usize;
            let mut drift = 0.0;
            while out.len() < n {
                if seg == 0 {
                    seg = c.usize(1, 12);
                    drift = c.f64(-1.0, 1.0) * vol;
                }
                seg -= 1;
                let open = p;
                p = (p * (1.0 + drift + c.f64(-0.5, 0.5) * vol)).clamp(1e-4, 1e6);
                let (h, l) = bar(c, open, p, vol);
                out.push((open, h, l, p));
            }
        }
        // random walk, open gaps
        1 => {
            let mut p = c.logf(0.01, 10_000.0);
            let vol = c.pick(&[0.01, 0.1, 0.3]);
            while out.len() < n {
                let open = (p * (1.0 + c.f64(-0.3, 0.3) * vol)).clamp(1e-4, 1e6);
                p = (open * (1.0 + c.f64(-1.0, 1.0) * vol)).clamp(1e-4, 1e6);
                let (h, l) = bar(c, open, p, vol);
                out.push((open, h, l, p));
            }
        }
        // small integer grid: many ties, flat windows and exact threshold hits
        2 => {
            let levels = c.u64(1, 9);
            while out.len() < n {
                let o = 1 + c.draw(levels);
                let cl = 1 + c.draw(levels);
                let h = o.max(cl) + c.draw(1);
                let l = (o.min(cl) - c.draw(1)).max(1);
                out.push((o as f64, h as f64, l as f64, cl as f64));
            }
        }
        // flat stretches with occasional moves
        3 => {
            let mut p = 1.0 + c.draw(200) as f64;
            while out.len() < n {
                let open = p;
                if c.chance(1, 6) {
                    p = (p * c.pick(&[0.5, 0.8, 0.95, 1.05, 1.25, 2.0])).clamp(1e-3, 1e6);
                }
                let wick = if c.chance(1, 8) { 0.1 } else { 0.0 };
                let (h, l) = bar(c, open, p, wick);
                out.push((open, h, l, p));
            }
        }
        // wild jumps over many magnitudes
        4 => {
            while out.len() < n {
                let open = c.logf(1e-3, 1e5);
                let p = c.logf(1e-3, 1e5);
                let (h, l) = bar(c, open, p, 0.5);
                out.push((open, h, l, p));
            }
        }
        // sawtooth / periodic
        5 => {
            let base = c.logf(0.1, 1000.0);
            let period = c.usize(2, 30);
            let amp = c.f64(0.01, 0.4);
            for i in 0..n {
                let f = |k: usize| base * (1.0 + amp * ((k % period) as f64 / period as f64 * std::f64::consts::TAU).sin());
                let (o, cl) = (f(i), f(i + 1));
                let (h, l) = bar(c, o, cl, 0.01);
                out.push((o, h, l, cl));
            }
        }
        // completely flat, possibly ending in a move
        _ => {
            let p = 1.0 + c.draw(99) as f64;
            let k = c.usize(0, n);
            for i in 0..n {
                let q = if i < k { p } else { p * (1.0 + 0.05 * (i - k) as f64) };
                out.push((q, q, q, q));
            }
        }
    }
    out
}

pub const INTERVALS: [u64; 6] = [HOUR, DAY, 4 * HOUR, 900_000, 12 * HOUR, 60_000];

pub fn start_time(c: &mut Case, interval: u64) -> u64 {
    let base = match c.weighted(&[1, 1, 4]) {
        0 => 1_514_764_800_000u64, // 2018-01-01, a Monday
        1 => 345_600_000,
        _ => 345_600_000 + c.draw(2_500_000) * 900_000,
    };
    base.div_ceil(interval) * interval
}

/// Ascending candles on the interval grid.
pub fn candles(c: &mut Case, interval: u64, o: &CandleOpts) -> Vec<Candle> {
    let n = c.len(o.min_len, o.max_len);
    let mut t = start_time(c, interval);
    let gap = if o.gaps { c.weighted(&[3, 1, 1]) } else { 0 };
    let bs = bars(c, n, o.wild);
    let mut out = Vec::with_capacity(n);
    for (open, high, low, close) in bs {
        out.push(Candle {
            time: Timestamp(t),
            open,
            high,
            low,
            close,
            volume: if c.chance(1, 8) { 0.0 } else { c.draw(1000) as f64 },
        });
        t += interval;
        match gap {
            1 => {
                if c.chance(1, 12) {
                    t += interval * c.u64(1, 3)
                }
            }
            2 => {
                if c.chance(1, 10) {
                    t += interval * c.u64(1, 60)
                }
            }
            _ => {}
        }
    }
    out
}

/// (largest period step, largest history length)
pub fn sized(c: &mut Case) -> (u32, usize) {
    match c.scale {
        Scale::Small => match c.weighted(&[6, 3, 1]) {
            0 => (c.pick(&[3, 6, 2]), 60),
            1 => (12, 120),
            _ => (50, 300),
        },
        Scale::Large => (c.pick(&[100, 30, 320, 6]), c.pick(&[1500, 800, 3000])),
        Scale::Marathon => (c.pick(&[3, 12]), 72_000),
    }
}

pub fn dump_candles(cs: &[Candle]) -> String {
    let mut s = String::new();
    for (i, k) in cs.iter().enumerate() {
        if i >= 12 {
            s.push_str(&format!("... ({} candles)", cs.len()));
            break;
        }
        s.push_str(&format!("[t={} o={} h={} l={} c={} v={}] ", k.time.0, k.open, k.high, k.low, k.close, k.volume));
    }
    s
}

#[derive(Clone, Copy, Debug)]
pub struct Market {
    pub fees: Fees,
    pub filters: Filters,
    pub borrow: BorrowInfo,
    pub mm: u32,
    pub quote: f64,
    pub long: bool,
    pub short: bool,
}

pub fn filters(c: &mut Case) -> Filters {
    let kind = c.weighted(&[5, 2, 2]);
    let (base_precision, quote_precision) = match c.weighted(&[8, 2, 2, 2, 1]) {
        4 => (c.u32(8, 15), c.u32(8, 15)),
        0 => (8, 8),
        1 => (c.u32(2, 8), c.u32(4, 8)),
        2 => (c.u32(0, 9), 8),
        _ => (8, c.u32(0, 9)),
    };
    let size = match kind {
        0 => {
            let step = c.pick(&[1e-4, 1e-3, 1e-5, 1e-2, 0.1, 1.0, 1e-8]);
            Size { min: step * c.pick(&[1.0, 10.0]), max: c.pick(&[1e5, 9e7, 1e4, 50.0]), step }
        }
        1 => Size { min: 0.0, max: 0.0, step: 0.0 },
        _ => Size {
            min: c.pick(&[0.0, 1e-3, 0.5]),
            max: c.pick(&[0.0, 10.0, 1e6]),
            step: c.pick(&[0.0, 1e-3, 0.25]),
        },
    };
    Filters {
        // the prices of the candles are what they are, whatever the price filter says
        price: Price { min: c.pick(&[1e-6, 0.0, 0.5]), max: c.pick(&[1e6, 0.0, 1e4]), step: c.pick(&[1e-6, 0.0, 1e-2, 1.0]) },
        size,
        base_precision,
        quote_precision,
    }
}

pub fn market(c: &mut Case, price: f64) -> Market {
    let fees = Fees {
        maker: c.pick(&[0.001, 0.0, 0.0002, 0.5]),
        taker: if c.chance(1, 24) { c.pick(&[0.3, 0.75, 1.0]) } else if c.scale == Scale::Small { c.pick(&[0.001, 0.0, 0.00075, 0.01, 0.1]) } else { c.pick(&[0.0, 1e-5, 0.0002]) },
    };
    let filters = filters(c);
    let borrow = BorrowInfo {
        interest_interval: c.pick(&[HOUR, DAY, HOUR / 2, 7_000_000, 1, HOUR * 5, 45 * DAY, 977]),
        interest_rate: c.pick(&[1e-5, 0.0, 2.083e-7, 1e-4, 1e-3, 0.01, 0.4]),
        limit: c.pick(&[1e7, 0.45, 30.0, 270.0, 2.5, 1e7, 0.0]),
    };
    let mm = c.pick(&[2, 2, 2, 3, 5, 1, 10]);
    let quote = if c.chance(4, 5) {
        // affords a sensible number of size steps at the first price
        let unit = f64::max(filters.size.min, filters.size.step).max(1e-6);
        let q = price * unit * c.logf(1.5, 1e7);
        let q = (q * 1e6).round() / 1e6;
        q.clamp(0.01, 1e12)
    } else {
        c.pick(&[1.0, 100.0, 10_000.0, 0.05, 1e6, 1e-5, 3e10])
    };
    let (long, short) = c.pick(&[(true, true), (true, true), (true, true), (true, false), (false, true), (false, false)]);
    Market { fees, filters, borrow, mm, quote, long, short }
}

pub fn ma_params(c: &mut Case, period: u32) -> MAParams {
    match c.draw(6) {
        0 => MAParams::Sma(SmaParams { period }),
        1 => MAParams::Ema(EmaParams { period, smoothing: if c.chance(1, 4) { Some(c.f64(0.05, 1.0)) } else { None } }),
        2 => MAParams::Ema2(Ema2Params { period }),
        3 => MAParams::Smma(SmmaParams { period }),
        4 => MAParams::Dema(DemaParams { period }),
        5 => MAParams::Kama(KamaParams { period }),
        _ => {
            // a derived sigma of 0 (period 1) is a degenerate but generated configuration
            let sigma = if c.chance(1, 4) { Some(c.u32(1, 8)) } else { None };
            MAParams::Alma(AlmaParams { period, offset: if c.bool() { 0.85 } else { c.f64(0.01, 0.99) }, sigma })
        }
    }
}

pub fn periods2(c: &mut Case, max: u32) -> (u32, u32) {
    let s = c.u32(1, max);
    let l = s + c.u32(1, max);
    (s, l)
}

pub fn signal_params(c: &mut Case, max: u32) -> SignalParams {
    match c.draw(6) {
        0 => SignalParams::DoubleMA(double_ma(c, max)),
        1 => SignalParams::SingleMA(single_ma(c, max)),
        2 => SignalParams::Macd(macd(c, max)),
        3 => SignalParams::FourWeekRule(fwr(c, max)),
        4 => SignalParams::TripleMA(triple_ma(c, max)),
        5 => SignalParams::DoubleMA2(double_ma2(c, max)),
        _ => SignalParams::DoubleMAStoch(double_ma_stoch(c, max)),
    }
}

pub fn double_ma(c: &mut Case, max: u32) -> DoubleMAParams {
    let (s, l) = periods2(c, max);
    DoubleMAParams { mas: (ma_params(c, s), ma_params(c, l)) }
}
pub fn double_ma2(c: &mut Case, max: u32) -> DoubleMA2Params {
    let (s, l) = periods2(c, max);
    DoubleMA2Params {
        neg_threshold: c.f64(-0.99, -0.01),
        pos_threshold: c.f64(0.01, 0.99),
        mas: (ma_params(c, s), ma_params(c, l)),
    }
}
pub fn triple_ma(c: &mut Case, max: u32) -> TripleMAParams {
    let (s, m) = periods2(c, max);
    let l = m + c.u32(1, max);
    TripleMAParams { mas: (ma_params(c, s), ma_params(c, m), ma_params(c, l)) }
}
pub fn single_ma(c: &mut Case, max: u32) -> SingleMAParams {
    let p = c.u32(1, max);
    SingleMAParams { ma: ma_params(c, p) }
}
pub fn macd(c: &mut Case, max: u32) -> MacdParams {
    if c.chance(1, 6) {
        return MacdParams { periods: (12, 26), signal_period: c.u32(1, 9) };
    }
    let (s, l) = periods2(c, max);
    MacdParams { periods: (s, l), signal_period: c.u32(1, max) }
}
pub fn fwr(c: &mut Case, max: u32) -> FourWeekRuleParams {
    let p = c.u32(1, max);
    FourWeekRuleParams { period: c.u32(1, max), ma: ma_params(c, p) }
}
pub fn stoch(c: &mut Case, max: u32) -> StochParams {
    StochParams {
        k_period: c.u32(1, max),
        k_sma_period: c.u32(1, max),
        d_sma_period: c.u32(1, max),
        up_threshold: c.f64(50.0, 100.0),
        down_threshold: c.f64(0.0, 50.0),
    }
}
pub fn rsi(c: &mut Case, max: u32) -> RsiParams {
    RsiParams { period: c.u32(1, max), up_threshold: c.f64(50.0, 100.0), down_threshold: c.f64(0.0, 50.0) }
}
pub fn double_ma_stoch(c: &mut Case, max: u32) -> DoubleMAStochParams {
    DoubleMAStochParams { double_ma: double_ma(c, max), stoch: stoch(c, max) }
}
pub fn osc_params(c: &mut Case, max: u32) -> OscillatorParams {
    if c.bool() {
        OscillatorParams::Stoch(stoch(c, max))
    } else {
        OscillatorParams::Rsi(rsi(c, max))
    }
}
pub fn mid_trend_policy(c: &mut Case) -> MidTrendPolicy {
    c.pick(&[MidTrendPolicy::Current, MidTrendPolicy::Previous, MidTrendPolicy::Ignore])
}
/// Persistence levels, now and then as large as the optimizer draws them.
pub fn persistence(c: &mut Case) -> u32 {
    if c.scale == Scale::Large && c.chance(1, 4) {
        c.u32(0, 60)
    } else if c.scale == Scale::Large || c.chance(1, 8) {
        c.u32(0, 12)
    } else {
        c.u32(0, 3)
    }
}
pub fn sig_params(c: &mut Case, max: u32, buffer: Option<Interval>) -> SigParams {
    SigParams {
        sig: signal_params(c, max),
        persistence: persistence(c),
        mid_trend_policy: mid_trend_policy(c),
        buffer_interval: buffer,
    }
}
/// The filter mode's type is not exported, so it is built through its JSON name.
pub fn sig_osc_params(c: &mut Case, max: u32) -> SigOscParams {
    let v = serde_json::json!({
        "sig": signal_params(c, max),
        "osc": osc_params(c, max),
        "osc_filter": if c.bool() { "Enforce" } else { "Prevent" },
        "persistence": persistence(c),
        "mid_trend_policy": mid_trend_policy(c),
    });
    serde_json::from_value(v).expect("oscillator-filtered strategy parameters from JSON")
}


pub fn strategy_params(c: &mut Case, max: u32) -> StrategyParams {
    match c.weighted(&[3, 3, 2, 3, 2, 1, 1, 2, 2]) {
        0 => StrategyParams::DoubleMA(double_ma(c, max)),
        1 => StrategyParams::SingleMA(single_ma(c, max)),
        2 => StrategyParams::Macd(macd(c, max)),
        3 => StrategyParams::FourWeekRule(fwr(c, max)),
        4 => StrategyParams::TripleMA(triple_ma(c, max)),
        5 => StrategyParams::DoubleMA2(double_ma2(c, max)),
        6 => StrategyParams::DoubleMAStoch(double_ma_stoch(c, max)),
        7 => StrategyParams::Sig(sig_params(c, max, None)),
        _ => StrategyParams::SigOsc(sig_osc_params(c, max)),
    }
}

pub fn thr(c: &mut Case, max: f64) -> f64 {
    match c.weighted(&[6, 4, 2, 1]) {
        0 => c.logf(0.001, max),
        1 => c.pick(&[0.25, 0.5, 0.125, 0.05, 0.1]),
        3 => c.pick(&[max, max * 0.999, max * 0.99]),
        _ => c.f64(0.001, max),
    }
}

pub fn stop_loss_params(c: &mut Case) -> StopLossParams {
    let basic = |c: &mut Case| stop_loss::BasicParams { up_threshold: thr(c, 0.999), down_threshold: thr(c, 0.999) };
    let trailing = |c: &mut Case| stop_loss::TrailingParams { up_threshold: thr(c, 0.999), down_threshold: thr(c, 0.999) };
    match c.weighted(&[2, 3, 3, 2, 3]) {
        0 => StopLossParams::Noop(stop_loss::NoopParams {}),
        1 => StopLossParams::Basic(basic(c)),
        2 => StopLossParams::Trailing(trailing(c)),
        3 => StopLossParams::BasicPlusTrailing(stop_loss::BasicPlusTrailingParams { basic: basic(c), trailing: trailing(c) }),
        _ => StopLossParams::Legacy(stop_loss::LegacyParams {
            threshold: if c.chance(1, 4) { 0.0 } else { thr(c, 0.9999) },
            trail: c.bool(),
        }),
    }
}

pub fn tp_pair(c: &mut Case) -> (f64, f64) {
    let a = thr(c, 2.0);
    (a, a + thr(c, 2.0))
}

pub fn take_profit_params(c: &mut Case) -> TakeProfitParams {
    match c.weighted(&[2, 3, 3, 4]) {
        0 => TakeProfitParams::Noop(take_profit::NoopParams {}),
        1 => TakeProfitParams::Basic(take_profit::BasicParams { up_threshold: thr(c, 10.0), down_threshold: thr(c, 10.0) }),
        2 => TakeProfitParams::Legacy(take_profit::LegacyParams { threshold: if c.chance(1, 4) { 0.0 } else { thr(c, 10.0) } }),
        _ => TakeProfitParams::Trending(take_profit::TrendingParams {
            up_thresholds: tp_pair(c),
            down_thresholds: tp_pair(c),
            period: if c.scale == Scale::Large { c.u32(1, 200) } else { c.u32(1, 12) },
            lock_threshold: c.bool(),
            easing: c.pick(&EASINGS),
        }),
    }
}

pub fn trading_params(c: &mut Case, max: u32, interval: u64) -> TradingParams {
    TradingParams {
        strategy: strategy_params(c, max),
        trader: TraderParams { interval: Interval(interval) },
        stop_loss: stop_loss_params(c),
        take_profit: take_profit_params(c),
    }
}

pub fn json<T: serde::Serialize>(v: &T) -> String {
    serde_json::to_string(v).unwrap()
}
