//! G01-G04, B01: strategies, advice filters and candle aggregation.
use juno::{
    indicators::{self, MAParams, MA},
    strategies::*,
    trading::{trade, TradeInput, TradingParams},
    utils::{combine, BufferedCandle, Changed, MidTrend, MidTrendPolicy, Persistence},
    Advice, Candle, Interval, Timestamp,
};
use vharness::{cal, engine::*, ensure, fail, gens::*};

fn meta(iv: u64) -> StrategyMeta {
    StrategyMeta { interval: Interval(iv) }
}

// ---------------------------------------------------------------- reference rules

/// Reference strategy: rule applied to the indicators' own values.
enum Rule {
    Double { s: Box<dyn MA>, l: Box<dyn MA>, th: Option<(f64, f64)>, adv: Advice },
    Triple { s: Box<dyn MA>, m: Box<dyn MA>, l: Box<dyn MA>, adv: Advice },
    Single { ma: Box<dyn MA>, prev: Option<f64>, adv: Advice },
    Macd { m: indicators::Macd, adv: Advice },
    Channel { closes: Vec<f64>, p: usize, ma: Box<dyn MA>, adv: Advice },
    DoubleStoch { inner: Box<Rule>, st: indicators::Stoch, up: f64, down: f64, adv: Advice },
}

fn mas2(p: &(MAParams, MAParams)) -> (Box<dyn MA>, Box<dyn MA>) {
    (p.0.construct(), p.1.construct())
}

impl Rule {
    fn new(p: &SignalParams) -> Rule {
        let adv = Advice::None;
        match p {
            SignalParams::DoubleMA(p) => {
                let (s, l) = mas2(&p.mas);
                Rule::Double { s, l, th: None, adv }
            }
            SignalParams::DoubleMA2(p) => {
                let (s, l) = mas2(&p.mas);
                Rule::Double { s, l, th: Some((p.neg_threshold, p.pos_threshold)), adv }
            }
            SignalParams::TripleMA(p) => {
                Rule::Triple { s: p.mas.0.construct(), m: p.mas.1.construct(), l: p.mas.2.construct(), adv }
            }
            SignalParams::SingleMA(p) => Rule::Single { ma: p.ma.construct(), prev: None, adv },
            SignalParams::Macd(p) => {
                Rule::Macd { m: indicators::Macd::new(p.periods.0, p.periods.1, p.signal_period), adv }
            }
            SignalParams::FourWeekRule(p) => {
                Rule::Channel { closes: vec![], p: p.period as usize, ma: p.ma.construct(), adv }
            }
            SignalParams::DoubleMAStoch(p) => Rule::DoubleStoch {
                inner: Box::new(Rule::new(&SignalParams::DoubleMA(p.double_ma))),
                st: indicators::Stoch::new(p.stoch.k_period, p.stoch.k_sma_period, p.stoch.d_sma_period),
                up: p.stoch.up_threshold,
                down: p.stoch.down_threshold,
                adv,
            },
        }
    }

    /// Announced number of candles, by definition.
    fn needs(&self) -> u32 {
        match self {
            Rule::Double { s, l, .. } => s.maturity().max(l.maturity()),
            Rule::Triple { s, m, l, .. } => s.maturity().max(l.maturity()).max(m.maturity()),
            Rule::Single { ma, .. } => ma.maturity() + 1,
            Rule::Macd { m, .. } => m.maturity(),
            Rule::Channel { p, ma, .. } => (*p as u32 + 1).max(ma.maturity()),
            Rule::DoubleStoch { inner, st, .. } => inner.needs().max(st.maturity()),
        }
    }

    /// Feed one candle. `actual` resolves decisions that are too close to call.
    fn step(&mut self, k: &Candle, actual: Advice) -> Advice {
        match self {
            Rule::Double { s, l, th, adv } => {
                s.update(k.close);
                l.update(k.close);
                if s.mature() && l.mature() {
                    let (a, b) = (s.value(), l.value());
                    match th {
                        None => {
                            if a > b {
                                *adv = Advice::Long
                            } else if a < b {
                                *adv = Advice::Short
                            }
                        }
                        Some((neg, pos)) => {
                            let pct = 100.0 * (a - b) / ((a + b) / 2.0);
                            let tie = |t: f64| (pct - t).abs() <= 1e-9;
                            if tie(*pos) || tie(*neg) {
                                let other = if tie(*pos) { Advice::Long } else { Advice::Short };
                                if actual == other {
                                    *adv = other;
                                }
                            } else if pct > *pos {
                                *adv = Advice::Long
                            } else if pct < *neg {
                                *adv = Advice::Short
                            }
                        }
                    }
                }
                *adv
            }
            Rule::Triple { s, m, l, adv } => {
                s.update(k.close);
                m.update(k.close);
                l.update(k.close);
                if s.mature() && m.mature() && l.mature() {
                    let (a, b, d) = (s.value(), m.value(), l.value());
                    let crossed_up = a > b && a > d;
                    let crossed_down = a < b && a < d;
                    *adv = if a > b && b > d {
                        Advice::Long
                    } else if a < b && b < d {
                        Advice::Short
                    } else if (*adv == Advice::Short && crossed_up) || (*adv == Advice::Long && crossed_down) {
                        Advice::Liquidate
                    } else {
                        *adv
                    };
                }
                *adv
            }
            Rule::Single { ma, prev, adv } => {
                ma.update(k.close);
                if ma.mature() {
                    let v = ma.value();
                    if let Some(p) = *prev {
                        if k.close > v && v > p {
                            *adv = Advice::Long
                        } else if k.close < v && v < p {
                            *adv = Advice::Short
                        }
                    }
                    *prev = Some(v);
                }
                *adv
            }
            Rule::Macd { m, adv } => {
                m.update(k.close);
                if m.mature() {
                    *adv = if m.value > m.signal { Advice::Long } else { Advice::Short };
                }
                *adv
            }
            Rule::Channel { closes, p, ma, adv } => {
                ma.update(k.close);
                if closes.len() >= *p && ma.mature() {
                    let w = &closes[closes.len() - *p..];
                    let hi = w.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
                    let lo = w.iter().cloned().fold(f64::INFINITY, f64::min);
                    let v = ma.value();
                    *adv = if k.close >= hi {
                        Advice::Long
                    } else if k.close <= lo {
                        Advice::Short
                    } else if (*adv == Advice::Long && k.close <= v) || (*adv == Advice::Short && k.close >= v) {
                        Advice::Liquidate
                    } else {
                        *adv
                    };
                }
                closes.push(k.close);
                *adv
            }
            Rule::DoubleStoch { inner, st, up, down, adv } => {
                let ma = inner.step(k, Advice::None);
                st.update(k.high, k.low, k.close);
                if st.mature() && inner.ready() {
                    let over = st.k >= *up;
                    let under = st.k < *down;
                    if (*adv == Advice::Long && (ma == Advice::Short || over))
                        || (*adv == Advice::Short && (ma == Advice::Long || under))
                    {
                        *adv = Advice::Liquidate;
                    }
                    if *adv == Advice::None || *adv == Advice::Liquidate {
                        if ma == Advice::Long && st.k < 50.0 {
                            *adv = Advice::Long
                        } else if ma == Advice::Short && st.k >= 50.0 {
                            *adv = Advice::Short
                        }
                    }
                }
                *adv
            }
        }
    }
    fn ready(&self) -> bool {
        match self {
            Rule::Double { s, l, .. } => s.mature() && l.mature(),
            _ => true,
        }
    }
}

fn kind(p: &SignalParams) -> &'static str {
    match p {
        SignalParams::DoubleMA(_) => "DoubleMA",
        SignalParams::DoubleMA2(_) => "DoubleMA2",
        SignalParams::DoubleMAStoch(_) => "DoubleMAStoch",
        SignalParams::FourWeekRule(_) => "FourWeekRule",
        SignalParams::Macd(_) => "Macd",
        SignalParams::SingleMA(_) => "SingleMA",
        SignalParams::TripleMA(_) => "TripleMA",
    }
}

fn hist(c: &mut Case, iv: u64, max_len: usize) -> Vec<Candle> {
    let wild = c.chance(1, 8);
    candles(c, iv, &CandleOpts { min_len: 1, max_len, gaps: true, wild })
}

fn as_strategy(p: &SignalParams) -> StrategyParams {
    match *p {
        SignalParams::DoubleMA(p) => StrategyParams::DoubleMA(p),
        SignalParams::DoubleMA2(p) => StrategyParams::DoubleMA2(p),
        SignalParams::DoubleMAStoch(p) => StrategyParams::DoubleMAStoch(p),
        SignalParams::FourWeekRule(p) => StrategyParams::FourWeekRule(p),
        SignalParams::Macd(p) => StrategyParams::Macd(p),
        SignalParams::SingleMA(p) => StrategyParams::SingleMA(p),
        SignalParams::TripleMA(p) => StrategyParams::TripleMA(p),
    }
}

fn g01(c: &mut Case) -> Res {
    let (max, len) = sized(c);
    let p = signal_params(c, max);
    let cs = hist(c, HOUR, len);
    c.sample(|| format!("{} on {}", json(&p), dump_candles(&cs)));
    c.label(kind(&p));
    let mut real = if c.bool() { p.construct(&meta(HOUR)) } else { as_strategy(&p).construct(&meta(HOUR)) };
    let mut rule = Rule::new(&p);
    let mut prev = Advice::None;
    let mut changes = 0;
    for (i, k) in cs.iter().enumerate() {
        real.update(k);
        let a = real.advice();
        let e = rule.step(k, a);
        ensure!(
            a == e,
            "{} advises {a:?} after candle {i}, its rule gives {e:?} (before: {prev:?}); candles {}",
            json(&p),
            dump_candles(&cs[..=i])
        );
        if a != prev {
            changes += 1;
            c.label_if(a == Advice::Liquidate, "liquidate");
        }
        prev = a;
    }
    c.nontrivial_if(changes >= 2);
    Ok(())
}

// ---------------------------------------------------------------- G02

/// Reference persistence filter: an advice counts once it was given level + 1 times in a row.
struct PersistRef {
    n: usize,
    return_previous: bool,
    run: usize,
    cur: Advice,
    last: Advice,
}
impl PersistRef {
    fn new(level: u32, return_previous: bool) -> Self {
        PersistRef { n: level as usize + 1, return_previous, run: 0, cur: Advice::None, last: Advice::None }
    }
    fn next(&mut self, x: Advice) -> Advice {
        self.run = if self.run > 0 && x == self.cur { self.run + 1 } else { 1 };
        self.cur = x;
        if self.run >= self.n {
            self.last = x;
            x
        } else if self.return_previous {
            self.last
        } else {
            Advice::None
        }
    }
}
/// Reference mid-trend filter: `Ignore` stays silent until the advice first differs from the initial one.
struct MidRef {
    ignore: bool,
    first: Option<Advice>,
    changed: bool,
}
impl MidRef {
    fn new(policy: MidTrendPolicy) -> Self {
        MidRef { ignore: policy == MidTrendPolicy::Ignore, first: None, changed: false }
    }
    fn next(&mut self, x: Advice) -> Advice {
        self.changed |= *self.first.get_or_insert(x) != x;
        if self.ignore && !self.changed {
            Advice::None
        } else {
            x
        }
    }
}
fn tail(xs: &[Advice]) -> &[Advice] {
    &xs[xs.len().saturating_sub(40)..]
}
fn combine_ref(a: Advice, b: Advice) -> Advice {
    match (a, b) {
        (Advice::None, _) | (_, Advice::None) => Advice::None,
        (a, b) if a == b => a,
        _ => Advice::Liquidate,
    }
}

const PAIRS: [(u64, u64); 8] = [
    (HOUR, 4 * HOUR),
    (HOUR, DAY),
    (900_000, HOUR),
    (4 * HOUR, DAY),
    (DAY, WEEK),
    (12 * HOUR, WEEK),
    (DAY, cal::MONTH_MS),
    (60_000, 900_000),
];

/// A stream on the interval grid with gaps, without the documented unsolvable situation (a candle
/// that both reveals the end of one window and is itself the last of its window).
fn stream(c: &mut Case, iv: u64, buf: u64, max_len: usize) -> Vec<Candle> {
    let n = c.len(1, max_len);
    let mut t = start_time(c, iv.max(1));
    if iv % DAY == 0 {
        t = t.div_ceil(DAY) * DAY;
    }
    if c.bool() {
        // start near a window border
        t = cal::window_end(t, buf) - iv * c.u64(0, 3).min((cal::window_end(t, buf) - cal::window_start(t, buf)) / iv);
    }
    let gap = c.weighted(&[2, 2, 1]);
    let per = (buf / iv).max(1);
    let bs = bars(c, n, false);
    let mut out: Vec<Candle> = vec![];
    let mut pending: Option<u64> = None; // start of the window in the buffer
    for (o, h, l, cl) in bs {
        let w = cal::window_start(t, buf);
        let last = cal::window_start(t + iv, buf) != w;
        let late = matches!(pending, Some(p) if p != w);
        if !(late && last) {
            // a flash crash to nothing
            let l = if c.chance(1, 20) { 0.0 } else { l };
            out.push(Candle { time: Timestamp(t), open: o, high: h, low: l, close: cl, volume: c.draw(1000) as f64 });
            pending = if last { None } else { Some(w) };
        }
        t += iv;
        if (gap == 1 && c.chance(1, 6)) || (gap == 2 && c.chance(1, 2)) {
            t += iv * match c.weighted(&[3, 1]) {
                0 => c.u64(1, 3),
                _ => c.u64(1, 3 * per),
            };
        }
    }
    out
}

/// Reference aggregation: for each input the emitted candle, if any.
fn aggregate(cs: &[Candle], iv: u64, buf: u64) -> Vec<Option<Candle>> {
    let win = |k: &Candle| cal::window_start(k.time.0, buf);
    let make = |upto: usize, w: u64| -> Candle {
        let from = cs[..=upto].iter().rposition(|k| win(k) != w).map_or(0, |i| i + 1);
        let part = &cs[from..=upto];
        Candle {
            time: Timestamp(w),
            open: part[0].open,
            high: part.iter().fold(f64::NEG_INFINITY, |a, k| a.max(k.high)),
            low: part.iter().fold(f64::INFINITY, |a, k| a.min(k.low)),
            close: part[part.len() - 1].close,
            volume: part.iter().map(|k| k.volume).sum(),
        }
    };
    let complete = |k: &Candle| cal::window_start(k.time.0 + iv, buf) != win(k);
    (0..cs.len())
        .map(|i| {
            let w = win(&cs[i]);
            if complete(&cs[i]) {
                Some(make(i, w))
            } else if i > 0 && win(&cs[i - 1]) != w && !complete(&cs[i - 1]) {
                Some(make(i - 1, win(&cs[i - 1])))
            } else {
                None
            }
        })
        .collect()
}

fn g02_sig(c: &mut Case) -> Res {
    let (max, len) = sized(c);
    let buffered = c.bool();
    let (iv, buf) = if buffered { c.pick(&PAIRS[..6]) } else { (HOUR, HOUR) };
    let cs = if buffered { stream(c, iv, buf, len * 3) } else { hist(c, iv, len) };
    let opt = if buffered { Some(Interval(buf)) } else { c.pick(&[None, Some(Interval(iv))]) };
    let p = sig_params(c, max, opt);
    c.sample(|| format!("{} on {}", json(&p), dump_candles(&cs)));
    let m = meta(iv);
    let mut real = if c.bool() { StrategyParams::Sig(p).construct(&m) } else { Box::new(Sig::new(&p, &m)) };
    let mut inner = p.sig.construct(&m);
    let agg: Vec<Option<Candle>> = if buffered { aggregate(&cs, iv, buf) } else { cs.iter().map(|k| Some(*k)).collect() };
    let (mut mid, mut pers) = (MidRef::new(p.mid_trend_policy), PersistRef::new(p.persistence, false));
    let mut inputs = vec![];
    let mut expect = Advice::None;
    let mut seen = vec![];
    for (i, k) in cs.iter().enumerate() {
        real.update(k);
        if let Some(a) = &agg[i] {
            inner.update(a);
            if inner.mature() {
                inputs.push(inner.advice());
                let a = inner.advice();
                expect = combine_ref(mid.next(a), pers.next(a));
            }
        }
        ensure!(
            real.advice() == expect,
            "{} (candle interval {iv}) advises {:?} after candle {i}, expected {expect:?}; last inner advices {:?}; candles {}",
            json(&p),
            real.advice(),
            tail(&inputs),
            dump_candles(&cs[..=i])
        );
        if !seen.contains(&expect) {
            seen.push(expect);
        }
    }
    c.label_if(buffered, "buffered");
    c.nontrivial_if(seen.len() >= 3 || (seen.len() >= 2 && p.persistence > 0));
    Ok(())
}

fn g02_sigosc(c: &mut Case) -> Res {
    let (max, len) = sized(c);
    let cs = hist(c, HOUR, len);
    let mut p = sig_osc_params(c, max);
    if c.bool() {
        // tight thresholds so that the gate matters
        let mut v = serde_json::to_value(p).unwrap();
        v["osc"]["up_threshold"] = serde_json::json!(c.f64(50.0, 60.0));
        v["osc"]["down_threshold"] = serde_json::json!(c.f64(40.0, 50.0));
        p = serde_json::from_value(v).map_err(|e| Fail::Msg(e.to_string()))?;
    }
    let enforce = serde_json::to_value(p).unwrap()["osc_filter"] == "Enforce";
    c.sample(|| format!("{} on {}", json(&p), dump_candles(&cs)));
    let m = meta(HOUR);
    let mut real = if c.bool() { StrategyParams::SigOsc(p).construct(&m) } else { Box::new(SigOsc::new(&p, &m)) };
    let (mut inner, mut osc) = (p.sig.construct(&m), p.osc.construct(&m));
    let (mut mid, mut pers) = (MidRef::new(p.mid_trend_policy), PersistRef::new(p.persistence, false));
    let mut inputs = vec![];
    let mut expect = Advice::None;
    let mut gated = false;
    let mut passed = false;
    for (i, k) in cs.iter().enumerate() {
        real.update(k);
        inner.update(k);
        osc.update(k);
        if inner.mature() && osc.mature() {
            let a = inner.advice();
            let g = match (a, enforce) {
                (Advice::Long, true) if !osc.oversold() => Advice::Liquidate,
                (Advice::Short, true) if !osc.overbought() => Advice::Liquidate,
                (Advice::Long, false) if osc.overbought() => Advice::Liquidate,
                (Advice::Short, false) if osc.oversold() => Advice::Liquidate,
                _ => a,
            };
            gated |= g != a;
            passed |= g == a && (a == Advice::Long || a == Advice::Short);
            inputs.push(g);
            expect = combine_ref(mid.next(g), pers.next(g));
        }
        ensure!(
            real.advice() == expect,
            "{} advises {:?} after candle {i}, expected {expect:?}; last gated advices {:?}; candles {}",
            json(&p),
            real.advice(),
            tail(&inputs),
            dump_candles(&cs[..=i])
        );
    }
    c.nontrivial_if(gated && passed);
    Ok(())
}

fn g02_osc(c: &mut Case) -> Res {
    let (max, len) = sized(c);
    let mut p = osc_params(c, max);
    let cs = hist(c, HOUR, len);
    // sometimes put a threshold exactly on a value that occurs
    let values = |p: &OscillatorParams| -> Vec<Option<f64>> {
        match p {
            OscillatorParams::Rsi(p) => {
                let mut r = indicators::Rsi::new(p.period);
                cs.iter()
                    .map(|k| {
                        r.update(k.close);
                        r.mature().then_some(r.value)
                    })
                    .collect()
            }
            OscillatorParams::Stoch(p) => {
                let mut s = indicators::Stoch::new(p.k_period, p.k_sma_period, p.d_sma_period);
                cs.iter()
                    .map(|k| {
                        s.update(k.high, k.low, k.close);
                        s.mature().then_some(s.k)
                    })
                    .collect()
            }
        }
    };
    let vs = values(&p);
    if c.bool() {
        let have: Vec<f64> = vs.iter().flatten().cloned().collect();
        if !have.is_empty() {
            let v = c.pick(&have);
            let (up, down) = match &mut p {
                OscillatorParams::Rsi(p) => (&mut p.up_threshold, &mut p.down_threshold),
                OscillatorParams::Stoch(p) => (&mut p.up_threshold, &mut p.down_threshold),
            };
            if v >= 50.0 {
                *up = v
            } else {
                *down = v
            }
            c.label("threshold hit exactly");
        }
    }
    let (up, down) = match &p {
        OscillatorParams::Rsi(p) => (p.up_threshold, p.down_threshold),
        OscillatorParams::Stoch(p) => (p.up_threshold, p.down_threshold),
    };
    c.sample(|| format!("{} on {}", json(&p), dump_candles(&cs)));
    let mut o = p.construct(&meta(HOUR));
    ensure!(!o.overbought() && !o.oversold(), "{} speaks before any candle", json(&p));
    for (i, k) in cs.iter().enumerate() {
        o.update(k);
        let (eo, es) = match vs[i] {
            None => (false, false),
            Some(v) => (v >= up, v < down),
        };
        c.label_if(eo, "overbought");
        c.label_if(es, "oversold");
        c.nontrivial_if(eo || es);
        ensure!(
            o.overbought() == eo && o.oversold() == es,
            "{} after candle {i}: overbought {} oversold {}, indicator {:?} says {eo} {es}",
            json(&p),
            o.overbought(),
            o.oversold(),
            vs[i]
        );
    }
    Ok(())
}

// ---------------------------------------------------------------- G03

/// (announced by definition, candles before which no advice may be given)
fn needs(p: &StrategyParams) -> (u32, u32) {
    let sig = |s: &SignalParams| Rule::new(s).needs();
    let tail = |pers: u32, mid: MidTrendPolicy| (pers + 1).max(if mid == MidTrendPolicy::Current { 1 } else { 2 });
    let one = |s: SignalParams| {
        let n = sig(&s);
        (n, n)
    };
    match *p {
        StrategyParams::DoubleMA(p) => one(SignalParams::DoubleMA(p)),
        StrategyParams::DoubleMA2(p) => one(SignalParams::DoubleMA2(p)),
        StrategyParams::DoubleMAStoch(p) => one(SignalParams::DoubleMAStoch(p)),
        StrategyParams::FourWeekRule(p) => one(SignalParams::FourWeekRule(p)),
        StrategyParams::Macd(p) => one(SignalParams::Macd(p)),
        StrategyParams::SingleMA(p) => one(SignalParams::SingleMA(p)),
        StrategyParams::TripleMA(p) => one(SignalParams::TripleMA(p)),
        StrategyParams::Sig(p) => {
            let n = sig(&p.sig);
            (n + tail(p.persistence, p.mid_trend_policy) - 1, n)
        }
        StrategyParams::SigOsc(p) => {
            let o = match p.osc {
                OscillatorParams::Rsi(p) => indicators::Rsi::new(p.period).maturity(),
                OscillatorParams::Stoch(p) => indicators::Stoch::new(p.k_period, p.k_sma_period, p.d_sma_period).maturity(),
            };
            let n = sig(&p.sig).max(o);
            (n + tail(p.persistence, p.mid_trend_policy) - 1, n)
        }
    }
}

fn g03(c: &mut Case) -> Res {
    let (max, len) = sized(c);
    let p = strategy_params(c, max);
    let cs = hist(c, HOUR, len);
    c.sample(|| format!("{} on {} candles", json(&p), cs.len()));
    let (announce, quiet_until) = needs(&p);
    let mut s = p.construct(&meta(HOUR));
    ensure!(s.maturity() == announce, "{} announces {} candles, needs {announce}", json(&p), s.maturity());
    ensure!(!s.mature() && s.advice() == Advice::None, "{} is mature or advises before any candle", json(&p));
    for (i, k) in cs.iter().enumerate() {
        s.update(k);
        let n = i as u32 + 1;
        ensure!(s.maturity() == announce, "{} changed its announced maturity", json(&p));
        ensure!(
            s.mature() == (n >= announce),
            "{} announced {announce} candles, mature()={} after {n}; {}",
            json(&p),
            s.mature(),
            dump_candles(&cs[..=i])
        );
        ensure!(
            n >= quiet_until || s.advice() == Advice::None,
            "{} advises {:?} after {n} candles, its indicators need {quiet_until}; {}",
            json(&p),
            s.advice(),
            dump_candles(&cs[..=i])
        );
        c.nontrivial_if(n > announce);
    }
    Ok(())
}

fn g03_buffered(c: &mut Case) -> Res {
    let (iv, buf) = c.pick(&PAIRS[..6]);
    let max = c.pick(&[2, 4]);
    let n = if c.scale == Scale::Small { 150 } else { 2000 };
    let cs = stream(c, iv, buf, n);
    let p = sig_params(c, max, Some(Interval(buf)));
    c.sample(|| format!("{} on {} candles of {iv}", json(&p), cs.len()));
    let (announce, quiet_until) = needs(&StrategyParams::Sig(p));
    let agg = aggregate(&cs, iv, buf);
    let mut s = Sig::new(&p, &meta(iv));
    let mut n = 0;
    for (i, k) in cs.iter().enumerate() {
        s.update(k);
        n += agg[i].is_some() as u32;
        ensure!(
            s.maturity() == announce && s.mature() == (n >= announce) && (n >= quiet_until || s.advice() == Advice::None),
            "{} after {n} aggregated candles: announced {} mature {} advice {:?}",
            json(&p),
            s.maturity(),
            s.mature(),
            s.advice()
        );
        c.nontrivial_if(n > announce);
    }
    Ok(())
}

fn g03_osc(c: &mut Case) -> Res {
    let (max, len) = sized(c);
    let p = osc_params(c, max);
    let cs = hist(c, HOUR, len);
    c.sample(|| format!("{} on {} candles", json(&p), cs.len()));
    let need = match &p {
        OscillatorParams::Rsi(p) => p.period + 1,
        OscillatorParams::Stoch(p) => p.k_period + p.k_sma_period + p.d_sma_period - 2,
    };
    let mut o = p.construct(&meta(HOUR));
    for (i, k) in cs.iter().enumerate() {
        o.update(k);
        let n = i as u32 + 1;
        ensure!(
            o.maturity() == need && o.mature() == (n >= need) && (n >= need || !(o.overbought() || o.oversold())),
            "{} after {n} candles: announced {} (needs {need}) mature {}",
            json(&p),
            o.maturity(),
            o.mature()
        );
        c.nontrivial_if(n > need);
    }
    Ok(())
}

fn g03_trader(c: &mut Case) -> Res {
    let (max, len) = sized(c);
    let p: TradingParams = trading_params(c, max, HOUR);
    let cs = hist(c, HOUR, len);
    let mk = market(c, cs[0].close);
    c.sample(|| format!("{} on {} candles", json(&p), cs.len()));
    let (_, first) = needs(&p.strategy);
    let s = trade(
        &p,
        &TradeInput {
            candles: &cs,
            fees: &mk.fees,
            filters: &mk.filters,
            borrow_info: &mk.borrow,
            margin_multiplier: mk.mm,
            quote: mk.quote,
            long: mk.long,
            short: mk.short,
        },
    );
    let v = serde_json::to_value(&s).unwrap();
    let ps = v["positions"].as_array().ok_or_else(|| Fail::Msg("no positions in the summary".into()))?;
    c.nontrivial_if(!ps.is_empty() && first > 1);
    if let Some(p0) = ps.first() {
        let t = p0["open_time"].as_u64().or_else(|| p0["time"].as_u64()).ok_or_else(|| Fail::Msg(format!("no open time in {p0}")))?;
        let earliest = cs[first as usize - 1].time.0 + HOUR;
        ensure!(t >= earliest, "{} opened at {t}, its indicators mature at {earliest}", json(&p));
    }
    Ok(())
}

// ---------------------------------------------------------------- G04

const ADV: [Advice; 4] = [Advice::None, Advice::Long, Advice::Short, Advice::Liquidate];

fn advices(c: &mut Case) -> Vec<Advice> {
    let (n, run) = match c.scale {
        Scale::Small => (c.usize(0, 40), 5),
        Scale::Large => (c.len(0, 1500), c.pick(&[5, 20, 300, 700])),
        Scale::Marathon => (c.len(0, 200_000), c.pick(&[300, 70_000, 140_000])),
    };
    let mut out = vec![];
    while out.len() < n {
        let a = c.pick(&ADV);
        for _ in 0..c.len(1, run) {
            out.push(a);
        }
    }
    out.truncate(n);
    out
}

fn g04_changed(c: &mut Case) -> Res {
    let xs = advices(c);
    let enabled = !c.chance(1, 6);
    c.sample(|| format!("changed(enabled {enabled}) ... {:?}", tail(&xs)));
    let mut f = Changed::new(enabled);
    let (mut prev, mut age) = (Advice::None, 0u32);
    for (i, &x) in xs.iter().enumerate() {
        let out = f.update(x);
        if !enabled {
            ensure!(out == x, "disabled change filter turned {x:?} into {out:?}");
            continue;
        }
        let e = if x != Advice::None && x != prev {
            prev = x;
            age = 1;
            c.nontrivial_if(i > 0);
            x
        } else {
            age += 1;
            Advice::None
        };
        ensure!(
            out == e && f.prevailing_advice() == prev && f.prevailing_advice_age() == age,
            "change filter after ... {:?}: {out:?}, prevailing {:?} for {}; expected {e:?}, {prev:?} for {age}",
            tail(&xs[..=i]),
            f.prevailing_advice(),
            f.prevailing_advice_age()
        );
    }
    ensure!(f.maturity() == 1, "change filter needs {} updates", f.maturity());
    Ok(())
}

fn g04_persistence(c: &mut Case) -> Res {
    let xs = advices(c);
    let level = match c.scale {
        Scale::Small => c.u32(0, 5),
        Scale::Large => c.pick(&[10, 40, 300]) + c.u32(0, 3) - 2,
        Scale::Marathon => c.pick(&[250, 65_530]) + c.u32(0, 10),
    };
    let rp = c.bool();
    c.sample(|| format!("persistence({level}, {rp}) ... {:?}", tail(&xs)));
    let mut e = PersistRef::new(level, rp);
    let mut f = Persistence::new(level, rp);
    ensure!(f.maturity() == level + 1, "persistence({level}) needs {} updates", f.maturity());
    for (i, &x) in xs.iter().enumerate() {
        let out = f.update(x);
        let want = e.next(x);
        ensure!(out == want, "persistence({level}, return_previous {rp}) after {} advices ending in {:?}: {out:?}, expected {want:?}", i + 1, tail(&xs[..=i]));
        c.nontrivial_if(level > 0 && out != Advice::None);
    }
    Ok(())
}

fn g04_midtrend(c: &mut Case) -> Res {
    let xs = advices(c);
    let policy = mid_trend_policy(c);
    c.sample(|| format!("mid trend {policy:?} ... {:?}", tail(&xs)));
    let mut e = MidRef::new(policy);
    let mut f = MidTrend::new(policy);
    let need = if policy == MidTrendPolicy::Current { 1 } else { 2 };
    ensure!(f.maturity() == need, "mid trend {policy:?} needs {} updates", f.maturity());
    for (i, &x) in xs.iter().enumerate() {
        let out = f.update(x);
        let want = e.next(x);
        ensure!(out == want, "mid trend {policy:?} after {} advices ending in {:?}: {out:?}, expected {want:?}", i + 1, tail(&xs[..=i]));
        c.nontrivial_if(policy == MidTrendPolicy::Ignore && out != Advice::None);
    }
    Ok(())
}

fn g04_combine(c: &mut Case) -> Res {
    let (a, b) = (c.pick(&ADV), c.pick(&ADV));
    c.sample(|| format!("combine {a:?} {b:?}"));
    c.nontrivial_if(a != b);
    ensure!(combine(a, b) == combine_ref(a, b), "combine({a:?}, {b:?}) = {:?}", combine(a, b));
    Ok(())
}

// ---------------------------------------------------------------- B01

fn b01(c: &mut Case) -> Res {
    let (iv, buf) = match c.weighted(&[6, 2]) {
        _ if c.scale == Scale::Large => c.pick(&[(HOUR, cal::MONTH_MS), (HOUR, WEEK), (60_000, DAY), (HOUR, DAY), (2, 1_000), (60_000, HOUR)]),
        _ if c.scale == Scale::Marathon => c.pick(&[(1_000, DAY), (60_000, cal::MONTH_MS), (60_000, WEEK), (1, 100_000)]),
        0 => c.pick(&PAIRS),
        _ => c.pick(&[(1, 2), (1, 3), (2, 6), (5, 10), (HOUR, WEEK), (HOUR, cal::MONTH_MS), (60_000, HOUR)]),
    };
    let long = buf / iv;
    let cs = match c.scale {
        Scale::Small => stream(c, iv, buf, (long as usize * 4).clamp(20, 200)),
        Scale::Large => stream(c, iv, buf, (long as usize * 3).clamp(600, 5000)),
        Scale::Marathon => stream(c, iv, buf, (long as usize * 2).clamp(0, 210_000)),
    };
    c.sample(|| format!("{iv} -> {buf}: {}", dump_candles(&cs)));
    let e = aggregate(&cs, iv, buf);
    let mut b = BufferedCandle::new(Interval(iv), Some(Interval(buf)));
    let mut emitted = 0;
    for (i, k) in cs.iter().enumerate() {
        let out = b.buffer(k).map(|x| x.into_owned());
        let same = match (&out, &e[i]) {
            (None, None) => true,
            (Some(a), Some(b)) => {
                a.time == b.time
                    && a.open == b.open
                    && a.high == b.high
                    && a.low == b.low
                    && a.close == b.close
                    && (a.volume - b.volume).abs() <= 1e-6
            }
            _ => false,
        };
        ensure!(
            same,
            "aggregating {iv} -> {buf}, after candle {i}: got {out:?}, expected {:?}; stream {}",
            e[i],
            dump_candles(&cs[..=i])
        );
        emitted += e[i].is_some() as usize;
    }
    c.label_if(buf == cal::MONTH_MS, "month");
    c.label_if(buf == WEEK, "week");
    c.label_if(cs.windows(2).any(|w| w[1].time.0 - w[0].time.0 > iv), "gaps");
    c.nontrivial_if(emitted >= 2);
    Ok(())
}

fn b01_passthrough(c: &mut Case) -> Res {
    let iv = c.pick(&INTERVALS);
    let n = if c.scale == Scale::Small { 30 } else { 3000 };
    let cs = hist(c, iv, n);
    let opt = c.pick(&[None, Some(Interval(iv))]);
    c.sample(|| format!("{iv} -> {opt:?}: {}", dump_candles(&cs)));
    if c.chance(1, 8) {
        // windows shorter than the candles cannot be built from them
        let (iv, buf) = c.pick(&PAIRS);
        ensure!(quiet(|| BufferedCandle::new(Interval(buf), Some(Interval(iv)))).is_err(), "aggregating {buf} -> {iv} was accepted");
        ensure!(quiet(|| BufferedCandle::new(Interval(0), opt)).is_err(), "candles of interval 0 were accepted");
    }
    let mut b = BufferedCandle::new(Interval(iv), opt);
    for k in &cs {
        match b.buffer(k) {
            Some(x) => ensure!(*x == *k, "{k:?} passed through as {x:?}"),
            None => fail!("{k:?} was swallowed by a disabled buffer"),
        }
    }
    c.nontrivial_if(cs.len() > 1);
    Ok(())
}

fn main() {
    vharness::engine::main(vec![
        Prop {
            id: "G01",
            rule: "the advice changed at least twice",
            assumptions: &["indicator values are taken from the indicators themselves (decided by I01-I03)", "percentage threshold ties within 1e-9 left open"],
            subs: vec![sub("rules", 600_000, 25_000_000, g01), sub("rules_large", 6000, 500000, |c| large(c, g01)), sub("rules_marathon", 300, 6000, |c| marathon(c, g01))],
        },
        Prop {
            id: "G02",
            rule: "several different advices came out / the gate both blocked and passed / an oscillator extreme was reached",
            assumptions: &["inner signal, oscillator and indicators are the code's own (decided by G01, I02)", "streams avoid the documented 'too many missing candles' panic"],
            subs: vec![
                sub("sig", 300_000, 12_000_000, g02_sig), sub("sig_large", 5000, 200000, |c| large(c, g02_sig)), sub("sig_marathon", 150, 3000, |c| marathon(c, g02_sig)),
                sub("sigosc", 400_000, 16_000_000, g02_sigosc), sub("sigosc_large", 5000, 200000, |c| large(c, g02_sigosc)), sub("sigosc_marathon", 150, 3000, |c| marathon(c, g02_sigosc)),
                sub("oscillator", 300_000, 12_000_000, g02_osc), sub("oscillator_large", 4000, 150000, |c| large(c, g02_osc)), sub("oscillator_marathon", 100, 2000, |c| marathon(c, g02_osc)),
            ],
        },
        Prop {
            id: "G03",
            rule: "the history runs past the announced maturity / a position was opened",
            assumptions: &["a signal with its own candle buffer counts aggregated candles"],
            subs: vec![
                sub("maturity", 600_000, 25_000_000, g03), sub("maturity_large", 5000, 200000, |c| large(c, g03)), sub("maturity_marathon", 100, 2000, |c| marathon(c, g03)),
                sub("buffered", 100_000, 4_000_000, g03_buffered), sub("buffered_large", 2000, 80000, |c| large(c, g03_buffered)),
                sub("oscillator", 200_000, 8_000_000, g03_osc), sub("oscillator_large", 2000, 80000, |c| large(c, g03_osc)), sub("oscillator_marathon", 60, 1200, |c| marathon(c, g03_osc)),
                sub("trader", 400_000, 16_000_000, g03_trader), sub("trader_large", 3000, 100000, |c| large(c, g03_trader)),
            ],
        },
        Prop {
            id: "G04",
            rule: "the filter emitted a non-trivial advice (after a change / a persisted run / a mid-trend start)",
            assumptions: &[],
            subs: vec![
                sub("changed", 400_000, 20_000_000, g04_changed), sub("changed_large", 6000, 200000, |c| large(c, g04_changed)), sub("changed_marathon", 150, 3000, |c| marathon(c, g04_changed)),
                sub("persistence", 800_000, 40_000_000, g04_persistence), sub("persistence_large", 6000, 200000, |c| large(c, g04_persistence)), sub("persistence_marathon", 150, 3000, |c| marathon(c, g04_persistence)),
                sub("mid_trend", 400_000, 20_000_000, g04_midtrend), sub("mid_trend_large", 3000, 100000, |c| large(c, g04_midtrend)), sub("mid_trend_marathon", 60, 1200, |c| marathon(c, g04_midtrend)),
                sub("combine", 2_000, 20_000, g04_combine),
            ],
        },
        Prop {
            id: "B01",
            rule: "at least two aggregated candles came out",
            assumptions: &["candle times are multiples of the candle interval", "streams avoid the documented 'too many missing candles' panic (two windows ending at once)"],
            subs: vec![sub("aggregate", 400_000, 16_000_000, b01), sub("aggregate_large", 3000, 100000, |c| large(c, b01)), sub("aggregate_marathon", 40, 800, |c| marathon(c, b01)), sub("passthrough", 50_000, 1_000_000, b01_passthrough)],
        },
    ])
}
