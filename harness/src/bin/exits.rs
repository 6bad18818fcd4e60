//! S01, S02: stop loss and take profit definitions.
use juno::{
    easing::{tween, Easing},
    indicators::Adx,
    stop_loss::{StopLoss, StopLossParams},
    take_profit::{TakeProfit, TakeProfitParams},
    Candle, Timestamp,
};
use vharness::{engine::*, ensure, gens::*};

fn candle(c: &mut Case, i: usize, high: f64, low: f64, close: f64) -> Candle {
    let open = if c.chance(1, 4) { close } else { low + (high - low) * c.unit() };
    Candle { time: Timestamp(i as u64 * HOUR), open, high, low, close, volume: c.draw(99) as f64 }
}

/// Expected answer of "close at or beyond level"; None when too close to call.
fn at_most(close: f64, level: f64, exact: bool) -> Option<bool> {
    if !exact && (close - level).abs() <= 1e-9 * level.abs().max(close.abs()) {
        None
    } else {
        Some(close <= level)
    }
}
fn at_least(close: f64, level: f64, exact: bool) -> Option<bool> {
    at_most(-close, -level, exact)
}
fn or(a: Option<bool>, b: Option<bool>) -> Option<bool> {
    match (a, b) {
        (Some(true), _) | (_, Some(true)) => Some(true),
        (Some(false), Some(false)) => Some(false),
        _ => None,
    }
}

const DYADIC: [f64; 10] = [0.5, 0.25, 0.125, 0.75, 0.0625, 0.375, 0.9375, 0.03125, 0.0078125, 0.001953125];

/// Thresholds: exact mode uses dyadic fractions so that no rounding is involved.
fn set_thresholds(v: &mut serde_json::Value, c: &mut Case, exact: bool) {
    if !exact {
        return;
    }
    match v {
        serde_json::Value::Object(o) => {
            for (k, x) in o.iter_mut() {
                if x.is_object() || x.is_array() {
                    set_thresholds(x, c, exact);
                } else if k.ends_with("threshold") && x.is_f64() && x.as_f64() != Some(0.0) {
                    *x = serde_json::json!(c.pick(&DYADIC));
                }
            }
        }
        _ => {}
    }
}

struct Ref {
    entry: f64,
    high: f64,
    low: f64,
    close: f64,
    open: bool,
}
impl Ref {
    fn new() -> Self {
        Ref { entry: 0.0, high: 0.0, low: 0.0, close: 0.0, open: false }
    }
    fn update(&mut self, p: f64) {
        self.close = p;
        if self.open {
            self.high = self.high.max(p);
            self.low = self.low.min(p);
        }
    }
    fn clear(&mut self, p: f64) {
        self.open = true;
        self.entry = p;
        self.high = p;
        self.low = p;
    }
}

fn sl_expect(p: &StopLossParams, r: &Ref, exact: bool) -> (Option<bool>, Option<bool>) {
    let v = serde_json::to_value(p).unwrap();
    let f = |x: &serde_json::Value, k: &str| x[k].as_f64().unwrap();
    let fixed = |x: &serde_json::Value| {
        (
            at_most(r.close, r.entry * (1.0 - f(x, "up_threshold")), exact),
            at_least(r.close, r.entry * (1.0 + f(x, "down_threshold")), exact),
        )
    };
    let trailing = |x: &serde_json::Value| {
        (
            at_most(r.close, r.high * (1.0 - f(x, "up_threshold")), exact),
            at_least(r.close, r.low * (1.0 + f(x, "down_threshold")), exact),
        )
    };
    match v["type"].as_str().unwrap() {
        "Noop" => (Some(false), Some(false)),
        "Basic" => fixed(&v),
        "Trailing" => trailing(&v),
        "BasicPlusTrailing" => {
            let (a, b) = (fixed(&v["basic"]), trailing(&v["trailing"]));
            (or(a.0, b.0), or(a.1, b.1))
        }
        "Legacy" => {
            let t = f(&v, "threshold");
            if t == 0.0 {
                return (Some(false), Some(false));
            }
            let (u, d) = if v["trail"].as_bool().unwrap() { (r.high, r.low) } else { (r.entry, r.entry) };
            (at_most(r.close, u * (1.0 - t), exact), at_least(r.close, d * (1.0 + t), exact))
        }
        t => panic!("unknown stop loss {t}"),
    }
}

/// Next close: random, or aimed at / next to a relevant level.
fn next_close(c: &mut Case, r: &Ref, thrs: &[f64], exact: bool) -> f64 {
    if exact {
        // integer prices, multiples of 16 as entries: all levels are exact
        let k = 16.0 * (1 + c.draw(20)) as f64;
        if r.open && c.chance(2, 3) {
            let base = c.pick(&[r.entry, r.high, r.low]);
            let t = if thrs.is_empty() { 0.5 } else { c.pick(thrs) };
            let lv = if c.bool() { base * (1.0 - t) } else { base * (1.0 + t) };
            let x = lv + c.pick(&[0.0, 0.0, 1.0, -1.0]) * 0.0009765625;
            // levels of levels soon need more digits than there are: keep to a grid
            let fine = (x * 16384.0).fract() == 0.0 && x < 1048576.0 && (t * 512.0).fract() == 0.0;
            return if x > 0.0 && fine { x } else { k };
        }
        return k;
    }
    if r.open && c.chance(1, 2) {
        let base = c.pick(&[r.entry, r.high, r.low, r.close]);
        let t = if thrs.is_empty() { 0.5 } else { c.pick(thrs) };
        let f = c.pick(&[0.5, 0.98, 1.02, 1.5, 0.0]);
        let lv = if c.bool() { base * (1.0 - t * f) } else { base * (1.0 + t * f) };
        return if lv > 1e-9 { lv } else { base };
    }
    let base = if r.close > 0.0 { r.close } else { 100.0 };
    (base * (1.0 + c.f64(-0.3, 0.3))).clamp(1e-6, 1e9)
}

fn thresholds(v: &serde_json::Value, out: &mut Vec<f64>) {
    match v {
        serde_json::Value::Object(o) => {
            for (k, x) in o {
                if k.contains("threshold") {
                    if let Some(f) = x.as_f64() {
                        if f > 0.0 {
                            out.push(f)
                        }
                    }
                    if let Some(a) = x.as_array() {
                        out.extend(a.iter().filter_map(|x| x.as_f64()));
                    }
                } else {
                    thresholds(x, out);
                }
            }
        }
        _ => {}
    }
}

/// The first events of a history, for samples.
struct Trace(Vec<String>);
impl Trace {
    fn push(&mut self, s: String) {
        if self.0.len() < 200 {
            self.0.push(s)
        }
    }
}

fn s01(c: &mut Case) -> Res {
    let exact = c.bool();
    let p = stop_loss_params(c);
    let mut v = serde_json::to_value(p).unwrap();
    set_thresholds(&mut v, c, exact);
    let p: StopLossParams = serde_json::from_value(v.clone()).unwrap();
    let v = serde_json::to_value(p).unwrap();
    let mut thrs = vec![];
    thresholds(&v, &mut thrs);
    let mut sl: Box<dyn StopLoss> = p.construct();
    let mut r = Ref::new();
    let n = match c.scale {
        Scale::Small => c.usize(1, 30),
        Scale::Large => c.len(1, 1500),
        Scale::Marathon => c.len(1, 140_000),
    };
    let rare = c.pick(&[6, 40, 1000, 70_000]);
    let mut trace = Trace(vec![]);
    let (mut hits, mut opens) = (0, 0);
    for i in 0..n {
        let px = next_close(c, &r, &thrs, exact);
        let k = candle(c, i, px * 1.5, px * 0.5, px);
        sl.update(&k);
        r.update(px);
        trace.push(format!("{px}"));
        if r.open {
            let (u, d) = sl_expect(&p, &r, exact);
            let (au, ad) = (sl.upside_hit(), sl.downside_hit());
            if u == Some(true) || d == Some(true) {
                hits += 1;
            }
            if let Some(u) = u {
                ensure!(u == au, "{}: opened at {}, high {}, low {}, close {px}: long stop fires={au}, expected {u}", json(&p), r.entry, r.high, r.low);
            }
            if let Some(d) = d {
                ensure!(d == ad, "{}: opened at {}, high {}, low {}, close {px}: short stop fires={ad}, expected {d}", json(&p), r.entry, r.high, r.low);
            }
        }
        if !r.open || c.chance(1, if c.scale == Scale::Small || i < 300 { 6 } else { rare }) {
            sl.clear(&k);
            r.clear(px);
            opens += 1;
            trace.push("open".into());
        }
    }
    c.label(if exact { "exact" } else { "float" });
    c.label_if(hits > 0, "hit");
    c.label_if(opens > 1, "reopened");
    c.nontrivial_if(hits > 0 && opens > 1);
    c.sample(|| format!("{} closes: {}", json(&p), trace.0.join(" ")));
    Ok(())
}

/// The easing curves by name, straight from the easing library.
pub fn ease(e: Easing, x: f64) -> f64 {
    use ezing::*;
    match e {
        Easing::Linear => x,
        Easing::QuadIn => quad_in(x),
        Easing::QuadOut => quad_out(x),
        Easing::QuadInout => quad_inout(x),
        Easing::CubicIn => cubic_in(x),
        Easing::CubicOut => cubic_out(x),
        Easing::CubicInout => cubic_inout(x),
        Easing::QuartIn => quart_in(x),
        Easing::QuartOut => quart_out(x),
        Easing::QuartInout => quart_inout(x),
        Easing::QuintIn => quint_in(x),
        Easing::QuintOut => quint_out(x),
        Easing::QuintInout => quint_inout(x),
        Easing::SineIn => sine_in(x),
        Easing::SineOut => sine_out(x),
        Easing::SineInout => sine_inout(x),
        Easing::CircIn => circ_in(x),
        Easing::CircOut => circ_out(x),
        Easing::CircInout => circ_inout(x),
        Easing::ExpoIn => expo_in(x),
        Easing::ExpoOut => expo_out(x),
        Easing::ExpoInout => expo_inout(x),
        Easing::ElasticIn => elastic_in(x),
        Easing::ElasticOut => elastic_out(x),
        Easing::ElasticInout => elastic_inout(x),
        Easing::BackIn => back_in(x),
        Easing::BackOut => back_out(x),
        Easing::BackInout => back_inout(x),
        Easing::BounceIn => bounce_in(x),
        Easing::BounceOut => bounce_out(x),
        Easing::BounceInout => bounce_inout(x),
    }
}

fn s02_easing(c: &mut Case) -> Res {
    let e = c.pick(&EASINGS);
    let x = c.draw(1000) as f64 / 1000.0;
    let (a, b) = (tween(x, e), ease(e, x));
    c.nontrivial_if(x > 0.0 && x < 1.0);
    c.sample(|| format!("{e:?} at {x} -> {a}"));
    ensure!((a - b).abs() <= 1e-9, "easing {e:?} at {x}: {a}, expected {b}");
    // end points of every curve are 0 and 1
    ensure!((tween(0.0, e)).abs() < 1e-3 && (tween(1.0, e) - 1.0).abs() < 1e-3, "easing {e:?} does not run from 0 to 1");
    Ok(())
}

fn s02(c: &mut Case) -> Res {
    let trending = c.bool();
    let mut p = take_profit_params(c);
    if trending {
        while !matches!(p, TakeProfitParams::Trending(_)) {
            // bounded: forced below by construction
            p = TakeProfitParams::Trending(juno::take_profit::TrendingParams {
                up_thresholds: tp_pair(c),
                down_thresholds: tp_pair(c),
                period: if c.scale == Scale::Large { c.u32(1, 200) } else { c.u32(1, 6) },
                lock_threshold: c.bool(),
                easing: c.pick(&EASINGS),
            });
        }
    }
    let is_tr = matches!(p, TakeProfitParams::Trending(_));
    let exact = !is_tr && c.bool();
    let mut v = serde_json::to_value(p).unwrap();
    set_thresholds(&mut v, c, exact);
    let p: TakeProfitParams = serde_json::from_value(v.clone()).unwrap();
    let v = serde_json::to_value(p).unwrap();
    let mut thrs = vec![];
    thresholds(&v, &mut thrs);
    let mut tp: Box<dyn TakeProfit> = p.construct();
    let mut r = Ref::new();
    let n = match c.scale {
        Scale::Small => c.usize(1, if is_tr { 40 } else { 25 }),
        Scale::Large => c.len(1, 1500),
        Scale::Marathon => c.len(1, 140_000),
    };
    let mut adx = match p {
        TakeProfitParams::Trending(t) => Some((Adx::new(t.period), t, (f64::NAN, f64::NAN))),
        _ => None,
    };
    let (mut hits, mut opens, mut strong) = (0, 0, 0);
    let rare = c.pick(&[6, 40, 1000, 70_000]);
    let mut trace = Trace(vec![]);
    let mut shift = 0.0;
    let mut last = (1000.0, 990.0);
    for i in 0..n {
        // level thresholds move with the trend: aim at the current ones
        if let Some((_, _, (u, d))) = &adx {
            if u.is_finite() {
                thrs = vec![*u, *d];
            }
        }
        let px = next_close(c, &r, &thrs, exact);
        // highs/lows drive the trend strength independently of the close
        shift += c.pick(&[0.0, 1.0, -1.0, 2.0, 5.0]);
        let (hi, lo) = match c.weighted(&[8, 1, 1]) {
            0 => (1000.0 + shift + c.draw(3) as f64, 990.0 + shift - c.draw(3) as f64),
            // no range at all
            1 => (1000.0 + shift, 1000.0 + shift),
            // no movement
            _ => last,
        };
        last = (hi, lo);
        let k = candle(c, i, hi, lo, px);
        tp.update(&k);
        r.update(px);
        let (mut u, mut d) = (Some(false), Some(false));
        match &mut adx {
            Some((a, t, cur)) => {
                a.update(hi, lo);
                let at = |a: &Adx| {
                    let pr = ease(t.easing, a.value / 100.0);
                    let f = |(x, y): (f64, f64)| x * pr + y * (1.0 - pr);
                    (f(t.up_thresholds), f(t.down_thresholds))
                };
                if a.value > 0.0 {
                    strong += 1;
                }
                let now = at(a);
                ensure!(now.0.is_finite(), "trend strength is not finite");
                if !t.lock_threshold {
                    *cur = now;
                }
                if r.open {
                    u = at_least(px, r.entry * (1.0 + cur.0), false);
                    d = at_most(px, r.entry * (1.0 - cur.1), false);
                }
                trace.push(format!("{px}(adx {:.3})", a.value));
            }
            None => {
                let f = |k: &str| v[k].as_f64().unwrap();
                match v["type"].as_str().unwrap() {
                    "Noop" => {}
                    "Basic" => {
                        u = at_least(px, r.entry * (1.0 + f("up_threshold")), exact);
                        d = at_most(px, r.entry * (1.0 - f("down_threshold")), exact);
                    }
                    "Legacy" => {
                        let t = f("threshold");
                        if t > 0.0 {
                            u = at_least(px, r.entry * (1.0 + t), exact);
                            d = at_most(px, r.entry * (1.0 - t), exact);
                        }
                    }
                    t => panic!("unknown take profit {t}"),
                }
                trace.push(format!("{px}"));
            }
        }
        if r.open {
            let (au, ad) = (tp.upside_hit(), tp.downside_hit());
            if u == Some(true) || d == Some(true) {
                hits += 1;
            }
            if let Some(u) = u {
                ensure!(u == au, "{}: opened at {}, close {px}: long take profit fires={au}, expected {u} (thresholds {:?})", json(&p), r.entry, adx.as_ref().map(|x| x.2));
            }
            if let Some(d) = d {
                ensure!(d == ad, "{}: opened at {}, close {px}: short take profit fires={ad}, expected {d} (thresholds {:?})", json(&p), r.entry, adx.as_ref().map(|x| x.2));
            }
        }
        if !r.open || c.chance(1, if c.scale == Scale::Small || i < 300 { 6 } else { rare }) {
            tp.clear(&k);
            r.clear(px);
            opens += 1;
            trace.push("open".into());
            if let Some((a, t, cur)) = &mut adx {
                let pr = ease(t.easing, a.value / 100.0);
                let f = |(x, y): (f64, f64)| x * pr + y * (1.0 - pr);
                *cur = (f(t.up_thresholds), f(t.down_thresholds));
            }
        }
    }
    c.label(v["type"].as_str().map(|s| match s { "Trending" => "Trending", "Basic" => "Basic", "Legacy" => "Legacy", _ => "Noop" }).unwrap());
    c.label_if(hits > 0, "hit");
    c.label_if(opens > 1, "reopened");
    c.label_if(strong > 0, "trend strength > 0");
    c.nontrivial_if(hits > 0 && opens > 1 && (!is_tr || strong > 0));
    c.sample(|| format!("{} closes: {}", json(&p), trace.0.join(" ")));
    Ok(())
}

fn main() {
    vharness::engine::main(vec![
        Prop {
            id: "S01",
            rule: "a random stop loss fed 1-30 closes, many aimed exactly at or just beside a trigger level, with random (re)openings; non-trivial when it fired at least once and was reopened",
            assumptions: &["on non-dyadic numbers closes within 1e-9 of a level are not judged; dyadic cases are judged exactly"],
            subs: vec![sub("stop_loss", 2_000_000, 80_000_000, s01), sub("stop_loss_large", 20000, 1000000, |c| large(c, s01)), sub("stop_loss_marathon", 60, 1200, |c| marathon(c, s01))],
        },
        Prop {
            id: "S02",
            rule: "a random take profit fed 1-40 candles, many closes aimed at a trigger level, highs/lows driving trend strength; non-trivial when it fired and was reopened (and trend strength was positive)",
            assumptions: &["easing curves are those of the easing library by name", "trend strength is the library's ADX, itself decided by I02", "closes within 1e-9 of a level are not judged except on dyadic numbers"],
            subs: vec![sub("easing", 40_000, 40_000, s02_easing), sub("take_profit", 1_000_000, 40_000_000, s02), sub("take_profit_large", 20000, 1000000, |c| large(c, s02)), sub("take_profit_marathon", 60, 1200, |c| marathon(c, s02))],
        },
    ]);
}
