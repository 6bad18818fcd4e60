//! I01-I03: indicators against their textbook definitions.
use juno::indicators::*;
use vharness::{engine::*, ensure, gens::*};

// ---------------------------------------------------------------- reference definitions

fn mean(xs: &[f64]) -> f64 {
    xs.iter().sum::<f64>() / xs.len() as f64
}

/// Exponential average of xs seeded by `seed`, as an explicit weighted sum.
fn ema_from(seed: f64, xs: &[f64], a: f64) -> f64 {
    let n = xs.len();
    let mut s = seed * (1.0 - a).powi(n as i32);
    let mut w = a;
    for x in xs.iter().rev() {
        s += w * x;
        w *= 1.0 - a;
    }
    s
}
/// EMA seeded with the first value.
fn ema(xs: &[f64], a: f64) -> f64 {
    ema_from(xs[0], &xs[1..], a)
}
fn alpha(p: u32) -> f64 {
    2.0 / (p as f64 + 1.0)
}
/// Wilder average: mean of the first p, then (prev*(p-1)+x)/p. All steps, None before p inputs.
fn wilder(xs: &[f64], p: usize) -> Vec<Option<f64>> {
    let mut out = vec![None; xs.len()];
    let mut v = 0.0;
    for i in 0..xs.len() {
        if i + 1 < p {
            continue;
        }
        v = if i + 1 == p { mean(&xs[..p]) } else { (v * (p as f64 - 1.0) + xs[i]) / p as f64 };
        out[i] = Some(v);
    }
    out
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Alma,
    Dema,
    Ema,
    Ema2,
    Kama,
    Sma,
    Smma,
}

#[derive(Clone, Debug)]
struct Spec {
    kind: Kind,
    p: usize,
    smoothing: Option<f64>,
    offset: f64,
    sigma: Option<u32>,
}

fn spec(c: &mut Case) -> (Spec, MAParams) {
    let p = match c.weighted(&[5, 2, 1]) {
        0 => c.u32(1, 12),
        1 => c.u32(1, 50),
        _ => c.u32(50, 320),
    };
    let kind = c.pick(&[Kind::Alma, Kind::Dema, Kind::Ema, Kind::Ema2, Kind::Kama, Kind::Sma, Kind::Smma]);
    let mut s = Spec { kind, p: p as usize, smoothing: None, offset: 0.85, sigma: None };
    let m = match kind {
        Kind::Alma => {
            if c.bool() {
                s.offset = c.f64(0.01, 0.99);
            }
            if c.bool() {
                let top = c.pick(&[20, 20, 100]);
                s.sigma = Some(c.u32(1, top));
            }
            MAParams::Alma(AlmaParams { period: p, offset: s.offset, sigma: s.sigma })
        }
        Kind::Dema => MAParams::Dema(DemaParams { period: p }),
        Kind::Ema => {
            if c.chance(1, 3) {
                s.smoothing = Some(if c.chance(1, 6) { 1.0 } else { c.f64(0.001, 1.0) });
            }
            MAParams::Ema(EmaParams { period: p, smoothing: s.smoothing })
        }
        Kind::Ema2 => MAParams::Ema2(Ema2Params { period: p }),
        Kind::Kama => MAParams::Kama(KamaParams { period: p }),
        Kind::Sma => MAParams::Sma(SmaParams { period: p }),
        Kind::Smma => MAParams::Smma(SmmaParams { period: p }),
    };
    (s, m)
}

impl Spec {
    /// Inputs needed, by definition.
    fn needs(&self) -> usize {
        match self.kind {
            Kind::Alma | Kind::Ema | Kind::Ema2 | Kind::Sma => self.p,
            Kind::Dema => 2 * self.p - 1,
            Kind::Kama | Kind::Smma => self.p + 1,
        }
    }
    /// The average of the whole history so far.
    fn value(&self, xs: &[f64]) -> f64 {
        let p = self.p;
        let n = xs.len();
        let a = self.smoothing.unwrap_or(alpha(p as u32));
        match self.kind {
            Kind::Sma => mean(&xs[n - p..]),
            Kind::Ema => ema(xs, a),
            Kind::Ema2 => ema_from(mean(&xs[..p]), &xs[p..], a),
            Kind::Smma => wilder(xs, p)[n - 1].unwrap(),
            Kind::Dema => {
                let e1: Vec<f64> = (p..=n).map(|i| ema(&xs[..i], a)).collect();
                2.0 * e1[e1.len() - 1] - ema(&e1, a)
            }
            Kind::Kama => {
                let mut v = xs[p - 1];
                for i in p..n {
                    let sum: f64 = (i + 1 - p..=i).map(|j| (xs[j] - xs[j - 1]).abs()).sum();
                    let er = if sum == 0.0 { 1.0 } else { (xs[i] - xs[i - p]).abs() / sum };
                    let (s, l) = (2.0 / 3.0, 2.0 / 31.0);
                    let sc = er * (s - l) + l;
                    v += sc * sc * (xs[i] - v);
                }
                v
            }
            Kind::Alma => {
                let sigma = self.sigma.unwrap_or((p as f64 / 1.5).floor() as u32) as f64;
                let m = (self.offset * (p as f64 - 1.0)).floor();
                let s = p as f64 / sigma;
                let w: Vec<f64> = (0..p).map(|i| (-(i as f64 - m).powi(2) / (2.0 * s * s)).exp()).collect();
                let tot: f64 = w.iter().sum();
                xs[n - p..].iter().zip(&w).map(|(x, w)| x * w).sum::<f64>() / tot
            }
        }
    }
}

fn history(c: &mut Case, p: usize) -> Vec<f64> {
    let n = if p > 40 { c.usize(p, p * 2 + 30) } else { c.usize(1, 90) };
    let wild = c.chance(1, 6);
    let mut xs: Vec<f64> = bars(c, n, wild).iter().map(|b| b.3).collect();
    // averages are also taken of differences and oscillators: negative values and zeros
    if c.chance(1, 6) {
        let base = xs[0];
        let zeros = c.u32(0, 3);
        for x in xs.iter_mut() {
            *x -= base;
            if c.chance(zeros as u64, 4) {
                *x = 0.0;
            }
        }
        // on a grid: changes are zero or well above rounding
        let g = max_abs(&xs) / 1048576.0;
        if g > 0.0 {
            xs.iter_mut().for_each(|x| *x = (*x / g).round() * g);
        }
        c.label("signed series");
    }
    xs
}
fn max_abs(xs: &[f64]) -> f64 {
    xs.iter().fold(0.0f64, |a, b| a.max(b.abs()))
}
fn near(a: f64, b: f64, scale: f64) -> bool {
    a.is_finite() && (a - b).abs() <= 1e-9 * scale
}

fn i01(c: &mut Case) -> Res {
    let (s, params) = spec(c);
    let xs = history(c, s.p);
    c.sample(|| format!("{} on {} prices {:?}", json(&params), xs.len(), &xs[..xs.len().min(6)]));
    let mut ma = params.construct();
    let scale = max_abs(&xs);
    let k = c.pick(&[0.5, 2.0, 10.0, 0.037]);
    let b = c.pick(&[0.0, 1.0, 100.0]);
    // a shift could swallow the changes of a series around zero
    let b = if xs.iter().any(|x| *x <= 0.0) { 0.0 } else { b };
    let mut other = params.construct();
    let stride = if xs.len() > 100 { 17 } else { 1 };
    for n in 1..=xs.len() {
        ma.update(xs[n - 1]);
        other.update(xs[n - 1] * k + b);
        if n < s.needs() {
            continue;
        }
        c.nontrivial_if(n >= s.needs() + 2 && s.p > 1);
        let v = ma.value();
        // bounds
        if s.kind != Kind::Dema {
            let w = match s.kind {
                Kind::Sma | Kind::Alma => &xs[n - s.p..n],
                _ => &xs[..n],
            };
            let lo = w.iter().cloned().fold(f64::INFINITY, f64::min);
            let hi = w.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
            ensure!(
                v >= lo - 1e-9 * scale && v <= hi + 1e-9 * scale,
                "{} at step {n}: {v} outside the price range {lo}..{hi}",
                json(&params)
            );
        }
        // linearity
        ensure!(
            near(other.value(), v * k + b, scale * k + b + scale),
            "{} at step {n}: on prices*{k}+{b} gives {} instead of {}",
            json(&params),
            other.value(),
            v * k + b
        );
        if n == s.needs() || n == xs.len() || n % stride == 0 {
            let e = s.value(&xs[..n]);
            ensure!(near(v, e, scale), "{} at step {n} of {:?}: {v}, definition gives {e}", json(&params), xs);
        }
    }
    c.label(match s.kind {
        Kind::Alma => "alma",
        Kind::Dema => "dema",
        Kind::Ema => "ema",
        Kind::Ema2 => "ema2",
        Kind::Kama => "kama",
        Kind::Sma => "sma",
        Kind::Smma => "smma",
    });
    // a constant series yields that constant
    let q = xs[0];
    let mut m = params.construct();
    for n in 1..=s.needs() + 3 {
        m.update(q);
        ensure!(
            n < s.needs() || near(m.value(), q, q.abs()),
            "{} of the constant {q} at step {n} is {}",
            json(&params),
            m.value()
        );
    }
    Ok(())
}

/// Long histories: no drift of running state.
fn i01_long(c: &mut Case) -> Res {
    let (s, params) = spec(c);
    let wild = c.chance(1, 3);
    let n = if c.scale == Scale::Marathon { c.usize(65_600, 140_000) } else { c.usize(660, 3000) };
    let xs: Vec<f64> = bars(c, n, wild).iter().map(|b| b.3).collect();
    c.sample(|| format!("{} on {n} prices", json(&params)));
    let mut ma = params.construct();
    for (i, x) in xs.iter().enumerate() {
        ma.update(*x);
        ensure!(i + 1 < s.needs() || ma.value().is_finite(), "{} after {} of {n} prices is {}", json(&params), i + 1, ma.value());
    }
    c.nontrivial_if(s.p > 1);
    // exponential kinds forget: definition on the last part of the history suffices only for
    // windowed kinds, the others get the whole history
    let e = match s.kind {
        Kind::Dema => {
            let a = alpha(s.p as u32);
            let (mut e1, mut e2) = (xs[0], 0.0);
            for (i, x) in xs.iter().enumerate() {
                if i > 0 {
                    e1 += (x - e1) * a;
                }
                if i + 1 == s.p {
                    e2 = e1;
                } else if i + 1 > s.p {
                    e2 += (e1 - e2) * a;
                }
            }
            2.0 * e1 - e2
        }
        _ => s.value(&xs),
    };
    ensure!(near(ma.value(), e, max_abs(&xs)), "{} after {n} prices: {}, definition gives {e}", json(&params), ma.value());
    Ok(())
}

// ---------------------------------------------------------------- I02

type Bar = (f64, f64, f64, f64);

fn small_period(c: &mut Case) -> u32 {
    if c.scale == Scale::Large {
        return c.u32(1, 200);
    }
    match c.weighted(&[6, 2]) {
        0 => c.u32(1, 8),
        _ => c.u32(1, 40),
    }
}

fn osc_bars(c: &mut Case) -> Vec<Bar> {
    let n = match c.scale {
        Scale::Small => c.usize(1, 120),
        Scale::Large => {
            let m = c.pick(&[300, 800, 2000]);
            c.len(1, m)
        }
        Scale::Marathon => c.len(1, 140_000),
    };
    let wild = c.chance(1, 6);
    let mut bs = bars(c, n, wild);
    // splice a completely flat stretch into some histories
    if c.chance(1, 3) {
        let at = c.usize(0, bs.len() - 1);
        let len = if c.scale == Scale::Small { c.usize(1, 40) } else { c.usize(1, 400) };
        let q = bs[at].0;
        for b in bs.iter_mut().skip(at).take(len) {
            *b = (q, q, q, q);
        }
        c.label("flat stretch");
    }
    bs
}

fn head<T>(xs: &[T]) -> &[T] {
    &xs[..xs.len().min(60)]
}
fn in_range(v: f64) -> bool {
    v.is_finite() && v >= -1e-9 && v <= 100.0 + 1e-9
}

/// Smoothed moves fainter than this have left the precise range of doubles.
const FAINT: f64 = 1e-250;

/// The exponential average of every prefix.
fn ema_all(xs: &[f64], a: f64) -> Vec<f64> {
    let mut out: Vec<f64> = Vec::with_capacity(xs.len());
    for x in xs {
        let v = out.last().map_or(*x, |p| p * (1.0 - a) + x * a);
        out.push(v);
    }
    out
}

fn rsi_case(c: &mut Case) -> Res {
    let p = small_period(c) as usize;
    let bs = osc_bars(c);
    let xs: Vec<f64> = bs.iter().map(|b| b.3).collect();
    c.sample(|| format!("rsi({p}) on {:?}", &xs[..xs.len().min(20)]));
    let ups: Vec<f64> = xs.windows(2).map(|w| (w[1] - w[0]).max(0.0)).collect();
    let downs: Vec<f64> = xs.windows(2).map(|w| (w[0] - w[1]).max(0.0)).collect();
    let (u, d) = (wilder(&ups, p), wilder(&downs, p));
    let mut rsi = Rsi::new(p as u32);
    for n in 1..=xs.len() {
        rsi.update(xs[n - 1]);
        ensure!(in_range(rsi.value), "rsi({p}) at step {n} of {:?} is {}", head(&xs), rsi.value);
        if n > p {
            let (u, d) = (u[n - 2].unwrap(), d[n - 2].unwrap());
            if u + d != 0.0 && u + d < FAINT {
                c.label("underflow");
                continue;
            }
            let e = if u + d == 0.0 { 0.0 } else { 100.0 * u / (u + d) };
            c.nontrivial_if(u > 0.0 && d > 0.0);
            c.label_if(u + d == 0.0, "flat");
            ensure!((rsi.value - e).abs() <= 1e-7, "rsi({p}) at step {n} of {:?}: {}, definition gives {e}", head(&xs), rsi.value);
        }
    }
    Ok(())
}

fn stoch_case(c: &mut Case) -> Res {
    let top = if c.scale == Scale::Large { 100 } else { 6 };
    let (k, ks, ds) = (small_period(c) as usize, c.usize(1, top), c.usize(1, top));
    let bs = osc_bars(c);
    c.sample(|| format!("stoch({k},{ks},{ds}) on {:?}", &bs[..bs.len().min(10)]));
    let mut fast: Vec<f64> = vec![];
    for n in k..=bs.len() {
        let w = &bs[n - k..n];
        let hi = w.iter().fold(f64::NEG_INFINITY, |a, b| a.max(b.1));
        let lo = w.iter().fold(f64::INFINITY, |a, b| a.min(b.2));
        fast.push(if hi == lo { 0.0 } else { 100.0 * (bs[n - 1].3 - lo) / (hi - lo) });
    }
    let mut s = Stoch::new(k as u32, ks as u32, ds as u32);
    for n in 1..=bs.len() {
        let b = bs[n - 1];
        s.update(b.1, b.2, b.3);
        ensure!(in_range(s.k) && in_range(s.d), "stoch({k},{ks},{ds}) at step {n} of {:?}: k={} d={}", head(&bs), s.k, s.d);
        if n >= k + ks + ds - 2 {
            let m = n - k + 1; // number of fast values
            if c.scale == Scale::Large && n % 7 != 0 && n + 3 < bs.len() && n > k + ks + ds {
                continue;
            }
            let slow = |m: usize| mean(&fast[m - ks..m]);
            let ek = slow(m);
            let ed = (0..ds).map(|i| slow(m - i)).sum::<f64>() / ds as f64;
            c.nontrivial_if(ek > 0.0 && ek < 100.0);
            ensure!(
                (s.k - ek).abs() <= 1e-6 && (s.d - ed).abs() <= 1e-6,
                "stoch({k},{ks},{ds}) at step {n} of {:?}: k={} d={}, definition gives k={ek} d={ed}",
                head(&bs),
                s.k,
                s.d
            );
        }
    }
    Ok(())
}

fn macd_case(c: &mut Case) -> Res {
    let (s, l) = if c.chance(1, 5) {
        // the conventional pairs: only 12/26 has smoothing factors of its own
        c.pick(&[(12, 26), (12, 26), (12, 26), (24, 52), (5, 35), (8, 17), (12, 25), (13, 26), (6, 13), (3, 10), (19, 39), (26, 26), (12, 12)])
    } else {
        let a = small_period(c);
        let b = small_period(c);
        (a.min(b), a.max(b))
    };
    let g = if c.scale == Scale::Large { c.u32(1, 150) } else { c.u32(1, 12) };
    let xs: Vec<f64> = osc_bars(c).iter().map(|b| b.3).collect();
    c.sample(|| format!("macd({s},{l},{g}) on {} prices", xs.len()));
    let (sa, la) = if (s, l) == (12, 26) { (0.15, 0.075) } else { (alpha(s), alpha(l)) };
    let scale = max_abs(&xs);
    let mut m = Macd::new(s, l, g);
    let (es, el) = (ema_all(&xs, sa), ema_all(&xs, la));
    let values: Vec<f64> = (l as usize..=xs.len()).map(|n| es[n - 1] - el[n - 1]).collect();
    let signals = ema_all(&values, alpha(g));
    for n in 1..=xs.len() {
        m.update(xs[n - 1]);
        ensure!(m.value.is_finite() && m.signal.is_finite() && m.histogram.is_finite(), "macd not finite at step {n}");
        if n >= l as usize {
            let e = values[n - l as usize];
            ensure!(near(m.value, e, scale), "macd({s},{l},{g}) value at step {n} of {:?}: {}, definition {e}", head(&xs), m.value);
        }
        if n + 1 >= (l + g) as usize {
            c.nontrivial_if(s != l);
            let e = signals[n - l as usize];
            let h = values[n - l as usize] - e;
            ensure!(
                near(m.signal, e, scale) && near(m.histogram, h, scale),
                "macd({s},{l},{g}) at step {n} of {:?}: signal {} histogram {}, definition {e} {h}",
                head(&xs),
                m.signal,
                m.histogram
            );
        }
    }
    Ok(())
}

fn directional(c: &mut Case) -> Res {
    let p = small_period(c) as usize;
    let bs = osc_bars(c);
    c.sample(|| format!("dm/di/dx/adx({p}) on {:?}", &bs[..bs.len().min(10)]));
    let dmv: Vec<(f64, f64)> = bs
        .windows(2)
        .map(|w| {
            let up = w[1].1 - w[0].1;
            let down = w[0].2 - w[1].2;
            let plus = if up > 0.0 && up >= down { up } else { 0.0 };
            let minus = if down > 0.0 && down >= up { down } else { 0.0 };
            (plus, minus)
        })
        .collect();
    let trv: Vec<f64> = bs
        .windows(2)
        .map(|w| {
            let pc = w[0].3;
            (w[1].1 - w[1].2).max((w[1].1 - pc).abs()).max((w[1].2 - pc).abs())
        })
        .collect();
    // Wilder sums: first p-1 values summed, then prev * (p-1)/p + new; index 0 is after p bars
    let wsum = |xs: &[f64]| -> Vec<f64> {
        if xs.len() + 1 < p {
            return vec![];
        }
        let mut s: f64 = xs[..p - 1].iter().sum();
        let mut out = vec![s];
        for x in &xs[p - 1..] {
            s = s * (p as f64 - 1.0) / p as f64 + x;
            out.push(s);
        }
        out
    };
    let (dp, dmn): (Vec<f64>, Vec<f64>) = (dmv.iter().map(|x| x.0).collect(), dmv.iter().map(|x| x.1).collect());
    let (mut dm, mut di, mut dx, mut adx) = (DM::new(p as u32), DI::new(p as u32), DX::new(p as u32), Adx::new(p as u32));
    let (wp, wm, wt) = (wsum(&dp), wsum(&dmn), wsum(&trv));
    let dxs: Vec<f64> = wp.iter().zip(&wm).map(|(a, b)| if a + b == 0.0 { 0.0 } else { 100.0 * (a - b).abs() / (a + b) }).collect();
    let adxs = wilder(&dxs, p);
    let scale = bs.iter().fold(0.0f64, |a, b| a.max(b.1));
    let mut faint = false;
    for n in 1..=bs.len() {
        let b = bs[n - 1];
        dm.update(b.1, b.2);
        di.update(b.1, b.2, b.3);
        dx.update(b.1, b.2);
        adx.update(b.1, b.2);
        for (nm, v) in [("dm+", dm.plus_value), ("dm-", dm.minus_value), ("di+", di.plus_value), ("di-", di.minus_value)] {
            ensure!(v.is_finite() && v >= 0.0, "{nm}({p}) at step {n} of {bs:?} is {v}");
        }
        ensure!(in_range(dx.value) && in_range(adx.value), "dx({p}) {} adx {} at step {n} of {:?}", dx.value, adx.value, head(&bs));
        if n < p {
            continue;
        }
        let (pl, mi, tr) = (wp[n - p], wm[n - p], wt[n - p]);
        ensure!(
            near(dm.plus_value, pl, scale) && near(dm.minus_value, mi, scale),
            "dm({p}) at step {n} of {:?}: +{} -{}, definition +{pl} -{mi}", head(&bs), dm.plus_value,
            dm.minus_value
        );
        ensure!(
            near(dm.diff(), (pl - mi).abs(), scale) && near(dm.sum(), pl + mi, scale),
            "dm({p}) diff/sum at step {n}: {} {}",
            dm.diff(),
            dm.sum()
        );
        if pl + mi != 0.0 && pl + mi < FAINT || tr != 0.0 && tr < FAINT {
            faint = true;
            c.label("underflow");
            continue;
        }
        let f = |x: f64| if tr == 0.0 { 0.0 } else { 100.0 * x / tr };
        ensure!(
            near(di.plus_value, f(pl), f(pl).max(1.0)) && near(di.minus_value, f(mi), f(mi).max(1.0)),
            "di({p}) at step {n} of {:?}: +{} -{}, definition +{} -{}", head(&bs), di.plus_value,
            di.minus_value,
            f(pl),
            f(mi)
        );
        let e = dxs[n - p];
        ensure!((dx.value - e).abs() <= 1e-7, "dx({p}) at step {n} of {:?}: {}, definition {e}", head(&bs), dx.value);
        if n >= 2 * p - 1 && !faint {
            let e = adxs[n - p].unwrap();
            c.nontrivial_if(n >= 2 * p && e > 0.0 && e < 100.0);
            ensure!((adx.value - e).abs() <= 1e-6, "adx({p}) at step {n} of {:?}: {}, definition {e}", head(&bs), adx.value);
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- I03

fn maturity(c: &mut Case) -> Res {
    let which = c.usize(0, 7);
    let bs = {
        let n = match c.scale {
            Scale::Small => c.usize(1, 60),
            Scale::Large => c.len(1, 700),
            Scale::Marathon => c.len(1, 140_000),
        };
        bars(c, n, false)
    };
    let p = small_period(c);
    // (name, announced, definition, mature flag after every update)
    let mut flags = vec![];
    let (name, announced, before, needs): (String, u32, bool, u32) = match which {
        0 => {
            let (s, params) = spec(c);
            let mut m = params.construct();
            let (a, b) = (m.maturity(), m.mature());
            // use exactly the number of inputs around maturity
            let total = if c.scale == Scale::Marathon { bs.len() } else { s.needs() + c.usize(0, 5) };
            for i in 0..total {
                m.update(bs[i % bs.len()].3);
                flags.push(m.mature());
                ensure!(m.maturity() == a, "{} maturity changed", json(&params));
            }
            ensure!(params.period() == s.p as u32, "{} reports period {}", json(&params), params.period());
            (json(&params), a, b, s.needs() as u32)
        }
        1 => {
            let mut m = Rsi::new(p);
            let r = (m.maturity(), m.mature());
            for b in &bs {
                m.update(b.3);
                flags.push(m.mature());
            }
            (format!("rsi({p})"), r.0, r.1, p + 1)
        }
        2 => {
            let (k, d) = if c.scale == Scale::Large { (c.u32(1, 150), c.u32(1, 150)) } else { (c.u32(1, 6), c.u32(1, 6)) };
            let mut m = Stoch::new(p, k, d);
            let r = (m.maturity(), m.mature());
            for b in &bs {
                m.update(b.1, b.2, b.3);
                flags.push(m.mature());
            }
            (format!("stoch({p},{k},{d})"), r.0, r.1, p + k + d - 2)
        }
        3 => {
            let (q, g) = (small_period(c), if c.scale == Scale::Large { c.u32(1, 150) } else { c.u32(1, 12) });
            let mut m = Macd::new(p.min(q), p.max(q), g);
            let r = (m.maturity(), m.mature());
            for b in &bs {
                m.update(b.3);
                flags.push(m.mature());
            }
            (format!("macd({},{},{g})", p.min(q), p.max(q)), r.0, r.1, p.max(q) + g - 1)
        }
        4 => {
            let mut m = DM::new(p);
            let r = (m.maturity(), m.mature());
            for b in &bs {
                m.update(b.1, b.2);
                flags.push(m.mature());
            }
            (format!("dm({p})"), r.0, r.1, p)
        }
        5 => {
            let mut m = DI::new(p);
            let r = (m.maturity(), m.mature());
            for b in &bs {
                m.update(b.1, b.2, b.3);
                flags.push(m.mature());
            }
            (format!("di({p})"), r.0, r.1, p)
        }
        6 => {
            let mut m = DX::new(p);
            let r = (m.maturity(), m.mature());
            for b in &bs {
                m.update(b.1, b.2);
                flags.push(m.mature());
            }
            (format!("dx({p})"), r.0, r.1, p)
        }
        _ => {
            let mut m = Adx::new(p);
            let r = (m.maturity(), m.mature());
            for b in &bs {
                m.update(b.1, b.2);
                flags.push(m.mature());
            }
            (format!("adx({p})"), r.0, r.1, 2 * p)
        }
    };
    c.sample(|| format!("{name} over {} inputs", flags.len()));
    c.nontrivial_if(flags.iter().any(|x| *x) && flags.iter().any(|x| !*x));
    ensure!(announced == needs, "{name} announces {announced} inputs, its definition needs {needs}");
    ensure!(!before, "{name} is mature without any input");
    for (i, f) in flags.iter().enumerate() {
        let n = i as u32 + 1;
        ensure!(*f == (n >= announced), "{name} announced {announced} inputs but mature()={f} after {n}");
    }
    Ok(())
}

fn adler(s: &str) -> u32 {
    let (mut a, mut b) = (1u64, 0u64);
    for x in s.bytes() {
        a = (a + x as u64) % 65521;
        b = (b + a) % 65521;
    }
    (b << 16 | a) as u32
}

fn lookup(c: &mut Case) -> Res {
    let p = small_period(c);
    let (name, params) = c.pick(&[
        ("alma", MAParams::Alma(AlmaParams { period: p, offset: 0.85, sigma: None })),
        ("dema", MAParams::Dema(DemaParams { period: p })),
        ("ema", MAParams::Ema(EmaParams { period: p, smoothing: None })),
        ("ema2", MAParams::Ema2(Ema2Params { period: p })),
        ("kama", MAParams::Kama(KamaParams { period: p })),
        ("sma", MAParams::Sma(SmaParams { period: p })),
        ("smma", MAParams::Smma(SmmaParams { period: p })),
    ]);
    let n = if c.scale == Scale::Large { c.len(1, 1000) } else { c.usize(1, 100) };
    let xs: Vec<f64> = bars(c, n, false).iter().map(|b| b.3).collect();
    c.sample(|| format!("{name} period {p} code {} over {n} prices", adler(name)));
    let mut a = ma_from_adler32(adler(name), p);
    let mut b = params.construct();
    ensure!(params.period() == p, "{} reports period {}", json(&params), params.period());
    ensure!(a.maturity() == b.maturity(), "{name}({p}) maturity {} by code, {} by name", a.maturity(), b.maturity());
    for (i, x) in xs.iter().enumerate() {
        a.update(*x);
        b.update(*x);
        c.nontrivial_if(a.mature());
        ensure!(
            a.mature() == b.mature() && (!a.mature() || near(a.value(), b.value(), max_abs(&xs))),
            "{name}({p}) at step {}: {} by code, {} by name",
            i + 1,
            a.value(),
            b.value()
        );
    }
    // a code that stands for no average is refused instead of standing for another one
    let known = ["alma", "dema", "ema", "ema2", "kama", "sma", "smma"].map(adler);
    let code = match c.draw(3) {
        0 => adler(c.pick(&["wma", "hma", "vwap", "macd", "rsi", "adx", "ALMA", "EMA", "SMA", ""])),
        1 => {
            let k = c.pick(&known);
            let bit = c.u32(0, 31);
            k ^ (1 << bit)
        }
        2 => c.u32(0, 200),
        _ => c.u32(0, u32::MAX),
    };
    if !known.contains(&code) && c.chance(1, 8) {
        ensure!(quiet(|| ma_from_adler32(code, p)).is_err(), "code {code} stands for no average but was accepted");
    }
    // randomly generated averages keep the period they were asked for
    let g = c.std_rng().gen_ma_params(p);
    ensure!(g.period() == p, "generated {} for period {p}", json(&g));
    let back: MAParams = serde_json::from_str(&json(&g)).map_err(|e| Fail::Msg(e.to_string()))?;
    ensure!(json(&back) == json(&g) && back.period() == p, "{} read back as {}", json(&g), json(&back));
    Ok(())
}

fn main() {
    vharness::engine::main(vec![
        Prop {
            id: "I01",
            rule: "the average (period > 1) was compared with its definition at least two steps past maturity",
            assumptions: &["prices are positive and finite", "comparison within 1e-9 of the largest price seen"],
            subs: vec![sub("moving_average", 1_500_000, 4_000_000, i01), sub("long", 60_000, 100_000, i01_long), sub("long_marathon", 100, 2000, |c| marathon(c, i01_long))],
        },
        Prop {
            id: "I02",
            rule: "the oscillator was mature and strictly inside its range (both gains and losses seen)",
            assumptions: &["bars satisfy low <= open, close <= high", "0/0 counts as 0, equal up and down moves count for both (Tulip)"],
            subs: vec![
                sub("rsi", 2_000_000, 5_000_000, rsi_case), sub("rsi_large", 6000, 200000, |c| large(c, rsi_case)), sub("rsi_marathon", 80, 1600, |c| marathon(c, rsi_case)),
                sub("stoch", 2_000_000, 5_000_000, stoch_case), sub("stoch_large", 4000, 100000, |c| large(c, stoch_case)), sub("stoch_marathon", 60, 1200, |c| marathon(c, stoch_case)),
                sub("macd", 1_000_000, 2_000_000, macd_case), sub("macd_large", 6000, 200000, |c| large(c, macd_case)), sub("macd_marathon", 80, 1600, |c| marathon(c, macd_case)),
                sub("directional", 500_000, 3_000_000, directional), sub("directional_large", 5000, 150000, |c| large(c, directional)), sub("directional_marathon", 80, 1600, |c| marathon(c, directional)),
            ],
        },
        Prop {
            id: "I03",
            rule: "the input sequence crossed the maturity boundary / the looked-up average became mature",
            assumptions: &[],
            subs: vec![sub("maturity", 3_000_000, 10_000_000, maturity), sub("maturity_large", 20000, 800000, |c| large(c, maturity)), sub("maturity_marathon", 100, 2000, |c| marathon(c, maturity)), sub("lookup", 1_500_000, 8_000_000, lookup), sub("lookup_large", 6000, 300000, |c| large(c, lookup))],
        },
    ])
}
