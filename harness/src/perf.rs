//! Reference portfolio performance: holdings per period from all trades, returns, ratios and their noise.
use juno::trading::{Position, TradingSummary};

pub fn times(p: &Position) -> (u64, u64) {
    match p {
        Position::Long(p) => (p.open_time.0, p.close_time.0),
        Position::Short(p) => (p.open_time.0, p.close_time.0),
    }
}
pub struct Ref {
    pub annual: f64,
    pub sharpe: f64,
    pub sortino: f64,
    pub noise: f64,
    pub sd: f64,
    pub nsd: f64,
    pub losing: usize,
    pub doubtful_sign: bool,
    pub undefined: bool,
    pub periods: usize,
    pub zero: bool,
}

pub fn reference(s: &TradingSummary, base: &[f64], quote: &[f64], iv: u64) -> Ref {
    let start = s.start.0 / iv * iv;
    let end = s.end.0 / iv * iv;
    let n = ((end - start) / iv) as usize;
    // holdings at the end of every period, from all trades up to then
    let mut perf = vec![s.quote * quote[0]];
    let mut kappa: f64 = 1.0;
    // periods in which nothing at all happens have a return of exactly zero
    let mut idle = vec![];
    for i in 0..n {
        let from = start + i as u64 * iv;
        let until = start + (i as u64 + 1) * iv;
        let (mut q, mut b) = (s.quote, 0.0);
        let mut qm = s.quote.abs();
        let mut bm = 0.0;
        // whether base is held: closed positions may leave a remainder
        let mut holds = false;
        for p in &s.positions {
            let (o, k) = times(p);
            let (dq_open, db_open, dq_close, db_close) = match p {
                Position::Long(p) => (
                    -p.open_fills[0].quote,
                    p.open_fills[0].size - p.open_fills[0].fee,
                    p.close_fills[0].quote - p.close_fills[0].fee,
                    -p.close_fills[0].size,
                ),
                // sold base is owed until bought back
                Position::Short(p) => (p.open_fills[0].quote - p.open_fills[0].fee, -p.borrowed, -p.close_fills[0].quote, p.borrowed),
            };
            if o < from && (k >= from || db_open + db_close != 0.0) {
                holds = true;
            }
            if o < until {
                q += dq_open;
                b += db_open;
                qm += dq_open.abs();
                bm += db_open.abs();
            }
            if k < until {
                q += dq_close;
                b += db_close;
                qm += dq_close.abs();
                bm += db_close.abs();
            }
        }
        let v = b * base[i + 1] + q * quote[i + 1];
        kappa = kappa.max((bm * base[i + 1] + qm * quote[i + 1]) / v.abs());
        perf.push(v);
        let traded = s.positions.iter().any(|p| {
            let (o, k) = times(p);
            (o >= from && o < until) || (k >= from && k < until)
        });
        let same = quote[i] == quote[i + 1] && (base[i] == base[i + 1] || !holds);
        idle.push(!traded && same);
    }
    let g: Vec<f64> = perf.windows(2).map(|w| (w[1] / w[0]).ln()).collect();
    let mean = g.iter().sum::<f64>() / n as f64;
    let undefined = n == 0 || !mean.is_finite() || perf.iter().any(|&v| v <= 0.0);
    let sd = (g.iter().map(|x| (x - mean).powi(2)).sum::<f64>() / n as f64).sqrt();
    let neg: Vec<f64> = g.iter().copied().filter(|&x| x < 0.0).collect();
    let nm = neg.iter().sum::<f64>() / neg.len() as f64;
    let nsd = (neg.iter().map(|x| (x - nm).powi(2)).sum::<f64>() / neg.len() as f64).sqrt();
    let gmax = g.iter().fold(0.0f64, |m, x| m.max(x.abs()));
    let noise = 4e-15 * kappa + 1e-15 * gmax;
    let annual = 365.0 * mean;
    let r = 365f64.sqrt();
    Ref {
        annual: if undefined { 0.0 } else { annual },
        sharpe: if undefined || sd == 0.0 { 0.0 } else { annual / (r * sd) },
        sortino: if undefined || neg.len() < 2 { 0.0 } else { annual / (r * nsd) },
        noise,
        sd,
        nsd,
        losing: neg.len(),
        doubtful_sign: g.iter().zip(&idle).any(|(x, idle)| !idle && x.abs() < 4.0 * noise) || perf.iter().any(|v| v.abs() * kappa < 1e-9 * s.quote * quote[0]),
        undefined,
        periods: n,
        zero: idle.iter().all(|x| *x),
    }
}
