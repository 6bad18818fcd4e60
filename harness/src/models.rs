//! Independent reference definitions used as oracles.
use juno::{filters::Size, Fill};

pub const EPS: f64 = 1e-12;

/// A closed interval of values a quantity may have given floating-point noise.
#[derive(Clone, Copy, Debug)]
pub struct Near {
    pub lo: f64,
    pub hi: f64,
}
pub fn near(x: f64) -> Near {
    let d = x.abs() * EPS;
    Near { lo: x - d, hi: x + d }
}
pub fn near_abs(x: f64, abs: f64) -> Near {
    let d = x.abs() * EPS + abs;
    Near { lo: x - d, hi: x + d }
}
impl Near {
    pub fn mul(self, k: f64) -> Near {
        let a = self.lo * k;
        let b = self.hi * k;
        let (lo, hi) = (a.min(b), a.max(b));
        Near { lo: lo - lo.abs() * EPS, hi: hi + hi.abs() * EPS }
    }
    pub fn div(self, k: f64) -> Near {
        self.mul(1.0 / k)
    }
}

pub fn close(a: f64, b: f64, rel: f64) -> bool {
    if a == b {
        return true;
    }
    if !a.is_finite() || !b.is_finite() {
        return a.is_nan() && b.is_nan();
    }
    (a - b).abs() <= rel * a.abs().max(b.abs())
}
pub fn close_abs(a: f64, b: f64, rel: f64, abs: f64) -> bool {
    close(a, b, rel) || (a - b).abs() <= abs
}

pub fn pow10(p: u32) -> f64 {
    let mut f = 1.0;
    for _ in 0..p {
        f *= 10.0;
    }
    f
}

/// `v` lies on the decimal grid of `precision`; returns its index.
fn grid(v: f64, precision: u32) -> Result<f64, String> {
    let k = v * pow10(precision);
    let r = k.round();
    // beyond 2^53 every double is a grid point as far as doubles can tell
    if (k - r).abs() <= 1e-6 + k.abs() * 1e-14 {
        Ok(r)
    } else {
        Err(format!("{v} is not on the 10^-{precision} grid"))
    }
}

/// actual must be the value rounded down to `precision` decimals.
pub fn check_round_down(actual: f64, x: Near, precision: u32) -> Result<(), String> {
    let k = grid(actual, precision)?;
    let f = pow10(precision);
    let lo = (x.lo * f).floor();
    let hi = (x.hi * f).floor();
    if k >= lo && k <= hi {
        Ok(())
    } else {
        Err(format!("{actual} is not {x:?} rounded down to {precision} decimals"))
    }
}
pub fn check_half_up(actual: f64, x: Near, precision: u32) -> Result<(), String> {
    let k = grid(actual, precision)?;
    let f = pow10(precision);
    let lo = (x.lo * f).round();
    let hi = (x.hi * f).round();
    if k >= lo && k <= hi {
        Ok(())
    } else {
        Err(format!("{actual} is not {x:?} rounded half up to {precision} decimals"))
    }
}

/// Is zero / is a positive size an allowed answer for the size filter?
pub fn size_can_be_zero(f: &Size, x: Near) -> bool {
    x.lo < f.min || x.lo <= 0.0 || (f.step > 0.0 && capped(f, x).lo / f.step < 1.0 + EPS)
}
pub fn size_can_be_positive(f: &Size, x: Near) -> bool {
    x.hi >= f.min && x.hi > 0.0 && (f.step <= 0.0 || capped(f, x).hi / f.step >= 1.0 - EPS)
}
fn capped(f: &Size, x: Near) -> Near {
    if f.max > 0.0 {
        Near { lo: x.lo.min(f.max), hi: x.hi.min(f.max) }
    } else {
        x
    }
}
pub fn check_size_down(actual: f64, f: &Size, x: Near) -> Result<(), String> {
    let e = || Err(format!("{actual} is not {x:?} under size filter {f:?}"));
    if actual == 0.0 {
        return if size_can_be_zero(f, x) { Ok(()) } else { e() };
    }
    if !(x.hi >= f.min) {
        return e();
    }
    let y = capped(f, x);
    if f.step > 0.0 {
        let k = (actual / f.step).round();
        if !close(k * f.step, actual, 1e-11) {
            return e();
        }
        // dividing by the step adds one more rounding error
        let lo = (y.lo / f.step * (1.0 - EPS)).floor();
        let hi = (y.hi / f.step * (1.0 + EPS)).floor();
        if k >= lo && k <= hi {
            Ok(())
        } else {
            e()
        }
    } else if actual >= y.lo && actual <= y.hi {
        Ok(())
    } else {
        e()
    }
}

pub fn fill_json(f: &Fill) -> String {
    format!("{{price {} size {} quote {} fee {}}}", f.price, f.size, f.quote, f.fee)
}
