//! Independent proleptic Gregorian calendar (days-from-civil algorithm).
pub const DAY_MS: u64 = 86_400_000;

/// Days since 1970-01-01.
pub fn days_from_civil(y: i64, m: u32, d: u32) -> i64 {
    let y = if m <= 2 { y - 1 } else { y };
    let era = y.div_euclid(400);
    let yoe = y - era * 400;
    let mp = (m as i64 + 9) % 12;
    let doy = (153 * mp + 2) / 5 + d as i64 - 1;
    let doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    era * 146_097 + doe - 719_468
}
pub fn civil_from_days(z: i64) -> (i64, u32, u32) {
    let z = z + 719_468;
    let era = z.div_euclid(146_097);
    let doe = z - era * 146_097;
    let yoe = (doe - doe / 1460 + doe / 36_524 - doe / 146_096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = (doy - (153 * mp + 2) / 5 + 1) as u32;
    let m = if mp < 10 { mp + 3 } else { mp - 9 } as u32;
    (yoe + era * 400 + i64::from(m <= 2), m, d)
}
pub const WEEK_MS: u64 = 604_800_000;
pub const MONTH_MS: u64 = 2_629_746_000;

pub fn month_start(t: u64) -> u64 {
    let (y, m, _) = civil_from_days((t / DAY_MS) as i64);
    days_from_civil(y, m, 1) as u64 * DAY_MS
}
pub fn next_month_start(t: u64) -> u64 {
    let (y, m, _) = civil_from_days((t / DAY_MS) as i64);
    let (y, m) = if m == 12 { (y + 1, 1) } else { (y, m + 1) };
    days_from_civil(y, m, 1) as u64 * DAY_MS
}
/// Start of the calendar window containing t.
pub fn window_start(t: u64, interval: u64) -> u64 {
    match interval {
        MONTH_MS => month_start(t),
        // 1970-01-05 was a Monday
        WEEK_MS => {
            let days = (t / DAY_MS) as i64;
            let weekday = (days + 3).rem_euclid(7); // Monday = 0
            ((days - weekday) as u64) * DAY_MS
        }
        _ => t - t % interval,
    }
}
pub fn window_end(t: u64, interval: u64) -> u64 {
    match interval {
        MONTH_MS => next_month_start(t),
        _ => window_start(t, interval) + interval,
    }
}
