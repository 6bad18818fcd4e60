//! D01-D06: primitives and helpers.
use juno::{
    filters::{Price, Size},
    itertools::IteratorExt,
    math::*,
    symbol::iter_assets,
    utils::{generate_missing_spans, merge_adjacent_spans, page},
    Interval, SymbolExt, Timestamp,
};
use vharness::{
    cal::*,
    engine::{quiet, sub, Case, Fail, Prop, Res},
    ensure,
    models::{close, close_abs},
};

const UNITS: [(&str, u64); 8] = [
    ("y", 31_556_952_000),
    ("M", MONTH_MS),
    ("w", WEEK_MS),
    ("d", DAY_MS),
    ("h", 3_600_000),
    ("m", 60_000),
    ("s", 1000),
    ("ms", 1),
];
/// 9999-12-31T23:59:59.999Z, the last instant with a four-digit year.
const LAST: u64 = 253_402_300_799_999;

/// A number of milliseconds of any magnitude, often next to a calendar or power-of-two boundary.
fn any_ms(c: &mut Case, max: u64) -> u64 {
    let v = match c.weighted(&[2, 3, 3, 2]) {
        0 => c.draw(max),
        1 => {
            let bits = c.draw(64);
            c.draw(if bits >= 64 { u64::MAX } else { (1u64 << bits) - 1 })
        }
        2 => {
            let (_, f) = c.pick(&UNITS);
            let k = c.draw((max / f).min(3000));
            (k * f).saturating_add(c.draw(2)).saturating_sub(c.draw(1))
        }
        _ => {
            let b = c.u64(1, 63);
            (1u64 << b).saturating_add(c.draw(2)).saturating_sub(1)
        }
    };
    v.min(max)
}

/// The grammar of intervals, parsed independently.
fn ref_interval(s: &str) -> Option<u64> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut sum: u64 = 0;
    if b.is_empty() {
        return None;
    }
    while i < b.len() {
        let j = i;
        let mut v: u64 = 0;
        while i < b.len() && b[i].is_ascii_digit() {
            v = v.checked_mul(10)?.checked_add(u64::from(b[i] - b'0'))?;
            i += 1;
        }
        if i == j {
            return None;
        }
        let j = i;
        while i < b.len() && !b[i].is_ascii_digit() {
            i += 1;
        }
        let unit = &b[j..i];
        let (_, f) = UNITS.iter().find(|(u, _)| u.as_bytes() == unit)?;
        sum = sum.checked_add(v.checked_mul(*f)?)?;
    }
    Some(sum)
}

fn check_interval_text(s: &str) -> Res {
    let got = quiet(|| s.parse::<Interval>())?;
    let want = ref_interval(s);
    match (want, got.as_ref().ok().map(|i| i.0)) {
        (a, b) if a == b => {}
        (a, b) => return Err(Fail::Msg(format!("{s:?} parses to {b:?} instead of {a:?}"))),
    }
    let json = serde_json::to_string(s).unwrap();
    let got = quiet(|| serde_json::from_str::<Interval>(&json))?;
    ensure!(got.as_ref().ok().map(|i| i.0) == want, "JSON {json} reads as {:?} instead of {want:?}", got.ok());
    Ok(())
}

fn d01_roundtrip(c: &mut Case) -> Res {
    let v = any_ms(c, u64::MAX);
    c.sample(|| v.to_string());
    c.nontrivial_if(UNITS.iter().all(|(_, f)| v % f != 0 || *f == 1) && v > 1000);
    let i = Interval(v);
    let s = quiet(|| i.to_string())?;
    // canonical: descending units, each at most once, no zero groups, greedy
    let mut want = String::new();
    let mut rest = v;
    for (u, f) in UNITS {
        if rest / f > 0 {
            want += &format!("{}{u}", rest / f);
            rest %= f;
        }
    }
    if v == 0 {
        want = "0ms".into();
    }
    ensure!(s == want, "{v} prints as {s:?} instead of {want:?}");
    let back = quiet(|| s.parse::<Interval>())?;
    ensure!(back.as_ref().ok() == Some(&i), "{v} prints as {s:?} which parses to {back:?}");
    check_interval_text(&s)?;
    let json = serde_json::to_string(&i).unwrap();
    ensure!(json == v.to_string(), "{v} is written as {json}");
    let back: Result<Interval, _> = serde_json::from_str(&json);
    ensure!(back.as_ref().ok() == Some(&i), "JSON {json} reads as {back:?}");
    let (w, k) = (any_ms(c, u64::MAX - v), c.draw(if v == 0 { 100 } else { u64::MAX / v }));
    ensure!(Interval(v) + Interval(w) == Interval(v + w) && Interval(v) + w == Interval(v + w) && w + Interval(v) == Interval(v + w), "sum of {v} and {w}");
    let mut acc = Interval(v);
    acc += Interval(w);
    ensure!(acc.0 == v + w, "accumulated sum of {v} and {w}");
    ensure!((Interval(v) * k).0 == v * k && (k * Interval(v)).0 == v * k, "{v} times {k}");
    ensure!(u64::from(Interval::from(v)) == v && Interval(v) == v, "conversion of {v}");
    Ok(())
}

fn d01_text(c: &mut Case) -> Res {
    // number-unit groups in any order and number, then perhaps damaged
    let mut s = String::new();
    let style = c.weighted(&[4, 4, 2, 2]);
    if style == 3 {
        let n = c.usize(0, 8);
        for _ in 0..n {
            s.push(c.pick(&['1', '0', '9', 'm', 's', 'd', 'h', 'M', 'y', 'w', ' ', '.', '-', '+', 'x', 'é', '٣', '5', 'D', '\n', ',', '_']));
        }
    } else {
        let n = if c.chance(1, 8) { c.usize(1, 80) } else { c.usize(1, 6) };
        for _ in 0..n {
            let v = match c.weighted(&[5, 1, 1]) {
                0 => c.draw(1000),
                1 => any_ms(c, u64::MAX),
                _ => 0,
            };
            if c.chance(1, 8) {
                s += "00";
            }
            s += &format!("{v}{}", c.pick(&UNITS).0);
        }
        if style == 2 {
            // more digits than any integer holds
            s = format!("{}{}", "9".repeat(c.usize(18, 25)), s);
        }
        if style == 1 {
            let mut ch: Vec<char> = s.chars().collect();
            let at = c.usize(0, ch.len() - 1);
            let x = c.pick(&['x', ' ', '-', '+', '.', 'S', 'D', 'H', 'Y', 'W', 's', 'm', '7', 'é', '٣', 'm', '\t', 'µ', 'ß']);
            match c.draw(3) {
                0 => {
                    ch.remove(at);
                }
                1 => ch[at] = x,
                2 => ch.insert(at, x),
                _ => ch.push(x),
            }
            s = ch.into_iter().collect();
        }
    }
    c.sample(|| format!("{s:?}"));
    let want = ref_interval(&s);
    c.label(if want.is_some() { "valid" } else { "malformed" });
    c.nontrivial_if(s.len() > 2);
    check_interval_text(&s)
}

fn d01_json(c: &mut Case) -> Res {
    let v = any_ms(c, u64::MAX);
    let (json, want) = match c.draw(7) {
        0 => (v.to_string(), Some(v)),
        1 => (format!("-{}", v.max(1)), None),
        2 => (format!("{}.5", v % 1000), None),
        3 => ("null".to_string(), None),
        4 => ("true".to_string(), None),
        5 => ("[1]".to_string(), None),
        6 => (format!("\"{v}\""), None),
        _ => (format!("{{\"interval\":{v}}}"), None),
    };
    c.sample(|| json.clone());
    c.nontrivial_if(v > 0);
    let got = quiet(|| serde_json::from_str::<Interval>(&json))?;
    ensure!(got.as_ref().ok().map(|i| i.0) == want, "JSON {json} reads as interval {:?}", got.ok());
    // a timestamp accepts the same numbers; a bare number is not a date text
    let got = quiet(|| serde_json::from_str::<Timestamp>(&json))?;
    ensure!(got.as_ref().ok().map(|i| i.0) == want, "JSON {json} reads as timestamp {:?}", got.ok());
    Ok(())
}

/// RFC 3339 text or a plain date, parsed independently: Ok(Some) valid, Ok(None) malformed, Err(()) not judged.
fn ref_timestamp(s: &str) -> Result<Option<u64>, ()> {
    let b = s.as_bytes();
    let num = |r: std::ops::Range<usize>| -> Option<i64> {
        let x = b.get(r)?;
        if x.iter().all(u8::is_ascii_digit) {
            std::str::from_utf8(x).ok()?.parse().ok()
        } else {
            None
        }
    };
    // signs before the year, lower-case separators and leap seconds are left to the library
    if b.first().is_some_and(|x| *x == b'+' || *x == b'-') {
        return Err(());
    }
    let parse = || -> Option<Result<i128, ()>> {
        let (y, m, d) = (num(0..4)?, num(5..7)?, num(8..10)?);
        if b[4] != b'-' || b[7] != b'-' {
            return None;
        }
        let leap = y % 4 == 0 && (y % 100 != 0 || y % 400 == 0);
        let days = [31, if leap { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31];
        if !(1..=12).contains(&m) || d < 1 || d > days[m as usize - 1] {
            return None;
        }
        let day = i128::from(days_from_civil(y, m as u32, d as u32)) * 86_400_000_000_000;
        if b.len() == 10 {
            return Some(Ok(day));
        }
        if b[10] != b'T' {
            // other separators are not judged
            return Some(Err(()));
        }
        let (h, mi, se) = (num(11..13)?, num(14..16)?, num(17..19)?);
        if b[13] != b':' || b[16] != b':' || h > 23 || mi > 59 || se > 60 {
            return None;
        }
        let mut i = 19;
        let mut frac: i128 = 0;
        if b.get(i) == Some(&b'.') {
            i += 1;
            let j = i;
            let mut unit = 100_000_000;
            while i < b.len() && b[i].is_ascii_digit() {
                frac += i128::from(b[i] - b'0') * unit;
                unit /= 10;
                i += 1;
            }
            if i == j {
                return None;
            }
        }
        let off = match b.get(i)? {
            b'Z' if b.len() == i + 1 => 0,
            b'z' if b.len() == i + 1 => return Some(Err(())),
            x @ (b'+' | b'-') if b.len() == i + 6 => {
                let (oh, om) = (num(i + 1..i + 3)?, num(i + 4..i + 6)?);
                if b[i + 3] != b':' || om > 59 {
                    return None;
                }
                if oh > 23 {
                    return Some(Err(()));
                }
                (oh * 3600 + om * 60) * if *x == b'+' { 1 } else { -1 }
            }
            _ => return None,
        };
        if se == 60 {
            return Some(Err(()));
        }
        Some(Ok(day + i128::from(h * 3600 + mi * 60 + se - off) * 1_000_000_000 + frac))
    };
    match parse() {
        None => Ok(None),
        Some(Err(())) => Err(()),
        Some(Ok(ns)) if ns < 0 => Ok(None),
        // dates only a nonzero offset moves beyond the year 9999
        Some(Ok(ns)) if ns / 1_000_000 > i128::from(LAST) => Err(()),
        Some(Ok(ns)) => Ok(Some((ns / 1_000_000) as u64)),
    }
}

fn check_timestamp_text(c: &mut Case, s: &str) -> Res {
    let Ok(want) = ref_timestamp(s) else {
        return Err(Fail::Discard);
    };
    c.label(if want.is_some() { "valid" } else { "rejected" });
    let got = quiet(|| s.parse::<Timestamp>())?;
    ensure!(got.as_ref().ok().map(|i| i.0) == want, "{s:?} parses to {:?} instead of {want:?}", got.ok());
    let json = serde_json::to_string(s).unwrap();
    let got = quiet(|| serde_json::from_str::<Timestamp>(&json))?;
    ensure!(got.as_ref().ok().map(|i| i.0) == want, "JSON {json} reads as {:?} instead of {want:?}", got.ok());
    Ok(())
}

fn d02_roundtrip(c: &mut Case) -> Res {
    let v = any_time(c, LAST);
    c.sample(|| v.to_string());
    c.nontrivial_if(v % DAY_MS != 0 && v > DAY_MS);
    let t = Timestamp(v);
    let s = quiet(|| t.to_string())?;
    let back = quiet(|| s.parse::<Timestamp>())?;
    ensure!(back.as_ref().ok() == Some(&t), "{v} prints as {s:?} which parses to {back:?}");
    let (y, m, d) = civil_from_days((v / DAY_MS) as i64);
    let ms = v % DAY_MS;
    let (h, mi, se, f) = (ms / 3_600_000, ms / 60_000 % 60, ms / 1000 % 60, ms % 1000);
    let head = format!("{y:04}-{m:02}-{d:02}T{h:02}:{mi:02}:{se:02}");
    ensure!(s.starts_with(&head), "{v} prints as {s:?} instead of {head}...");
    ensure!(s.ends_with('Z') || s.ends_with("+00:00"), "{v} prints as {s:?}, not UTC");
    // the fraction may be padded or not
    let frac = s[head.len()..].trim_end_matches('Z').trim_end_matches("+00:00");
    let fv = if frac.is_empty() { 0.0 } else { format!("0{frac}").parse::<f64>().unwrap_or(-1.0) };
    ensure!((fv * 1000.0).round() == f as f64 && (fv * 1000.0 - f as f64).abs() < 1e-6, "{v} prints as {s:?}: fraction of {f} ms");
    let json = serde_json::to_string(&t).unwrap();
    ensure!(json == v.to_string(), "{v} is written as {json}");
    let back: Result<Timestamp, _> = serde_json::from_str(&json);
    ensure!(back.as_ref().ok() == Some(&t), "JSON {json} reads as {back:?}");
    check_timestamp_text(c, &s)?;
    // arithmetic
    let w = any_time(c, LAST);
    let (lo, hi) = (v.min(w), v.max(w));
    ensure!((Timestamp(hi) - Timestamp(lo)).0 == hi - lo, "difference of {hi} and {lo}");
    ensure!((Timestamp(v) + Interval(w)).0 == v + w, "{v} plus {w}");
    ensure!((Timestamp(v) % Interval(w.max(1))).0 == v % w.max(1), "{v} modulo {w}");
    ensure!(u64::from(Timestamp::from(v)) == v && Timestamp(v) == v, "conversion of {v}");
    Ok(())
}

/// A time, often next to a day, week, month or year boundary.
fn any_time(c: &mut Case, max: u64) -> u64 {
    match c.weighted(&[2, 3, 1]) {
        0 => c.draw(max),
        1 => {
            let y = if c.bool() { c.u64(1970, 2030) } else { c.u64(1970, 9999) };
            let m = c.pick(&[1, 2, 3, 12, 4, 5, 6, 7, 8, 9, 10, 11]);
            let d = c.pick(&[1, 28, 29, 30, 31, 2, 15]);
            let day = days_from_civil(y as i64, m, d.min(28)) as u64 + (d.max(28) - 28) as u64;
            let ms = match c.draw(3) {
                0 => 0,
                1 => 1,
                2 => DAY_MS - 1,
                _ => c.draw(DAY_MS - 1),
            };
            (day * DAY_MS + ms).min(max)
        }
        _ => any_ms(c, max),
    }
}

/// The current time is the system's.
fn d02_now(c: &mut Case) -> Res {
    c.nontrivial = true;
    // one moment at a time: spread over the parts of a second
    std::thread::sleep(std::time::Duration::from_micros(c.draw(8_000)));
    let clock = || std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_millis() as u64;
    for _ in 0..5 {
        let before = clock();
        let now = Timestamp::now().0;
        let after = clock();
        // unless the clock was set back meanwhile
        if before <= after {
            ensure!((before..=after).contains(&now), "now is {now} between {before} and {after}");
            return Ok(());
        }
    }
    Ok(())
}

fn d02_text(c: &mut Case) -> Res {
    // within a second of the earliest representable time, seen from any offset
    if c.chance(1, 10) {
        let off = c.pick(&[0i64, 60, -60, 330, -570, 1, -1, 1439, -1439]);
        let s = c.pick(&[-1i64, 0, -1, -2]) + off * 60;
        let day = s.div_euclid(86_400);
        let (y, m, d) = civil_from_days(day);
        let r = s.rem_euclid(86_400);
        let mut t = format!("{y:04}-{m:02}-{d:02}T{:02}:{:02}:{:02}", r / 3600, r / 60 % 60, r % 60);
        if !c.chance(1, 6) {
            t.push('.');
            for i in 0..c.u64(1, 12) {
                t.push((b'0' + c.pick(&[if i < 3 { 9u8 } else { 0 }, 9, 0, 5, 1])) as char);
            }
        }
        t += &if off == 0 && c.bool() { "Z".to_string() } else { format!("{}{:02}:{:02}", if off < 0 { '-' } else { '+' }, off.abs() / 60, off.abs() % 60) };
        c.label("around the epoch");
        c.sample(|| format!("{t:?}"));
        c.nontrivial = true;
        return check_timestamp_text(c, &t);
    }
    let y = match c.draw(5) {
        0 | 1 => c.u64(1969, 1971),
        2 | 3 => c.u64(1970, 2100),
        4 => c.u64(1, 1969),
        _ => c.u64(2000, 9999),
    };
    let m = if c.chance(1, 10) { c.u64(0, 14) } else { c.u64(1, 12) };
    let d = if c.chance(1, 5) { c.u64(28, 32) } else { c.u64(1, 28) };
    let mut s = format!("{y:04}-{m:02}-{d:02}");
    if !c.chance(1, 4) {
        let (h, mi, se) = match c.draw(3) {
            0 => (0, 0, 0),
            1 => (23, 59, 59),
            _ => (c.u64(0, 23), c.u64(0, 59), c.u64(0, 59)),
        };
        s += &format!("T{h:02}:{mi:02}:{se:02}");
        if c.bool() {
            s.push('.');
            for _ in 0..c.u64(1, 12) {
                let x = c.pick(&[0u8, 9, 5, 1, 3]);
                s.push((b'0' + x) as char);
            }
        }
        s += &match c.draw(4) {
            0 | 1 => "Z".to_string(),
            _ => format!("{}{:02}:{:02}", c.pick(&['+', '-']), c.u64(0, 23), c.pick(&[0u64, 30, 45, 59])),
        };
    }
    if c.chance(1, 3) {
        let mut ch: Vec<char> = s.chars().collect();
        let at = c.usize(0, ch.len() - 1);
        let x = c.pick(&['0', '9', '3', '-', ':', 'T', 'Z', '.', '+', 'a', ' ', '/', 'é', '٣']);
        match c.draw(4) {
            0 => {
                ch.remove(at);
            }
            1 => ch[at] = x,
            2 => ch.insert(at, x),
            3 => ch.push(x),
            _ => ch.truncate(at),
        }
        s = ch.into_iter().collect();
        c.label("damaged");
    }
    c.sample(|| format!("{s:?}"));
    c.nontrivial_if(s.len() > 10);
    check_timestamp_text(c, &s)
}

/// The earliest time for which a week's start can be represented: Monday, 5 January 1970.
const MONDAY: u64 = 345_600_000;

fn d03_times(c: &mut Case) -> Res {
    let iv = match c.weighted(&[3, 2, 3, 3]) {
        0 => c.pick(&[1, 1000, 60_000, 300_000, 900_000, 3_600_000, 14_400_000, DAY_MS, 3 * DAY_MS]),
        1 => c.u64(1, WEEK_MS - 1),
        2 => WEEK_MS,
        _ => MONTH_MS,
    };
    let max = LAST - 32 * DAY_MS;
    let mut t = any_time(c, max);
    if c.bool() {
        // a boundary or its neighbours
        t = window_start(t.max(MONDAY), iv).saturating_add(c.draw(2)).saturating_sub(1);
    }
    if iv == WEEK_MS {
        t = t.max(MONDAY);
    }
    c.sample(|| format!("{t} to {iv}"));
    c.label(if iv == WEEK_MS { "week" } else if iv == MONTH_MS { "month" } else { "shorter" });
    let lo = window_start(t, iv);
    let hi = if lo == t { t } else { window_end(t, iv) };
    c.label_if(lo == t, "on a boundary");
    c.nontrivial_if(t > iv);
    let (f, e) = (quiet(|| Timestamp(t).floor(Interval(iv)))?, quiet(|| Timestamp(t).ceil(Interval(iv)))?);
    ensure!(f.0 == lo, "{t} floored to {iv} is {} instead of {lo}", f.0);
    ensure!(e.0 == hi, "{t} ceiled to {iv} is {} instead of {hi}", e.0);
    for b in [f, e] {
        ensure!(b.floor(Interval(iv)) == b && b.ceil(Interval(iv)) == b, "boundary {} of {iv} is not fixed", b.0);
    }
    let u = any_time(c, max).max(t);
    ensure!(Timestamp(u).floor(Interval(iv)) >= f && Timestamp(u).ceil(Interval(iv)) >= e, "rounding {t} and {u} to {iv} is not monotone");
    Ok(())
}

fn d03_multiples(c: &mut Case) -> Res {
    let m = any_ms(c, u64::MAX).max(1);
    let v = match c.draw(2) {
        0 => any_ms(c, u64::MAX),
        _ => {
            let k = c.draw(u64::MAX / m);
            (k * m).saturating_add(c.draw(2)).saturating_sub(1)
        }
    };
    let off = if c.bool() { any_ms(c, v) } else { 0 };
    c.sample(|| format!("{v} {m} {off}"));
    c.nontrivial_if(v > m && m > 1);
    c.label_if(v > 1 << 53, "beyond 2^53");
    let lo = v - v % m;
    ensure!(quiet(|| floor_multiple(v, m))? == lo, "floor of {v} to a multiple of {m}");
    let flo = v - (v - off) % m;
    ensure!(quiet(|| floor_multiple_offset(v, m, off))? == flo, "floor of {v} to a multiple of {m} offset by {off}");
    if let Some(hi) = if v % m == 0 { Some(v) } else { lo.checked_add(m) } {
        let g = quiet(|| ceil_multiple(v, m))?;
        ensure!(g == hi, "ceiling of {v} to a multiple of {m} is {g} instead of {hi}");
        let g = quiet(|| Interval(v).ceil(Interval(m)))?;
        ensure!(g.0 == hi, "interval {v} ceiled to {m} is {} instead of {hi}", g.0);
    }
    if let Some(hi) = if flo == v { Some(v) } else { flo.checked_add(m) } {
        let g = quiet(|| ceil_multiple_offset(v, m, off))?;
        ensure!(g == hi, "ceiling of {v} to a multiple of {m} offset by {off} is {g} instead of {hi}");
    }
    Ok(())
}

fn pow10(p: u32) -> f64 {
    format!("1e{p}").parse().unwrap()
}

fn d04_rounding(c: &mut Case) -> Res {
    let p = c.u32(0, 18);
    let f = pow10(p);
    let v = match c.weighted(&[3, 3, 2, 3]) {
        0 => {
            let top = c.pick(&[1e9, 1e9, 1e15]);
            c.logf(1e-9, top)
        }
        3 => {
            // next to a decimal of that precision, or to a half
            c.label("beside a decimal");
            let d = c.logf(1e-15, 0.5);
            let top = c.pick(&[1000, 1000, 100_000_000_000]);
            let k = c.draw(top) as f64 + c.pick(&[0.0, 0.5]);
            (k + if c.bool() { -d } else { d }) / f
        }
        1 => c.draw(100_000_000) as f64 / pow10(c.u32(0, 12)),
        // exactly halfway, when small enough
        _ => {
            c.label("tie");
            let top = c.pick(&[5000, 5000, 1 << 40]);
            (2 * c.draw(top) + 1) as f64 / 2f64.powi(p as i32 + 1)
        }
    };
    let v = if c.chance(1, 5) { -v } else { v };
    c.sample(|| format!("{v:e} to {p} places"));
    c.label_if(p >= 10, "precision 10 and more");
    let x = v * f;
    c.nontrivial_if(x.fract() != 0.0 && x.abs() < 1e15 && x.abs() >= 1.0);
    // what 1 ulp of the value, scaled, amounts to
    let noise = (4e-16 * x.abs()).max(1e-300);
    let d = quiet(|| round_down(v, p))?;
    let h = quiet(|| round_half_up(v, p))?;
    for (r, k) in [(d, "rounded down"), (h, "rounded half up")] {
        ensure!(r.is_finite(), "{v} {k} to {p} places is {r}");
        let y = r * f;
        ensure!((y - y.round()).abs() <= 4.0 * noise + 1e-15 * y.abs(), "{v} {k} to {p} places is {r}, no decimal of that precision");
        let again = if k == "rounded down" { round_down(r, p) } else { round_half_up(r, p) };
        ensure!((again - r).abs() * f <= if k == "rounded down" { 1.0 + noise * 4.0 } else { 4.0 * noise }, "{r} {k} again to {p} places is {again}");
    }
    ensure!(d * f <= x + 4.0 * noise, "{v} rounded down to {p} places is {d}");
    ensure!(d * f > x - 1.0 - 4.0 * noise, "{v} rounded down to {p} places is {d}, more than a unit below");
    ensure!((h * f - x).abs() <= 0.5 + 4.0 * noise, "{v} rounded half up to {p} places is {h}");
    if x.abs() < 2f64.powi(46) {
        // where value * 10^p is exact, so are the results
        let m = v * 2f64.powi(p as i32 + 1);
        if m.fract() == 0.0 && p <= 12 && m.abs() * 5f64.powi(p as i32) < 2f64.powi(53) {
            let twice = m as i128 * 5i128.pow(p); // 2 * v * 10^p
            let down = twice.div_euclid(2);
            let mag = (twice.abs() + 1) / 2;
            let half = if twice < 0 { -mag } else { mag };
            ensure!(close(d, down as f64 / f, 1e-15), "{v} rounded down to {p} places is {d} instead of {}", down as f64 / f);
            ensure!(close(h, half as f64 / f, 1e-15), "{v} rounded half up to {p} places is {h} instead of {}", half as f64 / f);
            c.label("exact");
        }
    }
    let w = v + c.logf(1e-12, 1e3);
    ensure!(round_down(w, p) >= d && round_half_up(w, p) >= h, "rounding {v} and {w} to {p} places is not monotone");
    Ok(())
}

fn d04_filters(c: &mut Case) -> Res {
    let dyadic = c.bool();
    let step = match (c.chance(1, 4), dyadic) {
        (true, _) => 0.0,
        (_, true) => 2f64.powi(c.u64(0, 20) as i32 - 14),
        (_, false) => c.pick(&[1e-8, 1e-6, 1e-5, 0.001, 0.01, 0.1, 0.5, 1.0, 0.05, 0.3]),
    };
    let unit = if step > 0.0 { step } else if dyadic { 0.125 } else { 0.01 };
    // limits on the grid, or anywhere for arbitrary filters
    let grid = dyadic || c.bool();
    let lim = |c: &mut Case, n: u64| {
        let x = (1 + c.draw(n)) as f64 * unit;
        if grid {
            x
        } else {
            x * c.f64(1.0, 1.5)
        }
    };
    let min = if c.chance(1, 3) { 0.0 } else { lim(c, 50) };
    let max = match c.weighted(&[6, 11, 1]) {
        0 => 0.0,
        1 => min + lim(c, 1000),
        _ => min,
    };
    c.label_if(max > 0.0 && max == min, "one value allowed");
    let x = match c.draw(3) {
        0 => c.draw(1200) as f64 * unit,
        1 => c.draw(1200) as f64 * unit + unit / 2.0,
        2 => min * c.pick(&[1.0, 0.5, 0.999, 1.001]),
        _ => max * c.pick(&[1.0, 0.5, 0.999, 1.001, 2.0, 1e6]),
    };
    c.sample(|| format!("{x} min {min} max {max} step {step}"));
    c.nontrivial_if(x >= min && x > 0.0 && step > 0.0);
    c.label_if(x < min, "below the minimum");
    c.label_if(max > 0.0 && x > max, "above the maximum");
    c.label_if(step == 0.0, "no step");
    let p = Price { min, max, step };
    let s = Size { min, max, step };
    let exact = dyadic;
    for (r, again, k) in [(p.round_down(x), p.round_down(p.round_down(x)), "price"), (s.round_down(x), s.round_down(s.round_down(x)), "size")] {
        if x < min {
            ensure!(r == 0.0, "{k} {x} below its minimum {min} becomes {r}");
            continue;
        }
        let top = if max > 0.0 { x.min(max) } else { x };
        if step == 0.0 {
            ensure!(r == top, "{k} {x} without step becomes {r} instead of {top}");
            continue;
        }
        let n = (r / step).round();
        ensure!(close_abs(r, n * step, 1e-12, 0.0), "{k} {x} becomes {r}, no multiple of {step}");
        ensure!(r <= top * (1.0 + 1e-12), "{k} {x} becomes {r}, beyond {top}");
        ensure!(r > top - step * (1.0 + 1e-9), "{k} {x} becomes {r}, more than a step of {step} below {top}");
        let slack = if exact { 0.0 } else { step * (1.0 + 1e-9) };
        if r >= min {
            ensure!((again - r).abs() <= slack || again == 0.0 && !grid, "{k} {r} rounded again becomes {again}");
        }
        if exact {
            let want = (top / step).floor() * step;
            ensure!(r == want, "{k} {x} becomes {r} instead of {want}");
        }
    }
    let y = x + unit * c.f64(0.0, 3.0);
    ensure!(p.round_down(y) >= p.round_down(x) && s.round_down(y) >= s.round_down(x), "rounding {x} and {y} is not monotone");
    if dyadic {
        // on the grid, validity and rounding up are exact too
        let good = (min == 0.0 || x >= min) && (max == 0.0 || x <= max) && (step == 0.0 || (x / step).fract() == 0.0);
        ensure!(p.valid(x) == good, "price {x} validity is {}", p.valid(x));
        ensure!(s.valid(x) == good, "size {x} validity is {}", s.valid(x));
        let up = if x < min {
            0.0
        } else {
            let top = if max > 0.0 { x.min(max) } else { x };
            if step > 0.0 {
                (top / step).ceil() * step
            } else {
                top
            }
        };
        ensure!(s.round_up(x) == up, "size {x} rounded up is {} instead of {up}", s.round_up(x));
    }
    Ok(())
}

/// Ordered spans that do not overlap but often touch.
fn spans(c: &mut Case, n: usize) -> Vec<(u64, u64)> {
    let mut t = c.draw(30);
    // now and then hundreds of them
    let n = if c.chance(1, 40) { c.usize(0, n * 40) } else { c.usize(0, n) };
    (0..n)
        .map(|_| {
            if c.bool() {
                t += c.u64(1, 10);
            }
            let s = t;
            t += c.u64(1, 10);
            (s, t)
        })
        .collect()
}
fn covered(s: &[(u64, u64)], x: u64) -> bool {
    s.iter().any(|&(a, b)| a <= x && x < b)
}

fn d05_merge(c: &mut Case) -> Res {
    let s = spans(c, 12);
    c.sample(|| format!("{s:?}"));
    let touching = s.windows(2).filter(|w| w[0].1 == w[1].0).count();
    c.nontrivial_if(touching > 0 && touching + 1 < s.len());
    let r = quiet(|| merge_adjacent_spans(&s))?;
    let end = s.last().map_or(0, |x| x.1) + 2;
    for x in 0..end {
        ensure!(covered(&s, x) == covered(&r, x), "{s:?} merges to {r:?}: differs at {x}");
    }
    ensure!(r.iter().all(|&(a, b)| a < b && b <= end), "{s:?} merges to {r:?}");
    ensure!(r.windows(2).all(|w| w[0].1 < w[1].0), "{s:?} merges to {r:?}, which touch");
    ensure!(r.len() == s.len() - touching, "{s:?} merges to {} spans", r.len());
    ensure!(merge_adjacent_spans(&r) == r, "merging is not idempotent on {r:?}");
    Ok(())
}

fn d05_missing(c: &mut Case) -> Res {
    let s = spans(c, 10);
    let last = s.last().map_or(0, |x| x.1).max(120);
    let start = c.draw(last);
    let end = start + c.draw(last);
    c.sample(|| format!("{start}..{end} without {s:?}"));
    c.label_if(s.iter().any(|x| x.1 <= start || x.0 >= end), "span outside the range");
    c.label_if(s.iter().any(|x| x.0 < start && x.1 > start || x.0 < end && x.1 > end), "span across an end");
    c.nontrivial_if(s.iter().filter(|x| x.1 > start && x.0 < end).count() > 0);
    let r = quiet(|| generate_missing_spans(start, end, &s))?;
    for x in 0..=end + 2 {
        let want = x >= start && x < end && !covered(&s, x);
        ensure!(covered(&r, x) == want, "{start}..{end} without {s:?} gives {r:?}: wrong at {x}");
    }
    ensure!(r.iter().all(|&(a, b)| a < b && a >= start && b <= end), "{start}..{end} without {s:?} gives {r:?}");
    ensure!(r.windows(2).all(|w| w[0].1 < w[1].0), "{start}..{end} without {s:?} gives {r:?}, out of order or split");
    Ok(())
}

fn d05_page(c: &mut Case) -> Res {
    let iv = c.pick(&[1, 2, 7, 60_000, 3_600_000, DAY_MS]);
    let limit = match c.draw(3) {
        0 => c.u64(1, 5),
        1 => c.u64(1, 1000),
        2 => c.u64(1, 1_000_000),
        _ => c.u64(1, (1 << 44) / iv),
    };
    c.label_if(limit > 1_000_000, "huge pages");
    let start = c.draw(1_600_000_000_000);
    let pages = if c.chance(1, 8) { c.draw(300) } else { c.draw(12) };
    c.label_if(pages > 12, "many pages");
    let mut len = (pages * limit + c.draw(limit.min(1000))) * iv;
    if c.bool() {
        len += c.draw(iv - 1);
        c.label("not a whole number of intervals");
    }
    let end = start + len;
    c.sample(|| format!("{start}..{end} by {limit} of {iv}"));
    c.nontrivial_if(len > limit * iv);
    let r: Vec<_> = quiet(|| page(start, end, iv, limit).take(10_000).collect())?;
    let mut at = start;
    for &(a, b) in &r {
        ensure!(a == at && b > a, "{start}..{end} by {limit} of {iv}: page {a}..{b} after {at}");
        ensure!(b - a <= limit * iv, "{start}..{end} by {limit} of {iv}: page {a}..{b} too large");
        at = b;
    }
    ensure!(at == end, "{start}..{end} by {limit} of {iv}: pages end at {at}");
    ensure!(r.len() as u64 == len.div_ceil(limit * iv), "{start}..{end} by {limit} of {iv}: {} pages", r.len());
    Ok(())
}

fn d06_numbers(c: &mut Case) -> Res {
    let n = c.weighted(&[1, 1, 2, 4, 4]);
    let n = if n == 4 { c.usize(4, 60) } else { n };
    let int = c.bool();
    let n = if c.chance(1, 200) { c.usize(100, 3000) } else { n };
    // far from zero compared with their spread
    let far = c.chance(1, 4).then(|| c.pick(&[1e3, 1e6, 1e9, -1e9, 1e12]) + c.draw(1000) as f64);
    c.label_if(far.is_some() && n >= 2, "far from zero");
    // statistics scale with their values
    let scale = if c.chance(1, 4) { c.pick(&[1e-14, 1e-12, 1e-9, 1e-7, 1e9, 1e60]) } else { 1.0 };
    c.label_if(scale < 1.0, "tiny values");
    let v: Vec<f64> = (0..n)
        .map(|_| {
            if let Some(far) = far {
                return (far + if int { c.draw(1000) as f64 } else { c.f64(-3.0, 3.0) }) * scale;
            }
            let x = if int { c.draw(1000) as f64 } else { c.logf(1e-6, 1e6) } * scale;
            if c.chance(1, 3) {
                -x
            } else {
                x
            }
        })
        .collect();
    c.sample(|| format!("{v:?}"));
    c.nontrivial_if(n >= 3);
    let mag = v.iter().map(|x| x.abs()).sum::<f64>();
    let m = mean(&v);
    let sd = std_deviation(&v);
    let (lo, hi) = v.iter().minmax();
    if n == 0 {
        ensure!(m.is_nan() && sd.is_nan() && lo.is_nan() && hi.is_nan(), "statistics of nothing are {m} {sd} {lo} {hi}");
    } else {
        // compensated sums
        let sum = |xs: &[f64]| {
            let (mut s, mut e) = (0.0, 0.0);
            for &x in xs {
                let t = s + x;
                e += if f64::abs(s) >= f64::abs(x) { (s - t) + x } else { (x - t) + s };
                s = t;
            }
            s + e
        };
        let want = sum(&v) / n as f64;
        ensure!(close_abs(m, want, 1e-12, 1e-14 * mag), "mean of {v:?} is {m} instead of {want}");
        let sq: Vec<f64> = v.iter().map(|x| (x - want) * (x - want)).collect();
        let want = (sum(&sq) / n as f64).sqrt();
        // the mean is off by the rounding of its sum, at most
        let noise = 2.3e-16 * mag * (1.0 + n as f64 / 4.0) + 4e-16 * v[0].abs();
        ensure!(close_abs(sd, want, 1e-11, noise), "deviation of {v:?} is {sd} instead of {want}");
        let mut w = v.clone();
        w.sort_by(f64::total_cmp);
        ensure!(lo == w[0] && hi == w[n - 1], "extremes of {v:?} are {lo} and {hi}");
    }
    let p: Vec<(f64, f64)> = v.iter().copied().pairwise().collect();
    let want: Vec<(f64, f64)> = v.windows(2).map(|w| (w[0], w[1])).collect();
    ensure!(p == want, "pairs of {v:?} are {p:?}");
    Ok(())
}

fn d06_annualized(c: &mut Case) -> Res {
    const YEAR: f64 = 31_556_952_000.0;
    let d = match c.draw(3) {
        0 => c.draw(3) * 31_556_952_000 / 2,
        1 => c.u64(1, 2000) * DAY_MS,
        2 => c.u64(1, 2000) * 3_600_000,
        _ => any_ms(c, 1 << 50),
    };
    let roi = match c.draw(3) {
        0 => c.f64(-0.9, 3.0),
        1 => c.pick(&[0.0, 1.0, -0.5, 0.1, -1.0]),
        2 => c.f64(-1.0, -1e-9) * 3.0,
        _ => c.logf(1e-6, 1e3),
    };
    c.sample(|| format!("{roi} in {d}"));
    c.nontrivial_if(d > 0 && roi > -1.0 && roi != 0.0);
    let r = annualized(d, roi);
    ensure!(!r.is_nan(), "{roi} in {d} annualized is not a number");
    let n = d as f64 / YEAR;
    if d == 0 {
        ensure!(r == 0.0, "{roi} in no time annualized is {r}");
    } else if roi > -1.0 + 1e-9 {
        // compound interest: (1 + r)^n = 1 + roi
        let want = (roi.ln_1p() / n).exp_m1();
        let tol = 1e-9 + 1e-14 / n * (1.0 + 1.0 / (1.0 + roi));
        ensure!(r == want || (r > 1e300 && want > 1e300) || close_abs(r, want, tol, tol * (1.0 + want.abs())), "{roi} in {n} years annualized is {r} instead of {want}");
    } else if roi == -1.0 {
        ensure!(r == -1.0, "a total loss annualized is {r}");
    } else if roi < -1.0 - 1e-9 {
        c.label("more than everything lost");
        let e = 1.0 / n;
        if (e - e.round()).abs() > 1e-6 * e.max(1.0) && e < 1e15 {
            ensure!(r == 0.0, "{roi} in {n} years annualized is {r} instead of zero");
        }
    }
    if n == 1.0 {
        ensure!(close_abs(r, roi, 1e-12, 1e-15) || roi <= -1.0, "{roi} in a year annualized is {r}");
    }
    Ok(())
}

fn text(c: &mut Case, max: usize, alphabet: &[u8]) -> String {
    let n = c.usize(0, max);
    (0..n).map(|_| c.pick(alphabet) as char).collect()
}

fn d06_checksum(c: &mut Case) -> Res {
    let long = c.chance(1, 50);
    let all: Vec<u8> = (b' '..=b'~').collect();
    let s = match c.draw(2) {
        0 => text(c, 20, b"abcdefghijklmnopqrstuvwxyz_"),
        1 => text(c, if long { 8000 } else { 200 }, &all),
        // large sums, to make the modulus matter
        _ => "~".repeat(if long { c.usize(0, 40_000) } else { c.usize(0, 3000) }),
    };
    c.sample(|| s.chars().take(60).collect());
    c.nontrivial_if(s.len() >= 3);
    c.label_if(s.len() > 520, "first sum reduced");
    // zlib's definition, summed directly: b = sum of (n - i) * byte + n
    let n = s.len() as u128;
    let a = (1 + s.bytes().map(u128::from).sum::<u128>()) % 65521;
    let b = (n + s.bytes().enumerate().map(|(i, x)| (n - i as u128) * u128::from(x)).sum::<u128>()) % 65521;
    let want = (b as u32) << 16 | a as u32;
    let got = quiet(|| adler32(&s))?;
    ensure!(got == want, "checksum of {s:?} is {got} instead of {want}");
    Ok(())
}

fn d06_symbols(c: &mut Case) -> Res {
    let n = c.usize(1, 8);
    let parts: Vec<(String, String)> = (0..n)
        .map(|_| {
            let alphabet: &[u8] = b"abcdefgh1237";
            let base = text(c, 6, alphabet);
            let second: &[u8] = if c.chance(1, 6) { b"abc-" } else { alphabet };
            let quote = text(c, 6, second);
            (base, quote)
        })
        .collect();
    let symbols: Vec<String> = parts.iter().map(|(b, q)| format!("{b}-{q}")).collect();
    c.sample(|| symbols.join(","));
    c.nontrivial_if(n >= 2);
    for (s, (b, q)) in symbols.iter().zip(&parts) {
        let r = quiet(|| (s.assets(), s.base_asset(), s.quote_asset()))?;
        ensure!(r == ((b.as_str(), q.as_str()), b, q), "{s} splits into {r:?}");
    }
    let want: Vec<&str> = parts.iter().flat_map(|(b, q)| [b.as_str(), q.as_str()]).collect();
    let got: Vec<&str> = iter_assets(symbols.iter().map(|s| s.as_str())).collect();
    ensure!(got == want, "assets of {symbols:?} are {got:?}");
    Ok(())
}

fn main() {
    vharness::engine::main(vec![
        Prop {
            id: "D01",
            rule: "round-trip: any interval up to 2^64-1 ms, dense at unit and power-of-two boundaries (non-trivial: no unit divides it); text: number-unit groups, whole or damaged by one edit, overlong numbers, soup (non-trivial: longer than two characters); json: numbers and other values",
            assumptions: &["a number in text is one or more ASCII digits; groups may come in any order and repeat"],
            subs: vec![sub("roundtrip", 400_000, 16_000_000, d01_roundtrip), sub("text", 600_000, 24_000_000, d01_text), sub("json", 100_000, 4_000_000, d01_json)],
        },
        Prop {
            id: "D02",
            rule: "round-trip: any time up to year 9999, dense at calendar boundaries (non-trivial: not midnight); text: RFC 3339 with fractions and offsets or dates, years 1-9999, whole or damaged by one edit (non-trivial: a date-time)",
            assumptions: &["years 1970 to 9999", "leap seconds, lower-case or unusual separators, signed years and offsets of 24 h and more are not judged", "fractions below a millisecond are truncated"],
            subs: vec![sub("roundtrip", 400_000, 16_000_000, d02_roundtrip), sub("text", 600_000, 24_000_000, d02_text), sub("json", 100_000, 4_000_000, d01_json), sub("now", 2_000, 20_000, d02_now)],
        },
        Prop {
            id: "D03",
            rule: "times: any time to year 9999 and any interval below a week, a week or a month, half of them at a boundary or a millisecond beside it (non-trivial: after the first interval); multiples: any 64-bit value, multiple and offset (non-trivial: value beyond the multiple)",
            assumptions: &["weeks only from 5 January 1970, the first representable Monday, on", "intervals longer than a week other than the month are unsupported", "results beyond 2^64 are not judged"],
            subs: vec![sub("times", 1_000_000, 40_000_000, d03_times), sub("multiples", 1_000_000, 40_000_000, d03_multiples)],
        },
        Prop {
            id: "D04",
            rule: "rounding: values over 18 decades, decimals and exact ties, precision 0-18 (non-trivial: something to round); filters: dyadic or decimal steps, limits on or off the grid, values at and around the limits (non-trivial: above the minimum with a step)",
            assumptions: &["exact where value * 10^precision or value / step is exact in floating point, to within one ulp otherwise"],
            subs: vec![sub("rounding", 1_000_000, 40_000_000, d04_rounding), sub("filters", 1_000_000, 40_000_000, d04_filters)],
        },
        Prop {
            id: "D05",
            rule: "ordered, non-overlapping, often touching spans; point-wise comparison of coverage (non-trivial: some touch and some do not; a span within the range; more than one page)",
            assumptions: &["input spans are ordered, non-empty and do not overlap"],
            subs: vec![sub("merge", 300_000, 12_000_000, d05_merge), sub("missing", 500_000, 20_000_000, d05_missing), sub("page", 300_000, 12_000_000, d05_page)],
        },
        Prop {
            id: "D06",
            rule: "random vectors (non-trivial: three or more values), returns over any duration (non-trivial: positive duration), names up to 8000 characters (non-trivial: three or more), lists of symbols (non-trivial: two or more)",
            assumptions: &["names are ASCII"],
            subs: vec![sub("numbers", 300_000, 12_000_000, d06_numbers), sub("annualized", 500_000, 20_000_000, d06_annualized), sub("checksum", 100_000, 3_000_000, d06_checksum), sub("symbols", 200_000, 8_000_000, d06_symbols)],
        },
    ]);
}
