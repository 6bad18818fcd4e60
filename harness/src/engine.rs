//! A small property-based-testing engine: every generated case is a sequence of
//! integer choices.  Random mode draws the choices from a seeded generator and
//! records them; replay mode feeds a recorded sequence back.  Shrinking works on
//! the choice sequence (delete / zero / lower / swap), so it needs no help from
//! the generators.  Failing sequences are written out as replay files.

use serde_json::{json, Value};
use std::{
    collections::{BTreeMap, HashSet},
    panic::{self, AssertUnwindSafe},
    sync::{
        atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering},
        Mutex,
    },
    time::{Duration, Instant},
};

pub fn mix(mut x: u64) -> u64 {
    x = x.wrapping_add(0x9E3779B97F4A7C15);
    x = (x ^ (x >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94D049BB133111EB);
    x ^ (x >> 31)
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for &x in b {
        h ^= x as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    mix(h)
}

#[derive(Clone)]
struct Xo([u64; 4]);
impl Xo {
    fn new(seed: u64) -> Self {
        let mut s = seed;
        let mut n = || {
            s = s.wrapping_add(0x9E3779B97F4A7C15);
            mix(s)
        };
        Xo([n(), n(), n(), n()])
    }
    fn next(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
}

pub enum Fail {
    Msg(String),
    Discard,
}
impl From<String> for Fail {
    fn from(s: String) -> Self {
        Fail::Msg(s)
    }
}
pub type Res = Result<(), Fail>;

#[macro_export]
macro_rules! fail {
    ($($t:tt)*) => { return Err($crate::engine::Fail::Msg(format!($($t)*))) };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err($crate::engine::Fail::Msg(format!($($t)*))); } };
}

/// How large generated histories and parameters are.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Scale {
    Small,
    /// realistic optimizer parameters, hundreds to thousands of steps
    Large,
    /// more steps than 16 bits count
    Marathon,
}

/// One generated case.
pub struct Case {
    pub scale: Scale,
    rng: Option<Xo>,
    replay: Vec<u64>,
    pos: usize,
    pub choices: Vec<u64>,
    pub labels: Vec<&'static str>,
    pub nontrivial: bool,
    pub sample: Option<String>,
    pub want_sample: bool,
    pub verbose: bool,
}

const MAX_CHOICES: usize = 4_000_000;

impl Case {
    pub fn random(seed: u64) -> Self {
        Case {
            scale: Scale::Small,
            rng: Some(Xo::new(seed)),
            replay: vec![],
            pos: 0,
            choices: vec![],
            labels: vec![],
            nontrivial: false,
            sample: None,
            want_sample: false,
            verbose: false,
        }
    }
    pub fn replay(ch: Vec<u64>) -> Self {
        let mut c = Case::random(0);
        c.rng = None;
        c.replay = ch;
        c
    }
    /// Uniform in 0..=max; the shrinker prefers 0.
    pub fn draw(&mut self, max: u64) -> u64 {
        let v = match &mut self.rng {
            Some(r) => {
                if max == u64::MAX {
                    r.next()
                } else {
                    // multiply-shift, bias negligible
                    ((r.next() as u128 * (max as u128 + 1)) >> 64) as u64
                }
            }
            None => {
                let v = self.replay.get(self.pos).copied().unwrap_or(0);
                self.pos += 1;
                v.min(max)
            }
        };
        if self.choices.len() < MAX_CHOICES {
            self.choices.push(v);
        }
        v
    }
    pub fn u64(&mut self, lo: u64, hi: u64) -> u64 {
        assert!(lo <= hi);
        lo + self.draw(hi - lo)
    }
    pub fn usize(&mut self, lo: usize, hi: usize) -> usize {
        self.u64(lo as u64, hi as u64) as usize
    }
    pub fn u32(&mut self, lo: u32, hi: u32) -> u32 {
        self.u64(lo as u64, hi as u64) as u32
    }
    pub fn bool(&mut self) -> bool {
        self.draw(1) == 1
    }
    /// true with probability num/den (false is simplest).
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.draw(den - 1) >= den - num
    }
    /// [0,1)
    pub fn unit(&mut self) -> f64 {
        self.draw((1 << 32) - 1) as f64 / (1u64 << 32) as f64
    }
    pub fn f64(&mut self, lo: f64, hi: f64) -> f64 {
        lo + self.unit() * (hi - lo)
    }
    /// log-uniform
    pub fn logf(&mut self, lo: f64, hi: f64) -> f64 {
        (lo.ln() + self.unit() * (hi.ln() - lo.ln())).exp()
    }
    pub fn pick<T: Clone>(&mut self, xs: &[T]) -> T {
        let i = self.usize(0, xs.len() - 1);
        xs[i].clone()
    }
    pub fn weighted(&mut self, ws: &[u64]) -> usize {
        let total: u64 = ws.iter().sum();
        let mut v = self.draw(total - 1);
        for (i, &w) in ws.iter().enumerate() {
            if v < w {
                return i;
            }
            v -= w;
        }
        unreachable!()
    }
    /// A length: mostly close to `hi` in large cases (the shrinker still reaches `lo`).
    pub fn len(&mut self, lo: usize, hi: usize) -> usize {
        if self.scale != Scale::Small && self.draw(15) > 0 {
            return self.usize(lo.max(hi * 9 / 10), hi);
        }
        self.usize(lo, hi)
    }
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.label(l)
        }
    }
    pub fn nontrivial_if(&mut self, c: bool) {
        if c {
            self.nontrivial = true;
        }
    }
    pub fn sample<F: FnOnce() -> String>(&mut self, f: F) {
        if (self.want_sample || self.verbose) && self.sample.is_none() {
            let mut s = f();
            if s.len() > 600 && !self.verbose {
                let mut n = 600;
                while !s.is_char_boundary(n) {
                    n -= 1;
                }
                s.truncate(n);
                s.push_str("...");
            }
            if self.verbose {
                println!("CASE: {s}");
            }
            self.sample = Some(s);
        }
    }
    pub fn std_rng(&mut self) -> rand::rngs::StdRng {
        use rand::SeedableRng;
        let s = self.draw(u64::MAX);
        rand::rngs::StdRng::seed_from_u64(s)
    }
}

pub type CaseFn = fn(&mut Case) -> Res;

pub struct Sub {
    pub name: &'static str,
    pub quick: usize,
    pub thorough: usize,
    /// run cases one after another (for checks that use shared resources)
    pub serial: bool,
    pub f: CaseFn,
}
pub fn sub(name: &'static str, quick: usize, thorough: usize, f: CaseFn) -> Sub {
    Sub { name, quick, thorough, serial: false, f }
}
pub fn sub_serial(name: &'static str, quick: usize, thorough: usize, f: CaseFn) -> Sub {
    Sub { name, quick, thorough, serial: true, f }
}

/// The same check on larger histories and parameters.
pub fn large(c: &mut Case, f: CaseFn) -> Res {
    c.scale = Scale::Large;
    f(c)
}
/// The same check on histories beyond what 16-bit counters hold.
pub fn marathon(c: &mut Case, f: CaseFn) -> Res {
    c.scale = Scale::Marathon;
    f(c)
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub subs: Vec<Sub>,
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = std::cell::RefCell::new(String::new());
}

fn install_hook() {
    panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".into());
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("panic: {msg} at {loc}"));
    }));
}

/// Run a closure of the code under test, turning a panic into Err.
pub fn quiet<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match panic::catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(e) => {
            let m = LAST_PANIC.with(|p| p.borrow().clone());
            let pm = e
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| e.downcast_ref::<String>().cloned());
            Err(if m.is_empty() { pm.unwrap_or_else(|| "panic".into()) } else { m })
        }
    }
}

enum Outcome {
    Pass,
    Discard,
    Fail(String),
}

fn run_case(f: CaseFn, case: &mut Case) -> Outcome {
    match quiet(|| f(case)) {
        Ok(Ok(())) => Outcome::Pass,
        Ok(Err(Fail::Discard)) => Outcome::Discard,
        Ok(Err(Fail::Msg(m))) => Outcome::Fail(m),
        Err(m) => Outcome::Fail(m),
    }
}

#[derive(Default)]
struct Stats {
    evaluations: u64,
    discards: u64,
    nontrivial: HashSet<u64>,
    labels: BTreeMap<&'static str, u64>,
    samples: Vec<(usize, String)>,
}

struct Found {
    case: usize,
    choices: Vec<u64>,
    msg: String,
}

fn hash_choices(c: &[u64]) -> u64 {
    let mut h = 0u64;
    for &x in c {
        h = mix(h ^ x).wrapping_add(0x1234567);
    }
    h
}

fn shrink(f: CaseFn, start: Vec<u64>, msg: String, limit: Duration) -> (Vec<u64>, String, usize) {
    let t0 = Instant::now();
    let mut best = start;
    let mut best_msg = msg;
    let mut tries = 0usize;
    let mut attempt = |cand: Vec<u64>, best: &mut Vec<u64>, best_msg: &mut String| -> bool {
        if tries > 20_000 || t0.elapsed() > limit {
            return false;
        }
        // must be smaller in shortlex order
        if (cand.len(), &cand) >= (best.len(), best) {
            return false;
        }
        tries += 1;
        let mut c = Case::replay(cand);
        if let Outcome::Fail(m) = run_case(f, &mut c) {
            let used = c.choices.clone();
            if (used.len(), &used) < (best.len(), best) {
                *best = used;
                *best_msg = m;
                return true;
            }
        }
        false
    };
    let over = || t0.elapsed() > limit;
    loop {
        let before = best.clone();
        // delete chunks
        let mut k = (best.len() / 2).max(1);
        loop {
            let mut i = best.len();
            while i > 0 && !over() {
                i = i.saturating_sub(k);
                if i + k <= best.len() {
                    let mut c = best.clone();
                    c.drain(i..i + k);
                    if !attempt(c, &mut best, &mut best_msg) && i > 0 {
                        // deletion plus decrementing an earlier choice (a length)
                        for back in 1..=3usize {
                            if i >= back && i - back < best.len() && best[i - back] > 0 && i + k <= best.len() {
                                let mut c = best.clone();
                                c[i - back] -= 1;
                                c.drain(i..i + k);
                                if attempt(c, &mut best, &mut best_msg) {
                                    break;
                                }
                            }
                        }
                    }
                }
            }
            if k == 1 || over() {
                break;
            }
            k /= 2;
        }
        // zero blocks
        let mut k = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.len() && !over() {
                let e = (i + k).min(best.len());
                if best[i..e].iter().any(|&v| v != 0) {
                    let mut c = best.clone();
                    for v in &mut c[i..e] {
                        *v = 0;
                    }
                    attempt(c, &mut best, &mut best_msg);
                }
                i += k;
            }
            if k == 1 || over() {
                break;
            }
            k /= 2;
        }
        // lower single values by binary search
        let mut i = 0;
        while i < best.len() && !over() {
            if best[i] > 0 {
                let (mut lo, mut hi) = (0u64, best[i]);
                while lo + 1 < hi {
                    let mid = lo + (hi - lo) / 2;
                    let mut c = best.clone();
                    if i >= c.len() {
                        break;
                    }
                    c[i] = mid;
                    if attempt(c, &mut best, &mut best_msg) {
                        hi = mid.min(best.get(i).copied().unwrap_or(0));
                    } else {
                        lo = mid;
                    }
                }
                if i < best.len() && best[i] > 0 {
                    let mut c = best.clone();
                    c[i] -= 1;
                    attempt(c, &mut best, &mut best_msg);
                }
            }
            i += 1;
        }
        if best == before || over() {
            break;
        }
    }
    (best, best_msg, tries)
}

fn env_u64(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|v| v.parse().ok()).unwrap_or(d)
}

fn out_dir() -> String {
    std::env::var("VERIF_OUT").unwrap_or_else(|_| "/verif/out".into())
}
fn evidence_dir() -> String {
    std::env::var("VERIF_EVIDENCE").unwrap_or_else(|_| "/verif/evidence".into())
}

fn write_replay(id: &str, sub: &str, choices: Option<&[u64]>, seed: u64, case: usize, msg: &str, sample: Option<String>) -> String {
    let dir = format!("{}/replay", out_dir());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{id}-{sub}.json");
    let v = json!({"property": id, "sub": sub, "seed": seed, "case": case, "choices": choices, "message": msg, "case_description": sample});
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap());
    path
}

fn seed_for(seed: u64, id: &str, sub: &str, i: usize) -> u64 {
    mix(mix(seed ^ hash_bytes(id.as_bytes())) ^ hash_bytes(sub.as_bytes()) ^ mix(i as u64))
}

/// Entry point of every harness binary.
pub fn main(props: Vec<Prop>) -> ! {
    install_hook();
    let args: Vec<String> = std::env::args().collect();
    if args.len() >= 3 && args[1] == "replay" {
        std::process::exit(replay_file(&props, &args[2]));
    }
    if args.len() < 2 {
        eprintln!("usage: {} <ID> | replay <file>", args[0]);
        eprintln!("properties: {:?}", props.iter().map(|p| p.id).collect::<Vec<_>>());
        std::process::exit(2);
    }
    let Some(prop) = props.iter().find(|p| p.id == args[1]) else {
        eprintln!("unknown property {}", args[1]);
        std::process::exit(2);
    };
    let tier = match args.get(2).cloned().or_else(|| std::env::var("VERIF_TIER").ok()) {
        Some(t) if t == "thorough" => "thorough",
        _ => "quick",
    };
    std::process::exit(run_prop(prop, tier));
}

fn replay_file(props: &[Prop], path: &str) -> i32 {
    let v: Value = match std::fs::read_to_string(path).ok().and_then(|s| serde_json::from_str(&s).ok()) {
        Some(v) => v,
        None => {
            eprintln!("cannot read {path}");
            return 2;
        }
    };
    let id = v["property"].as_str().unwrap_or("");
    let subn = v["sub"].as_str().unwrap_or("");
    let Some(s) = props.iter().find(|p| p.id == id).and_then(|p| p.subs.iter().find(|s| s.name == subn)) else {
        eprintln!("no such property/sub {id}/{subn}");
        return 2;
    };
    let mut c = match v["choices"].as_array() {
        Some(a) => Case::replay(a.iter().map(|x| x.as_u64().unwrap_or(0)).collect()),
        None => Case::random(seed_for(
            v["seed"].as_u64().unwrap_or(0),
            id,
            subn,
            v["case"].as_u64().unwrap_or(0) as usize,
        )),
    };
    c.verbose = true;
    match run_case(s.f, &mut c) {
        Outcome::Pass => {
            println!("replay: property holds on this case");
            0
        }
        Outcome::Discard => {
            println!("replay: case discarded");
            0
        }
        Outcome::Fail(m) => {
            println!("replay: {m}");
            println!("VIOLATION property={id} replay={path}");
            1
        }
    }
}

fn run_prop(prop: &Prop, tier: &'static str) -> i32 {
    let t0 = Instant::now();
    let seed = env_u64("VERIF_SEED", 1);
    let only = std::env::var("VERIF_SUB").ok();
    let budget = Duration::from_secs(env_u64(
        "VERIF_BUDGET_S",
        if tier == "thorough" { 3000 } else { 240 },
    ));
    let hang_s = env_u64("VERIF_HANG_S", 90);
    let threads = env_u64(
        "VERIF_THREADS",
        std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(8).min(16),
    ) as usize;
    let mut total = Stats::default();
    let mut per_sub = serde_json::Map::new();
    let mut violation: Option<(String, String)> = None;
    let mut samples: Vec<String> = vec![];
    let (mult, div) = (env_u64("VERIF_MULT", 1) as usize, env_u64("VERIF_DIV", 1).max(1) as usize);
    let mut timed_out = false;

    for s in &prop.subs {
        if let Some(o) = &only {
            if o != s.name {
                continue;
            }
        }
        let n = if tier == "thorough" { s.thorough } else { s.quick } * mult / div;
        let st = Instant::now();
        let counter = AtomicUsize::new(0);
        let best_fail = AtomicUsize::new(usize::MAX);
        let found: Mutex<Option<Found>> = Mutex::new(None);
        let stats: Mutex<Stats> = Mutex::new(Stats::default());
        let nthreads = if s.serial { 1 } else { threads };
        let done = AtomicBool::new(false);
        let slots: Vec<(AtomicU64, AtomicUsize)> =
            (0..nthreads).map(|_| (AtomicU64::new(0), AtomicUsize::new(0))).collect();
        let epoch = Instant::now();
        let over_budget = AtomicBool::new(false);
        let live = AtomicUsize::new(nthreads);
        std::thread::scope(|scope| {
            for t in 0..nthreads {
                let (counter, best_fail, found, stats, slots, live, over_budget, done) =
                    (&counter, &best_fail, &found, &stats, &slots, &live, &over_budget, &done);
                let builder = std::thread::Builder::new().stack_size(64 << 20);
                builder
                    .spawn_scoped(scope, move || {
                        let mut local = Stats::default();
                        loop {
                            let i = counter.fetch_add(1, Ordering::SeqCst);
                            if i >= n || i > best_fail.load(Ordering::SeqCst) {
                                break;
                            }
                            if t0.elapsed() > budget {
                                over_budget.store(true, Ordering::SeqCst);
                                break;
                            }
                            slots[t].1.store(i, Ordering::SeqCst);
                            slots[t].0.store(epoch.elapsed().as_millis() as u64 + 1, Ordering::SeqCst);
                            let mut c = Case::random(seed_for(seed, prop.id, s.name, i));
                            c.want_sample = i < 64 && local.samples.len() < 3;
                            let o = run_case(s.f, &mut c);
                            slots[t].0.store(0, Ordering::SeqCst);
                            local.evaluations += 1;
                            match o {
                                Outcome::Discard => local.discards += 1,
                                Outcome::Pass => {
                                    for l in &c.labels {
                                        *local.labels.entry(l).or_insert(0) += 1;
                                    }
                                    if c.nontrivial {
                                        local.nontrivial.insert(hash_choices(&c.choices));
                                        if let Some(sm) = c.sample.take() {
                                            local.samples.push((i, sm));
                                        }
                                    }
                                }
                                Outcome::Fail(msg) => {
                                    let mut g = found.lock().unwrap();
                                    if g.as_ref().map_or(true, |f| i < f.case) {
                                        best_fail.store(i, Ordering::SeqCst);
                                        *g = Some(Found { case: i, choices: c.choices.clone(), msg });
                                    }
                                    break;
                                }
                            }
                        }
                        let mut g = stats.lock().unwrap();
                        g.evaluations += local.evaluations;
                        g.discards += local.discards;
                        g.nontrivial.extend(local.nontrivial);
                        for (k, v) in local.labels {
                            *g.labels.entry(k).or_insert(0) += v;
                        }
                        g.samples.extend(local.samples);
                        drop(g);
                        if live.fetch_sub(1, Ordering::SeqCst) == 1 {
                            done.store(true, Ordering::SeqCst);
                        }
                    })
                    .unwrap();
            }
            // watchdog: a case that does not terminate is a failure of its own
            let (slots, done) = (&slots, &done);
            scope.spawn(move || {
                while !done.load(Ordering::SeqCst) {
                    std::thread::sleep(Duration::from_millis(20));
                    let now = epoch.elapsed().as_millis() as u64;
                    for (start, i) in slots.iter() {
                        let st = start.load(Ordering::SeqCst);
                        if st != 0 && now.saturating_sub(st) > hang_s * 1000 {
                            let i = i.load(Ordering::SeqCst);
                            let msg = format!("case {i} of {} did not finish within {hang_s} s", s.name);
                            let path = write_replay(prop.id, s.name, None, seed, i, &msg, None);
                            println!("{msg}");
                            println!("VIOLATION property={} replay={}", prop.id, path);
                            std::process::exit(1);
                        }
                    }
                }
            });
        });
        timed_out |= over_budget.load(Ordering::SeqCst);
        let mut stats = stats.into_inner().unwrap();
        stats.samples.sort();
        per_sub.insert(
            s.name.into(),
            json!({
                "evaluations": stats.evaluations,
                "discarded": stats.discards,
                "distinct_nontrivial": stats.nontrivial.len(),
                "labels": stats.labels.iter().map(|(k, v)| (k.to_string(), json!(v))).collect::<serde_json::Map<_, _>>(),
                "wall_s": st.elapsed().as_secs_f64(),
            }),
        );
        eprintln!(
            "{} {}: {} cases, {} nontrivial, {} discarded, {:.1}s {:?}",
            prop.id, s.name, stats.evaluations, stats.nontrivial.len(), stats.discards, st.elapsed().as_secs_f64(), stats.labels
        );
        for (i, sm) in stats.samples.iter().take(2) {
            samples.push(format!("{} #{i}: {sm}", s.name));
        }
        total.evaluations += stats.evaluations;
        total.discards += stats.discards;
        for h in &stats.nontrivial {
            total.nontrivial.insert(mix(*h ^ hash_bytes(s.name.as_bytes())));
        }
        if let Some(f) = found.into_inner().unwrap() {
            println!("{} {}: case {} failed: {}", prop.id, s.name, f.case, f.msg);
            let (ch, msg, tries) = if s.serial {
                shrink(s.f, f.choices.clone(), f.msg.clone(), Duration::from_secs(10))
            } else {
                shrink(s.f, f.choices.clone(), f.msg.clone(), Duration::from_secs(20))
            };
            let mut c = Case::replay(ch.clone());
            c.want_sample = true;
            let _ = run_case(s.f, &mut c);
            println!("shrunk to {} choices after {} attempts: {}", ch.len(), tries, msg);
            if let Some(sm) = &c.sample {
                println!("minimal case: {sm}");
            }
            let path = write_replay(prop.id, s.name, Some(&ch), seed, f.case, &msg, c.sample.clone());
            violation = Some((path, msg));
            break;
        }
    }
    if samples.is_empty() {
        samples.push("no sample recorded".into());
    }
    let ev = json!({
        "property": prop.id,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": total.evaluations,
            "distinct_nontrivial": total.nontrivial.len(),
            "discarded": total.discards,
            "rule": prop.rule,
            "samples": samples,
            "subchecks": per_sub,
            "stopped_by_time_budget": timed_out,
        },
        "assumptions": prop.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": if violation.is_some() {1} else {0},
    });
    let dir = evidence_dir();
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(format!("{dir}/{}.json", prop.id), serde_json::to_string_pretty(&ev).unwrap()).expect("evidence file");
    match violation {
        Some((path, _)) => {
            println!("VIOLATION property={} replay={}", prop.id, path);
            1
        }
        None => {
            println!("OK property={} evaluations={} distinct_nontrivial={}", prop.id, total.evaluations, total.nontrivial.len());
            0
        }
    }
}
