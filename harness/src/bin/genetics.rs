//! E01-E07: the optimizer.
use juno::{
    genetics::{
        crossover::{Crossover, UniformCrossover},
        mutation::{Mutation, UniformMutation},
        reinsertion::{EliteReinsertion, FitnessReinsertion, PureReinsertion, Reinsertion},
        selection::{EliteSelection, GenerateRandomSelection, Selection, TournamentSelection},
        Chromosome, Evaluation, Evolution, Generation, GeneticAlgorithm, Individual,
    },
    statistics::Statistics,
    strategies::StrategyMeta,
    trading::{Position, 
        trade, EvaluationAggregation, EvaluationStatistic, TradeInput, TradingParams,
        TradingParamsContext,
    },
    Interval, SymbolExt,
};
use juno_derive::*;
use rand::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value};
use std::{
    cell::RefCell,
    collections::{BTreeMap, BTreeSet},
    io::{Read, Write},
    sync::{Mutex, OnceLock},
};
use vharness::{
    engine::{large, marathon, mix, quiet, sub, sub_serial, Case, Fail, Prop, Res, Scale},
    ensure, fail,
    gens::*,
    models::{close, close_abs},
    world::*,
    perf::reference,
};

// ---------------------------------------------------------------------------
// gene trees over JSON

const MAS: [&str; 7] = ["Alma", "Dema", "Ema", "Ema2", "Kama", "Sma", "Smma"];

/// The kind of a chosen variant, if this value is a variant choice.
fn variant(v: &Value) -> Option<&str> {
    let t = v.as_object()?.get("type")?.as_str()?;
    if MAS.contains(&t) {
        None
    } else {
        Some(t)
    }
}
fn is_struct(v: &Value) -> bool {
    v.is_object() && v.get("type").is_none()
}

type Node = Vec<String>;

fn children<'a>(v: &'a Value) -> impl Iterator<Item = (&'a String, &'a Value)> {
    v.as_object().unwrap().iter().filter(|(k, _)| *k != "type")
}

/// All genes of one individual: leaves and variant choices.
fn nodes(v: &Value, path: &mut Node, out: &mut Vec<Node>) {
    if variant(v).is_some() {
        out.push(path.clone());
    } else if !is_struct(v) {
        out.push(path.clone());
        return;
    }
    for (k, x) in children(v) {
        path.push(k.clone());
        nodes(x, path, out);
        path.pop();
    }
}
/// Genes two individuals have in common (reached through equal variants).
fn common_nodes(a: &Value, b: &Value, path: &mut Node, out: &mut Vec<Node>) {
    match (variant(a), variant(b)) {
        (Some(x), Some(y)) => {
            out.push(path.clone());
            if x != y {
                return;
            }
        }
        (None, None) if is_struct(a) && is_struct(b) => {}
        _ => {
            out.push(path.clone());
            return;
        }
    }
    for (k, x) in children(a) {
        path.push(k.clone());
        common_nodes(x, &b[k], path, out);
        path.pop();
    }
}
fn at<'a>(v: &'a Value, p: &[String]) -> &'a Value {
    p.iter().fold(v, |v, k| &v[k])
}
fn swap_at(a: &Value, b: &Value, p: &[String]) -> (Value, Value) {
    let (mut x, mut y) = (a.clone(), b.clone());
    let px = p.iter().fold(&mut x, |v, k| &mut v[k.as_str()]);
    let py = p.iter().fold(&mut y, |v, k| &mut v[k.as_str()]);
    std::mem::swap(px, py);
    (x, y)
}
/// Genes in which two individuals differ: variant nodes or leaves.
fn diff(a: &Value, b: &Value, path: &mut Node, out: &mut Vec<Node>) {
    if a == b {
        return;
    }
    let both = match (variant(a), variant(b)) {
        (Some(x), Some(y)) => x == y,
        (None, None) => is_struct(a) && is_struct(b),
        _ => false,
    };
    if !both {
        out.push(path.clone());
        return;
    }
    for (k, x) in children(a) {
        path.push(k.clone());
        diff(x, &b[k], path, out);
        path.pop();
    }
}
fn show(p: &[String]) -> String {
    p.join(".")
}

#[derive(Debug, Default)]
struct Schema {
    leaf: bool,
    fields: BTreeMap<String, Schema>,
    variants: BTreeMap<String, Schema>,
}
impl Schema {
    fn add(&mut self, v: &Value) {
        if let Some(t) = variant(v) {
            let s = self.variants.entry(t.to_string()).or_default();
            for (k, x) in children(v) {
                s.fields.entry(k.clone()).or_default().add(x);
            }
        } else if is_struct(v) {
            for (k, x) in children(v) {
                self.fields.entry(k.clone()).or_default().add(x);
            }
        } else {
            self.leaf = true;
        }
    }
    fn len(&self) -> usize {
        if !self.variants.is_empty() {
            1 + self.variants.values().map(|v| v.fields.values().map(|f| f.len()).sum()).max().unwrap_or(0)
        } else if self.leaf {
            1
        } else {
            self.fields.values().map(|f| f.len()).sum()
        }
    }
}

fn jv<T: Serialize>(v: &T) -> Value {
    serde_json::to_value(v).expect("configuration to JSON")
}
/// Any seed, often one a careless conversion or default would confuse with another.
fn any_seed(c: &mut Case) -> u64 {
    match c.draw(3) {
        3 => c.pick(&[0, 1, u64::MAX, 1 << 63, (1 << 63) - 1, (1 << 53) + 1, (1 << 32) + 1, u32::MAX as u64, 1 << 32, u64::MAX - 1]),
        2 => c.draw(1000),
        _ => c.draw(u64::MAX),
    }
}
fn rng(seed: u64) -> StdRng {
    StdRng::seed_from_u64(seed)
}

// ---------------------------------------------------------------------------
// harness-side chromosomes built with the crate's derive macros

fn n0(r: &mut StdRng) -> u32 {
    r.gen()
}
macro_rules! gens { ($($n:ident),*) => { $( fn $n(r: &mut StdRng) -> u32 { n0(r) } )* } }
gens!(pa, pb, pc, qa, ra, rb, rc, rd, re, ta, tb, ua, x0, x1, x2, x3, x4, x5, x6, x7, x8, x9);

#[derive(Chromosome, Clone, Copy, Debug, Deserialize, Serialize, PartialEq)]
pub struct PParams {
    pub pa: u32,
    pub pb: u32,
    pub pc: u32,
}
#[derive(Chromosome, Clone, Copy, Debug, Deserialize, Serialize, PartialEq)]
pub struct QParams {
    pub qa: u32,
}
#[derive(Chromosome, Clone, Copy, Debug, Deserialize, Serialize, PartialEq)]
pub struct RParams {
    #[chromosome]
    pub inner: InnerParams,
    #[chromosome]
    pub p: PParams,
    pub ra: u32,
    pub rb: u32,
}
#[derive(Chromosome, Clone, Copy, Debug, Deserialize, Serialize, PartialEq)]
pub struct EmptyParams {}

#[derive(ChromosomeEnum, Clone, Copy, Debug, Deserialize, Serialize, PartialEq)]
#[serde(tag = "type")]
pub enum InnerParams {
    Q(QParams),
    P(PParams),
}
#[derive(ChromosomeEnum, Clone, Copy, Debug, Deserialize, Serialize, PartialEq)]
#[serde(tag = "type")]
pub enum OuterParams {
    R(RParams),
    Empty(EmptyParams),
    P(PParams),
}
#[derive(Chromosome, Clone, Copy, Debug, Deserialize, Serialize, PartialEq)]
pub struct DeepParams {
    #[chromosome]
    pub outer: OuterParams,
    #[chromosome]
    pub p: PParams,
    #[chromosome]
    pub inner: InnerParams,
    pub ta: u32,
    pub tb: u32,
}
#[derive(Chromosome, Clone, Copy, Debug, Deserialize, Serialize, PartialEq)]
pub struct WideParams {
    pub x0: u32,
    pub x1: u32,
    pub x2: u32,
    pub x3: u32,
    pub x4: u32,
    pub x5: u32,
    pub x6: u32,
    pub x7: u32,
    pub x8: u32,
    pub x9: u32,
}
impl WideParams {
    fn arr(&self) -> [u32; 10] {
        [self.x0, self.x1, self.x2, self.x3, self.x4, self.x5, self.x6, self.x7, self.x8, self.x9]
    }
}
#[derive(Chromosome, Clone, Copy, Debug, Deserialize, Serialize, PartialEq)]
pub struct Toy {
    pub ua: u32,
    pub rc: u32,
    pub rd: u32,
    pub re: u32,
}

// ---------------------------------------------------------------------------
// E03

fn cross_check<T: Chromosome + Serialize>(a: &T, b: &T) -> Result<usize, String> {
    let (ja, jb) = (jv(a), jv(b));
    let mut cn = vec![];
    common_nodes(&ja, &jb, &mut vec![], &mut cn);
    // effect of swapping each common gene; genes that do not differ have no effect
    let mut want: BTreeMap<String, (usize, String)> = BTreeMap::new();
    for n in &cn {
        if at(&ja, n) != at(&jb, n) {
            let e = swap_at(&ja, &jb, n);
            let k = format!("{}|{}", e.0, e.1);
            let w = want.entry(k).or_insert((0, String::new()));
            w.0 += 1;
            w.1 = show(n);
        }
    }
    let total = want.len();
    let same = format!("{ja}|{jb}");
    for i in 0..T::len() {
        let (mut x, mut y) = (a.clone(), b.clone());
        quiet(|| x.cross(&mut y, i)).map_err(|m| format!("crossing at gene {i}: {m}"))?;
        let k = format!("{}|{}", jv(&x), jv(&y));
        if k != same {
            match want.get_mut(&k) {
                Some(w) if w.0 > 0 => w.0 -= 1,
                Some(w) => return Err(format!("two indices (one is {i}) swap gene {}", w.1)),
                None => {
                    let mut d = vec![];
                    diff(&ja, &jv(&x), &mut vec![], &mut d);
                    let mut d2 = vec![];
                    diff(&jb, &jv(&y), &mut vec![], &mut d2);
                    return Err(format!(
                        "crossing at {i} is not the swap of one gene: first changed in {:?}, second in {:?}",
                        d.iter().map(|p| show(p)).collect::<Vec<_>>(),
                        d2.iter().map(|p| show(p)).collect::<Vec<_>>()
                    ));
                }
            }
        }
        quiet(|| x.cross(&mut y, i)).map_err(|m| format!("crossing back at gene {i}: {m}"))?;
        if format!("{}|{}", jv(&x), jv(&y)) != same {
            return Err(format!("crossing twice at gene {i} does not restore both"));
        }
    }
    if let Some(w) = want.values().find(|w| w.0 > 0) {
        return Err(format!("no index swaps gene {}", w.1));
    }
    Ok(total)
}

/// Lowest gene that covers all the changed ones.
fn cover(orig: &Value, changed: &BTreeSet<Node>) -> Option<Node> {
    let mut it = changed.iter();
    let mut p = it.next()?.clone();
    for q in it {
        let n = p.iter().zip(q).take_while(|(a, b)| a == b).count();
        p.truncate(n);
    }
    // walk up to a node that is a gene
    loop {
        let v = at(orig, &p);
        if variant(v).is_some() || (!is_struct(v)) {
            return Some(p);
        }
        if p.is_empty() {
            return None;
        }
        p.pop();
    }
}

fn mutate_check<T: Chromosome + Serialize>(a: &T, ctx: &T::Context, seed: u64, tries: u64, fixed: &[&str]) -> Result<(), String> {
    let ja = jv(a);
    let mut all = vec![];
    nodes(&ja, &mut vec![], &mut all);
    let mut left: BTreeSet<Node> = all.iter().cloned().collect();
    left.retain(|n| !n.last().map_or(false, |l| fixed.contains(&l.as_str())));
    for i in 0..T::len() {
        let mut changed = BTreeSet::new();
        for t in 0..tries {
            let mut x = a.clone();
            let mut r = rng(mix(seed ^ (i as u64) << 32 ^ t));
            quiet(|| x.mutate(&mut r, i, ctx)).map_err(|m| format!("mutating gene {i}: {m}"))?;
            let mut d = vec![];
            diff(&ja, &jv(&x), &mut vec![], &mut d);
            changed.extend(d);
        }
        if changed.is_empty() {
            continue;
        }
        let Some(n) = cover(&ja, &changed) else {
            return Err(format!("mutating at {i} changes several genes: {:?}", changed.iter().map(|p| show(p)).collect::<Vec<_>>()));
        };
        if !left.remove(&n) {
            return Err(format!(
                "mutating at {i} changes gene {} which another index already covers (changed: {:?})",
                show(&n),
                changed.iter().map(|p| show(p)).collect::<Vec<_>>()
            ));
        }
    }
    if let Some(n) = left.iter().next() {
        return Err(format!("no index mutates gene {}", show(n)));
    }
    Ok(())
}

const IVS: [u64; 4] = [HOUR, DAY, 4 * HOUR, 900_000];

fn free_ctx_json() -> Value {
    json!({"trader": {"intervals": IVS}})
}
fn ctx_of(v: &Value) -> Result<TradingParamsContext, Fail> {
    serde_json::from_value(v.clone()).map_err(|e| Fail::Msg(format!("context {v} rejected: {e}")))
}
fn free_ctx() -> &'static TradingParamsContext {
    static C: OnceLock<TradingParamsContext> = OnceLock::new();
    C.get_or_init(|| serde_json::from_value(free_ctx_json()).expect("context JSON"))
}
fn schema() -> &'static Schema {
    static S: OnceLock<Schema> = OnceLock::new();
    S.get_or_init(|| {
        let mut s = Schema::default();
        let mut r = rng(77);
        for _ in 0..6000 {
            s.add(&jv(&TradingParams::generate(&mut r, free_ctx())));
        }
        s
    })
}

/// A context that fixes only the variant choices of `v` (with probability num/4 each).
fn pin_variants(c: &mut Case, v: &Value, num: u64) -> Value {
    let mut o = Map::new();
    if let Some(t) = variant(v) {
        if !c.chance(num, 4) {
            return json!({"type": "None"});
        }
        o.insert("type".into(), json!(t));
    }
    for (k, x) in children(v) {
        if k == "trader" {
            o.insert(k.clone(), json!({ "intervals": IVS }));
        } else if x.is_object() && (variant(x).is_some() || is_struct(x)) {
            o.insert(k.clone(), pin_variants(c, x, num));
        }
    }
    Value::Object(o)
}

fn gen_pair(c: &mut Case) -> Result<(TradingParams, TradingParams), Fail> {
    let mut r = c.std_rng();
    let a = TradingParams::generate(&mut r, free_ctx());
    let b = match c.weighted(&[3, 1, 1]) {
        // same kinds throughout
        0 => {
            let ctx = pin_variants(c, &jv(&a), 4);
            TradingParams::generate(&mut r, &ctx_of(&ctx)?)
        }
        1 => {
            let ctx = pin_variants(c, &jv(&a), 3);
            TradingParams::generate(&mut r, &ctx_of(&ctx)?)
        }
        _ => TradingParams::generate(&mut r, free_ctx()),
    };
    Ok((a, b))
}

fn e03_cross(c: &mut Case) -> Res {
    ensure!(TradingParams::len() == schema().len(), "{} genes announced, {} tunable fields", TradingParams::len(), schema().len());
    let (a, b) = gen_pair(c)?;
    c.sample(|| format!("a={} b={}", json(&a), json(&b)));
    let n = cross_check(&a, &b)?;
    c.nontrivial_if(n >= 4);
    c.label_if(jv(&a)["strategy"]["type"] == jv(&b)["strategy"]["type"], "same strategy kind");
    Ok(())
}
fn e03_mutate(c: &mut Case) -> Res {
    let mut r = c.std_rng();
    let a = TradingParams::generate(&mut r, free_ctx());
    let s = c.draw(u64::MAX);
    c.sample(|| format!("a={} seed={s}", json(&a)));
    mutate_check(&a, free_ctx(), s, 48, &["buffer_interval"])?;
    c.nontrivial = true;
    Ok(())
}
fn e03_derive(c: &mut Case) -> Res {
    ensure!(DeepParams::len() == (1 + (4 + 3 + 2)) + 3 + (1 + 3) + 2, "nested configuration announces {} genes", DeepParams::len());
    ensure!(OuterParams::len() == 10 && InnerParams::len() == 4 && RParams::len() == 9 && EmptyParams::len() == 0, "gene counts of nested parts");
    let mut r = c.std_rng();
    let ctx = DeepParamsContext::default();
    let a = DeepParams::generate(&mut r, &ctx);
    let mut b = DeepParams::generate(&mut r, &ctx);
    if c.chance(2, 3) {
        let v = pin_variants(c, &jv(&a), 4);
        let k: DeepParamsContext = serde_json::from_value(v).map_err(|e| Fail::Msg(format!("context: {e}")))?;
        b = DeepParams::generate(&mut r, &k);
    }
    c.sample(|| format!("a={} b={}", json(&a), json(&b)));
    let n = cross_check(&a, &b)?;
    c.nontrivial_if(n >= 4);
    let s = c.draw(u64::MAX);
    mutate_check(&a, &ctx, s, 40, &[])?;
    Ok(())
}

// ---------------------------------------------------------------------------
// E04

fn val_eq(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Number(x), Value::Number(y)) => close(x.as_f64().unwrap(), y.as_f64().unwrap(), 1e-12),
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| val_eq(p, q)),
        (Value::Object(x), Value::Object(y)) => x.len() == y.len() && x.iter().all(|(k, p)| y.get(k).map_or(false, |q| val_eq(p, q))),
        _ => a == b,
    }
}

/// Fix a random subset of the parameters of `v`.
fn pin(c: &mut Case, v: &Value, num: u64, pins: &mut usize) -> Value {
    let mut o = Map::new();
    if let Some(t) = variant(v) {
        if !c.chance(num.max(1), 6) {
            // leaving the kind open: no kind, or nothing said at all
            return if c.bool() { json!({"type": "None"}) } else { Value::Null };
        }
        o.insert("type".into(), json!(t));
        *pins += 1;
    }
    for (k, x) in children(v) {
        if k == "trader" {
            let mut ivs: Vec<u64> = IVS.iter().copied().filter(|_| c.bool()).collect();
            if ivs.is_empty() {
                ivs.push(c.pick(&IVS));
            }
            *pins += 1;
            o.insert(k.clone(), json!({ "intervals": ivs }));
        } else if x.is_object() && (variant(x).is_some() || is_struct(x)) {
            let p = pin(c, x, num, pins);
            if !p.is_null() {
                o.insert(k.clone(), p);
            }
        } else if k == "buffer_interval" {
            if c.chance(num, 6) {
                *pins += 1;
                o.insert(k.clone(), json!(7 * DAY));
            }
        } else if c.chance(num, 6) {
            *pins += 1;
            o.insert(k.clone(), x.clone());
        } else if c.chance(1, 4) {
            o.insert(k.clone(), Value::Null);
        }
    }
    Value::Object(o)
}

fn conforms(ctx: &Value, v: &Value, path: &str) -> Result<(), String> {
    if let Some(ivs) = ctx.get("intervals") {
        return if ivs.as_array().unwrap().contains(&v["interval"]) { Ok(()) } else { Err(format!("interval {} not among {ivs}", v["interval"])) };
    }
    if variant(v).is_some() {
        match ctx.get("type").and_then(|t| t.as_str()) {
            None | Some("None") => return Ok(()),
            Some(t) => {
                if Some(t) != variant(v) {
                    return Err(format!("{path} is {} instead of the fixed {t}", v["type"]));
                }
            }
        }
    }
    for (k, p) in children(ctx) {
        if p.is_null() {
            continue;
        }
        let x = &v[k];
        if x.is_object() && (variant(x).is_some() || is_struct(x)) {
            conforms(p, x, &format!("{path}.{k}"))?;
        } else if !val_eq(p, x) {
            return Err(format!("{path}.{k} is {x} instead of the fixed {p}"));
        }
    }
    Ok(())
}

/// Names of the parameters a context leaves open, reachable in `v`.
fn open_leaves(ctx: &Value, v: &Value, path: &mut Node, out: &mut Vec<Node>) {
    if let Some(ivs) = ctx.get("intervals") {
        if ivs.as_array().unwrap().len() > 1 {
            path.push("interval".into());
            out.push(path.clone());
            path.pop();
        }
        return;
    }
    if variant(v).is_some() && matches!(ctx.get("type").and_then(|t| t.as_str()), None | Some("None")) {
        path.push("type".into());
        out.push(path.clone());
        path.pop();
        return;
    }
    for (k, x) in children(v) {
        if k == "buffer_interval" {
            continue;
        }
        path.push(k.clone());
        let p = ctx.get(k).unwrap_or(&Value::Null);
        if x.is_object() && (variant(x).is_some() || is_struct(x)) {
            open_leaves(p, x, path, out);
        } else if p.is_null() {
            out.push(path.clone());
        }
        path.pop();
    }
}

struct Watch {
    ctx: Value,
    bad: Mutex<Option<String>>,
    seen: Mutex<usize>,
}
impl Evaluation for Watch {
    type Chromosome = TradingParams;
    fn evaluate(&self, population: &mut [Individual<TradingParams>]) {
        for ind in population.iter_mut() {
            let v = jv(&ind.chromosome);
            *self.seen.lock().unwrap() += 1;
            if let Err(e) = conforms(&self.ctx, &v, "") {
                self.bad.lock().unwrap().get_or_insert(e);
            }
            ind.fitness = (vharness::engine::hash_bytes(v.to_string().as_bytes()) % 1000) as f64 - 500.0;
        }
    }
}

fn nop<T: Chromosome>(_: usize, _: &Generation<T>) {}

fn pinned_ctx(c: &mut Case) -> (Value, usize) {
    let mut r = c.std_rng();
    let template = TradingParams::generate(&mut r, free_ctx());
    let mut pins = 0;
    let num = c.pick(&[0, 1, 3, 4, 6]);
    (pin(c, &jv(&template), num, &mut pins), pins)
}

fn e04_ops(c: &mut Case) -> Res {
    let (cj, pins) = pinned_ctx(c);
    let ctx = ctx_of(&cj)?;
    c.sample(|| format!("context={cj}"));
    c.nontrivial_if(pins >= 3);
    let mut r = c.std_rng();
    let mut pop: Vec<TradingParams> = (0..6).map(|_| TradingParams::generate(&mut r, &ctx)).collect();
    for p in &pop {
        conforms(&cj, &jv(p), "").map_err(|e| format!("generated: {e}"))?;
    }
    let steps = c.usize(1, 30);
    let mut log = vec![];
    for _ in 0..steps {
        let i = c.usize(0, pop.len() - 1);
        let g = c.usize(0, TradingParams::len() - 1);
        if c.bool() {
            let mut x = pop[i];
            x.mutate(&mut r, g, &ctx);
            pop[i] = x;
            log.push(format!("mutate {i} at {g}"));
            conforms(&cj, &jv(&pop[i]), "").map_err(|e| format!("after {log:?}: {e}"))?;
        } else {
            let j = (i + c.usize(1, pop.len() - 1)) % pop.len();
            let (mut x, mut y) = (pop[i], pop[j]);
            x.cross(&mut y, g);
            pop[i] = x;
            pop[j] = y;
            log.push(format!("cross {i},{j} at {g}"));
            conforms(&cj, &jv(&pop[i]), "").and_then(|_| conforms(&cj, &jv(&pop[j]), "")).map_err(|e| format!("after {log:?}: {e}"))?;
        }
    }
    Ok(())
}

fn e04_evolve(c: &mut Case) -> Res {
    let (cj, pins) = pinned_ctx(c);
    let ctx = ctx_of(&cj)?;
    c.sample(|| format!("context={cj}"));
    c.nontrivial_if(pins >= 3);
    let w = Watch { ctx: cj.clone(), bad: Mutex::new(None), seen: Mutex::new(0) };
    let ga = GeneticAlgorithm::new(
        w,
        EliteSelection::new(c.bool()),
        UniformCrossover::new(0.5),
        UniformMutation::new(0.25),
        EliteReinsertion::new(0.75, 0.5),
    );
    let (pop, gens) = match c.scale {
        Scale::Small => (c.usize(3, 20), c.usize(1, 5)),
        _ => (c.usize(10, 100), c.usize(5, 30)),
    };
    let ev = ga.evolve(pop, gens, pop, Some(c.draw(u64::MAX)), nop, &ctx);
    if let Some(e) = ga.evaluation.bad.lock().unwrap().take() {
        fail!("an evaluated candidate: {e}");
    }
    for (i, g) in ev.generations.iter().enumerate() {
        for ind in &g.hall_of_fame {
            conforms(&cj, &jv(&ind.chromosome), "").map_err(|e| format!("generation {i}: {e}"))?;
        }
    }
    Ok(())
}

fn e04_vary(c: &mut Case) -> Res {
    let (cj, _) = pinned_ctx(c);
    let ctx = ctx_of(&cj)?;
    c.sample(|| format!("context={cj}"));
    let mut r = c.std_rng();
    let first = jv(&TradingParams::generate(&mut r, &ctx));
    let mut open = vec![];
    open_leaves(&cj, &first, &mut vec![], &mut open);
    c.nontrivial_if(open.len() >= 3);
    let mut still: Vec<&Node> = open.iter().collect();
    for _ in 0..80 {
        let v = jv(&TradingParams::generate(&mut r, &ctx));
        still.retain(|n| at(&v, n) == at(&first, n));
    }
    if let Some(n) = still.first() {
        fail!("open parameter {} never varies (always {})", show(n), at(&first, n));
    }
    Ok(())
}

fn e04_kinds(c: &mut Case) -> Res {
    // every kind, average and easing stays reachable when nothing is fixed, by generation and by mutation
    let mut r = c.std_rng();
    c.nontrivial = true;
    let mutating = c.bool();
    c.label(if mutating { "by mutation" } else { "by generation" });
    let mut seen: BTreeMap<&str, BTreeSet<String>> = BTreeMap::new();
    let mut add = |k: &'static str, v: &Value| {
        if let Some(s) = v.as_str() {
            seen.entry(k).or_default().insert(s.to_string());
        }
    };
    let tr: TradingParamsContext = ctx_of(&json!({"trader": {"intervals": IVS}, "take_profit": {"type": "Trending"}, "strategy": {"type": "SigOsc"}}))?;
    let sm: TradingParamsContext = ctx_of(&json!({"trader": {"intervals": IVS}, "strategy": {"type": "SingleMA"}}))?;
    let (mut x0, mut x1, mut x2) = (TradingParams::generate(&mut r, free_ctx()), TradingParams::generate(&mut r, &tr), TradingParams::generate(&mut r, &sm));
    let mut step = |x: &mut TradingParams, ctx: &TradingParamsContext| {
        if mutating {
            for i in 0..TradingParams::len() {
                x.mutate(&mut r, i, ctx);
            }
        } else {
            *x = TradingParams::generate(&mut r, ctx);
        }
        jv(x)
    };
    for _ in 0..1200 {
        let v = step(&mut x0, free_ctx());
        add("strategy", &v["strategy"]["type"]);
        add("stop_loss", &v["stop_loss"]["type"]);
        add("take_profit", &v["take_profit"]["type"]);
        let v = step(&mut x1, &tr);
        add("signal", &v["strategy"]["sig"]["type"]);
        add("oscillator", &v["strategy"]["osc"]["type"]);
        add("easing", &v["take_profit"]["easing"]);
        add("policy", &v["strategy"]["mid_trend_policy"]);
        let v = step(&mut x2, &sm);
        add("average", &v["strategy"]["ma"]["type"]);
        add("interval", &json!(v["trader"]["interval"].to_string()));
    }
    for (k, n) in [("strategy", 9), ("stop_loss", 5), ("take_profit", 4), ("signal", 7), ("oscillator", 2), ("easing", 31), ("policy", 3), ("average", 7), ("interval", 4)] {
        let s = &seen[k];
        ensure!(s.len() >= n, "of {n} kinds of {k} only {s:?} are ever reached");
    }
    Ok(())
}

/// Every listed interval is a candidate, and no other one.
fn e04_intervals(c: &mut Case) -> Res {
    let n = c.usize(1, 6);
    let all = [60_000, 300_000, 900_000, 1_800_000, HOUR, 2 * HOUR, 4 * HOUR, 12 * HOUR, DAY, 3 * DAY, 7 * DAY];
    let mut ivs: Vec<u64> = vec![];
    for _ in 0..n {
        let v = if c.chance(1, 4) { 1 + c.draw(1 << 33) } else { c.pick(&all) };
        if !ivs.contains(&v) {
            ivs.push(v);
        }
    }
    let cj = json!({"trader": {"intervals": ivs}});
    let ctx = ctx_of(&cj)?;
    c.sample(|| format!("intervals={ivs:?}"));
    c.nontrivial_if(ivs.len() >= 3);
    let mut r = c.std_rng();
    let want: BTreeSet<u64> = ivs.iter().copied().collect();
    let draws = 60 * ivs.len();
    let mut x = TradingParams::generate(&mut r, &ctx);
    let made: BTreeSet<u64> = (0..draws).map(|_| TradingParams::generate(&mut r, &ctx).trader.interval.0).collect();
    ensure!(made == want, "intervals {ivs:?} allowed, {made:?} generated");
    // the gene of the interval is whichever index changes it
    let mut met = BTreeSet::from([x.trader.interval.0]);
    for _ in 0..draws {
        for i in 0..TradingParams::len() {
            x.mutate(&mut r, i, &ctx);
            met.insert(x.trader.interval.0);
        }
    }
    ensure!(met == want, "intervals {ivs:?} allowed, {met:?} reached by mutation");
    Ok(())
}

// ---------------------------------------------------------------------------
// E05

fn ma_ok(v: &Value) -> Result<u64, String> {
    let p = v["period"].as_u64().unwrap_or(0);
    if p == 0 {
        return Err(format!("average {v} has no positive period"));
    }
    if v["type"] == "Alma" {
        let o = v["offset"].as_f64().unwrap_or(0.0);
        if !(o > 0.0 && o < 1.0) || v["sigma"].as_u64() == Some(0) {
            return Err(format!("average {v}"));
        }
    }
    if let Some(s) = v["smoothing"].as_f64() {
        if !(s > 0.0 && s <= 1.0) {
            return Err(format!("average {v}"));
        }
    }
    Ok(p)
}
fn within(v: &Value, lo: f64, hi: f64, what: &str) -> Result<(), String> {
    match v.as_f64() {
        Some(x) if x >= lo && x <= hi => Ok(()),
        _ => Err(format!("{what} = {v} outside [{lo}, {hi}]")),
    }
}
fn positive(v: &Value, what: &str) -> Result<(), String> {
    if v.as_u64().unwrap_or(0) >= 1 {
        Ok(())
    } else {
        Err(format!("{what} = {v} is not positive"))
    }
}
const TINY: f64 = 1e-300;

fn valid_signal(s: &Value) -> Result<(), String> {
    match s["type"].as_str().unwrap_or("") {
        "DoubleMA" | "TripleMA" | "DoubleMA2" => {
            let ps: Vec<u64> = s["mas"].as_array().unwrap().iter().map(ma_ok).collect::<Result<_, _>>()?;
            if !ps.windows(2).all(|w| w[0] < w[1]) {
                return Err(format!("periods {ps:?} do not ascend"));
            }
            if s["type"] == "DoubleMA2" {
                within(&s["neg_threshold"], -1.0 + 1e-15, -TINY, "neg_threshold")?;
                within(&s["pos_threshold"], TINY, 1.0 - 1e-15, "pos_threshold")?;
            }
        }
        "DoubleMAStoch" => {
            let mut d = s["double_ma"].clone();
            d["type"] = json!("DoubleMA");
            valid_signal(&d)?;
            let mut o = s["stoch"].clone();
            o["type"] = json!("Stoch");
            valid_osc(&o)?;
        }
        "FourWeekRule" => {
            positive(&s["period"], "period")?;
            ma_ok(&s["ma"])?;
        }
        "SingleMA" => {
            ma_ok(&s["ma"])?;
        }
        "Macd" => {
            positive(&s["signal_period"], "signal_period")?;
            positive(&s["periods"][0], "short period")?;
            if s["periods"][0].as_u64() >= s["periods"][1].as_u64() {
                return Err(format!("MACD periods {}", s["periods"]));
            }
        }
        t => return Err(format!("unknown kind {t}")),
    }
    Ok(())
}
fn valid_osc(o: &Value) -> Result<(), String> {
    for k in ["period", "k_period", "k_sma_period", "d_sma_period"] {
        if !o[k].is_null() {
            positive(&o[k], k)?;
        }
    }
    within(&o["up_threshold"], 50.0, 100.0, "overbought threshold")?;
    within(&o["down_threshold"], 0.0, 50.0, "oversold threshold")
}
fn valid(v: &Value) -> Result<(), String> {
    let s = &v["strategy"];
    match s["type"].as_str().unwrap_or("") {
        "Sig" | "SigOsc" => {
            valid_signal(&s["sig"])?;
            if s["type"] == "SigOsc" {
                valid_osc(&s["osc"])?;
            }
        }
        _ => valid_signal(s)?,
    }
    let sl = &v["stop_loss"];
    let two = |x: &Value, hi: f64| -> Result<(), String> {
        within(&x["up_threshold"], TINY, hi, "up_threshold")?;
        within(&x["down_threshold"], TINY, hi, "down_threshold")
    };
    match sl["type"].as_str().unwrap_or("") {
        "Basic" | "Trailing" => two(sl, 1.0)?,
        "BasicPlusTrailing" => {
            two(&sl["basic"], 1.0)?;
            two(&sl["trailing"], 1.0)?;
        }
        "Legacy" => within(&sl["threshold"], 0.0, 1.0, "stop loss threshold")?,
        "Noop" => {}
        t => return Err(format!("unknown stop loss {t}")),
    }
    let tp = &v["take_profit"];
    match tp["type"].as_str().unwrap_or("") {
        "Basic" => two(tp, 10.0)?,
        "Legacy" => within(&tp["threshold"], 0.0, 10.0, "take profit threshold")?,
        "Trending" => {
            positive(&tp["period"], "ADX period")?;
            for k in ["up_thresholds", "down_thresholds"] {
                within(&tp[k][0], TINY, 10.0, k)?;
                within(&tp[k][1], TINY, 10.0, k)?;
                if tp[k][0].as_f64() >= tp[k][1].as_f64() {
                    return Err(format!("{k} {}", tp[k]));
                }
            }
        }
        "Noop" => {}
        t => return Err(format!("unknown take profit {t}")),
    }
    Ok(())
}

fn evolved(c: &mut Case, ctx: &TradingParamsContext, r: &mut StdRng) -> TradingParams {
    let mut p = TradingParams::generate(r, ctx);
    let mut q = TradingParams::generate(r, ctx);
    for _ in 0..c.usize(0, 12) {
        let g = c.usize(0, TradingParams::len() - 1);
        match c.draw(2) {
            0 => p.mutate(r, g, ctx),
            1 => q.mutate(r, g, ctx),
            _ => p.cross(&mut q, g),
        }
    }
    p
}

fn e05_valid(c: &mut Case) -> Res {
    let mut r = c.std_rng();
    let p = evolved(c, free_ctx(), &mut r);
    let v = jv(&p);
    c.sample(|| v.to_string());
    c.nontrivial = true;
    valid(&v)?;
    let meta = StrategyMeta { interval: p.trader.interval };
    quiet(|| {
        p.strategy.construct(&meta);
        p.stop_loss.construct();
        p.take_profit.construct();
    })
    .map_err(|e| format!("cannot be constructed: {e}"))?;
    Ok(())
}

fn e05_json(c: &mut Case) -> Res {
    let mut r = c.std_rng();
    let p = if c.bool() { evolved(c, free_ctx(), &mut r) } else { trading_params(c, 5, HOUR) };
    let s = serde_json::to_string(&p).map_err(|e| Fail::Msg(format!("cannot be written: {e}")))?;
    c.sample(|| s.clone());
    let q: TradingParams = serde_json::from_str(&s).map_err(|e| Fail::Msg(format!("cannot be read back: {e} in {s}")))?;
    let (v, w) = (jv(&p), jv(&q));
    ensure!(val_eq(&v, &w), "read back as {w}");
    if v == w {
        let iv = p.trader.interval.0;
        let cs = candles(c, iv, &CandleOpts { min_len: 0, max_len: 150, gaps: true, wild: false });
        let m = market(c, cs.first().map_or(1.0, |k| k.close));
        let run = |p: &TradingParams| {
            jv(&trade(
                p,
                &TradeInput {
                    candles: &cs,
                    fees: &m.fees,
                    filters: &m.filters,
                    borrow_info: &m.borrow,
                    margin_multiplier: 2,
                    quote: m.quote,
                    long: true,
                    short: true,
                },
            ))
        };
        let (a, b) = (run(&p), run(&q));
        ensure!(a == b, "configuration read back trades differently: {a} vs {b}");
        c.nontrivial_if(a["positions"].as_array().map_or(false, |x| !x.is_empty()));
    } else {
        c.label("last digit of a decimal differs");
    }
    // pretty-printed and reordered text means the same
    let q: TradingParams = serde_json::from_str(&serde_json::to_string_pretty(&v).unwrap()).map_err(|e| Fail::Msg(format!("cannot be read back: {e}")))?;
    ensure!(val_eq(&v, &jv(&q)), "pretty text read back differently");
    Ok(())
}

fn strip_open(v: &Value) -> Value {
    match v {
        Value::Object(o) => {
            let mut out = Map::new();
            for (k, x) in o {
                let y = strip_open(x);
                if y.is_null() || y == json!({"type": "None"}) || (y.is_object() && y.as_object().unwrap().is_empty()) {
                    continue;
                }
                out.insert(k.clone(), y);
            }
            Value::Object(out)
        }
        _ => v.clone(),
    }
}
fn e05_context(c: &mut Case) -> Res {
    let (cj, pins) = pinned_ctx(c);
    c.nontrivial_if(pins >= 2);
    let ctx = ctx_of(&cj)?;
    let bare = strip_open(&cj);
    c.sample(|| format!("{cj} vs {bare}"));
    let ctx2 = ctx_of(&bare)?;
    let text = serde_json::to_string(&ctx).map_err(|e| Fail::Msg(format!("context cannot be written: {e}")))?;
    let ctx3: TradingParamsContext = serde_json::from_str(&text).map_err(|e| Fail::Msg(format!("context cannot be read back: {e} in {text}")))?;
    let s = c.draw(u64::MAX);
    for k in 0..4 {
        let p: Vec<Value> = [&ctx, &ctx2, &ctx3].iter().map(|x| jv(&TradingParams::generate(&mut rng(s ^ k), x))).collect();
        ensure!(val_eq(&p[0], &p[1]), "leaving open fields out changes the candidate: {} vs {}", p[0], p[1]);
        ensure!(val_eq(&p[0], &p[2]), "context written and read back changes the candidate: {} vs {}", p[0], p[2]);
    }
    Ok(())
}

// ---------------------------------------------------------------------------
// E02, E06: toy evolutions

fn toy_fitness(t: &Toy, mode: u64) -> f64 {
    match mode {
        0 => (t.ua % 1000) as f64 + (t.rc % 1000) as f64 - (t.rd % 500) as f64,
        1 => (t.ua % 4) as f64,
        2 => -1e300 - (t.ua as f64) * 1e299,
        3 => 1.0,
        _ => {
            if t.ua % 3 == 0 {
                f64::NEG_INFINITY
            } else {
                t.rc as f64 - t.rd as f64
            }
        }
    }
}
struct ToyEval {
    mode: u64,
    evaluated: RefCell<Vec<usize>>,
}
impl Evaluation for ToyEval {
    type Chromosome = Toy;
    fn evaluate(&self, population: &mut [Individual<Toy>]) {
        self.evaluated.borrow_mut().push(population.len());
        for i in population {
            i.fitness = toy_fitness(&i.chromosome, self.mode);
        }
    }
}
thread_local! {
    static CALLS: RefCell<Vec<(usize, String)>> = RefCell::new(vec![]);
}
fn hof(g: &Generation<Toy>) -> String {
    g.hall_of_fame.iter().map(|i| format!("{:?}={:x} ", i.chromosome, i.fitness.to_bits())).collect()
}
fn record(i: usize, g: &Generation<Toy>) {
    CALLS.with(|c| c.borrow_mut().push((i, hof(g))));
}

#[derive(Clone, Debug)]
struct Setup {
    sel: usize,
    rei: usize,
    shuffle: bool,
    sr: f32,
    gr: f32,
    cx: f32,
    mu: f32,
    pop: usize,
    gens: usize,
    hof: usize,
    seed: u64,
    mode: u64,
    tr: f32,
    defaults: bool,
}
fn setup(c: &mut Case) -> Setup {
    let (pop, gens, hof) = match c.scale {
        Scale::Small => {
            let pop = match c.weighted(&[3, 1]) {
                0 => c.usize(2, 12),
                _ => c.usize(2, 40),
            };
            (pop, c.usize(0, 8), c.usize(1, 50))
        }
        Scale::Large => match c.draw(2) {
            0 => (c.usize(60, 600), c.usize(1, 6), c.usize(1, 700)),
            1 => (c.usize(2, 20), c.usize(100, 600), c.usize(1, 30)),
            _ => (c.usize(20, 120), c.usize(10, 60), c.usize(1, 150)),
        },
        Scale::Marathon => match c.draw(1) {
            0 => (c.usize(1_000, 5_000), c.usize(1, 3), c.usize(1, 6_000)),
            _ => (c.usize(2, 5), c.usize(66_000, 70_000), c.usize(1, 6)),
        },
    };
    let (sel, rei) = c.pick(&[(0, 0), (0, 0), (0, 2), (1, 0), (1, 1), (1, 2), (2, 2), (0, 0)]);
    let sr = match rei {
        0 => c.pick(&[0.75f32, 0.5, 0.95, 0.1, 0.9]),
        1 => 1.0 + (c.u32(1, 8) as f32 + 1.0) / pop as f32,
        _ => 1.0,
    };
    Setup {
        sel,
        rei,
        shuffle: c.bool(),
        sr,
        gr: c.pick(&[0.5f32, 0.0, 0.25, 0.95]),
        cx: c.pick(&[0.5f32, 0.0, 1.0]),
        mu: c.pick(&[0.25f32, 0.0, 1.0, 0.05]),
        pop,
        gens,
        hof,
        seed: any_seed(c),
        mode: c.draw(4),
        tr: c.pick(&[0.2f32, 0.01, 0.5, 0.99]),
        defaults: c.chance(1, 8),
    }
}
thread_local!(static POPULATIONS: RefCell<Vec<Vec<f64>>> = RefCell::new(vec![]));
/// Selection that notes the population it is shown.
struct Noting<S>(S);
impl<S: Selection> Selection for Noting<S> {
    fn select<T: Chromosome>(&self, rng: &mut StdRng, parents: &[Individual<T>], offsprings: &mut Vec<Individual<T>>, rate: f32, ctx: &T::Context) {
        POPULATIONS.with(|p| p.borrow_mut().push(parents.iter().map(|x| x.fitness).collect()));
        self.0.select(rng, parents, offsprings, rate, ctx)
    }
}
fn evolve_toy(s: &Setup, hofs: usize) -> (Evolution<Toy>, Vec<(usize, String)>, Vec<usize>) {
    fn go<S: Selection, R: Reinsertion>(s: &Setup, hofs: usize, sel: S, rei: R) -> (Evolution<Toy>, Vec<(usize, String)>, Vec<usize>) {
        let sel = Noting(sel);
        POPULATIONS.with(|p| p.borrow_mut().clear());
        CALLS.with(|c| c.borrow_mut().clear());
        let ga = GeneticAlgorithm::new(
            ToyEval { mode: s.mode, evaluated: RefCell::new(vec![]) },
            sel,
            UniformCrossover::new(s.cx),
            UniformMutation::new(s.mu),
            rei,
        );
        let e = ga.evolve(s.pop, s.gens, hofs, Some(s.seed), record, &ToyContext::default());
        (e, CALLS.with(|c| c.borrow().clone()), ga.evaluation.evaluated.into_inner())
    }
    let er = || if s.defaults { EliteReinsertion::default() } else { EliteReinsertion::new(s.sr, s.gr) };
    let ts = || if s.defaults { TournamentSelection::default() } else { TournamentSelection::new(s.tr, true) };
    match (s.sel, s.rei) {
        (0, 0) => go(s, hofs, EliteSelection::new(s.shuffle), er()),
        (0, _) => go(s, hofs, EliteSelection::new(s.shuffle), PureReinsertion {}),
        (1, 0) => go(s, hofs, ts(), er()),
        (1, 1) => go(s, hofs, ts(), FitnessReinsertion::new(s.sr)),
        (1, _) => go(s, hofs, ts(), PureReinsertion {}),
        _ => go(s, hofs, GenerateRandomSelection {}, PureReinsertion {}),
    }
}

fn e02(c: &mut Case) -> Res {
    let s = setup(c);
    c.sample(|| format!("{s:?}"));
    c.label_if(s.gens == 0, "no further generation");
    c.label_if(s.pop <= 3, "population of 2 or 3");
    c.label_if(s.rei == 0, "elite reinsertion");
    c.label_if(s.rei == 1, "fitness reinsertion");
    c.label_if(s.sel == 1, "tournament selection");
    c.nontrivial_if(s.gens >= 2 && s.pop >= 3);
    let (full, calls, _) = evolve_toy(&s, s.pop + s.hof);
    ensure!(full.generations.len() == s.gens + 1, "{} generations delivered for {} requested", full.generations.len(), s.gens);
    ensure!(full.seed == s.seed, "seed {} reported for {}", full.seed, s.seed);
    ensure!(calls.iter().map(|x| x.0).eq(0..=s.gens), "progress announced {:?}", calls.iter().map(|x| x.0).collect::<Vec<_>>());
    let mut last = f64::NEG_INFINITY;
    let populations = POPULATIONS.with(|p| p.borrow().clone());
    ensure!(populations.len() == s.gens, "{} selections for {} generations", populations.len(), s.gens);
    for (i, g) in full.generations.iter().enumerate() {
        if i < s.gens {
            let mut f = populations[i].clone();
            f.sort_by(|a, b| b.total_cmp(a));
            let h: Vec<f64> = g.hall_of_fame.iter().map(|x| x.fitness).collect();
            ensure!(f == h, "generation {i} is reported as {h:?} but the next one was bred from {f:?}");
        }
        ensure!(calls[i].1 == hof(g), "generation {i} was announced differently than delivered");
        ensure!(g.hall_of_fame.len() == s.pop, "generation {i} has {} of {} individuals", g.hall_of_fame.len(), s.pop);
        for ind in &g.hall_of_fame {
            let f = toy_fitness(&ind.chromosome, s.mode);
            ensure!(f == ind.fitness, "generation {i}: {:?} carries fitness {} but scores {f}", ind.chromosome, ind.fitness);
        }
        for w in g.hall_of_fame.windows(2) {
            ensure!(w[0].fitness >= w[1].fitness, "generation {i} is not sorted: {} before {}", w[0].fitness, w[1].fitness);
        }
        if s.rei == 0 {
            let b = g.hall_of_fame[0].fitness;
            ensure!(b >= last, "best fitness fell from {last} to {b} in generation {i}");
            last = b;
        }
    }
    // a smaller hall of fame is the head of the population
    let (part, calls, _) = evolve_toy(&s, s.hof);
    ensure!(part.generations.len() == full.generations.len() && calls.len() == full.generations.len(), "hall of fame size changes the run");
    for (i, (g, f)) in part.generations.iter().zip(&full.generations).enumerate() {
        let n = s.hof.min(s.pop);
        ensure!(g.hall_of_fame.len() == n, "generation {i}: hall of fame of {} instead of {n}", g.hall_of_fame.len());
        let best: Vec<f64> = f.hall_of_fame.iter().take(n).map(|x| x.fitness).collect();
        let got: Vec<f64> = g.hall_of_fame.iter().map(|x| x.fitness).collect();
        ensure!(best == got, "generation {i}: hall of fame {got:?} is not the best of the population {best:?}");
    }
    Ok(())
}

/// floor(n * rate) allowing for single precision
fn share(n: usize, rate: f32, got: usize) -> bool {
    let x = n as f64 * rate as f64;
    let (lo, hi) = ((x - 1e-4 * (1.0 + x)).floor().max(0.0) as usize, (x + 1e-4 * (1.0 + x)).floor() as usize);
    got >= lo && got <= hi
}

fn inds(c: &mut Case, n: usize, distinct: bool) -> Vec<Individual<Toy>> {
    let mut r = c.std_rng();
    let mut v: Vec<Individual<Toy>> = (0..n)
        .map(|i| Individual {
            chromosome: Toy::generate(&mut r, &ToyContext::default()),
            fitness: if distinct { i as f64 * 1.5 - 20.0 } else { r.gen_range(0..5) as f64 },
        })
        .collect();
    v.sort_by(|a, b| b.fitness.partial_cmp(&a.fitness).unwrap());
    v
}
fn genes(t: &Toy) -> (u32, u32, u32, u32) {
    (t.ua, t.rc, t.rd, t.re)
}
fn key(i: &Individual<Toy>) -> (u32, u32, u32, u32, u64) {
    let t = &i.chromosome;
    (t.ua, t.rc, t.rd, t.re, i.fitness.to_bits())
}
fn keys(v: &[Individual<Toy>]) -> Vec<(u32, u32, u32, u32, u64)> {
    let mut k: Vec<_> = v.iter().map(key).collect();
    k.sort();
    k
}

fn e06_select(c: &mut Case) -> Res {
    let n = if c.scale == Scale::Small { c.usize(2, 60) } else { c.usize(60, 1500) };
    let parents = inds(c, n, true);
    let ctx = ToyContext::default();
    let mut r = c.std_rng();
    match c.draw(2) {
        0 => {
            let rate = c.pick(&[0.75f32, 1.0, 0.5, 0.1, 0.33, 0.9]);
            let shuffle = c.bool();
            c.sample(|| format!("elite rate={rate} shuffle={shuffle} n={n}"));
            c.label("elite");
            let sel = if shuffle { EliteSelection::new(true) } else if c.bool() { EliteSelection::default() } else { EliteSelection::new(false) };
            let mut at: Vec<BTreeSet<_>> = vec![BTreeSet::new(); n];
            for _ in 0..if !shuffle { 4 } else if n < 200 { 64 } else { 24 } {
                let mut out = vec![];
                sel.select(&mut r, &parents, &mut out, rate, &ctx);
                ensure!(share(n, rate, out.len()), "{} of {n} selected at rate {rate}", out.len());
                let k = out.len();
                if shuffle {
                    ensure!(keys(&out) == keys(&parents[..k]), "not the best {k} parents");
                    for (i, o) in out.iter().enumerate() {
                        at[i].insert(key(o));
                    }
                } else {
                    ensure!(out.iter().map(key).eq(parents[..k].iter().map(key)), "not the best {k} parents in order");
                }
            }
            c.nontrivial_if(n >= 4);
            if shuffle && ((n as f32 * rate) >= 10.0 || n < 200) {
                c.label("shuffled");
                let k = (0..n).rev().find(|&i| !at[i].is_empty()).map_or(0, |i| i + 1);
                c.label_if((2..10).contains(&k), "few shuffled");
                for (i, who) in at[..k].iter().enumerate() {
                    ensure!(k < 2 || who.len() > 1, "shuffling always puts the same of the {k} best at place {i}");
                }
            }
        }
        1 => {
            let default = c.chance(1, 3);
            let tr = if default { 0.2 } else { c.pick(&[0.2f32, 0.5, 0.05, 0.8, 0.99, 0.001]) };
            let rate = c.pick(&[1.0f32, 0.75, 1.5]);
            c.sample(|| format!("tournament rate={tr} n={n}"));
            c.label("tournament");
            let sel = if default { TournamentSelection::default() } else { TournamentSelection::new(tr, true) };
            let k = ((n as f64 * tr as f64 - 1e-3).floor() as usize).max(1);
            c.nontrivial_if(k >= 2);
            let all: BTreeSet<_> = parents.iter().map(key).collect();
            let mut won = vec![0usize; n];
            let mut total = 0;
            while total < 3000 {
                let mut out = vec![];
                sel.select(&mut r, &parents, &mut out, rate, &ctx);
                ensure!(share(n, rate, out.len()), "{} of {n} selected at rate {rate}", out.len());
                if out.is_empty() {
                    return Err(Fail::Discard);
                }
                for o in &out {
                    ensure!(all.contains(&key(o)), "selected individual is not a parent");
                    won[parents.iter().position(|p| key(p) == key(o)).unwrap()] += 1;
                }
                total += out.len();
            }
            for (rank, &w) in won.iter().enumerate() {
                // the k-1 worst can win no tournament of k
                ensure!(rank + k <= n || w == 0, "rank {rank} of {n} won {w} of {total} tournaments of {k}");
            }
            // P(best of k random ones is the best of all) = k/n
            let kk = (n as f64 * tr as f64).max(1.0);
            let (lo, hi) = ((kk - 1e-3).floor().max(1.0) / n as f64, (kk + 1e-3).floor().max(1.0) / n as f64);
            let f = won[0] as f64 / total as f64;
            let q = f.clamp(lo, hi);
            ensure!(plausible(won[0], total, q), "the best parent won {f} of the tournaments, expected {lo}..{hi}");
        }
        _ => {
            c.label("random");
            c.nontrivial = true;
            let mut out = vec![];
            GenerateRandomSelection {}.select(&mut r, &parents, &mut out, 1.0, &ctx);
            c.sample(|| format!("random n={n}"));
            ensure!(out.len() == n, "{} generated for {n}", out.len());
            let old: BTreeSet<_> = parents.iter().map(|p| genes(&p.chromosome)).collect();
            let fresh = out.iter().filter(|o| !old.contains(&genes(&o.chromosome))).count();
            ensure!(fresh == n, "random selection repeats parents");
            let distinct: BTreeSet<_> = out.iter().map(|o| (o.chromosome.ua, o.chromosome.rc)).collect();
            ensure!(distinct.len() == n, "random selection repeats individuals");
        }
    }
    Ok(())
}

fn e06_reinsert(c: &mut Case) -> Res {
    let ctx = ToyContext::default();
    let n = if c.scale == Scale::Small { c.usize(2, 60) } else { c.usize(60, 1500) };
    let distinct = c.bool();
    let parents = inds(c, n, distinct);
    let mut r = c.std_rng();
    match c.draw(2) {
        0 => {
            let (sr, gr) = (c.pick(&[0.75f32, 0.5, 0.95, 0.1]), c.pick(&[0.5f32, 0.0, 0.25, 1.0, 0.95]));
            let rei = EliteReinsertion::new(sr, gr);
            ensure!(rei.selection_rate() == sr, "selection rate {} instead of {sr}", rei.selection_rate());
            let k = c.usize(0, n - 1);
            let off = inds(c, k, false);
            c.label("elite");
            c.sample(|| format!("elite n={n} offspring={k} generation_rate={gr}"));
            c.nontrivial_if(n - k >= 2 && k >= 1);
            let mut out = off.clone();
            rei.reinsert(&mut r, &parents, &mut out, n, &ctx);
            ensure!(out.len() == n, "population of {} instead of {n}", out.len());
            let mut pool = keys(&out);
            let mut take = |x: &Individual<Toy>| -> bool {
                match pool.iter().position(|p| *p == key(x)) {
                    Some(i) => {
                        pool.remove(i);
                        true
                    }
                    None => false,
                }
            };
            for o in &off {
                ensure!(take(o), "an offspring was dropped");
            }
            let mut kept = 0;
            while kept < n - k && take(&parents[kept]) {
                kept += 1;
            }
            let fresh = pool.len();
            ensure!(kept + fresh == n - k, "{kept} best parents and {fresh} others fill {} places", n - k);
            ensure!(share(n - k, gr, fresh), "{fresh} fresh individuals in {} places at rate {gr}", n - k);
            let pset: BTreeSet<_> = parents.iter().map(|p| genes(&p.chromosome)).collect();
            for p in &pool {
                ensure!(!pset.contains(&(p.0, p.1, p.2, p.3)), "a place for a fresh individual went to a worse parent");
            }
            let distinct: BTreeSet<_> = pool.iter().collect();
            ensure!(distinct.len() == fresh, "only {} of {fresh} fresh individuals differ", distinct.len());
            c.label_if(fresh >= 20, "many fresh individuals");
            for w in out.windows(2) {
                ensure!(w[0].fitness >= w[1].fitness, "not sorted");
            }
        }
        1 => {
            let k = n + c.usize(1, n.max(30));
            let mut off = inds(c, k, distinct);
            let rei = if c.bool() { FitnessReinsertion::default() } else { FitnessReinsertion::new(1.5) };
            let want: Vec<_> = off[..n].iter().map(|i| i.fitness).collect();
            let all = keys(&off);
            c.label("fitness");
            c.sample(|| format!("fitness n={n} offspring={k}"));
            c.nontrivial = true;
            rei.reinsert(&mut r, &parents, &mut off, n, &ctx);
            ensure!(off.iter().map(|i| i.fitness).eq(want.iter().copied()), "not the best {n} offspring");
            ensure!(off.iter().all(|o| all.contains(&key(o))), "not offspring");
        }
        _ => {
            let mut off = inds(c, n, false);
            let want = keys(&off);
            c.label("pure");
            c.sample(|| format!("pure n={n}"));
            PureReinsertion {}.reinsert(&mut r, &parents, &mut off, n, &ctx);
            ensure!(keys(&off) == want, "offspring replaced");
            ensure!(PureReinsertion {}.selection_rate() == 1.0, "selection rate");
        }
    }
    Ok(())
}

/// Reinsertion rates reach selection: an elite evolution keeps the announced shares.
fn e06_evolve(c: &mut Case) -> Res {
    let mut s = setup(c);
    s.sel = 0;
    s.rei = 0;
    s.defaults = false;
    s.mode = 0;
    if c.scale == Scale::Small {
        s.gens = c.usize(1, 4);
    }
    s.sr = c.pick(&[0.75f32, 0.5, 0.9, 0.25]);
    s.gr = c.pick(&[0.5f32, 0.0, 0.25, 0.95]);
    c.sample(|| format!("{s:?}"));
    let (ev, _, evaluated) = evolve_toy(&s, s.pop);
    c.nontrivial_if(s.pop >= 6);
    // without crossover and mutation only fresh individuals can be new
    if s.cx == 0.0 && s.mu == 0.0 {
        c.label("no crossover, no mutation");
    }
    let off = (s.pop as f32 * s.sr) as usize;
    let diff = s.pop - off;
    for w in ev.generations.windows(2) {
        // best parents survive
        let new = keys(&w[1].hall_of_fame);
        let lo = diff - ((diff as f64 * s.gr as f64 + 1e-4).floor() as usize).min(diff);
        for p in &w[0].hall_of_fame[..lo] {
            ensure!(new.contains(&key(p)), "one of the {lo} best parents did not survive");
        }
        let pairs: BTreeSet<_> = w[0].hall_of_fame.iter().map(|p| (p.chromosome.ua, p.chromosome.rc)).collect();
        let (uas, rcs): (BTreeSet<u32>, BTreeSet<u32>) = pairs.iter().cloned().unzip();
        if s.mu == 1.0 {
            // every gene of every child is fresh
            let kept = w[1].hall_of_fame.iter().filter(|p| pairs.contains(&(p.chromosome.ua, p.chromosome.rc))).count();
            ensure!(kept <= diff && share(diff, s.gr, diff - kept), "{kept} individuals kept of {diff} not bred although every child mutates in full");
            c.label("full mutation");
        }
        if s.mu == 0.0 {
            // children only have their parents' genes
            let fresh = w[1].hall_of_fame.iter().filter(|p| !uas.contains(&p.chromosome.ua) || !rcs.contains(&p.chromosome.rc)).count();
            ensure!(share(diff, s.gr, fresh), "{fresh} individuals with fresh genes, expected {diff} * {}", s.gr);
        }
        if s.mu == 0.0 && s.cx == 0.0 {
            let old: BTreeSet<_> = keys(&w[0].hall_of_fame).into_iter().collect();
            let fresh = new.iter().filter(|k| !old.contains(k)).count();
            ensure!(share(diff, s.gr, fresh), "{fresh} fresh individuals, expected {diff} * {}", s.gr);
        }
    }
    let total: usize = evaluated.iter().sum();
    ensure!(total <= s.pop + s.gens * s.pop, "{total} evaluations for {} generations of {}", s.gens, s.pop);
    Ok(())
}

/// Chernoff bound: a binomial count this far off has probability below e^-36.
fn plausible(hits: usize, n: usize, p: f64) -> bool {
    let f = hits as f64 / n as f64;
    let term = |a: f64, b: f64| if a <= 0.0 { 0.0 } else if b <= 0.0 { f64::INFINITY } else { a * (a / b).ln() };
    n as f64 * (term(f, p) + term(1.0 - f, 1.0 - p)) <= 36.0
}

/// Seeds whose first few `f32` draws contain exactly 0 or the largest value below 1 (found by search).
const EXTREME_SEEDS: [u64; 17] = [
    8215248, 8503670, 9161636, 40237403, 25493959, 3923003, 10210085, 1167301, 13192145, 11242479, 17306844, 35513343, 6772976, 12421098,
    20002506, 23156545, 27267726,
];

/// As many genes as anyone could wish for.
#[derive(Clone)]
struct Huge(Vec<u32>);

const HUGE: usize = 300;

impl Chromosome for Huge {
    type Context = ();

    fn len() -> usize {
        HUGE
    }
    fn generate(rng: &mut StdRng, _: &()) -> Self {
        Self((0..HUGE).map(|_| rng.gen()).collect())
    }
    fn cross(&mut self, other: &mut Self, i: usize) {
        std::mem::swap(&mut self.0[i], &mut other.0[i]);
    }
    fn mutate(&mut self, rng: &mut StdRng, i: usize, _: &()) {
        self.0[i] = rng.gen();
    }
}

/// Every gene of a very long chromosome is reached.
fn e06_huge(c: &mut Case) -> Res {
    let p = c.pick(&[0.5f32, 0.0, 1.0, 0.25, 0.75]);
    let cross = c.bool();
    let mut r = c.std_rng();
    let n = 200;
    let mut hits = [0usize; HUGE];
    c.sample(|| format!("{} of {HUGE} genes p={p}", if cross { "crossover" } else { "mutation" }));
    c.nontrivial_if(p > 0.0);
    for _ in 0..n {
        let (a, b) = (Huge::generate(&mut r, &()), Huge::generate(&mut r, &()));
        let (mut x, mut y) = (a.clone(), b.clone());
        if cross {
            UniformCrossover::new(p).cross(&mut r, &mut x, &mut y);
        } else {
            UniformMutation::new(p).mutate(&mut r, &mut x, &());
        }
        for i in 0..HUGE {
            hits[i] += (x.0[i] != a.0[i]) as usize;
            if cross {
                ensure!((x.0[i], y.0[i]) == (a.0[i], b.0[i]) || (x.0[i], y.0[i]) == (b.0[i], a.0[i]), "gene {i} was neither kept nor swapped");
            }
        }
    }
    for (i, &h) in hits.iter().enumerate() {
        // a gene that changed may by chance have got its old value (1 in 2^32)
        ensure!(if p == 1.0 { h + 1 >= n } else { h <= n * (p > 0.0) as usize }, "gene {i} touched {h} of {n} times at probability {p}");
        ensure!(p == 0.0 || p == 1.0 || plausible(h, n, p as f64), "gene {i} of {HUGE} touched {h} of {n} times at probability {p}");
    }
    Ok(())
}

fn e06_uniform(c: &mut Case) -> Res {
    let p = c.pick(&[0.5f32, 0.0, 1.0, 0.25, 0.1, 0.75, 0.02, 0.97]);
    let cross = c.bool();
    let n = 3000usize;
    let mut r = c.std_rng();
    let ctx = WideParamsContext::default();
    let mut hits = [0usize; 10];
    let mut both = [[0usize; 10]; 10];
    let cx = UniformCrossover::new(p);
    let mu = UniformMutation::new(p);
    c.label_if(cross, "crossover");
    c.label_if(!cross, "mutation");
    c.sample(|| format!("{} p={p}", if cross { "crossover" } else { "mutation" }));
    c.nontrivial_if(p > 0.0 && p < 1.0);
    for k in 0..n {
        let a = WideParams::generate(&mut r, &ctx);
        let b = WideParams::generate(&mut r, &ctx);
        let (mut x, mut y) = (a, b);
        // Streams whose first draws sit at the very ends of [0, 1).
        let mut end = EXTREME_SEEDS.get(k).filter(|_| p == 0.0 || p == 1.0).map(|s| StdRng::seed_from_u64(*s));
        let r = end.as_mut().unwrap_or(&mut r);
        if cross {
            cx.cross(r, &mut x, &mut y);
        } else {
            mu.mutate(r, &mut x, &ctx);
        }
        let (a, b, x, y) = (a.arr(), b.arr(), x.arr(), y.arr());
        let mut h = [false; 10];
        for i in 0..10 {
            h[i] = x[i] != a[i];
            if cross {
                ensure!((x[i], y[i]) == (a[i], b[i]) || (x[i], y[i]) == (b[i], a[i]), "gene {i} was neither kept nor swapped");
            }
            hits[i] += h[i] as usize;
        }
        for i in 0..10 {
            for j in 0..i {
                both[i][j] += (h[i] && h[j]) as usize;
            }
        }
    }
    let p = p as f64;
    for i in 0..10 {
        if p == 0.0 || p == 1.0 {
            ensure!(hits[i] == (p * n as f64) as usize, "gene {i} touched {} of {n} times at probability {p}", hits[i]);
        }
        ensure!(plausible(hits[i], n, p), "gene {i} touched {} of {n} times at probability {p}", hits[i]);
        for j in 0..i {
            ensure!(plausible(both[i][j], n, p * p), "genes {i} and {j} touched together {} of {n} times at probability {p}", both[i][j]);
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------
// E01, E07: real evaluations

/// The chosen statistic of one symbol's backtest, how far rounding may move it (None: it drowns in
/// rounding noise), and the number of positions.
fn symbol_value(w: &World, s: &str, p: &TradingParams) -> (f64, Option<f64>, usize) {
    let sum = trade(
        p,
        &TradeInput {
            candles: &w.candles[s][&p.trader.interval],
            fees: &w.ex.fees[s],
            filters: &w.ex.filters[s],
            borrow_info: &w.ex.borrow_info[s][s.base_asset()],
            margin_multiplier: 2,
            quote: w.quote,
            long: true,
            short: true,
        },
    );
    let n = sum.positions.len();
    let v = jv(&Statistics::compose(&sum, s, &w.prices, Interval::DAY_MS));
    let num = |x: &Value| x.as_f64().unwrap_or(f64::NAN);
    let ratios = || reference(&sum, &w.prices[s.base_asset()], &w.prices[s.quote_asset()], Interval::DAY_MS.0);
    let ratio_tol = |x: f64, risk: f64, r: &vharness::perf::Ref| {
        if r.undefined || risk > 1e3 * r.noise {
            Some(if r.undefined { 0.0 } else { x.abs() * (1e-9 + 40.0 * r.noise / risk) + 365.0 * 8.0 * r.noise / risk / 19.0 })
        } else {
            None
        }
    };
    let (x, tol) = match w.stat {
        EvaluationStatistic::Profit => {
            let moved: f64 = sum
                .positions
                .iter()
                .map(|p| match p {
                    Position::Long(p) => p.cost() + p.gain().abs(),
                    Position::Short(p) => p.cost() + p.gain().abs() + p.open_fills[0].quote,
                })
                .sum();
            let x = num(&v["core"]["profit"]);
            (x, Some(1e-9 * x.abs() + 1e-14 * moved))
        }
        EvaluationStatistic::ReturnOverMaxDrawdown => {
            let x = num(&v["core"]["return_over_max_drawdown"]);
            let dd = num(&v["core"]["max_drawdown"]);
            let tol = if dd == 0.0 {
                Some(0.0)
            } else if dd < 1e-9 {
                None
            } else {
                Some(x.abs() * (1e-9 + 1e-14 / dd) + 1e-14 * n as f64 / dd)
            };
            (x, tol)
        }
        EvaluationStatistic::SharpeRatio => {
            let x = num(&v["extended"]["sharpe_ratio"]);
            let r = ratios();
            let t = if r.zero { Some(0.0) } else if r.undefined && r.doubtful_sign { None } else { ratio_tol(x, r.sd, &r) };
            (x, t)
        }
        EvaluationStatistic::SortinoRatio => {
            let x = num(&v["extended"]["sortino_ratio"]);
            let r = ratios();
            let t = if r.zero {
                Some(0.0)
            } else if r.doubtful_sign {
                None
            } else if r.losing < 2 {
                Some(0.0)
            } else {
                ratio_tol(x, r.nsd, &r)
            };
            (x, t)
        }
    };
    (x, tol, n)
}
fn log_part(v: f64) -> f64 {
    if v >= 0.0 {
        (1.0 + v).log10()
    } else {
        -(10f64.powf(1.0 - v))
    }
}
/// Aggregated value and how far rounding may move it.
fn combine(w: &World, vs: &[(f64, f64)]) -> (f64, f64) {
    let f = |v: f64| match w.agg {
        EvaluationAggregation::Linear => v,
        EvaluationAggregation::Log10 => log_part(v),
        EvaluationAggregation::Log10Factored => log_part(10.0 * v),
    };
    let (mut t, mut tol) = (0.0, 0.0);
    for &(v, d) in vs {
        let x = f(v);
        // the aggregation jumps from 0 to -10 at zero: a value that may have either sign is not judged
        let err = if d == 0.0 { 0.0 } else { (f(v + d) - x).abs().max((f(v - d) - x).abs()) };
        t += x;
        tol += err + 1e-9 * x.abs();
    }
    (t, tol + 1e-12)
}

fn e07(c: &mut Case) -> Res {
    let (days, most) = if c.scale == Scale::Small { (40, 6) } else { (150, 60) };
    let w = world(c, days);
    let n = c.usize(1, most);
    let mut ps: Vec<TradingParams> = (0..n).map(|_| quick_params(c, &w)).collect();
    for _ in 0..c.usize(0, 3) {
        // neighbours of another candidate
        let mut p = c.pick(&ps);
        let q = quick_params(c, &w);
        match c.draw(3) {
            0 => p.trader.interval = c.pick(&w.intervals),
            1 => p.strategy = q.strategy,
            2 => p.stop_loss = q.stop_loss,
            _ => p.take_profit = q.take_profit,
        }
        ps.push(p);
    }
    let n = ps.len();
    c.sample(|| format!("{} candidates={}", w.describe(), json(&ps)));
    let ev = w.evaluation(&w.symbols);
    // whatever fitness an individual comes with
    let stale = c.pick(&[123.0, f64::NAN, 0.0, 1e30, f64::INFINITY, f64::NEG_INFINITY]);
    let mut pop: Vec<Individual<TradingParams>> = ps.iter().map(|p| Individual { chromosome: *p, fitness: stale }).collect();
    ev.evaluate(&mut pop);
    let mut traded = 0;
    for (p, ind) in ps.iter().zip(&pop) {
        ensure!(json(p) == json(&ind.chromosome), "evaluation changed a candidate or the order");
        let vs: Vec<(f64, Option<f64>)> = w
            .symbols
            .iter()
            .map(|s| {
                let (v, d, n) = symbol_value(&w, s, p);
                traded += (n > 0) as usize;
                (v, d)
            })
            .collect();
        if vs.iter().any(|(_, d)| d.is_none()) {
            ensure!(!ind.fitness.is_nan(), "fitness is not comparable");
            c.label("a statistic drowns in rounding noise");
            continue;
        }
        let vs: Vec<(f64, f64)> = vs.iter().map(|(v, d)| (*v, d.unwrap_or(0.0))).collect();
        let (want, tol) = combine(&w, &vs);
        ensure!(
            ind.fitness == want || (ind.fitness - want).abs() <= tol,
            "fitness {} of {} but its backtests give {vs:?}, combined {want}",
            ind.fitness,
            json(p)
        );
    }
    c.nontrivial_if(traded >= 1);
    c.label_if(w.symbols.len() > 1, "several symbols");
    c.label_if(w.intervals.len() > 1, "several intervals");
    c.label(match w.stat {
        EvaluationStatistic::Profit => "profit",
        EvaluationStatistic::ReturnOverMaxDrawdown => "return over max drawdown",
        EvaluationStatistic::SharpeRatio => "sharpe",
        EvaluationStatistic::SortinoRatio => "sortino",
    });
    c.label(match w.agg {
        EvaluationAggregation::Linear => "linear",
        EvaluationAggregation::Log10 => "log10",
        EvaluationAggregation::Log10Factored => "log10 factored",
    });
    // alone, reversed
    let k = c.usize(0, n - 1);
    let mut one = vec![Individual { chromosome: ps[k], fitness: -7.0 }];
    ev.evaluate(&mut one);
    ensure!(one[0].fitness.to_bits() == pop[k].fitness.to_bits(), "fitness depends on the population: {} alone, {} with others", one[0].fitness, pop[k].fitness);
    let mut rev: Vec<_> = pop.iter().rev().cloned().collect();
    w.evaluation(&w.symbols).evaluate(&mut rev);
    for (a, b) in rev.iter().rev().zip(&pop) {
        ensure!(a.fitness.to_bits() == b.fitness.to_bits(), "fitness depends on the order or an earlier fitness: {} vs {}", a.fitness, b.fitness);
    }
    if w.symbols.len() > 1 {
        let mut syms = w.symbols.clone();
        syms.reverse();
        let mut again = pop.clone();
        w.evaluation(&syms).evaluate(&mut again);
        for (a, b) in again.iter().zip(&pop) {
            // summands of opposite sign may cancel: compare at the size of the summands
            let mag: f64 = w.symbols.iter().map(|s| combine(&w, &[(symbol_value(&w, s, &b.chromosome).0, 0.0)]).0.abs()).sum();
            ensure!(
                a.fitness == b.fitness || close_abs(a.fitness, b.fitness, 1e-9, 1e-9 * mag),
                "fitness depends on the symbol order: {} vs {}",
                a.fitness,
                b.fitness
            );
        }
    }
    Ok(())
}

fn pools() -> &'static [rayon::ThreadPool; 3] {
    static P: OnceLock<[rayon::ThreadPool; 3]> = OnceLock::new();
    P.get_or_init(|| [1, 2, 5].map(|n| rayon::ThreadPoolBuilder::new().num_threads(n).build().expect("thread pool")))
}

struct Run {
    w: World,
    ctx: Value,
    pop: usize,
    gens: usize,
    hof: usize,
    seed: u64,
    kind: usize,
}
fn e01_run(c: &mut Case) -> Run {
    let w = world(c, 12);
    let ctx = match c.draw(3) {
        0 => json!({}),
        1 => json!({"take_profit": {"type": "Trending"}}),
        2 => json!({"strategy": {"type": "SigOsc"}, "take_profit": {"type": "Trending", "period": 3}}),
        _ => json!({"strategy": {"type": "DoubleMA"}, "stop_loss": {"type": "Noop"}, "take_profit": {"type": "Noop"}}),
    };
    let (pop, gens, hof) = match c.scale {
        Scale::Small => (c.usize(2, 12), c.usize(1, 4), c.usize(1, 12)),
        _ => match c.draw(1) {
            0 => (c.usize(40, 300), c.usize(1, 4), c.usize(1, 50)),
            _ => (c.usize(2, 30), c.usize(20, 60), c.usize(1, 12)),
        },
    };
    Run { w, ctx, pop, gens, hof, seed: any_seed(c), kind: c.usize(0, 2) }
}
fn digest<T: Chromosome + Serialize>(e: &Evolution<T>) -> String {
    let mut s = format!("seed {}\n", e.seed);
    for (i, g) in e.generations.iter().enumerate() {
        for ind in &g.hall_of_fame {
            s.push_str(&format!("{i} {:x} {}\n", ind.fitness.to_bits(), serde_json::to_string(&ind.chromosome).unwrap()));
        }
    }
    s
}
fn e01_evolve(r: &Run, seed: Option<u64>) -> String {
    e01_runs(r, &[seed]).pop().unwrap()
}
/// Several runs, one after the other, of one and the same optimizer.
fn e01_runs(r: &Run, seeds: &[Option<u64>]) -> Vec<String> {
    fn go<S: Selection, R: Reinsertion>(r: &Run, seeds: &[Option<u64>], s: S, re: R) -> Vec<String> {
        let ga = GeneticAlgorithm::new(r.w.evaluation(&r.w.symbols), s, UniformCrossover::new(0.5), UniformMutation::new(0.25), re);
        seeds.iter().map(|seed| digest(&ga.evolve(r.pop, r.gens, r.hof, *seed, nop, &r.w.ctx(r.ctx.clone())))).collect()
    }
    match r.kind {
        0 => go(r, seeds, EliteSelection::new(false), EliteReinsertion::new(0.75, 0.5)),
        1 => go(r, seeds, EliteSelection::new(true), EliteReinsertion::new(0.5, 0.25)),
        _ => go(r, seeds, TournamentSelection::default(), PureReinsertion {}),
    }
}
fn first_diff(a: &str, b: &str) -> String {
    for (x, y) in a.lines().zip(b.lines()) {
        if x != y {
            return format!("{} <> {}", &x[..x.len().min(300)], &y[..y.len().min(300)]);
        }
    }
    format!("{} lines vs {}", a.lines().count(), b.lines().count())
}
fn e01_threads(c: &mut Case) -> Res {
    let mut r = e01_run(c);
    c.sample(|| format!("{} context={} pop={} gens={} kind={} seed={}", r.w.describe(), r.ctx, r.pop, r.gens, r.kind, r.seed));
    c.nontrivial_if(r.pop >= 3);
    let one = pools()[0].install(|| e01_evolve(&r, Some(r.seed)));
    ensure!(one.starts_with(&format!("seed {}\n", r.seed)), "reported {} for the requested {}", one.lines().next().unwrap_or(""), r.seed);
    // the same data in newly built tables
    r.w.ex = serde_json::from_value(jv(&r.w.ex)).expect("exchange info");
    for (k, f) in r.w.prices.clone() {
        r.w.prices.remove(&k);
        r.w.prices.insert(k, f);
    }
    let i = c.usize(1, 2);
    let many = pools()[i].install(|| e01_evolve(&r, Some(r.seed)));
    ensure!(one == many, "same seed, other number of threads: {}", first_diff(&one, &many));
    // an optimizer that has run before, with another seed or the same
    let runs = e01_runs(&r, &[Some(if c.bool() { r.seed } else { r.seed ^ 5 }), None, Some(r.seed)]);
    ensure!(one == runs[2], "same seed, optimizer used before: {}", first_diff(&one, &runs[2]));
    Ok(())
}
fn e01_seed(c: &mut Case) -> Res {
    let mut r = e01_run(c);
    r.gens = 1;
    c.sample(|| format!("seed={} pop={}", r.seed, r.pop));
    c.nontrivial = true;
    r.ctx = json!({});
    let a = e01_evolve(&r, None);
    let seed: u64 = a.lines().next().and_then(|l| l.strip_prefix("seed ")).and_then(|s| s.parse().ok()).ok_or_else(|| Fail::Msg("no seed reported".into()))?;
    let b = e01_evolve(&r, Some(seed));
    ensure!(a == b, "the reported seed {seed} does not reproduce the run: {}", first_diff(&a, &b));
    // other seeds explore other candidates
    let other = match c.draw(3) {
        0 => r.seed.wrapping_add(1),
        1 => r.seed ^ (1 << c.draw(63)),
        2 => r.seed.wrapping_sub(1),
        _ => c.draw(u64::MAX),
    };
    if other != r.seed {
        let strip = |s: String| s.lines().skip(1).map(|l| l.to_string()).collect::<Vec<_>>();
        let (x, y) = (strip(e01_evolve(&r, Some(r.seed))), strip(e01_evolve(&r, Some(other))));
        ensure!(x != y, "seeds {} and {other} explore the same candidates", r.seed);
    }
    Ok(())
}
fn e01_process(c: &mut Case) -> Res {
    let r = e01_run(c);
    c.sample(|| format!("{} context={} pop={} gens={} kind={} seed={}", r.w.describe(), r.ctx, r.pop, r.gens, r.kind, r.seed));
    c.nontrivial_if(r.pop >= 3);
    let here = e01_evolve(&r, Some(r.seed));
    let mut ch = std::process::Command::new(std::env::current_exe().map_err(|e| Fail::Msg(e.to_string()))?)
        .arg("child-e01")
        .stdin(std::process::Stdio::piped())
        .stdout(std::process::Stdio::piped())
        .spawn()
        .expect("start a child process");
    ch.stdin.take().unwrap().write_all(serde_json::to_string(&c.choices).unwrap().as_bytes()).expect("write to child");
    let out = ch.wait_with_output().expect("child output");
    ensure!(out.status.success(), "child process failed: {}", out.status);
    let there = String::from_utf8_lossy(&out.stdout).to_string();
    ensure!(here == there, "same seed in another process: {}", first_diff(&here, &there));
    Ok(())
}
fn child_e01() {
    let mut s = String::new();
    std::io::stdin().read_to_string(&mut s).unwrap();
    let ch: Vec<u64> = serde_json::from_str(&s).unwrap();
    let mut c = Case::replay(ch);
    let r = e01_run(&mut c);
    print!("{}", e01_evolve(&r, Some(r.seed)));
}

fn main() {
    if std::env::args().nth(1).as_deref() == Some("child-e01") {
        child_e01();
        return;
    }
    vharness::engine::main(vec![
        Prop {
            id: "E01",
            rule: "a case is a random optimization (1-3 symbols, 1-3 intervals, 2-12 individuals, 1-4 generations, three operator sets, any statistic/aggregation); non-trivial when the population has at least three individuals",
            assumptions: &["same binary and machine: floating-point results are compared bit for bit between runs only"],
            subs: vec![
                sub_serial("process", 250, 6_000, e01_process),
                sub("threads", 6_000, 150_000, e01_threads), sub("threads_large", 150, 4000, |c| large(c, e01_threads)),
                sub("seed", 3_000, 80_000, e01_seed),
            ],
        },
        Prop {
            id: "E02",
            rule: "a case is a random evolution of a four-gene chromosome with a known fitness (ties, -inf and huge negatives included) under a random operator set, population 2-40, 0-8 generations; non-trivial with at least two generations and three individuals",
            assumptions: &["generation rate of elite reinsertion below 1", "fitness reinsertion only where it produces more offspring than parents"],
            subs: vec![sub("evolution", 400_000, 12_000_000, e02), sub("evolution_large", 3000, 100000, |c| large(c, e02)), sub("evolution_marathon", 16, 160, |c| marathon(c, e02))],
        },
        Prop {
            id: "E03",
            rule: "pairs of configurations (same kinds in most cases) crossed at every index, single configurations mutated 48 times at every index; genes are read off the JSON form; non-trivial when at least four genes differ",
            assumptions: &["a pair or triple of moving averages or thresholds generated together is one gene", "the candle buffer interval is never generated and only settable by pinning"],
            subs: vec![
                sub("cross", 40_000, 1_500_000, e03_cross),
                sub("mutate", 3_000, 120_000, e03_mutate),
                sub("derived", 6_000, 250_000, e03_derive),
            ],
        },
        Prop {
            id: "E04",
            rule: "a case pins a random subset of one random configuration's parameters, kinds and intervals in a JSON context; non-trivial when at least three things are pinned (vary: left open)",
            assumptions: &["the trader context always names at least one interval", "decimals read from JSON may differ in the last digit"],
            subs: vec![
                sub("operators", 60_000, 2_000_000, e04_ops),
                sub("evolution", 12_000, 400_000, e04_evolve), sub("evolution_large", 150, 4000, |c| large(c, e04_evolve)),
                sub("vary", 10_000, 300_000, e04_vary),
                sub("kinds", 40, 400, e04_kinds), sub("intervals", 3_000, 60_000, e04_intervals),
            ],
        },
        Prop {
            id: "E05",
            rule: "a case is a configuration after 0-12 random crossovers/mutations; non-trivial when checked for validity, when the round-tripped configuration makes a trade, or when at least two parameters are pinned in the context",
            assumptions: &["decimals read from JSON may differ in the last digit; then only the values are compared"],
            subs: vec![
                sub("valid", 250_000, 8_000_000, e05_valid),
                sub("json", 150_000, 5_000_000, e05_json),
                sub("context", 60_000, 2_000_000, e05_context),
            ],
        },
        Prop {
            id: "E06",
            rule: "a case applies one operator with a random rate to a random sorted population (2-60); frequencies are tested with a Chernoff bound of e^-36; non-trivial by operator (e.g. tournaments of at least two, probabilities strictly between 0 and 1)",
            assumptions: &["counts are compared with floor(n*rate) allowing for single-precision rounding at integers"],
            subs: vec![
                sub("select", 12_000, 400_000, e06_select), sub("select_large", 300, 10000, |c| large(c, e06_select)),
                sub("reinsert", 300_000, 9_000_000, e06_reinsert), sub("reinsert_large", 2000, 60000, |c| large(c, e06_reinsert)),
                sub("evolve", 200_000, 6_000_000, e06_evolve), sub("evolve_large", 1500, 50000, |c| large(c, e06_evolve)),
                sub("uniform", 12_000, 400_000, e06_uniform),
                sub("huge", 2_000, 60_000, e06_huge),
            ],
        },
        Prop {
            id: "E07",
            rule: "a case evaluates 1-6 candidates on 1-3 symbols with their own candles per interval, fees, filters and borrow terms; every fitness is recomputed from trade() and the full statistics; non-trivial when at least one backtest has a position",
            assumptions: &["trade() and Statistics::compose are decided by T01-T05, A01, A02", "histories start at the first candle of the price tables"],
            subs: vec![sub("fitness", 80_000, 3_000_000, e07), sub("fitness_large", 800, 30000, |c| large(c, e07))],
        },
    ]);
}
