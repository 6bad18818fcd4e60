//! N01-N03: the data client and the web service.
use juno::{
    clients::juno_core::{Client, Error, GetExchangeInfo, ListCandles, MapAssetPrices},
    genetics::{crossover::UniformCrossover, mutation::UniformMutation, reinsertion::EliteReinsertion, selection::EliteSelection, Generation, GeneticAlgorithm},
    statistics::Statistics,
    trading::{trade, BasicEvaluation, BasicEvaluationInput, EvaluationAggregation, EvaluationStatistic, TradeInput, TradingParams, TradingParamsContext},
    Candle, CandleType, Interval, SymbolExt, Timestamp,
};
use serde_json::{json, Value};
use std::{
    cell::RefCell,
    collections::{BTreeSet, HashMap},
    sync::{Arc, Mutex, OnceLock},
    time::Duration,
};
use vharness::{
    engine::{large, quiet, sub, sub_serial, Case, Fail, Prop, Res, Scale},
    ensure, fail,
    gens::*,
    http::*,
    models::close,
    world::*,
};

fn ok(body: impl Into<Vec<u8>>) -> Reply {
    Reply::Http { status: 200, body: body.into(), chunked: None, delay_ms: 0 }
}
fn same(a: &Value, b: &Value, tol: f64) -> bool {
    match (a, b) {
        (Value::Number(x), Value::Number(y)) => x == y || close(x.as_f64().unwrap(), y.as_f64().unwrap(), tol),
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| same(p, q, tol)),
        (Value::Object(x), Value::Object(y)) => x.len() == y.len() && x.iter().all(|(k, p)| y.get(k).map_or(false, |q| same(p, q, tol))),
        _ => a == b,
    }
}
/// Path and values of the first difference.
fn differ(a: &Value, b: &Value, tol: f64, path: &str) -> String {
    match (a, b) {
        (Value::Array(x), Value::Array(y)) if x.len() == y.len() => {
            for (i, (p, q)) in x.iter().zip(y).enumerate() {
                if !same(p, q, tol) {
                    return differ(p, q, tol, &format!("{path}[{i}]"));
                }
            }
        }
        (Value::Object(x), Value::Object(y)) if x.keys().eq(y.keys()) => {
            for (k, p) in x {
                if !same(p, &y[k], tol) {
                    return differ(p, &y[k], tol, &format!("{path}.{k}"));
                }
            }
        }
        _ => {}
    }
    let cut = |v: &Value| {
        let s = v.to_string();
        s.chars().take(160).collect::<String>()
    };
    format!("{path}: {} instead of {}", cut(a), cut(b))
}

// ---------------------------------------------------------------------------
// N01

fn rt() -> &'static tokio::runtime::Runtime {
    static R: OnceLock<tokio::runtime::Runtime> = OnceLock::new();
    R.get_or_init(|| tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_all().build().expect("runtime"))
}
fn mock() -> &'static Arc<Mock> {
    static M: OnceLock<Arc<Mock>> = OnceLock::new();
    M.get_or_init(|| Mock::start("0.0.0.0:0").expect("mock server"))
}

/// The arguments of one client call and what the mock server does about it.
#[derive(Clone, Debug)]
struct Call {
    kind: usize,
    exchange: String,
    symbol: String,
    interval: u64,
    start: u64,
    end: u64,
    heikin: bool,
    assets: Vec<String>,
    target: String,
}
const PATHS: [&str; 5] = ["/exchange_info", "/candles", "/candles_fill_missing_with_none", "/candle_intervals", "/prices"];

fn name(c: &mut Case) -> String {
    match c.draw(3) {
        _ if c.chance(1, 40) => {
            let n = c.usize(20, 400);
            (0..n).map(|_| c.pick(&['a', 'z', '-', '0', 'Q', 'é'])).collect()
        }
        0 => c.pick(&["binance", "kraken", "eth-btc", "btc", "usdt"]).to_string(),
        1 => (0..c.usize(0, 12)).map(|_| c.pick(&['a', 'z', '-', '0', 'Q'])).collect(),
        _ => (0..c.usize(0, 12)).map(|_| c.pick(&['a', '"', '\\', '\n', 'é', '漢', '/', '&', '=', '%', '\u{1}', ' ', '{', '😀'])).collect(),
    }
}
fn call(c: &mut Case) -> Call {
    let a = match c.draw(4) {
        0 => c.draw(u64::MAX),
        1 => c.draw(1000),
        _ => c.draw(253_402_300_799_999),
    };
    let b = match c.draw(4) {
        0 => c.draw(u64::MAX),
        1 => a,
        _ => a.saturating_add(c.draw(1 << 40)),
    };
    // a client passes on what it is given, in order or not
    let (start, end) = if c.chance(1, 8) { (b, a) } else { (a, b) };
    let interval = match c.draw(3) {
        0 => c.draw(u64::MAX),
        _ => c.pick(&[60_000, 1, DAY, 3_600_000, 7 * DAY, 2_629_746_000, 123_456_789, 0]),
    };
    let na = if c.chance(1, 10) { c.usize(6, 60) } else { c.usize(0, 5) };
    Call {
        kind: c.usize(0, 4),
        exchange: name(c),
        symbol: name(c),
        interval,
        start,
        end,
        heikin: c.bool(),
        assets: (0..na).map(|_| name(c)).collect(),
        target: name(c),
    }
}
impl Call {
    fn body(&self) -> Value {
        let t = if self.heikin { "heikin-ashi" } else { "regular" };
        match self.kind {
            0 | 3 => json!({"exchange": self.exchange}),
            1 | 2 => json!({"exchange": self.exchange, "symbol": self.symbol, "interval": self.interval, "start": self.start, "end": self.end, "type_": t}),
            _ => json!({"exchange": self.exchange, "assets": self.assets, "interval": self.interval, "start": self.start, "end": self.end, "target_asset": self.target}),
        }
    }
    async fn run(&self, cl: &Client) -> Result<Value, Error> {
        fn list(k: &Candle) -> Value {
            json!({"time": k.time.0, "open": k.open, "high": k.high, "low": k.low, "close": k.close, "volume": k.volume})
        }
        let candles = || ListCandles {
            exchange: &self.exchange,
            symbol: &self.symbol,
            interval: Interval(self.interval),
            start: Timestamp(self.start),
            end: Timestamp(self.end),
            type_: if self.heikin { CandleType::HeikinAshi } else { CandleType::Regular },
        };
        Ok(match self.kind {
            0 => {
                let x = cl.get_exchange_info(GetExchangeInfo { exchange: &self.exchange }).await?;
                serde_json::to_value(&x).unwrap()
            }
            1 => Value::Array(cl.list_candles(candles()).await?.iter().map(list).collect()),
            2 => Value::Array(cl.list_candles_fill_missing_with_none(candles()).await?.iter().map(|k| k.as_ref().map_or(Value::Null, list)).collect()),
            3 => Value::Array(cl.list_candle_intervals(GetExchangeInfo { exchange: &self.exchange }).await?.iter().map(|i| json!(i.0)).collect()),
            _ => {
                let assets: Vec<&str> = self.assets.iter().map(|s| s.as_str()).collect();
                let m = cl
                    .map_asset_prices(MapAssetPrices {
                        exchange: &self.exchange,
                        assets: &assets,
                        interval: Interval(self.interval),
                        start: Timestamp(self.start),
                        end: Timestamp(self.end),
                        target_asset: &self.target,
                    })
                    .await?;
                serde_json::to_value(&m).unwrap()
            }
        })
    }
}

fn number(c: &mut Case) -> f64 {
    match c.draw(2) {
        0 => c.draw(1000) as f64,
        1 => c.logf(1e-9, 1e9),
        _ => c.draw(1_000_000) as f64 / 1000.0,
    }
}
/// What the server sends (as its JSON) and what that means (times as milliseconds).
fn data(c: &mut Case, kind: usize) -> (Value, Value) {
    let candle = |c: &mut Case| {
        let t = c.draw(2_000_000_000) * 1000;
        let mut v = json!({"time": t, "open": number(c), "high": number(c), "low": number(c), "close": number(c), "volume": number(c)});
        let want = v.clone();
        if c.chance(1, 8) {
            v["time"] = json!(Timestamp(t).to_string());
        }
        (v, want)
    };
    let big = c.scale != Scale::Small;
    let n = match c.weighted(&[6, 1]) {
        _ if big => c.len(0, 5000),
        0 => c.usize(0, 8),
        _ => c.usize(0, 300),
    };
    match kind {
        0 => {
            let mut v = json!({"assets": {}, "fees": {}, "filters": {}, "borrow_info": {}});
            for _ in 0..if big { n / 10 } else { n.min(20) } {
                let (a, s) = (name(c), name(c));
                v["assets"][&a] = json!({"precision": c.draw(18)});
                v["fees"][&s] = json!({"maker": number(c), "taker": number(c)});
                v["filters"][&s] = json!({
                    "price": {"min": number(c), "max": number(c), "step": number(c)},
                    "size": {"min": number(c), "max": number(c), "step": number(c)},
                    "base_precision": c.draw(18), "quote_precision": c.draw(18),
                });
                v["borrow_info"][&s][&a] = json!({"interest_interval": c.draw(1 << 40), "interest_rate": number(c), "limit": number(c)});
            }
            (v.clone(), v)
        }
        1 => {
            let (a, b) = (0..n).map(|_| candle(c)).unzip();
            (Value::Array(a), Value::Array(b))
        }
        2 => {
            let (a, b) = (0..n).map(|_| if c.chance(1, 3) { (Value::Null, Value::Null) } else { candle(c) }).unzip();
            (Value::Array(a), Value::Array(b))
        }
        3 => {
            let (a, b) = (0..n)
                .map(|_| {
                    let i = Interval(c.draw(1 << 42));
                    (if c.chance(1, 4) { json!(i.to_string()) } else { json!(i.0) }, json!(i.0))
                })
                .unzip();
            (Value::Array(a), Value::Array(b))
        }
        _ => {
            let mut v = json!({});
            for _ in 0..if big { n / 100 } else { n.min(30) } {
                let k = c.len(0, if big { 400 } else { 20 });
                v[name(c)] = Value::Array((0..k).map(|_| json!(number(c))).collect());
            }
            (v.clone(), v)
        }
    }
}

/// The outcome a scripted reply must lead to.
#[derive(Clone, Debug)]
enum Want {
    Data(Value),
    Api(u16, String),
    Error,
}
fn script(c: &mut Case, kind: usize) -> (Reply, Want) {
    let (v, want) = data(c, kind);
    let mut body = v.to_string().into_bytes();
    let chunked = if c.chance(1, 3) { Some(c.usize(1, 64) * if c.scale == Scale::Small { 1 } else { 64 }) } else { None };
    let reply = |status: u16, body: Vec<u8>| Reply::Http { status, body, chunked, delay_ms: 0 };
    match c.weighted(&[8, 4, 2, 2, 2, 1, 1]) {
        0 => {
            c.label("data");
            (reply(200, body), Want::Data(want))
        }
        1 => {
            c.label("client error with a message");
            let s = match c.draw(2) {
                0 => c.pick(&[400, 404, 422, 403, 429, 409]),
                _ => c.u64(400, 499) as u16,
            };
            // 408 invites another attempt and 407 concerns proxies
            let s = if s == 407 || s == 408 { 400 } else { s };
            let m = name(c);
            let mut b = json!({ "message": m });
            if c.chance(1, 4) {
                b["code"] = json!(c.draw(9));
            }
            (reply(s, b.to_string().into_bytes()), Want::Api(s, m))
        }
        2 => {
            c.label("client error without a message");
            let b = c.pick(&["", "not json", "{}", "{\"message\":1}", "[]", "null", "{\"error\":\"x\"}", "{\"message\":\"cut"]);
            (reply(c.pick(&[400, 404, 422]), b.into()), Want::Error)
        }
        3 => {
            c.label("server error");
            // even with perfectly good data in it
            let b = match c.draw(2) {
                0 => body,
                1 => json!({"message": name(c)}).to_string().into_bytes(),
                _ => vec![],
            };
            (reply(c.pick(&[500, 502, 503, 504, 501, 599]), b), Want::Error)
        }
        4 => {
            c.label("malformed data");
            let b = match c.draw(3) {
                0 => {
                    body.truncate(c.usize(0, body.len() - 1));
                    body
                }
                1 => c.pick(&["", "null", "true", "\"text\"", "17", "<html></html>", "{\"message\":\"x\"}", "[[]]", "[true]"]).as_bytes().to_vec(),
                2 => {
                    body.extend(b"]");
                    body
                }
                // a record of another kind
                _ => c
                    .pick(&match kind {
                        0 => ["[]", "{\"assets\":{},\"fees\":{},\"filters\":{}}"],
                        1 | 2 => ["{}", "[{\"time\":1,\"open\":1,\"high\":1,\"low\":1,\"close\":1}]"],
                        3 => ["{}", "[-1]"],
                        _ => ["[]", "{\"btc\":[null]}"],
                    })
                    .as_bytes()
                    .to_vec(),
            };
            (reply(200, b), Want::Error)
        }
        5 => {
            c.label("connection dropped");
            match c.draw(1) {
                0 => (Reply::Drop, Want::Error),
                _ => {
                    let sent = c.usize(0, body.len() - 1);
                    (Reply::Partial { status: 200, body, sent }, Want::Error)
                }
            }
        }
        _ => {
            c.label("not HTTP");
            (Reply::Garbage(c.pick(&["hello\r\n\r\n", "\0\0\0\0", "HTTP/1.1 abc\r\n\r\n"]).into()), Want::Error)
        }
    }
}

fn judge(call: &Call, url: &str, want: &Want, got: Result<Value, Error>) -> Res {
    let what = PATHS[call.kind];
    match (want, got) {
        (Want::Data(w), Ok(g)) => ensure!(same(&g, w, 1e-15), "{what} returned other data than sent: {}", differ(&g, w, 1e-15, "")),
        (Want::Data(_), Err(e)) => fail!("{what} failed on a proper answer: {e}"),
        (Want::Api(s, m), Err(Error::Api { status, url: u, message })) => {
            ensure!(status.as_u16() == *s && message == *m, "{what}: API error {status} {message:?} instead of {s} {m:?}");
            ensure!(u.as_str() == url, "{what}: API error for {u} instead of {url}");
        }
        (Want::Api(s, m), Err(e)) => fail!("{what}: status {s} with message {m:?} became {e:?}"),
        (Want::Api(s, _), Ok(g)) => fail!("{what}: status {s} became data {g}"),
        (Want::Error, Err(_)) => {}
        (Want::Error, Ok(g)) => fail!("{what}: a failure became data {}", g.to_string().chars().take(200).collect::<String>()),
    }
    Ok(())
}

fn host(c: &mut Case) -> String {
    format!("http://127.0.0.{}:{}", c.u64(1, 200), mock().port)
}

struct Scoped(String);
impl Drop for Scoped {
    fn drop(&mut self) {
        mock().unset(&self.0)
    }
}

fn n01_single(c: &mut Case) -> Res {
    let call = call(c);
    let (reply, want) = script(c, call.kind);
    c.sample(|| format!("{call:?} answered by {}", format!("{reply:?}").chars().take(200).collect::<String>()));
    c.nontrivial_if(!matches!(&want, Want::Data(v) if v.as_array().map_or(false, |a| a.is_empty())));
    let p = Scoped(mock().fresh_prefix());
    let seen: Arc<Mutex<Vec<Req>>> = Arc::default();
    let log = seen.clone();
    mock().set(
        &p.0,
        Box::new(move |r| {
            log.lock().unwrap().push(r.clone());
            reply.clone()
        }),
    );
    // the service may live below any path
    let base = c.pick(&["", "", "/V1/Data", "/juno%20core", "/a.b/~x"]);
    c.label_if(!base.is_empty(), "below a path");
    let url = format!("{}/{}{base}", host(c), p.0);
    let path = format!("{base}{}", PATHS[call.kind]);
    let got = rt()
        .block_on(async {
            let client = Client::new(&url);
            tokio::time::timeout(Duration::from_secs(60), call.run(&client)).await
        })
        .map_err(|_| Fail::Msg(format!("{} does not return", PATHS[call.kind])))?;
    let seen = seen.lock().unwrap().clone();
    ensure!(!seen.is_empty(), "{}: no request arrived; {:?}", PATHS[call.kind], got);
    ensure!(seen.len() == 1, "{}: {} requests for one call", PATHS[call.kind], seen.len());
    let r = &seen[0];
    ensure!(r.method == "POST" && r.path == path, "{} {} instead of POST {path}", r.method, r.path);
    ensure!(r.content_type == "application/json", "content type {:?}", r.content_type);
    let body: Value = serde_json::from_slice(&r.body).map_err(|e| Fail::Msg(format!("request body is not JSON: {e}")))?;
    ensure!(body == call.body(), "{} asked for {body} instead of {}", PATHS[call.kind], call.body());
    judge(&call, &format!("{url}{}", PATHS[call.kind]), &want, got)
}

fn n01_single_large(c: &mut Case) -> Res {
    large(c, n01_single)
}
fn n01_concurrent(c: &mut Case) -> Res {
    // every call carries a unique exchange name by which the server picks the answer
    let n = c.usize(2, 10);
    let mut calls = vec![];
    let mut replies = HashMap::new();
    let mut wants = vec![];
    for i in 0..n {
        let mut k = call(c);
        k.exchange = format!("{}#{i}", k.exchange);
        let (mut r, w) = script(c, k.kind);
        if let Reply::Http { delay_ms, .. } = &mut r {
            *delay_ms = c.draw(4);
        }
        replies.insert(k.exchange.clone(), r);
        calls.push(k);
        wants.push(w);
    }
    c.sample(|| format!("{calls:?}"));
    c.nontrivial_if(n >= 3);
    let p = Scoped(mock().fresh_prefix());
    mock().set(
        &p.0,
        Box::new(move |r| {
            let v: Value = serde_json::from_slice(&r.body).unwrap_or_default();
            replies.get(v["exchange"].as_str().unwrap_or("")).cloned().unwrap_or(Reply::Drop)
        }),
    );
    let url = format!("{}/{}", host(c), p.0);
    let got = rt()
        .block_on(async {
            let client = Arc::new(Client::new(&url));
            let tasks: Vec<_> = calls
                .iter()
                .map(|k| {
                    let (k, cl) = (k.clone(), client.clone());
                    tokio::spawn(async move { k.run(&cl).await })
                })
                .collect();
            tokio::time::timeout(Duration::from_secs(60), async {
                let mut out = vec![];
                for t in tasks {
                    out.push(t.await);
                }
                out
            })
            .await
        })
        .map_err(|_| Fail::Msg("concurrent calls do not return".into()))?;
    for ((k, w), g) in calls.iter().zip(&wants).zip(got) {
        let g = g.map_err(|e| Fail::Msg(format!("call panicked: {e}")))?;
        judge(k, &format!("{url}{}", PATHS[k.kind]), w, g)?;
    }
    Ok(())
}

// ---------------------------------------------------------------------------
// N02, N03: the service, with a mock of its upstream

const SERVICE: &str = "127.0.0.1:4040";

/// One exchange as served upstream.
struct Upstream {
    info: String,
    candles: HashMap<(String, u64), String>,
    prices: String,
    /// path (prefix) and reply of an injected failure
    fault: Option<(&'static str, Reply)>,
    delay_ms: u64,
    seen: Mutex<Vec<(String, Value)>>,
}
fn exchanges() -> &'static Mutex<HashMap<String, Arc<Upstream>>> {
    static E: OnceLock<Mutex<HashMap<String, Arc<Upstream>>>> = OnceLock::new();
    E.get_or_init(|| {
        let m = Mock::start("127.0.0.1:3030").expect("upstream mock");
        m.set("", Box::new(upstream));
        Box::leak(Box::new(m));
        Mutex::default()
    })
}
fn upstream(r: &Req) -> Reply {
    let problem = |m: String| Reply::Http { status: 404, body: json!({ "message": m }).to_string().into_bytes(), chunked: None, delay_ms: 0 };
    let v: Value = serde_json::from_slice(&r.body).unwrap_or_default();
    let Some(u) = exchanges().lock().unwrap().get(v["exchange"].as_str().unwrap_or("")).cloned() else {
        return problem(format!("unknown exchange {v}"));
    };
    u.seen.lock().unwrap().push((format!("{} {}", r.method, r.path), v.clone()));
    if let Some((p, reply)) = &u.fault {
        if r.path == *p {
            return reply.clone();
        }
    }
    if u.delay_ms > 0 {
        std::thread::sleep(std::time::Duration::from_millis(u.delay_ms));
    }
    match r.path.as_str() {
        "/exchange_info" => ok(u.info.clone()),
        "/candles" => match u.candles.get(&(v["symbol"].as_str().unwrap_or("").to_string(), v["interval"].as_u64().unwrap_or(0))) {
            Some(k) => ok(k.clone()),
            None => problem(format!("no candles for {v}")),
        },
        "/prices" => ok(u.prices.clone()),
        p => problem(format!("unknown path {p}")),
    }
}

thread_local! {
    static HTTP: RefCell<Http> = RefCell::new(Http::new(SERVICE));
}
fn send(method: &str, path: &str, ct: Option<&str>, body: &str) -> Result<Option<(u16, Vec<u8>)>, Fail> {
    HTTP.with(|h| h.borrow_mut().send(method, path, ct, body.as_bytes())).map_err(Fail::Msg)
}
fn post(path: &str, body: &Value) -> Result<Value, Fail> {
    match send("POST", path, Some("application/json"), &body.to_string())? {
        Some((200, b)) => serde_json::from_slice(&b).map_err(|e| Fail::Msg(format!("the answer is not JSON: {e}"))),
        Some((s, b)) => Err(Fail::Msg(format!("POST {path} answers {s}: {}", String::from_utf8_lossy(&b)))),
        None => Err(Fail::Msg(format!("POST {path} closes the connection"))),
    }
}
fn alive() -> Res {
    match send("GET", "/", None, "")? {
        Some((200, b)) if b == b"hello world" => Ok(()),
        x => Err(Fail::Msg(format!("the service does not keep serving: {:?}", x.map(|(s, b)| (s, String::from_utf8_lossy(&b).into_owned()))))),
    }
}

/// A world as it is once its data went through JSON, registered under a new exchange name.
struct Served {
    w: World,
    exchange: String,
    up: Arc<Upstream>,
}
impl Drop for Served {
    fn drop(&mut self) {
        exchanges().lock().unwrap().remove(&self.exchange);
    }
}
fn serve(w: World, fault: Option<(&'static str, Reply)>) -> Served {
    serve_slowly(w, fault, 0)
}
fn serve_slowly(w: World, fault: Option<(&'static str, Reply)>, delay_ms: u64) -> Served {
    static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    let exchange = format!("exchange{}", N.fetch_add(1, std::sync::atomic::Ordering::Relaxed));
    serve_as(exchange, w, fault, delay_ms)
}
fn serve_as(exchange: String, mut w: World, fault: Option<(&'static str, Reply)>, delay_ms: u64) -> Served {
    let info = json(&w.ex);
    w.ex = serde_json::from_str(&info).expect("exchange info");
    let prices = json(&w.prices);
    w.prices = serde_json::from_str(&prices).expect("prices");
    let mut texts = HashMap::new();
    for (s, by) in w.candles.iter_mut() {
        for (i, cs) in by.iter_mut() {
            let t = json(cs);
            *cs = serde_json::from_str(&t).expect("candles");
            texts.insert((s.clone(), i.0), t);
        }
    }
    let up = Arc::new(Upstream { info, candles: texts, prices, fault, delay_ms, seen: Mutex::default() });
    exchanges().lock().unwrap().insert(exchange.clone(), up.clone());
    Served { w, exchange, up }
}

fn stats_of(w: &World, symbol: &str, p: &TradingParams) -> Result<Value, String> {
    quiet(|| {
        let s = trade(
            p,
            &TradeInput {
                candles: &w.candles[symbol][&p.trader.interval],
                fees: &w.ex.fees[symbol],
                filters: &w.ex.filters[symbol],
                borrow_info: &w.ex.borrow_info[symbol][symbol.base_asset()],
                margin_multiplier: 2,
                quote: w.quote,
                long: true,
                short: true,
            },
        );
        serde_json::to_value(Statistics::compose(&s, symbol, &w.prices, Interval::DAY_MS)).unwrap()
    })
}

/// The requests a service call must lead to, and no others.
fn check_requests(s: &Served, symbols: &BTreeSet<String>, intervals: &[u64]) -> Res {
    let seen = s.up.seen.lock().unwrap().clone();
    let (x, a, b) = (&s.exchange, s.w.start, s.w.end);
    let mut want: Vec<(String, Value)> = vec![("POST /exchange_info".into(), json!({ "exchange": x }))];
    let mut assets = BTreeSet::from(["btc".to_string()]);
    for y in symbols {
        assets.insert(y.base_asset().to_string());
        assets.insert(y.quote_asset().to_string());
        for i in intervals {
            want.push(("POST /candles".into(), json!({"exchange": x, "symbol": y, "interval": i, "start": a, "end": b, "type_": "regular"})));
        }
    }
    want.push(("POST /prices".into(), json!({"exchange": x, "assets": assets, "interval": DAY, "start": a, "end": b, "target_asset": "usdt"})));
    let mut seen: Vec<(String, Value)> = seen
        .into_iter()
        .map(|(p, mut v)| {
            if let Some(l) = v.get_mut("assets").and_then(|l| l.as_array_mut()) {
                l.sort_by_key(|x| x.to_string());
            }
            (p, v)
        })
        .collect();
    for x in &want {
        match seen.iter().position(|y| x == y) {
            Some(i) => {
                seen.remove(i);
            }
            None => fail!("no upstream request {} {}; others: {seen:?}", x.0, x.1),
        }
    }
    ensure!(seen.is_empty(), "unexpected upstream requests {seen:?}");
    Ok(())
}

fn time_json(c: &mut Case, t: u64) -> Value {
    match c.draw(2) {
        0 => json!(t),
        2 if t % DAY == 0 => json!(Timestamp(t).to_string()[..10]),
        _ => json!(Timestamp(t).to_string()),
    }
}

/// A request for a backtest and the configuration it stands for.
fn backtest(c: &mut Case, s: &Served) -> Result<(Value, TradingParams, BTreeSet<String>), Fail> {
    let w = &s.w;
    let params = quick_params(c, w);
    let mut pj = serde_json::to_value(&params).unwrap();
    let iv = params.trader.interval;
    if c.bool() {
        pj["trader"]["interval"] = json!(iv.to_string());
    }
    let text = pj.to_string();
    let params: TradingParams = serde_json::from_str(&text).map_err(|e| Fail::Msg(format!("configuration {text} rejected: {e}")))?;
    let mut symbols = w.symbols.clone();
    while c.chance(1, 3) {
        let d = c.pick(&w.symbols);
        let at = c.usize(0, symbols.len());
        symbols.insert(at, d);
        c.label("repeated symbol");
    }
    let body = json!({
        "exchange": s.exchange, "symbols": symbols, "start": time_json(c, w.start), "end": time_json(c, w.end), "quote": w.quote,
        "trading": serde_json::from_str::<Value>(&text).unwrap(),
    });
    Ok((body, params, symbols.into_iter().collect()))
}
fn check_backtest(w: &World, params: &TradingParams, symbols: &BTreeSet<String>, got: &Value) -> Result<usize, Fail> {
    let Some(stats) = got.get("symbol_stats").and_then(|x| x.as_object()) else {
        fail!("no statistics in {got}");
    };
    let keys: BTreeSet<String> = stats.keys().cloned().collect();
    ensure!(keys == *symbols, "statistics of {keys:?} instead of {symbols:?}");
    let mut positions = 0;
    for y in symbols {
        let want = stats_of(w, y, params)?;
        positions += want["positions"].as_array().map_or(0, |p| p.len());
        ensure!(same(&stats[y], &want, 1e-9), "statistics of {y}: {}", differ(&stats[y], &want, 1e-9, ""));
    }
    Ok(positions)
}

fn small_world(c: &mut Case, days: usize) -> World {
    let mut w = world(c, days);
    w.quote = c.pick(&[1.0, 100.0, 5000.0, 0.125, 1234.56, 33.3, 0.003, 5e10]);
    // as it arrives in a request
    w.quote = serde_json::from_str(&json(&w.quote)).expect("quote");
    if c.chance(1, 10) {
        // no trading at all on one symbol
        let s = c.pick(&w.symbols);
        for cs in w.candles.get_mut(&s).unwrap().values_mut() {
            cs.clear();
        }
        c.label("symbol without candles");
    }
    w
}

fn n02_backtest(c: &mut Case) -> Res {
    let w = small_world(c, if c.scale == Scale::Small { 25 } else { 150 });
    let s = serve(w, None);
    let (body, params, symbols) = backtest(c, &s)?;
    c.sample(|| format!("{} {body}", s.w.describe()));
    let got = post("/backtest", &body)?;
    let n = check_backtest(&s.w, &params, &symbols, &got)?;
    c.nontrivial_if(n > 0);
    c.label_if(symbols.len() > 1, "several symbols");
    check_requests(&s, &symbols, &[params.trader.interval.0])
}

fn n02_backtest_large(c: &mut Case) -> Res {
    large(c, n02_backtest)
}

/// The market data behind an exchange changes between requests.
fn n02_changing(c: &mut Case) -> Res {
    let mut s = serve(small_world(c, 12), None);
    let exchange = s.exchange.clone();
    let (mut body, mut params, mut symbols) = backtest(c, &s)?;
    let mut traded = 0;
    for round in 0..c.usize(2, 4) {
        if round > 0 {
            let (start, end) = (s.w.start, s.w.end);
            let keep = c.bool();
            let old = s;
            let mut w = small_world(c, 12);
            if keep {
                // the very same request, other data behind it
                w = World { ex: serde_json::from_str(&json(&old.w.ex)).unwrap(), candles: old.w.candles.clone(), prices: old.w.prices.clone(), symbols: old.w.symbols.clone(), intervals: old.w.intervals.clone(), start, end, ..w };
                w.quote = old.w.quote;
                match c.draw(3) {
                    0 => {
                        for f in w.ex.fees.values_mut() {
                            f.taker = c.pick(&[0.0, 0.003, 0.02]);
                        }
                    }
                    1 => {
                        for cs in w.candles.values_mut().flat_map(|by| by.values_mut()) {
                            let x = c.pick(&[0.5, 2.0, 4.0]);
                            for k in cs.iter_mut() {
                                (k.open, k.high, k.low, k.close) = (k.open * x, k.high * x, k.low * x, k.close * x);
                            }
                            cs.reverse();
                            let times: Vec<_> = cs.iter().rev().map(|k| k.time).collect();
                            for (k, t) in cs.iter_mut().zip(times) {
                                k.time = t;
                            }
                        }
                    }
                    2 => {
                        for p in w.prices.values_mut() {
                            p.reverse();
                        }
                    }
                    _ => {
                        for b in w.ex.borrow_info.values_mut().flat_map(|b| b.values_mut()) {
                            b.interest_rate *= 3.0;
                            b.limit /= 2.0;
                        }
                    }
                }
                c.label("same request, other data");
            }
            drop(old);
            s = serve_as(exchange.clone(), w, None, 0);
            if !keep {
                (body, params, symbols) = backtest(c, &s)?;
            }
        }
        c.sample(|| format!("{} {body}", s.w.describe()));
        let got = post("/backtest", &body)?;
        traded += (check_backtest(&s.w, &params, &symbols, &got)? > 0) as usize;
        check_requests(&s, &symbols, &[params.trader.interval.0])?;
    }
    c.nontrivial_if(traded >= 2);
    Ok(())
}

fn n02_concurrent(c: &mut Case) -> Res {
    let n = c.usize(2, 4);
    let mut jobs = vec![];
    for _ in 0..n {
        let w = small_world(c, 10);
        let delay = if c.chance(1, 6) { c.draw(8) } else { 0 };
        let f = if c.chance(1, 6) { Some(fault(c)) } else { None };
        c.label_if(f.is_some(), "one of them fails");
        let s = serve_slowly(w, f, delay);
        let b = backtest(c, &s)?;
        jobs.push((s, b));
    }
    c.sample(|| jobs.iter().map(|(_, b)| b.0.to_string()).collect::<Vec<_>>().join(" "));
    let got: Vec<_> = std::thread::scope(|sc| {
        let hs: Vec<_> = jobs
            .iter()
            .map(|(s, b)| {
                sc.spawn(move || match &s.up.fault {
                    Some(f) => check_failure("/backtest", &b.0, &format!("{f:?}")).map(|_| Value::Null),
                    None => post("/backtest", &b.0),
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let mut traded = 0;
    for ((s, (_, params, symbols)), g) in jobs.iter().zip(got) {
        if s.up.fault.is_some() {
            g?;
            continue;
        }
        traded += (check_backtest(&s.w, params, symbols, &g?)? > 0) as usize;
        check_requests(s, symbols, &[params.trader.interval.0])?;
    }
    c.nontrivial_if(traded >= 2);
    Ok(())
}

fn fault(c: &mut Case) -> (&'static str, Reply) {
    let p = c.pick(&["/exchange_info", "/candles", "/prices"]);
    let status = |status, body: &str| Reply::Http { status, body: body.into(), chunked: None, delay_ms: 0 };
    let r = match c.draw(5) {
        0 => status(c.pick(&[500, 502, 503]), "{\"message\":\"broken\"}"),
        1 => status(c.pick(&[400, 404, 422]), "{\"message\":\"refused\"}"),
        2 => status(c.pick(&[400, 404]), "refused"),
        3 => status(200, c.pick(&["", "null", "{\"a\":", "17"])),
        4 => Reply::Drop,
        _ => Reply::Partial { status: 200, body: b"[1,2,3]".to_vec(), sent: 3 },
    };
    (p, r)
}
fn check_failure(path: &str, body: &Value, what: &str) -> Res {
    match send("POST", path, Some("application/json"), &body.to_string())? {
        Some((500, b)) => {
            let v: Value = serde_json::from_slice(&b).map_err(|e| Fail::Msg(format!("the error is not JSON: {e}")))?;
            ensure!(v["message"].as_str().map_or(false, |m| !m.is_empty()), "the error {v} carries no message");
            Ok(())
        }
        x => Err(Fail::Msg(format!("upstream failure {what} leads to {:?}", x.map(|(s, b)| (s, String::from_utf8_lossy(&b).into_owned()))))),
    }
}

fn n02_faults(c: &mut Case) -> Res {
    let w = small_world(c, 5);
    let f = fault(c);
    let what = format!("{f:?}");
    let s = serve(w, Some(f));
    let (body, ..) = backtest(c, &s)?;
    c.sample(|| format!("{what} {body}"));
    c.nontrivial = true;
    check_failure("/backtest", &body, &what)?;
    alive()
}

/// A damaged request: what to send.
fn damage(c: &mut Case, body: &Value, fields: &[&str]) -> (String, Option<&'static str>) {
    let mut v = body.clone();
    let f = c.pick(fields);
    match c.draw(5) {
        0 => {
            v.as_object_mut().unwrap().remove(f);
        }
        // an object is a proper (if empty) context
        1 if f == "context" => v[f] = c.pick(&[json!(true), json!([1]), json!(-1), json!("nonsense")]),
        1 => v[f] = c.pick(&[json!(true), json!({"x": 1}), json!(-1), json!("nonsense")]),
        2 => {
            let mut t = v.to_string();
            let cut = c.usize(0, t.len() - 1);
            let cut = (0..=cut).rev().find(|&i| t.is_char_boundary(i)).unwrap();
            t.truncate(cut);
            return (t, Some("application/json"));
        }
        3 => return (v.to_string(), None),
        4 => return (v.to_string(), Some("text/plain")),
        _ => v = c.pick(&[json!([]), json!(null), json!(5), json!("x")]),
    }
    (v.to_string(), Some("application/json"))
}

fn n02_bad(c: &mut Case) -> Res {
    let w = small_world(c, 3);
    let s = serve(w, None);
    let (body, ..) = backtest(c, &s)?;
    let (text, ct) = match c.draw(2) {
        0 => {
            let mut v = body.clone();
            v["trading"]["trader"]["interval"] = c.pick(&[json!("1x"), json!("abc"), json!(""), json!("99999999999999999999y"), json!(null), json!(-3600)]);
            (v.to_string(), Some("application/json"))
        }
        _ => damage(c, &body, &["symbols", "start", "end", "trading"]),
    };
    c.sample(|| format!("{ct:?} {text}"));
    c.nontrivial = true;
    match send("POST", "/backtest", ct, &text)? {
        Some((400..=499, _)) => {}
        x => fail!("a bad request leads to {:?}", x.map(|(s, b)| (s, String::from_utf8_lossy(&b).into_owned()))),
    }
    ensure!(s.up.seen.lock().unwrap().is_empty(), "a bad request was passed on upstream");
    for (m, p) in [("GET", "/backtest"), ("GET", "/nothing"), ("DELETE", "/optimize")] {
        match send(m, p, None, "")? {
            Some((400..=499, _)) => {}
            x => fail!("{m} {p} leads to {:?}", x.map(|(s, _)| s)),
        }
    }
    alive()
}

/// Upstream data that lacks what the request needs: any outcome, but the service survives.
fn n02_survives(c: &mut Case) -> Res {
    let mut w = small_world(c, 5);
    let y = c.pick(&w.symbols);
    match c.draw(3) {
        0 => {
            w.ex.fees.remove(&y);
        }
        1 => {
            w.ex.filters.remove(&y);
        }
        2 => {
            w.ex.borrow_info.remove(&y);
        }
        _ => {
            w.prices.clear();
        }
    }
    let s = serve(w, None);
    let (body, ..) = backtest(c, &s)?;
    c.sample(|| body.to_string());
    c.nontrivial = true;
    if let Some((200, b)) = send("POST", "/backtest", Some("application/json"), &body.to_string())? {
        fail!("statistics without the data they need: {}", String::from_utf8_lossy(&b));
    }
    alive()?;
    // and is as good as before
    let good = serve(small_world(c, 5), None);
    let (body, params, symbols) = backtest(c, &good)?;
    let got = post("/backtest", &body)?;
    check_backtest(&good.w, &params, &symbols, &got)?;
    Ok(())
}

// --- optimize

struct Opt {
    body: Value,
    ctx: TradingParamsContext,
    training: Vec<String>,
    symbols: BTreeSet<String>,
    pop: usize,
    gens: usize,
    hof: usize,
    seed: Option<u64>,
}
fn optimize(c: &mut Case, s: &Served) -> Result<Opt, Fail> {
    let w = &s.w;
    // training and validation may overlap, but all data is there
    let mut pool = w.symbols.clone();
    let mut training = vec![];
    for _ in 0..c.usize(1, pool.len()) {
        let i = c.usize(0, pool.len() - 1);
        training.push(pool.remove(i));
    }
    let mut validation = pool;
    if c.chance(1, 4) {
        validation.push(c.pick(&training));
        c.label("symbol in both roles");
    }
    c.label_if(!validation.is_empty(), "validation symbols");
    let quick = |c: &mut Case| {
        // signals that come soon, so that candidates differ
        let ma = |c: &mut Case, p: u64| json!({"type": c.pick(&["Sma", "Ema2", "Smma", "Dema"]), "period": p});
        let t = match c.draw(3) {
            0 => json!({"type": "FourWeekRule", "period": c.u64(2, 12), "ma": ma(c, 4)}),
            1 => json!({"type": "SingleMA", "ma": ma(c, 3)}),
            2 => json!({"type": "DoubleMA", "mas": [ma(c, 2), ma(c, 6)]}),
            _ => json!({"type": "SigOsc", "sig": {"type": "SingleMA", "ma": ma(c, 3)}, "osc": {"type": "Rsi", "period": 3}}),
        };
        json!({ "strategy": t })
    };
    let mut ctx = match c.draw(8) {
        0 => json!({}),
        5..=8 => quick(c),
        1 => json!({"take_profit": {"type": "Trending"}}),
        2 => json!({"strategy": {"type": "SigOsc"}, "take_profit": {"type": "Trending", "period": 3}}),
        3 => json!({"strategy": {"type": "FourWeekRule", "period": 4}, "stop_loss": {"type": "Basic", "up_threshold": 0.05}}),
        _ => json!({"strategy": {"type": "DoubleMA"}, "stop_loss": {"type": "Noop"}, "take_profit": {"type": "Noop"}}),
    };
    let ivs: Vec<Value> = w.intervals.iter().map(|i| if c.chance(1, 3) { json!(i.to_string()) } else { json!(i.0) }).collect();
    ctx["trader"] = json!({ "intervals": ivs });
    let ctx_read: TradingParamsContext = serde_json::from_value(ctx.clone()).map_err(|e| Fail::Msg(format!("context {ctx} rejected: {e}")))?;
    let big = c.scale != Scale::Small;
    let pop = c.usize(2, if big { 60 } else { 16 });
    let gens = if c.chance(1, 12) { 0 } else { c.usize(1, if big { 25 } else { 10 }) };
    let hof = c.usize(1, if big { 12 } else { 4 });
    c.label_if(hof > pop, "hall larger than the population");
    c.label_if(gens == 0, "no generations");
    let seed = match c.draw(4) {
        3 => None,
        1 => Some(c.draw(u64::MAX)),
        2 => Some(c.pick(&[0, u64::MAX, 1 << 63, (1 << 53) + 1, (1 << 32) + 1, 1 << 32])),
        _ => Some(c.draw(100)),
    };
    let mut body = json!({
        "population_size": pop, "generations": gens, "hall_of_fame_size": hof,
        "exchange": s.exchange, "start": time_json(c, w.start), "end": time_json(c, w.end), "quote": w.quote,
        "training_symbols": training, "validation_symbols": validation,
        "evaluation_statistic": w.stat, "evaluation_aggregation": w.agg, "context": ctx,
    });
    if seed.is_some() || c.bool() {
        body["seed"] = json!(seed);
    }
    let symbols = training.iter().chain(&validation).cloned().collect();
    Ok(Opt { body, ctx: ctx_read, training, symbols, pop, gens, hof, seed })
}
fn quiet_generation(_: usize, _: &Generation<TradingParams>) {}

/// The documented evolution on the same data, as the service must report it.
fn expected(w: &World, o: &Opt, seed: u64) -> Result<Value, String> {
    let evolution = quiet(|| {
        let algo = GeneticAlgorithm::new(
            BasicEvaluation::new(&BasicEvaluationInput {
                exchange_info: &w.ex,
                candles: &w.candles,
                prices: &w.prices,
                symbols: &o.training,
                intervals: &w.intervals,
                start: Timestamp(w.start),
                end: Timestamp(w.end),
                quote: w.quote,
                evaluation_statistic: w.stat,
                evaluation_aggregation: w.agg,
            }),
            EliteSelection { shuffle: false },
            UniformCrossover::new(0.5),
            UniformMutation::new(0.25),
            EliteReinsertion::new(0.75, 0.5),
        );
        algo.evolve(o.pop, o.gens, o.hof, Some(seed), quiet_generation, &o.ctx)
    })?;
    let mut best: Vec<f64> = vec![];
    let mut out = vec![];
    for (nr, g) in evolution.generations.iter().enumerate() {
        let mut improved = false;
        for (i, ind) in g.hall_of_fame.iter().enumerate() {
            if i == best.len() {
                best.push(ind.fitness);
                improved = true;
            } else if ind.fitness > best[i] {
                best[i] = ind.fitness;
                improved = true;
            }
        }
        if !improved {
            continue;
        }
        let mut hall = vec![];
        for ind in &g.hall_of_fame {
            let mut stats = serde_json::Map::new();
            for y in &o.symbols {
                stats.insert(y.clone(), stats_of(w, y, &ind.chromosome)?);
            }
            hall.push(json!({"individual": {"chromosome": ind.chromosome, "fitness": ind.fitness}, "symbol_stats": stats}));
        }
        out.push(json!({"nr": nr, "hall_of_fame": hall}));
    }
    Ok(json!({"seed": seed, "generations": out}))
}

fn n03_optimize(c: &mut Case) -> Res {
    let s = serve(small_world(c, if c.scale == Scale::Small { 30 } else { 60 }), None);
    let o = optimize(c, &s)?;
    c.sample(|| format!("{} {}", s.w.describe(), o.body));
    let got = post("/optimize", &o.body)?;
    let Some(seed) = got["seed"].as_u64() else {
        fail!("no seed in {got}");
    };
    if let Some(x) = o.seed {
        ensure!(seed == x, "seed {seed} reported for the requested {x}");
    }
    c.label(if o.seed.is_some() { "seeded" } else { "unseeded" });
    let intervals: Vec<u64> = s.w.intervals.iter().map(|i| i.0).collect();
    check_requests(&s, &o.symbols, &intervals)?;
    let want = expected(&s.w, &o, seed)?;
    let gens = got["generations"].as_array().cloned().unwrap_or_default();
    ensure!(!gens.is_empty() && gens[0]["nr"] == 0, "no generation zero in the report");
    c.nontrivial_if(gens.len() >= 2);
    c.label_if(gens.windows(2).any(|w| w[1]["nr"].as_u64().unwrap_or(0) > w[0]["nr"].as_u64().unwrap_or(0) + 1), "generations without progress");
    let nrs = |v: &Value| v["generations"].as_array().unwrap().iter().map(|g| g["nr"].clone()).collect::<Vec<_>>();
    ensure!(nrs(&got) == nrs(&want), "generations {:?} reported instead of {:?}", nrs(&got), nrs(&want));
    ensure!(same(&got, &want, 1e-9), "the report differs from the library's evolution at {}", differ(&got, &want, 1e-9, ""));
    if o.seed.is_none() || c.chance(1, 3) {
        let mut again = o.body.clone();
        again["seed"] = json!(seed);
        s.up.seen.lock().unwrap().clear();
        let second = post("/optimize", &again)?;
        check_requests(&s, &o.symbols, &intervals)?;
        ensure!(second == got, "posting again with seed {seed} gives another answer: {}", differ(&second, &got, 0.0, ""));
        c.label("posted again");
    }
    Ok(())
}

fn n03_optimize_large(c: &mut Case) -> Res {
    large(c, n03_optimize)
}
/// Optimizations and backtests at the same time: each as if alone.
fn n03_concurrent(c: &mut Case) -> Res {
    let mut jobs = vec![];
    for _ in 0..c.usize(2, 3) {
        let delay = if c.chance(1, 6) { c.draw(8) } else { 0 };
        let s = serve_slowly(small_world(c, 12), None, delay);
        let o = optimize(c, &s)?;
        jobs.push((s, o));
    }
    let t = serve(small_world(c, 10), None);
    let (body, params, symbols) = backtest(c, &t)?;
    c.sample(|| jobs.iter().map(|(_, o)| o.body.to_string()).collect::<Vec<_>>().join(" "));
    let (got, other) = std::thread::scope(|sc| {
        let hs: Vec<_> = jobs.iter().map(|(_, o)| sc.spawn(move || post("/optimize", &o.body))).collect();
        let other = post("/backtest", &body);
        (hs.into_iter().map(|h| h.join().unwrap()).collect::<Vec<_>>(), other)
    });
    check_backtest(&t.w, &params, &symbols, &other?)?;
    let mut rich = 0;
    for ((s, o), g) in jobs.iter().zip(got) {
        let got = g?;
        let Some(seed) = got["seed"].as_u64() else {
            fail!("no seed in {got}");
        };
        ensure!(o.seed.map_or(true, |x| x == seed), "seed {seed} reported for the requested {:?}", o.seed);
        let want = expected(&s.w, o, seed)?;
        ensure!(same(&got, &want, 1e-9), "the report differs from the library's evolution at {}", differ(&got, &want, 1e-9, ""));
        rich += (want["generations"].as_array().map_or(0, |g| g.len()) >= 2) as usize;
        check_requests(s, &o.symbols, &s.w.intervals.iter().map(|i| i.0).collect::<Vec<_>>())?;
    }
    c.nontrivial_if(rich > 0);
    Ok(())
}

fn n03_info(c: &mut Case) -> Res {
    c.nontrivial = true;
    let v: Value = match send("GET", "/optimize", None, "")? {
        Some((200, b)) => serde_json::from_slice(&b).map_err(|e| Fail::Msg(format!("options are not JSON: {e}")))?,
        x => fail!("GET /optimize leads to {:?}", x.map(|(s, _)| s)),
    };
    c.sample(|| v.to_string());
    let set = |v: &Value| v.as_array().map(|a| a.iter().map(|x| x.to_string()).collect::<BTreeSet<_>>()).unwrap_or_default();
    let stats = [EvaluationStatistic::Profit, EvaluationStatistic::ReturnOverMaxDrawdown, EvaluationStatistic::SharpeRatio, EvaluationStatistic::SortinoRatio];
    let aggs = [EvaluationAggregation::Linear, EvaluationAggregation::Log10, EvaluationAggregation::Log10Factored];
    ensure!(set(&v["evaluation_statistics"]) == set(&json!(stats)), "statistics offered: {}", v["evaluation_statistics"]);
    ensure!(set(&v["evaluation_aggregations"]) == set(&json!(aggs)), "aggregations offered: {}", v["evaluation_aggregations"]);
    ensure!(v["evaluation_statistics"].as_array().unwrap().len() == 4 && v["evaluation_aggregations"].as_array().unwrap().len() == 3, "an option is offered twice: {v}");
    Ok(())
}

fn n03_faults(c: &mut Case) -> Res {
    let w = small_world(c, 4);
    let bad = c.bool();
    let f = if bad { None } else { Some(fault(c)) };
    let what = format!("{f:?}");
    let s = serve(w, f);
    let o = optimize(c, &s)?;
    c.nontrivial = true;
    if bad {
        let (text, ct) = damage(c, &o.body, &["population_size", "generations", "hall_of_fame_size", "training_symbols", "start", "context", "evaluation_statistic", "quote"]);
        c.sample(|| format!("{ct:?} {text}"));
        // "nonsense" is a string, true or an object no number or list; a missing field is missing
        match send("POST", "/optimize", ct, &text)? {
            Some((400..=499, _)) => {}
            // a negative quote is a number after all
            Some((200, _)) if text.contains("\"quote\":-1") => {}
            None if text.contains("\"quote\":-1") => {}
            x => fail!("a bad request leads to {:?}", x.map(|(s, b)| (s, String::from_utf8_lossy(&b).into_owned()))),
        }
    } else {
        c.sample(|| format!("{what} {}", o.body));
        check_failure("/optimize", &o.body, &what)?;
    }
    alive()
}

// --- entry

// ---------------------------------------------------------------- N04

/// An origin as a browser would send it.
fn origin(c: &mut Case) -> String {
    if c.chance(1, 12) {
        return "null".into();
    }
    let scheme = c.pick(&["http", "https", "file", "chrome-extension", "moz-extension", "capacitor"]);
    let host = match c.draw(4) {
        0 => "localhost".to_string(),
        1 => format!("{}.{}.{}.{}", c.draw(255), c.draw(255), c.draw(255), c.draw(255)),
        2 => "[::1]".to_string(),
        _ => {
            let n = c.usize(1, 4);
            let parts: Vec<String> = (0..n)
                .map(|_| {
                    let k = c.usize(1, 12);
                    (0..k).map(|_| c.pick(&['a', 'b', 'j', 'u', 'n', 'o', 'x', '0', '9'])).collect()
                })
                .collect();
            parts.join(".")
        }
    };
    match c.draw(2) {
        0 => format!("{scheme}://{host}"),
        _ => format!("{scheme}://{host}:{}", c.u64(1, 65_535)),
    }
}
fn allows(h: &HashMap<String, String>, header: &str, want: &str) -> bool {
    h.get(header).map_or(false, |v| v.split(',').any(|x| x.trim() == "*" || x.trim().eq_ignore_ascii_case(want)))
}

fn n04_browser(c: &mut Case) -> Res {
    let o = origin(c);
    let kind = c.weighted(&[3, 3, 3, 2, 1, 1, 1, 1]);
    let w = small_world(c, 4);
    let f = if kind == 2 || kind == 3 { Some(fault(c)) } else { None };
    let s = serve(w, f);
    let json_type = Some("application/json");
    let (method, path, ct, body, status) = match kind {
        0 | 2 => ("POST", "/backtest", json_type, backtest(c, &s)?.0.to_string(), if kind == 0 { 200..=200 } else { 500..=500 }),
        1 | 3 => {
            let mut b = optimize(c, &s)?.body;
            b["seed"] = json!(c.draw(1000));
            ("POST", "/optimize", json_type, b.to_string(), if kind == 1 { 200..=200 } else { 500..=500 })
        }
        4 => {
            let body = backtest(c, &s)?.0;
            let (text, ct) = damage(c, &body, &["symbols", "start", "end", "trading"]);
            ("POST", "/backtest", ct, text, 400..=499)
        }
        5 => ("GET", c.pick(&["/", "/optimize"]), None, String::new(), 200..=200),
        6 => ("GET", c.pick(&["/backtest", "/nothing", "/optimize/x"]), None, String::new(), 400..=499),
        _ => ("DELETE", c.pick(&["/", "/optimize", "/backtest"]), None, String::new(), 400..=499),
    };
    let what = format!("{method} {path} from {o}");
    c.sample(|| format!("{what} {body}"));
    c.label(["backtest", "optimize", "backtest failing", "optimize failing", "bad request", "options", "unknown", "wrong method"][kind]);
    let ask = |method: &str, headers: &[(&str, &str)], body: &str| -> Result<(u16, HashMap<String, String>, Vec<u8>), Fail> {
        HTTP.with(|h| h.borrow_mut().send_with(method, path, headers, body.as_bytes()))
            .map_err(Fail::Msg)?
            .ok_or_else(|| Fail::Msg(format!("{what} closes the connection")))
    };
    // what a browser asks before it lets a page post JSON elsewhere
    if kind < 5 {
        let (st, h, _) = ask("OPTIONS", &[("origin", &o), ("access-control-request-method", method), ("access-control-request-headers", "content-type")], "")?;
        ensure!((200..300).contains(&st), "the preflight of {what} leads to {st}");
        ensure!(allows(&h, "access-control-allow-origin", &o), "the preflight of {what} does not allow the origin: {h:?}");
        ensure!(allows(&h, "access-control-allow-methods", method), "the preflight of {what} does not allow the method: {h:?}");
        ensure!(allows(&h, "access-control-allow-headers", "content-type"), "the preflight of {what} does not allow JSON: {h:?}");
        ensure!(s.up.seen.lock().unwrap().is_empty(), "the preflight of {what} was passed on upstream");
    }
    let mut headers: Vec<(&str, &str)> = ct.iter().map(|t| ("content-type", *t)).collect();
    let plain = ask(method, &headers, &body)?;
    headers.insert(c.usize(0, headers.len()), ("origin", &o));
    let (st, h, b) = ask(method, &headers, &body)?;
    ensure!(status.contains(&st), "{what} leads to {st}: {}", String::from_utf8_lossy(&b));
    ensure!(allows(&h, "access-control-allow-origin", &o), "the answer {st} to {what} cannot be read by the page: {h:?}");
    // the answer itself is the one anybody gets
    ensure!(plain.0 == st, "{what} leads to {st}, without an origin to {}", plain.0);
    if st == 200 {
        let v = |b: &[u8]| serde_json::from_slice::<Value>(b).unwrap_or_else(|_| json!(String::from_utf8_lossy(b)));
        let (x, y) = (v(&plain.2), v(&b));
        ensure!(same(&x, &y, 1e-9), "{what} is answered differently: {}", differ(&x, &y, 1e-9, ""));
    }
    c.nontrivial_if(kind < 5);
    Ok(())
}

/// The service has fixed ports: run it and this process in a network of their own.
fn isolate() {
    if std::env::var("VERIF_NET").is_ok() {
        return;
    }
    let target = std::env::var("CARGO_TARGET_DIR").unwrap_or_else(|_| "/verif/target".into());
    let script = r#"[ "$VERIF_NET" = own ] && ip link set lo up
"$VERIF_AXUM" >/dev/null 2>"$VERIF_OUT/axum.log" & P=$!
"$0" "$@"; R=$?
kill -9 $P 2>/dev/null; exit $R"#;
    let exe = std::env::current_exe().expect("own path");
    let own = std::process::Command::new("unshare").args(["-Urn", "ip", "link", "set", "lo", "up"]).status().map_or(false, |s| s.success());
    let mut cmd = if own {
        let mut c = std::process::Command::new("unshare");
        c.args(["-Urn", "sh"]);
        c
    } else {
        std::process::Command::new("sh")
    };
    cmd.arg("-c").arg(script).arg(exe).args(std::env::args().skip(1));
    cmd.env("VERIF_NET", if own { "own" } else { "shared" }).env("VERIF_AXUM", format!("{target}/axum/debug/juno_axum")).env("RUST_LOG", "error");
    if std::env::var("VERIF_OUT").is_err() {
        cmd.env("VERIF_OUT", "/tmp");
    }
    let s = cmd.status().expect("cannot start a shell");
    std::process::exit(s.code().unwrap_or(2));
}
fn wait_for_service() {
    for _ in 0..600 {
        if std::net::TcpStream::connect(SERVICE).is_ok() {
            return;
        }
        std::thread::sleep(Duration::from_millis(50));
    }
    eprintln!("the service does not start");
    std::process::exit(2);
}

fn main() {
    // no TLS is spoken here; without certificates to read a client starts a hundred times faster
    std::env::set_var("SSL_CERT_FILE", "/dev/null");
    std::env::set_var("SSL_CERT_DIR", "/nonexistent");
    for k in ["http_proxy", "https_proxy", "all_proxy", "HTTP_PROXY", "HTTPS_PROXY", "ALL_PROXY"] {
        std::env::remove_var(k);
    }
    let args: Vec<String> = std::env::args().collect();
    let id = match args.get(1).map(|s| s.as_str()) {
        Some("replay") => std::fs::read_to_string(args.get(2).map_or("", |s| s.as_str())).ok().and_then(|t| serde_json::from_str::<Value>(&t).ok()).and_then(|v| v["property"].as_str().map(|s| s.to_string())).unwrap_or_default(),
        Some(x) => x.to_string(),
        None => String::new(),
    };
    if ["N02", "N03", "N04"].contains(&id.as_str()) {
        isolate();
        wait_for_service();
        exchanges();
    }
    vharness::engine::main(vec![
        Prop {
            id: "N01",
            rule: "single: a call of any kind with arbitrary arguments (quotes, control and non-ASCII characters included) against a scripted answer: data, 4xx with and without message, 5xx, malformed, dropped, not HTTP; concurrent: 2-10 such calls at once (non-trivial: not just an empty list; three or more calls)",
            assumptions: &["a client error must carry JSON with a message to become an API error", "the request's type field is named type_"],
            subs: vec![sub("single", 40_000, 1_500_000, n01_single), sub("single_large", 400, 15_000, n01_single_large), sub("concurrent", 6_000, 200_000, n01_concurrent)],
        },
        Prop {
            id: "N02",
            rule: "random multi-symbol worlds served by a mock upstream, a random configuration posted to the real service process; expected statistics from the library on the same data; injected upstream faults, bad requests, missing data, concurrent requests ; data changing behind the same exchange; slow or failing exchanges beside others; large cases with up to ten symbols and thousands of candles (non-trivial: positions were traded, twice in changing and concurrent)",
            assumptions: &["the library's backtest and statistics are checked by other properties", "data lacking a requested symbol may lead to any failure"],
            subs: vec![
                sub_serial("backtest", 6_000, 120_000, n02_backtest),
                sub_serial("backtest_large", 200, 1_200, n02_backtest_large),
                sub_serial("changing", 800, 12_000, n02_changing),
                sub_serial("concurrent", 1_200, 20_000, n02_concurrent),
                sub_serial("faults", 1_500, 20_000, n02_faults),
                sub_serial("bad", 1_500, 20_000, n02_bad),
                sub_serial("survives", 500, 5_000, n02_survives),
            ],
        },
        Prop {
            id: "N03",
            rule: "random worlds, contexts, sizes and seeds posted to the real service process; expected report from the library's evolution with the documented operators; posting again with the returned seed (non-trivial: at least two reported generations)",
            assumptions: &["the library's evolution is checked by other properties", "at least one place in the hall of fame"],
            subs: vec![sub_serial("optimize", 2_500, 40_000, n03_optimize), sub_serial("optimize_large", 60, 500, n03_optimize_large), sub_serial("concurrent", 120, 2_000, n03_concurrent), sub_serial("info", 3, 10, n03_info), sub_serial("faults", 1_000, 15_000, n03_faults)],
        },
        Prop {
            id: "N04",
            rule: "requests of every kind (backtests, optimizations, options, bad requests, upstream failures, unknown paths and methods) with a random origin posted to the real service process, JSON requests preceded by their preflight, and each repeated without an origin (non-trivial: a JSON request)",
            assumptions: &["only what a JSON request needs is claimed: the method and the content-type header"],
            subs: vec![sub_serial("browser", 2_500, 40_000, n04_browser)],
        },
    ]);
}
