//! C24: the browser reader.

use super::remote::{agrees, ask, follows, local_plain, net_fault, source, Src};
use super::faults;
use super::prep::Prep;
use super::search;
use crate::core::{self, SResult, Viol};
use crate::drive::same_list;
use crate::exec;
use crate::gen::{self, Kind};
use crate::net::{self, NetFault, Server, ServerCfg};
use crate::paths::{Ask, Delivered, End, Retry};
use crate::query::{self, Cond};
use crate::{ensure, viol};
use cjseq::CityJSONFeature;
use fcb_core::{AttrQuery, FcbReader, FixedStringKey, KeyType, Operator, SpatialQuery};
use fcb_wasm::{HttpFcbReader, WasmAttrQuery, WasmSpatialQuery};
use gloo_net::Reply;
use http_range_client::{AsyncHttpRangeClient, HttpError};
use serde_json::{json, Value};
use serde_wasm_bindgen::json as from_js;
use std::cell::RefCell;
use std::rc::Rc;
use std::sync::{Arc, Mutex};
use wasm_bindgen::JsValue;

/// JavaScript has one kind of number.
fn norm(v: &Value) -> Value {
    match v {
        Value::Number(n) => match n.as_f64() {
            Some(f) if f.fract() == 0.0 && f.abs() < 9e15 => json!(f as i64),
            _ => v.clone(),
        },
        Value::Array(a) => Value::Array(a.iter().map(norm).collect()),
        Value::Object(o) => Value::Object(o.iter().map(|(k, v)| (k.clone(), norm(v))).collect()),
        _ => v.clone(),
    }
}

fn normed(mut d: Delivered) -> Delivered {
    d.feats = d.feats.iter().map(norm).collect();
    d.later = d.later.iter().map(norm).collect();
    d
}

// ---------------------------------------------------------------- the network

thread_local! {
    static ADDRESS: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

/// `fetch`, for as long as this lives. Addresses are that of the file and the number of the reader.
struct Fetch;
impl Fetch {
    fn from(srv: &Arc<Mutex<Server>>) -> Fetch {
        let srv = srv.clone();
        ADDRESS.set(srv.lock().unwrap().url.clone());
        gloo_net::simulate(Some(Rc::new(move |r: gloo_net::Request| {
            let srv = srv.clone();
            Box::pin(async move {
                let id = r.url.rsplit('/').next().and_then(|s| s.parse().ok()).unwrap_or(0);
                let whole = srv.lock().unwrap().cfg.ignore_range;
                let late = core::fb(1, 2);
                let range = r.headers.iter().find(|h| h.0.eq_ignore_ascii_case("range")).map(|h| h.1.clone());
                let reply = |status, body| Reply {
                    status,
                    headers: vec![],
                    body,
                };
                match (net::Client { srv, id }).get_range(&r.url, &range.unwrap_or_default()).await {
                    Ok(b) => Ok(reply(if whole { 200 } else { 206 }, Ok(b.to_vec()))),
                    Err(HttpError::HttpStatus(s)) => Ok(reply(s, Ok(b"<html><h1>error</h1></html>".repeat(9)))),
                    // the connection breaks before or after the head has arrived
                    Err(e) if late => {
                        core::fired("http-body-broken");
                        Ok(reply(206, Err(e.to_string())))
                    }
                    Err(e) => Err(e.to_string()),
                }
            })
        })));
        Fetch
    }
}
impl Drop for Fetch {
    fn drop(&mut self) {
        gloo_net::simulate(None);
    }
}

// ---------------------------------------------------------------- requests

#[derive(Clone)]
enum Js {
    All,
    Spatial(SpatialQuery),
    Attr(Vec<Cond>),
    /// (dates without a fraction of a millisecond)
    Keys(AttrQuery),
}

impl Js {
    fn local(&self) -> Ask {
        match self {
            Js::All => Ask::All,
            Js::Spatial(q) => Ask::Spatial(q.clone()),
            Js::Attr(c) => Ask::Attr(c.iter().map(|c| c.ask()).collect()),
            Js::Keys(q) => Ask::Attr(q.clone()),
        }
    }
    /// Whether the values are of types that JavaScript has as well; others may be refused.
    fn plain(&self) -> bool {
        let Js::Attr(conds) = self else { return true };
        conds.iter().all(|c| match c.kind {
            Kind::Double | Kind::Bool | Kind::Date => true,
            Kind::Str => c.value.as_str().is_some_and(|s| s.len() <= 50),
            _ => false,
        })
    }
    /// Whether the value was there before it became a JavaScript value.
    fn exact(&self) -> bool {
        let Js::Attr(conds) = self else { return true };
        conds.iter().all(|c| match &c.value {
            _ if matches!(c.kind, Kind::Json | Kind::Binary) => false,
            Value::Number(n) if !n.is_f64() => n.as_u64().or(n.as_i64().map(i64::unsigned_abs)).is_some_and(|u| u < 1 << 53),
            _ => true,
        })
    }
    fn text(&self) -> String {
        match self {
            Js::All => "scan".into(),
            Js::Spatial(q) => format!("{:?}", q),
            Js::Attr(c) => search::show(c),
            Js::Keys(q) => format!("{:?}", q),
        }
    }
}

fn object(members: &[(&str, JsValue)]) -> JsValue {
    let m = members.iter().map(|(k, v)| (k.to_string(), v.clone())).collect();
    JsValue::Object(Rc::new(RefCell::new(m)))
}
fn array(items: Vec<JsValue>) -> JsValue {
    JsValue::Array(Rc::new(RefCell::new(items)))
}

fn spatial(q: &SpatialQuery) -> Result<WasmSpatialQuery, JsValue> {
    let n = JsValue::from_f64;
    let s = JsValue::from_str;
    WasmSpatialQuery::new(&match q {
        SpatialQuery::BBox(a, b, c, d) => object(&[("type", s("bbox")), ("minX", n(*a)), ("minY", n(*b)), ("maxX", n(*c)), ("maxY", n(*d))]),
        SpatialQuery::PointIntersects(x, y) => object(&[("type", s("pointIntersects")), ("x", n(*x)), ("y", n(*y))]),
        SpatialQuery::PointNearest(x, y) => object(&[("type", s("pointNearest")), ("x", n(*x)), ("y", n(*y))]),
    })
}

fn millis(v: &Value) -> f64 {
    let t = chrono::DateTime::parse_from_rfc3339(v.as_str().unwrap()).expect("harness: date");
    t.timestamp_millis() as f64
}

fn tuples(list: Vec<(&str, Operator, JsValue)>) -> Result<WasmAttrQuery, JsValue> {
    let tuples = list.into_iter().map(|(name, op, v)| {
        let op = match op {
            Operator::Eq => "Eq",
            Operator::Ne => "Ne",
            Operator::Gt => "Gt",
            Operator::Ge => "Ge",
            Operator::Lt => "Lt",
            Operator::Le => "Le",
        };
        array(vec![JsValue::from_str(name), JsValue::from_str(op), v])
    });
    WasmAttrQuery::new(&array(tuples.collect()))
}

fn attr(conds: &[Cond]) -> Result<WasmAttrQuery, JsValue> {
    let value = |c: &Cond| match c.kind {
        Kind::Date => JsValue::Date(millis(&c.value)),
        _ => match &c.value {
            Value::Bool(b) => JsValue::Bool(*b),
            Value::String(s) => JsValue::from_str(s),
            Value::Number(n) => JsValue::from_f64(n.as_f64().unwrap()),
            v => JsValue::from_str(&v.to_string()),
        },
    };
    tuples(conds.iter().map(|c| (c.name.as_str(), c.op, value(c))).collect())
}

fn keys(q: &AttrQuery) -> Result<WasmAttrQuery, JsValue> {
    let value = |k: &KeyType| match k {
        KeyType::Bool(b) => JsValue::Bool(*b),
        KeyType::Int8(n) => JsValue::from_f64(*n as f64),
        KeyType::UInt8(n) => JsValue::from_f64(*n as f64),
        KeyType::Int16(n) => JsValue::from_f64(*n as f64),
        KeyType::UInt16(n) => JsValue::from_f64(*n as f64),
        KeyType::Int32(n) => JsValue::from_f64(*n as f64),
        KeyType::UInt32(n) => JsValue::from_f64(*n as f64),
        KeyType::Int64(n) => JsValue::from_f64(*n as f64),
        KeyType::UInt64(n) => JsValue::from_f64(*n as f64),
        KeyType::Float32(f) => JsValue::from_f64(f.0 as f64),
        KeyType::Float64(f) => JsValue::from_f64(f.0),
        KeyType::DateTime(t) => JsValue::Date(t.timestamp_millis() as f64),
        KeyType::StringKey20(s) => JsValue::from_str(&s.to_string_lossy()),
        KeyType::StringKey50(s) => JsValue::from_str(&s.to_string_lossy()),
        KeyType::StringKey100(s) => JsValue::from_str(&s.to_string_lossy()),
    };
    tuples(q.iter().map(|c| (c.0.as_str(), c.1, value(&c.2))).collect())
}

/// A request as JavaScript can put it.
fn request(p: &Prep, large: bool) -> Js {
    match ask(p, large).0 {
        Ask::All => Js::All,
        Ask::Spatial(q) => Js::Spatial(q),
        Ask::Attr(_) => {
            let mut conds = query::conds(&p.ds);
            for c in &mut conds {
                if c.kind == Kind::Date {
                    // a Date counts milliseconds
                    let t = chrono::DateTime::from_timestamp_millis(millis(&c.value) as i64).expect("harness: date");
                    c.value = json!(t.to_rfc3339());
                }
            }
            if core::wb(1, 12) {
                conds[0].name.push('?');
            }
            Js::Attr(conds)
        }
    }
}

fn show(e: &JsValue) -> String {
    e.as_string().unwrap_or_else(|| format!("{:?}", e))
}

fn feature(v: &JsValue) -> Result<Value, String> {
    let f: CityJSONFeature = serde_json::from_value(from_js(v)).map_err(|e| format!("not a CityJSONFeature: {}", e))?;
    Ok(gen::canon(&f))
}

/// The header as the local reader has it.
fn header(p: &Prep) -> Result<Value, Viol> {
    core::guard(|| {
        let r = FcbReader::open(std::io::Cursor::new(p.bytes.as_slice())).map_err(|e| e.to_string())?;
        let cj = fcb_core::deserializer::to_cj_metadata(&r.header()).map_err(|e| e.to_string())?;
        let buffer = fcb_core::city_buffer::FcbBuffer {
            header_buf: p.bytes[8..12 + p.lay.header_size as usize].to_vec(),
            features_buf: vec![],
        };
        let meta = buffer.meta().map_err(|e| e.to_string())?;
        serde_json::to_value((cj, meta)).map_err(|e| e.to_string())
    })?
    .or_else(|e| viol!("local reader fails", "{}", e))
}

// ---------------------------------------------------------------- cut and damaged files

thread_local! {
    static BROWSING: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// What the browser reader makes of a file, when it is its turn.
pub fn ways(a: &Ask, image: &Arc<Vec<u8>>) -> Option<Result<Vec<(&'static str, Delivered)>, Viol>> {
    if !BROWSING.get() {
        return None;
    }
    let q = match a {
        Ask::All => Js::All,
        Ask::Spatial(q) => Js::Spatial(q.clone()),
        Ask::Attr(q) => Js::Keys(q.clone()),
    };
    let srv = Server::new(
        image.clone(),
        ServerCfg {
            latency: core::fb(1, 4),
            split_seed: core::f(1 << 16) as u64,
            ..Default::default()
        },
    );
    if let Js::Keys(q) = &q {
        let exact = q.iter().all(|c| match &c.2 {
            KeyType::DateTime(t) => t.timestamp_subsec_nanos() % 1_000_000 == 0,
            KeyType::Int64(n) => n.unsigned_abs() < 1 << 53,
            KeyType::UInt64(n) => *n < 1 << 53,
            KeyType::StringKey50(s) => FixedStringKey::<50>::from_str(&s.to_string_lossy()) == *s,
            _ => true,
        });
        if !exact {
            return Some(Ok(vec![]));
        }
    }
    let r = alone(&q, &srv, &Retry { calls: 2, ..Default::default() });
    Some(r.map(|h| match &h.d.end {
        End::Err(e) if e.contains("can't be represented") => vec![],
        _ => vec![("browser", h.d)],
    }))
}

fn damaged() -> SResult {
    BROWSING.set(true);
    let r = if core::wb(1, 2) { faults::c10() } else { faults::c11() };
    BROWSING.set(false);
    r
}

struct Heard {
    d: Delivered,
    header: Option<Value>,
    /// `cur_cj_feature` differs from what `next` gave
    differs: Option<String>,
}

async fn browse(ask: &Js, id: u32, retry: &Retry) -> Heard {
    let mut h = Heard {
        d: Delivered::open_err(""),
        header: None,
        differs: None,
    };
    let q = match ask {
        Js::Spatial(q) => spatial(q).map(|q| (Some(q), None)),
        Js::Attr(c) => attr(c).map(|q| (None, Some(q))),
        Js::Keys(q) => keys(q).map(|q| (None, Some(q))),
        Js::All => Ok((None, None)),
    };
    let q = match q {
        Ok(q) => q,
        Err(e) => {
            h.d = Delivered::open_err(show(&e));
            return h;
        }
    };
    let r = match HttpFcbReader::new(ADDRESS.with_borrow(|a| format!("{}/{}", a, id))).await {
        Ok(r) => r,
        Err(e) => {
            h.d = Delivered::open_err(show(&e));
            return h;
        }
    };
    h.header = match (r.cityjson(), r.meta()) {
        (Ok(c), Ok(m)) => Some(json!([from_js(&c), from_js(&m)])),
        _ => None,
    };
    let it = match &q {
        (Some(q), _) => r.select_spatial(q).await,
        (_, Some(q)) => r.select_attr_query(q).await,
        _ => r.select_all().await,
    };
    let mut it = match it {
        Ok(it) => it,
        Err(e) => {
            h.d = Delivered::open_err(show(&e));
            return h;
        }
    };
    let d = &mut h.d;
    d.end = End::Done;
    d.announced = it.features_count();
    let mut failed = false;
    let mut tries = 0;
    loop {
        core::step();
        core::delivered(d.feats.len() + d.later.len(), d.announced);
        let err = match it.next().await {
            Ok(Some(v)) => match feature(&v) {
                Ok(f) => {
                    match it.cur_cj_feature() {
                        Ok(c) if feature(&c).as_ref() == Ok(&f) => {}
                        Ok(c) => h.differs = Some(format!("{:?}", feature(&c).map(|c| c["id"].clone()))),
                        Err(e) => h.differs = Some(show(&e)),
                    }
                    if failed {
                        d.later.push(f);
                    } else {
                        d.feats.push(f);
                    }
                    continue;
                }
                Err(e) => e,
            },
            Ok(None) => {
                d.later_end = failed;
                return h;
            }
            Err(e) => show(&e),
        };
        if !failed {
            failed = true;
            d.end = End::Err(err);
            if let Some(s) = &retry.heal {
                s.lock().unwrap().healed = true;
                core::ev("healed", 0, 0);
            }
        }
        d.later_errs += 1;
        tries += 1;
        if tries > retry.calls {
            return h;
        }
    }
}

fn alone(ask: &Js, srv: &Arc<Mutex<Server>>, retry: &Retry) -> Result<Heard, Viol> {
    let _fetch = Fetch::from(srv);
    core::guard(|| exec::block_on(browse(ask, 0, retry)))?
}

/// An integer that no JavaScript number can hold.
fn unrepresentable(v: &Value) -> bool {
    match v {
        Value::Number(n) => !n.is_f64() && n.as_u64().or(n.as_i64().map(i64::unsigned_abs)).is_some_and(|u| u >= 1 << 53),
        Value::Array(a) => a.iter().any(unrepresentable),
        Value::Object(o) => o.values().any(unrepresentable),
        _ => false,
    }
}

fn consistent(p: &Prep, h: &Heard, head: &Value, what: &str) -> SResult {
    if let Some(e) = &h.differs {
        viol!("current feature is not the one delivered", "{}: {}", what, e);
    }
    if let Some(v) = &h.header {
        let (got, want) = (norm(v), norm(head));
        ensure!(
            got == want || unrepresentable(head),
            "header differs",
            "{}: {} instead of {}", what, got.to_string().chars().take(300).collect::<String>(), want.to_string().chars().take(300).collect::<String>()
        );
    }
    let _ = p;
    Ok(())
}

pub fn c24() -> SResult {
    if core::wb(1, 3) {
        return damaged();
    }
    let src = source(60)?;
    let large = matches!(src, Src::Large(_));
    let p: &Prep = &src;
    if p.canon.iter().any(unrepresentable) {
        // (such features cannot be given to JavaScript and are refused)
        core::probe("integers beyond JavaScript");
        return big_integers(p);
    }
    let head = header(p)?;
    if core::wb(1, 2) {
        together(p, large, &head)
    } else {
        failing(p, large, &head)
    }
}

/// Features with integers no JavaScript number can hold: refused one by one, the others come.
fn big_integers(p: &Prep) -> SResult {
    let srv = Server::new(p.bytes.clone(), ServerCfg::default());
    let retry = Retry {
        heal: None,
        calls: p.canon.len() + 1,
        ..Default::default()
    };
    let h = alone(&Js::All, &srv, &retry)?;
    // (a double may be as large)
    let got: Vec<Value> = h.d.feats.iter().chain(&h.d.later).filter(|f| !unrepresentable(f)).map(norm).collect();
    let local = local_plain(&Ask::All, p)?;
    let want: Vec<Value> = local.feats.iter().filter(|f| !unrepresentable(f)).map(norm).collect();
    same_list("scan", &got, &want.iter().collect::<Vec<_>>(), "features JavaScript can hold")
}

fn together(p: &Prep, large: bool, head: &Value) -> SResult {
    let n = 1 + core::w(3);
    let asks: Vec<Js> = (0..n).map(|_| request(p, large)).collect();
    let srv = Server::new(
        p.bytes.clone(),
        ServerCfg {
            latency: !core::fb(1, 4),
            split_seed: core::f(1 << 20) as u64,
            ignore_range: core::fb(1, 10),
            ..Default::default()
        },
    );
    let cancel: Vec<Option<u64>> = (0..n)
        .map(|i| (i > 0 && core::fb(1, 4)).then(|| core::f(12) as u64))
        .collect();
    let out: Vec<RefCell<Option<Heard>>> = (0..n).map(|_| RefCell::new(None)).collect();
    let fetch = Fetch::from(&srv);
    let retry = Retry::default();
    core::guard(|| {
        let tasks: Vec<exec::Task> = asks
            .iter()
            .enumerate()
            .map(|(i, a)| {
                let (slot, retry) = (&out[i], &retry);
                let t: exec::Task = Box::pin(async move {
                    let d = browse(a, i as u32, retry).await;
                    *slot.borrow_mut() = Some(d);
                });
                t
            })
            .collect();
        exec::run(tasks, &cancel)
    })??;
    drop(fetch);
    for i in 0..n {
        let Some(h) = out[i].borrow_mut().take() else {
            ensure!(cancel[i].is_some(), "reader never finished", "reader {} of {}", i, n);
            continue;
        };
        let what = format!("reader {} of {}: {}", i, n, asks[i].text());
        consistent(p, &h, head, &what)?;
        let d = normed(h.d);
        if !asks[i].plain() && matches!(d.end, End::OpenErr(_)) {
            core::probe("value of a type JavaScript lacks");
            continue;
        }
        if !asks[i].exact() {
            continue;
        }
        let a = asks[i].local();
        let local = normed(local_plain(&a, p)?);
        agrees(p, &a, &d, &local, &what)?;
    }
    Ok(())
}

fn failing(p: &Prep, large: bool, head: &Value) -> SResult {
    let a = request(p, large);
    let text = a.text();
    let seed = core::f(1 << 20) as u64;
    let latency = core::fb(1, 3);
    let cfg = |faults, down_from| ServerCfg {
        latency,
        split_seed: seed,
        ignore_range: false,
        faults,
        down_from,
    };
    let srv = Server::new(p.bytes.clone(), cfg(vec![], None));
    let whole = normed(alone(&a, &srv, &Retry::default())?.d);
    if !whole.ok() {
        core::probe("refused-query");
        return Ok(());
    }
    let requests = srv.lock().unwrap().n;
    let answer: Vec<&Value> = whole.feats.iter().collect();
    for _ in 0..2 {
        let k = core::f(requests as usize) as u64;
        let mode = core::f(4);
        let (faults, down, heal, calls): (Vec<(u64, NetFault)>, _, _, _) = match mode {
            0 | 1 => (vec![(k, net_fault())], None, true, 3),
            2 => (vec![], Some((k, net_fault())), false, 3),
            _ => {
                let n = 2 + core::f(3);
                let f: Vec<_> = (0..n as u64).map(|i| (k + i * core::f(3) as u64, net_fault())).collect();
                (f, None, false, 2 * n)
            }
        };
        let what = format!("{} with {:?} {:?}", text, faults, down);
        let srv = Server::new(p.bytes.clone(), cfg(faults, down));
        let retry = Retry {
            heal: heal.then(|| srv.clone()),
            calls,
            ..Default::default()
        };
        let h = alone(&a, &srv, &retry)?;
        consistent(p, &h, head, &what)?;
        let d = normed(h.d);
        if srv.lock().unwrap().faults_fired > 0 {
            core::nontrivial();
        }
        match &d.end {
            End::Done => same_list("normal end", &d.feats, &answer, &what)?,
            End::OpenErr(_) => {}
            End::Err(e) => {
                let what = format!("{} ({})", what, e);
                ensure!(srv.lock().unwrap().faults_fired > 0, "failed without a fault", "{}", what);
                follows(&answer, &d, &what)?;
                if d.later_end || mode != 2 {
                    ensure!(
                        d.later_end && d.feats.len() + d.later.len() == answer.len(),
                        "features missing after the fault cleared",
                        "{}: {} before and {} after the failure, the answer has {}, ended: {}, further errors: {}",
                        what, d.feats.len(), d.later.len(), answer.len(), d.later_end, d.later_errs - 1
                    );
                }
            }
        }
    }
    Ok(())
}
