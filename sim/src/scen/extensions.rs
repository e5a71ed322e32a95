//! C23: declared extensions, whose schemas the writer fetches.

use super::{meta, prep};
use crate::core::{self, SResult, Viol};
use crate::gen::{self, Dataset, Profile};
use crate::io::{IoPlan, IoState};
use crate::paths::{self, Ask};
use crate::{drive, ensure, viol};
use fcb_core::FcbReader;
use serde_json::{json, Map, Value};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;
use std::sync::Arc;

const PARTS: [&str; 4] = ["extraAttributes", "extraCityObjects", "extraRootProperties", "extraSemanticSurfaces"];

fn text() -> String {
    core::wpick(&["Noise", "an extension", "", "\u{e9}\u{1f3e0} \"quoted\" \\ \n", "x"]).to_string()
}

fn definition(depth: usize) -> Value {
    match core::w(if depth == 0 { 5 } else { 7 }) {
        0 => json!({"type": "string"}),
        1 => json!({"$ref": "cityobjects.schema.json#/_AbstractBuilding"}),
        2 => json!([1, -2.5, null, true, "x"]),
        3 => json!({}),
        4 => json!(text()),
        _ => Value::Object((0..core::w(4)).map(|i| (format!("{}{}", ["+p", "allOf", "\u{e9}"][core::w(3)], i), definition(depth - 1))).collect()),
    }
}

/// What a server has under one address.
fn schema() -> Value {
    let mut s = Map::new();
    if !core::wb(1, 6) {
        s.insert("type".into(), json!("CityJSONExtension"));
        s.insert("name".into(), json!(text()));
        s.insert("version".into(), json!("0.1"));
        s.insert("versionCityJSON".into(), json!("1.1"));
    }
    if !core::wb(1, 4) {
        s.insert("description".into(), if core::wb(1, 8) { json!(7) } else { json!(text()) });
    }
    for p in PARTS {
        let v = match core::w(12) {
            0 => continue,
            // not the object it should be
            1 => json!([1]),
            2 => Value::Null,
            3 => json!({}),
            4 if core::wb(1, 4) => {
                core::probe("large-schema");
                json!({"+Large": {"description": "x".repeat([5000usize, 12000, 70000, 300_000][core::w(4)])}})
            }
            _ => json!({(if p == "extraAttributes" { "Building" } else { "+Thing" }): definition(2)}),
        };
        s.insert(p.into(), v);
    }
    match core::w(24) {
        // a page that is something else altogether
        23 => json!({"error": "moved"}),
        22 => json!([]),
        21 => Value::Null,
        _ => Value::Object(s),
    }
}

#[derive(Clone, Copy, Debug)]
enum Fail {
    Refused,
    TimedOut,
    NotJson,
    /// so many bytes of the body arrive
    Cut(usize),
    Empty,
}

/// The server: bodies by address, and what fails at which request.
struct Net {
    bodies: BTreeMap<String, Vec<u8>>,
    fail: Vec<(u64, Fail)>,
    n: u64,
    fired: u64,
    unknown: Vec<String>,
}

fn serve(net: &Rc<RefCell<Net>>) {
    let net = net.clone();
    reqwest_sim::serve(Some(Box::new(move |url| {
        let mut s = net.borrow_mut();
        let n = s.n;
        s.n += 1;
        core::ev("schema-request", n, core::fnv(url.as_bytes()));
        core::set_now(core::now() + 20_000_000);
        let Some(body) = s.bodies.get(url).cloned() else {
            s.unknown.push(url.to_string());
            return Err("dns error".into());
        };
        let Some((_, f)) = s.fail.iter().find(|x| x.0 == n).copied() else { return Ok(body) };
        s.fired += 1;
        match f {
            Fail::Refused => {
                core::fired("schema-connection-refused");
                Err("connection refused".into())
            }
            Fail::TimedOut => {
                core::fired("schema-timeout");
                core::set_now(core::now() + 30_000_000_000);
                Err("operation timed out".into())
            }
            Fail::NotJson => {
                core::fired("schema-not-json");
                Ok(b"<html>502</html>".to_vec())
            }
            Fail::Cut(k) => {
                core::fired("schema-cut");
                let k = k % body.len().max(1);
                Ok(body[..k].to_vec())
            }
            Fail::Empty => {
                core::fired("schema-empty");
                Ok(vec![])
            }
        }
    })));
}

fn write(ds: &Dataset, net: &Rc<RefCell<Net>>) -> Result<drive::Written, Viol> {
    serve(net);
    let r = drive::write(ds, ds.cityjson(), &ds.features(), drive::benign_sys(), IoPlan::draw_benign(), drive::Wrap::Plain);
    reqwest_sim::serve(None);
    r
}

/// The file has every declared extension with the schema that was served for it.
fn holds(ds: &Dataset, bytes: &Arc<Vec<u8>>, declared: &BTreeMap<String, (String, String)>, served: &BTreeMap<String, Value>, what: &str) -> SResult {
    let want = gen::canon_header(ds.cj.clone(), ds.extent);
    for (who, s) in meta::headers(bytes)? {
        match s.meta {
            Ok(m) => ensure!(m == want, "declared extensions differ", "{} {}: {}", what, who, gen::diff(&want, &m, "").unwrap_or_default()),
            Err(e) => viol!("metadata unreadable", "{} {}: {}", what, who, e),
        }
    }
    let r = match core::guard(|| FcbReader::open(std::io::Cursor::new(bytes.as_slice())))? {
        Ok(r) => r,
        Err(e) => viol!("open failed", "{}: {}", what, e),
    };
    let h = r.header();
    let stored: Vec<_> = h.extensions().iter().flatten().collect();
    ensure!(stored.len() == declared.len(), "extensions lost", "{}: {} stored, {} declared", what, stored.len(), declared.len());
    for (name, (url, version)) in declared {
        let Some(e) = stored.iter().find(|e| e.name() == Some(name)) else { viol!("extensions lost", "{}: {:?} is not stored", what, name) };
        ensure!(e.url() == Some(url) && e.version() == Some(version), "extension record differs", "{}: {:?}: {:?} {:?}", what, name, e.url(), e.version());
        let schema = &served[url];
        let text = schema["description"].as_str().unwrap_or("");
        ensure!(e.description().unwrap_or("") == text, "extension record differs", "{}: {:?}: description {:?}, the schema says {:?}", what, name, e.description(), text);
        for (part, got) in PARTS.iter().zip([e.extra_attributes(), e.extra_city_objects(), e.extra_root_properties(), e.extra_semantic_surfaces()]) {
            let want = if schema[part].is_object() { schema[part].clone() } else { json!({}) };
            let got: Option<Value> = got.and_then(|t| serde_json::from_str(t).ok());
            ensure!(got.as_ref() == Some(&want), "extension record differs", "{}: {:?}: {}: {:?}, the schema has {}", what, name, part, got.map(|v| gen::short(&v)), gen::short(&want));
        }
        ensure!(!e.version_cityjson().unwrap_or("").is_empty(), "extension record differs", "{}: {:?} without a CityJSON version", what, name);
    }
    let d = paths::local(&Ask::All, core::fb(1, 2), bytes, &IoState::new(IoPlan::draw_benign()), 0)?;
    ensure!(d.ok(), "scan failed", "{}: {:?}", what, d.end);
    let canon = ds.canon();
    prep::same_set("scan", &d.feats, &canon.iter().collect::<Vec<_>>(), what)
}

pub fn c23() -> SResult {
    let mut ds = gen::dataset(&Profile { geometry: core::wb(1, 4), attrs: [0u8, 1][core::w(2)], max_small: 4, ..Default::default() });
    let n = [1usize, 2, 3, 0, 5, 40][core::w(if core::wb(1, 30) { 6 } else { 5 })];
    let mut declared = BTreeMap::new();
    let mut served = BTreeMap::new();
    for i in 0..n {
        let name = match core::w(6) {
            0 => format!("{}{}", text(), i),
            1 => format!("{}", i),
            _ => format!("Ext{}", i),
        };
        // two names may share an address
        let url = format!("https://example.org/{}/{}.ext.json", "a".repeat(core::w(3)), if core::wb(1, 8) { 0 } else { i });
        let version = core::wpick(&["1.0", "", "0.2.1-\u{e9}"]).to_string();
        declared.insert(name, (url.clone(), version));
        served.entry(url).or_insert_with(schema);
    }
    if n > 0 || core::wb(1, 2) {
        ds.cj["extensions"] = declared.iter().map(|(k, (u, v))| (k.clone(), json!({"url": u, "version": v}))).collect::<Map<_, _>>().into();
    }
    core::describe(format!("{} extensions, {}", declared.len(), ds.describe()));
    let bodies: BTreeMap<String, Vec<u8>> = served.iter().map(|(u, v)| (u.clone(), serde_json::to_vec(v).unwrap())).collect();
    let net = |fail: Vec<(u64, Fail)>| Rc::new(RefCell::new(Net { bodies: bodies.clone(), fail, n: 0, fired: 0, unknown: vec![] }));

    let calm = net(vec![]);
    let w = write(&ds, &calm)?;
    if let Err(e) = w.res {
        viol!("writer refused the dataset", "{} ({} extensions)", e, declared.len());
    }
    ensure!(calm.borrow().unknown.is_empty(), "request for another address", "{:?}", calm.borrow().unknown);
    let bytes = Arc::new(w.bytes);
    holds(&ds, &bytes, &declared, &served, "without failures")?;
    let requests = calm.borrow().n;
    ensure!((requests > 0) == !declared.is_empty(), "requests", "{} requests for {} extensions", requests, declared.len());
    if declared.is_empty() {
        return Ok(());
    }
    core::nontrivial();
    for _ in 0..3 {
        let m = 1 + core::f(3) / 2;
        let fail: Vec<(u64, Fail)> = (0..m)
            .map(|_| {
                let f = match core::f(5) {
                    0 => Fail::Refused,
                    1 => Fail::TimedOut,
                    2 => Fail::NotJson,
                    3 => Fail::Cut(core::f(1 << 20)),
                    _ => Fail::Empty,
                };
                (core::f(requests as usize) as u64, f)
            })
            .collect();
        let what = format!("{:?} of {} requests", fail, requests);
        let s = net(fail);
        let w = write(&ds, &s)?;
        match w.res {
            // a failure may be survived by asking again, but not by leaving something out
            Ok(()) => {
                core::probe("failure-survived");
                holds(&ds, &Arc::new(w.bytes), &declared, &served, &what)?;
            }
            Err(e) => {
                ensure!(s.borrow().fired > 0, "failed without a fault", "{}: {}", what, e);
                core::probe("write-refused");
                // what was put out is no file with fewer extensions
                if let Ok(Ok(r)) = core::guard(|| FcbReader::open(std::io::Cursor::new(w.bytes.as_slice())).map(|r| meta::said(&r.header()))) {
                    viol!("a file in spite of the failure", "{}: {} bytes, which say {:?}", what, w.bytes.len(), r);
                }
            }
        }
    }
    // once the failures are over it works, and gives the same file
    let w = write(&ds, &net(vec![]))?;
    ensure!(w.res.is_ok(), "failed after the failures were over", "{:?}", w.res);
    ensure!(*bytes == w.bytes, "another file for the same input", "{} and {} bytes", bytes.len(), w.bytes.len());
    Ok(())
}
