//! C21: what the format cannot hold is refused, and what is refused leaves no trace.

use super::{roundtrip, meta};
use crate::core::{self, SResult, Viol};
use crate::gen::{self, Dataset, Profile};
use crate::io::{IoPlan, IoState, SimWrite};
use crate::net::{Server, ServerCfg};
use crate::paths::{self, Ask, Retry};
use crate::sys::{self, SysFault, SysPlan};
use crate::{drive, ensure, layout, viol};
use cjseq::{CityJSON, CityJSONFeature};
use fcb_core::FcbWriter;
use serde_json::{json, Map, Value};
use std::sync::Arc;

// ---------------------------------------------------------------- odd input

fn odd_number() -> Value {
    core::wpick(&[
        json!(0),
        json!(1),
        json!(2),
        json!(4294967294u64),
        json!(4294967295u64),
        json!(4294967296u64),
        json!(u64::MAX),
        Value::Null,
    ])
    .clone()
}

/// Arrays nested so deep, now and then with an empty or a missing one.
fn nested(depth: usize, leaf: &mut dyn FnMut() -> Value) -> Value {
    if depth == 0 {
        return leaf();
    }
    match core::w(12) {
        10 => json!([]),
        11 if depth > 1 => Value::Null,
        _ => Value::Array((0..1 + core::w(2)).map(|_| nested(depth - 1, leaf)).collect()),
    }
}

const SHAPES: [(&str, usize, usize); 7] = [
    // type, levels of the boundaries, levels of the values of surfaces
    ("MultiSurface", 3, 1),
    ("Solid", 4, 2),
    ("MultiSolid", 5, 3),
    ("CompositeSolid", 5, 3),
    ("CompositeSurface", 3, 1),
    ("MultiPoint", 1, 1),
    ("MultiLineString", 2, 1),
];

/// So many levels, or now and then a wrong number of them.
fn levels(right: usize) -> usize {
    if core::wb(1, 4) {
        1 + core::w(6)
    } else {
        right
    }
}

fn like(bounds: &Value, depth: usize, leaf: &mut dyn FnMut() -> Value) -> Value {
    match bounds {
        Value::Array(a) if depth > 0 => Value::Array(a.iter().map(|x| like(x, depth - 1, leaf)).collect()),
        Value::Array(_) | Value::Null if depth > 0 => json!([]),
        _ => leaf(),
    }
}

fn odd_geometry() -> (Value, String) {
    let (ty, depth, vdepth) = *core::wpick(&SHAPES);
    let mut o = Map::new();
    o.insert("type".into(), json!(ty));
    o.insert("lod".into(), json!("2"));
    let bdepth = levels(depth);
    let bounds = nested(bdepth, &mut || json!(core::w(4)));
    o.insert("boundaries".into(), bounds.clone());
    let mut what = format!("{} boundaries {}", ty, gen::short(&bounds));
    // values which follow the boundaries, or do not
    let mut values = |right: usize, leaf: &mut dyn FnMut() -> Value| {
        if core::wb(1, 3) {
            nested(levels(right), leaf)
        } else {
            like(&bounds, right, leaf)
        }
    };
    if core::wb(1, 2) {
        let mut leaf = || {
            if core::wb(1, 8) {
                odd_number()
            } else {
                json!(core::w(2))
            }
        };
        let v = values(vdepth, &mut leaf);
        what += &format!(", semantics {}", gen::short(&v));
        o.insert("semantics".into(), json!({"surfaces": [{"type": "RoofSurface"}, {"type": "WallSurface", "parent": 0}], "values": v}));
    }
    if core::wb(1, 3) {
        let mut leaf = || if core::wb(1, 8) { odd_number() } else { json!(core::w(2)) };
        let mut m = Map::new();
        if core::wb(2, 3) {
            m.insert("values".into(), values(vdepth, &mut leaf));
        }
        if core::wb(1, 3) {
            m.insert("value".into(), leaf());
        }
        what += &format!(", material {}", gen::short(&json!(m)));
        o.insert("material".into(), json!({ "theme": m }));
    }
    if core::wb(1, 3) {
        let mut leaf = || if core::wb(1, 8) { odd_number() } else { json!(core::w(2)) };
        let v = values(depth, &mut leaf);
        what += &format!(", texture {}", gen::short(&v));
        o.insert("texture".into(), json!({ "theme": { "values": v } }));
    }
    (Value::Object(o), what)
}

/// A solid whose values leave out a shell or a solid: valid, and read back with every value.
fn left_out() -> (Value, String) {
    let solid = |n: usize| -> Value { Value::Array((0..n).map(|i| json!([[[0, 1, 2]], [[i, 2, 3]]])).collect()) };
    let vals = |n: usize| -> Value {
        Value::Array((0..n).map(|_| if core::wb(1, 2) { Value::Null } else { json!([0, null]) }).collect())
    };
    let (ty, bounds, values) = if core::wb(1, 2) {
        let n = 1 + core::w(3);
        ("Solid", solid(n), vals(n))
    } else {
        let k: Vec<usize> = (0..1 + core::w(3)).map(|_| 1 + core::w(2)).collect();
        let b = Value::Array(k.iter().map(|n| solid(*n)).collect());
        let v = Value::Array(k.iter().map(|n| if core::wb(1, 3) { Value::Null } else { vals(*n) }).collect());
        ("MultiSolid", b, v)
    };
    let what = format!("{} with semantic values {}", ty, values);
    (json!({"type": ty, "lod": "2", "boundaries": bounds, "semantics": {"surfaces": [{"type": "RoofSurface"}], "values": values}}), what)
}

fn odd_instance() -> (Value, String) {
    let mut o = Map::new();
    o.insert("type".into(), json!("GeometryInstance"));
    o.insert("template".into(), json!(0));
    o.insert("boundaries".into(), json!([0]));
    let m: Vec<f64> = (0..16).map(|i| if i % 5 == 0 { 1.0 } else { 0.0 }).collect();
    o.insert("transformationMatrix".into(), json!(m));
    let what = match core::w(7) {
        0 => {
            o.remove("template");
            "without a template"
        }
        1 => {
            o.remove("transformationMatrix");
            "without a matrix"
        }
        2 => {
            o.insert("boundaries".into(), json!([]));
            "without a vertex"
        }
        3 => {
            o.insert("boundaries".into(), json!([0, 1]));
            "with two vertices"
        }
        4 => {
            o.insert("boundaries".into(), json!([[0]]));
            "with nested boundaries"
        }
        5 => {
            o.insert("template".into(), json!(4294967296u64 + core::w(2) as u64));
            "of a template with a large number"
        }
        _ => {
            o.insert("template".into(), json!(4294967295u64));
            "of the last template"
        }
    };
    (Value::Object(o), format!("instance {}", what))
}

/// An odd feature made of an ordinary one, and whether it has to be accepted.
fn odd(base: &Value, id: usize) -> (Value, String, bool) {
    let mut f = base.clone();
    f["id"] = json!(format!("odd-{}", id));
    let objs = f["CityObjects"].as_object_mut().unwrap();
    if objs.is_empty() {
        objs.insert("o".into(), json!({"type": "Building"}));
    }
    let k = core::w(objs.len());
    let obj = objs.values_mut().nth(k).unwrap().as_object_mut().unwrap();
    let mut geometry = |(g, what): (Value, String)| {
        let gs = obj.entry("geometry").or_insert(json!([]));
        if !gs.is_array() {
            *gs = json!([]);
        }
        let gs = gs.as_array_mut().unwrap();
        gs.insert(core::w(gs.len() + 1), g);
        what
    };
    let mut must = false;
    let what = match core::w(12) {
        0 | 1 => {
            let big = *core::wpick(&[2147483648i64, -2147483649, 4294967296, i64::MAX, i64::MIN]);
            let fit = *core::wpick(&[2147483647i64, -2147483648]);
            let mut v = vec![0i64, 0, 0];
            must = core::wb(1, 4);
            let at = core::w(3);
            v[at] = if must { fit } else { big };
            let s = format!("vertex {:?}", v);
            let vs = f["vertices"].as_array_mut().unwrap();
            vs.insert(core::w(vs.len() + 1), json!(v));
            s
        }
        2 => {
            let n = [2usize, 4, 1, 0][core::w(4)];
            let vs = f["vertices"].as_array_mut().unwrap();
            vs.insert(core::w(vs.len() + 1), json!(vec![1; n]));
            format!("a vertex of {} numbers", n)
        }
        3 => {
            let a = core::wpick(&[json!(1), json!("x"), json!([{"a": 1}]), json!(true), json!([])]).clone();
            let s = format!("attributes {}", a);
            obj.insert("attributes".into(), a);
            s
        }
        4 | 5 => geometry(odd_instance()),
        6 => {
            must = true;
            geometry(left_out())
        }
        _ => geometry(odd_geometry()),
    };
    (f, what, must)
}

/// Whether there is anything in the arrays.
fn says(v: &Value) -> bool {
    v.as_array().is_none_or(|a| a.iter().any(says))
}

/// Semantic values with the parts that were left out, as readers give them.
fn filled(mut f: Value) -> Value {
    fn fill(v: &mut Value, b: &Value, depth: usize) {
        let Some(parts) = b.as_array() else { return };
        if depth == 0 {
            return;
        }
        let missing = v.is_null() || v.as_array().is_some_and(|a| a.is_empty());
        if missing {
            *v = Value::Array(vec![Value::Null; parts.len()]);
        }
        if let Some(a) = v.as_array_mut() {
            for (x, y) in a.iter_mut().zip(parts) {
                fill(x, y, depth - 1);
            }
        }
    }
    // of a header
    let mut templates = f.as_object_mut().and_then(|f| f.remove("geometry-templates"));
    let objs = f.get_mut("CityObjects").and_then(|o| o.as_object_mut()).into_iter().flat_map(|o| o.values_mut());
    let mut lists: Vec<&mut Value> = objs.filter_map(|o| o.get_mut("geometry")).collect();
    lists.extend(templates.as_mut().and_then(|t| t.get_mut("templates")));
    for list in lists {
        for g in list.as_array_mut().into_iter().flatten() {
            // a theme without entries says nothing
            if let Some(o) = g.as_object_mut() {
                for k in ["material", "texture"] {
                    if let Some(m) = o.get_mut(k).and_then(|m| m.as_object_mut()) {
                        m.retain(|_, r| r.as_object().is_some_and(|r| r.values().any(|v| !v.is_null() && says(v))));
                        if m.is_empty() {
                            o.remove(k);
                        }
                    }
                }
            }
            let depth = match g["type"].as_str() {
                Some("Solid") => 2,
                Some("MultiSolid" | "CompositeSolid") => 3,
                _ => continue,
            };
            let b = g["boundaries"].clone();
            if g.get("semantics").is_some() {
                fill(&mut g["semantics"]["values"], &b, depth);
            }
        }
    }
    if let Some(t) = templates {
        f["geometry-templates"] = t;
    }
    f
}

/// Semantic values in which null and nothing are the same.
fn nulls(mut f: Value) -> Value {
    fn all(v: &mut Value) {
        match v {
            Value::Array(a) if a.is_empty() => *v = Value::Null,
            Value::Array(a) => a.iter_mut().for_each(all),
            _ => {}
        }
    }
    for o in f["CityObjects"].as_object_mut().into_iter().flat_map(|o| o.values_mut()) {
        for g in o.get_mut("geometry").and_then(|g| g.as_array_mut()).into_iter().flatten() {
            if let Some(s) = g.get_mut("semantics").and_then(|s| s.as_object_mut()) {
                s.values_mut().for_each(all);
            }
        }
    }
    f
}

// ---------------------------------------------------------------- offering

struct Offered {
    /// what became of each feature; the first entry is `new`
    new: Result<(), String>,
    adds: Vec<Result<(), String>>,
    write: Option<Result<(), String>>,
    bytes: Arc<Vec<u8>>,
    hit: bool,
    /// operations until the last feature was offered, and in all
    ops: [u64; 2],
}

/// Offers every feature to one writer, whatever it says, and writes.
fn offer(ds: &Dataset, cj: CityJSON, feats: &[CityJSONFeature], tmp: SysPlan, schema: Option<fcb_core::attribute::AttributeSchema>) -> Result<Offered, Viol> {
    let st = IoState::new(IoPlan::draw_benign());
    let out = SimWrite::new(&st);
    let data = out.data.clone();
    let (opts, sem) = (ds.options(), ds.sem_schema());
    sys::stop_if_running();
    sys::start(tmp, vec![], true, vec![]);
    let r = core::guard(move || {
        let mut o = Offered { new: Ok(()), adds: vec![], write: None, bytes: Arc::new(vec![]), hit: false, ops: [0; 2] };
        let mut w = match FcbWriter::new(cj, opts, schema, sem) {
            Ok(w) => w,
            Err(e) => {
                o.new = Err(e.to_string());
                return o;
            }
        };
        for f in feats {
            o.adds.push(w.add_feature(f).map_err(|e| e.to_string()));
        }
        o.ops[0] = sys::with_state(|s| s.ops).unwrap_or(0);
        o.write = Some(w.write(out).map_err(|e| e.to_string()));
        o.bytes = Arc::new(data.borrow().clone());
        o
    });
    let s = drive::stop_sys();
    let mut o = r?;
    o.hit = s.fired.iter().any(|f| !f.contains("short") && !f.contains("eintr"));
    o.ops[1] = s.ops;
    core::ev("offered", o.adds.iter().filter(|a| a.is_ok()).count() as u64, o.bytes.len() as u64);
    Ok(o)
}

/// The file holds exactly these features, by every path.
fn holds(bytes: &Arc<Vec<u8>>, want: &[Value], class: &str, what: &str) -> SResult {
    let lay = match layout::decode(bytes) {
        Ok(l) => l,
        Err(e) => viol!(format!("{}: unreadable layout", class), "{}: {}", what, e),
    };
    let want: Vec<&Value> = match roundtrip::stored_order(want, &lay.order()) {
        Some(w) => w,
        None => viol!(format!("{}: other features in the file", class), "{}: the file holds {:?}", what, lay.order()),
    };
    for path in 0..3 {
        let d = if path < 2 {
            paths::local(&Ask::All, path == 1, bytes, &IoState::new(IoPlan::draw_benign()), 0)?
        } else {
            let srv = Server::new(bytes.clone(), ServerCfg { split_seed: core::f(1 << 16) as u64, ..Default::default() });
            paths::http_alone(&Ask::All, &srv, &Retry::default())?
        };
        ensure!(d.ok(), format!("{}: readers refuse the file", class), "{}: {:?}", what, d.end);
        let got: Vec<Value> = d.feats.into_iter().map(filled).collect();
        drive::same_list(class, &got, &want, what)?;
    }
    Ok(())
}

pub fn c21() -> SResult {
    let mode = core::w(4);
    let prof = Profile {
        geometry: core::wb(1, 2),
        attrs: [2u8, 0, 1][core::w(3)],
        max_small: 5,
        many: core::wb(1, 12),
        big: core::wb(1, 6),
        ..Default::default()
    };
    let mut ds = gen::dataset(&prof);
    core::describe(ds.describe());
    if mode == 3 {
        // features which the temporary file's buffer does not hold
        for f in ds.feats.iter_mut().take(40) {
            if core::wb(1, 2) {
                let n = 100 << core::w(6);
                f["vertices"].as_array_mut().unwrap().extend((0..n).map(|i| json!([i, i % 7, 1])));
            }
        }
    }
    match mode {
        0 | 1 => features(&ds),
        2 => header(&ds),
        _ => goes_on(&ds),
    }
}

/// Features the format cannot hold among ordinary ones.
fn features(ds: &Dataset) -> SResult {
    let mut offers: Vec<(Value, Option<(String, bool)>)> = ds.feats.iter().map(|f| (f.clone(), None)).collect();
    for i in 0..1 + core::w(3) {
        let base = match ds.feats.len() {
            0 => json!({"type": "CityJSONFeature", "id": "x", "CityObjects": {"x": {"type": "Building"}}, "vertices": [[0, 0, 0]]}),
            n => ds.feats[core::w(n)].clone(),
        };
        let (f, what, must) = odd(&base, i);
        offers.insert(core::w(offers.len() + 1), (f, Some((what, must))));
    }
    // what the text means to the parser is what the caller offers
    let mut parsed = vec![];
    let mut kept = vec![];
    for (v, o) in offers {
        match serde_json::from_value::<CityJSONFeature>(v.clone()) {
            Ok(f) => {
                // nulls in front of arrays make the parser drop the arrays
                let whole = |v| gen::canon_value(nulls(v));
                let same = || whole(serde_json::to_value(&f).unwrap()) == whole(v);
                let o = o.map(|(what, must)| (what, must && same()));
                parsed.push(f);
                kept.push(o);
            }
            Err(_) => core::probe("not-parsed"),
        }
    }
    let o = offer(ds, ds.cityjson(), &parsed, drive::benign_sys(), ds.schema())?;
    if let Err(e) = &o.new {
        viol!("writer refused the dataset", "new: {}", e);
    }
    let mut accepted = vec![];
    let mut text = String::new();
    for ((f, o), r) in parsed.iter().zip(&kept).zip(&o.adds) {
        match (o, r) {
            (None, Err(e)) => viol!("an ordinary feature was refused", "{}: {} ({})", f.id, e, text),
            (Some((what, true)), Err(e)) => viol!("a valid feature was refused", "{}: {}", what, e),
            (Some((what, _)), Err(e)) => {
                core::probe("refused");
                core::nontrivial();
                text += &format!("refused: {} ({}); ", what, e);
            }
            (Some((what, _)), Ok(())) => {
                core::probe("accepted");
                text += &format!("accepted: {}; ", what);
                accepted.push(f.clone());
            }
            (None, Ok(())) => accepted.push(f.clone()),
        }
    }
    if let Some(Err(e)) = &o.write {
        viol!("write failed after a refusal", "{} ({})", e, text);
    }
    let want: Vec<Value> = accepted.iter().map(|f| filled(gen::canon(f))).collect();
    holds(&o.bytes, &want, "offered", &text)?;
    // as if what was refused had never been offered
    if accepted.len() < parsed.len() {
        let alone = offer(ds, ds.cityjson(), &accepted, drive::benign_sys(), ds.schema())?;
        ensure!(
            alone.bytes == o.bytes,
            "a refused feature left a trace",
            "{} bytes, {} without the refused features ({})",
            o.bytes.len(),
            alone.bytes.len(),
            text
        );
    }
    Ok(())
}

/// A header or a schema the format cannot hold.
fn header(ds: &Dataset) -> SResult {
    let mut cj = ds.cj.clone();
    let mut schema = ds.schema();
    let what = match core::w(8) {
        0 | 1 => {
            let k = *core::wpick(&["scale", "translate"]);
            let n = [2usize, 4, 0, 1][core::w(4)];
            cj["transform"][k] = json!(vec![1.0; n]);
            format!("{} of {} axes", k, n)
        }
        2 | 3 => {
            let (g, what) = if core::wb(1, 4) { odd_instance() } else { odd_geometry() };
            let t = cj.as_object_mut().unwrap().entry("geometry-templates").or_insert(json!({"templates": [], "vertices-templates": [[0.0, 0.0, 0.0]]}));
            let t = t["templates"].as_array_mut().unwrap();
            t.push(g);
            format!("template {}", what)
        }
        4 => {
            let c = *core::wpick(&["1.3", "0.0.1", "", "-1", "99999999999", "2147483647", "x", "007"]);
            let m = cj.as_object_mut().unwrap().entry("metadata").or_insert(json!({}));
            m["referenceSystem"] = json!(format!("https://www.opengis.net/def/crs/EPSG/{}/7415", c));
            format!("reference system version {:?}", c)
        }
        5 => {
            // gaps between the numbers of the columns
            let mut left = vec![];
            if let Some(s) = &mut schema {
                for (i, _) in s.values_mut() {
                    *i = *i * 3 + 2;
                    left.push(*i);
                }
            }
            format!("columns numbered {:?}", left)
        }
        6 => {
            let mut n = 0;
            if let Some(s) = &mut schema {
                for (i, _) in s.values_mut() {
                    *i /= 2;
                    n += 1;
                }
            }
            format!("{} columns, two of each number", n)
        }
        _ => {
            let v = core::wpick(&[json!("9.9"), json!(""), json!("x")]).clone();
            cj["version"] = v.clone();
            format!("version {}", v)
        }
    };
    core::describe(what.clone());
    let Ok(parsed) = serde_json::from_value::<CityJSON>(cj.clone()) else {
        core::probe("not-parsed");
        return Ok(());
    };
    let want = filled(gen::canon_header(serde_json::to_value(&parsed).unwrap(), ds.extent));
    let feats = ds.features();
    let o = offer(ds, parsed, &feats, drive::benign_sys(), schema)?;
    if o.new.is_err() || o.adds.iter().any(|a| a.is_err()) || matches!(o.write, Some(Err(_))) {
        core::probe("header-refused");
        core::nontrivial();
        return Ok(());
    }
    core::probe("header-accepted");
    holds(&o.bytes, &ds.canon(), "header", &what)?;
    for (way, s) in meta::headers(&o.bytes)? {
        match s.meta {
            Err(e) => viol!("header: unreadable", "{} {}: {}", way, what, e),
            Ok(m) => {
                let m = filled(m);
                if m != want {
                    let d = gen::diff(&want, &m, "").unwrap_or_default();
                    if d.starts_with("/metadata/referenceSystem") && what.starts_with("reference system version") {
                        viol!("header: reference system version altered", "{} {}: {}", way, what, d);
                    }
                    viol!("header: altered", "{} {}: {}", way, what, gen::diff(&want, &m, "").unwrap_or_default());
                }
            }
        }
    }
    Ok(())
}

/// The temporary file fails, and the caller goes on with the next feature.
fn goes_on(ds: &Dataset) -> SResult {
    let feats = ds.features();
    let base = offer(ds, ds.cityjson(), &feats, drive::no_sys(), ds.schema())?;
    ensure!(matches!(base.write, Some(Ok(()))), "failed without a fault", "{:?}", base.write);
    for _ in 0..3 {
        let mut tmp = drive::no_sys();
        let n = 1 + core::f(2);
        for _ in 0..n {
            let f = match core::f(5) {
                4 => SysFault::Zero,
                i => SysFault::Errno([libc::ENOSPC, libc::EIO, libc::EDQUOT, libc::EFBIG][i]),
            };
            tmp.faults.push((core::f(base.ops[(core::f(4) == 3) as usize].max(1) as usize) as u64, f, false));
        }
        if core::fb(1, 2) {
            tmp.split = 1;
            tmp.split_seed = core::f(1 << 16) as u64;
        }
        let what = format!("temporary file with {:?}", tmp.faults);
        let o = offer(ds, ds.cityjson(), &feats, tmp, ds.schema())?;
        if o.hit {
            core::nontrivial();
        }
        let failed = o.adds.iter().filter(|a| a.is_err()).count();
        if failed > 0 {
            core::probe("went-on");
        }
        match &o.write {
            None => ensure!(o.hit, "failed without a fault", "{}: {:?}", what, o.new),
            Some(Err(e)) => ensure!(o.hit, "failed without a fault", "{}: {}", what, e),
            Some(Ok(())) => {
                let want: Vec<Value> = feats.iter().zip(&o.adds).filter(|(_, r)| r.is_ok()).map(|(f, _)| gen::canon(f)).collect();
                holds(&o.bytes, &want, "went on after a failure", &format!("{}, {} refused", what, failed))?;
            }
        }
    }
    Ok(())
}
