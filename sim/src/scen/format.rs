//! C16: stored files stay readable, and new files keep the documented layout.

use super::{cli, meta, prep, search};
use crate::core::{self, SResult, Viol};
use crate::gen::{self, Col, Count, Dataset, Kind, Profile, SchemaMode};
use crate::io::{IoPlan, IoState};
use crate::layout::{self, Layout, Table};
use crate::net::{Server, ServerCfg};
use crate::paths::{self, Ask, Delivered, Retry};
use crate::query::{self, Val};
use crate::{drive, ensure, viol};
use chrono::DateTime;
use fcb_core::fb::ColumnType;
use fcb_core::SpatialQuery;
use ordered_float::OrderedFloat;
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use std::sync::Arc;

// ---------------------------------------------------------------- the corpus

fn kind_no(k: Kind) -> usize {
    gen::ALL_KINDS.iter().position(|x| *x == k).unwrap()
}

type Columns = Vec<(String, u16, ColumnType)>;

/// Everything a run needs to know about a stored file.
fn save(ds: &Dataset) -> Value {
    let cols = |c: &Columns| -> Value { c.iter().map(|(n, i, t)| json!([n, i, t.0])).collect() };
    json!({
        "cj": ds.cj,
        "features": ds.feats,
        "columns": ds.cols.iter().map(|c| json!([c.name, kind_no(c.kind), c.pool])).collect::<Vec<_>>(),
        "mode": format!("{:?}", ds.mode),
        "explicit": cols(&ds.explicit),
        "semantic": ds.sem.as_ref().map(cols),
        "index": ds.write_index,
        "indexed": ds.indexed,
        "extent": ds.extent,
    })
}

fn load(v: &Value) -> Dataset {
    let cols = |v: &Value| -> Columns {
        v.as_array()
            .unwrap()
            .iter()
            .map(|c| (c[0].as_str().unwrap().into(), c[1].as_u64().unwrap() as u16, ColumnType(c[2].as_u64().unwrap() as u8)))
            .collect()
    };
    Dataset {
        cj: v["cj"].clone(),
        feats: v["features"].as_array().unwrap().clone(),
        cols: v["columns"]
            .as_array()
            .unwrap()
            .iter()
            .map(|c| Col {
                name: c[0].as_str().unwrap().into(),
                kind: gen::ALL_KINDS[c[1].as_u64().unwrap() as usize],
                pool: c[2].as_array().unwrap().clone(),
            })
            .collect(),
        mode: match v["mode"].as_str().unwrap() {
            "Guess" => SchemaMode::Guess,
            "Explicit" => SchemaMode::Explicit,
            "Partial" => SchemaMode::Partial,
            _ => SchemaMode::None,
        },
        explicit: cols(&v["explicit"]),
        sem: v["semantic"].is_array().then(|| cols(&v["semantic"])),
        write_index: v["index"].as_bool().unwrap(),
        count: Count::True,
        indexed: serde_json::from_value(v["indexed"].clone()).unwrap(),
        extent: serde_json::from_value(v["extent"].clone()).unwrap(),
        no_options: false,
    }
}

/// Leaves out what the base build did not store as it was given: the header's appearance and
/// geometry templates, and attributes without a value, which its indexes took for zero.
fn plainer(ds: &mut Dataset) {
    let cj = ds.cj.as_object_mut().unwrap();
    cj.remove("appearance");
    cj.remove("geometry-templates");
    for f in ds.feats.iter_mut() {
        for o in f["CityObjects"].as_object_mut().unwrap().values_mut() {
            if let Some(a) = o.get_mut("attributes").and_then(|a| a.as_object_mut()) {
                a.retain(|_, v| !v.is_null());
            }
        }
    }
    cli::settled(ds);
}

/// Writes datasets with the build at hand; run once with the base build ("base") and once with
/// the first repaired one ("head") to make the corpus.
pub fn generate(a: &[String]) -> i32 {
    let (dir, tag) = (&a[0], &a[1]);
    let n = if tag == "base" { 200 } else { 48 };
    for i in 0..n {
        let p = Profile {
            geometry: i % 3 == 0,
            spatial: i % 3 != 2,
            attrs: [0u8, 1, 1, 2][(i % 4) as usize],
            max_small: 16,
            many: true,
            big: false,
            true_count: true,
            ..Default::default()
        };
        let r = core::aside(1600 + i, || {
            let mut ds = gen::dataset(&p);
            if tag == "base" {
                plainer(&mut ds);
            } else {
                cli::settled(&mut ds);
            }
            drive::write_plain(&ds).map(|b| (ds, b))
        });
        match r {
            Ok((ds, b)) if b.len() < 60_000 || (b.len() < 150_000 && i % 8 == 4) => {
                std::fs::write(format!("{}/{}-{:03}.fcb", dir, tag, i), &*b).unwrap();
                std::fs::write(format!("{}/{}-{:03}.json", dir, tag, i), save(&ds).to_string()).unwrap();
            }
            Ok((_, b)) => println!("{}: {} bytes", i, b.len()),
            Err(e) => println!("{}: {}", i, e.class),
        }
    }
    0
}

struct Stored {
    name: String,
    json: Value,
    bytes: Arc<Vec<u8>>,
}

fn corpus() -> Rc<Vec<Stored>> {
    thread_local! {
        static FILES: std::cell::OnceCell<Rc<Vec<Stored>>> = const { std::cell::OnceCell::new() };
    }
    FILES.with(|f| {
        f.get_or_init(|| {
            let dir = std::env::var("FCBSIM_CORPUS").unwrap_or(concat!(env!("CARGO_MANIFEST_DIR"), "/../corpus").into());
            let mut names: Vec<_> = std::fs::read_dir(&dir)
                .unwrap_or_else(|e| panic!("harness: no corpus in {}: {}", dir, e))
                .map(|e| e.unwrap().path())
                .filter(|p| p.extension().is_some_and(|e| e == "fcb"))
                .collect();
            names.sort();
            let v = names
                .iter()
                .map(|p| Stored {
                    name: p.file_stem().unwrap().to_str().unwrap().into(),
                    json: serde_json::from_slice(&std::fs::read(p.with_extension("json")).unwrap()).unwrap(),
                    bytes: Arc::new(std::fs::read(p).unwrap()),
                })
                .collect();
            Rc::new(v)
        })
        .clone()
    })
}

// ---------------------------------------------------------------- reading on every path

const PATHS: [&str; 3] = ["sequential", "seekable", "http"];

fn read(ask: &Ask, path: usize, bytes: &Arc<Vec<u8>>) -> Result<Delivered, Viol> {
    if path < 2 {
        let st = IoState::new(IoPlan::draw_benign());
        paths::local(ask, path == 1, bytes, &st, 0)
    } else {
        let srv = Server::new(
            bytes.clone(),
            ServerCfg {
                latency: core::fb(1, 2),
                split_seed: core::f(1 << 16) as u64,
                ignore_range: core::fb(1, 12),
                ..Default::default()
            },
        );
        paths::http_alone(ask, &srv, &Retry::default())
    }
}

/// The header, the features and the answers are those of the dataset.
fn means_the_same(p: &prep::Prep, name: &str) -> SResult {
    let ds = &p.ds;
    let want = gen::canon_header(ds.cj.clone(), ds.extent);
    for (what, s) in meta::headers(&p.bytes)? {
        match &s.meta {
            Err(e) => viol!("stored file: metadata unreadable", "{}, {}: {}", name, what, e),
            Ok(m) if m != &want => {
                viol!("stored file: metadata differs", "{}, {}: {}", name, what, gen::diff(&want, m, "").unwrap_or_default())
            }
            _ => {}
        }
        ensure!(s.count == p.canon.len() as u64, "stored file: count", "{}, {}: {} features", name, what, s.count);
        ensure!(s.node_size == p.lay.node_size, "stored file: spatial index", "{}, {}: node size {}", name, what, s.node_size);
        ensure!(s.columns == p.lay.columns, "stored file: columns", "{}, {}: {:?}", name, what, s.columns);
        let listed: Vec<u16> = p.lay.attr.iter().map(|a| a.column).collect();
        let said: Vec<u16> = s.attr.iter().map(|a| a.0).collect();
        ensure!(said == listed, "stored file: attribute indexes", "{}, {}: {:?}", name, what, said);
    }
    for (path, what) in PATHS.iter().enumerate() {
        let d = read(&Ask::All, path, &p.bytes)?;
        ensure!(d.ok(), "stored file: scan failed", "{}, {}: {:?}", name, what, d.end);
        drive::same_list("stored file: scan", &d.feats, &p.all(), &format!("{}, {}", name, what))?;
    }
    let boxes = ds.boxes();
    let vertices = ds.feats.iter().all(|f| !f["vertices"].as_array().unwrap().is_empty());
    if ds.write_index && !p.canon.is_empty() && vertices {
        core::probe("stored-spatial-query");
        let q = query::spatial(ds, &boxes);
        let want = p.want(&query::spatial_answer(&q, &boxes));
        let (x, y) = query::nearest_point(ds, &boxes);
        let dist: Vec<f64> = boxes.iter().map(|b| query::centre_distance(b, x, y)).collect();
        let best = dist.iter().copied().fold(f64::INFINITY, f64::min);
        for (path, how) in PATHS.iter().enumerate() {
            let what = format!("{}, {} {:?}", name, how, q);
            let d = read(&Ask::Spatial(q.clone()), path, &p.bytes)?;
            ensure!(d.ok(), "stored file: query failed", "{}: {:?}", what, d.end);
            prep::same_set("stored file: spatial query", &d.feats, &want, &what)?;
            let d = read(&Ask::Spatial(SpatialQuery::PointNearest(x, y)), path, &p.bytes)?;
            let what = format!("{}, {} nearest to ({}, {})", name, how, x, y);
            ensure!(d.ok() && d.feats.len() == 1, "stored file: query failed", "{}: {:?}, {} features", what, d.end, d.feats.len());
            let i = p.canon.iter().position(|f| f == &d.feats[0]);
            ensure!(
                i.is_some_and(|i| dist[i] <= best + best * 1e-12 + 1e-7),
                "stored file: nearest feature",
                "{}: {} is not the closest",
                what,
                d.feats[0]["id"]
            );
        }
    }
    // the kinds with a plain meaning that have an index in the file
    let ok = |n: &str| query::indexed_cols(ds).iter().any(|c| c.0 == n && c.1.indexable()) && p.lay.attr.iter().any(|a| a.name == n);
    if p.lay.attr.iter().any(|a| ok(&a.name)) {
        core::probe("stored-attribute-query");
        let conds: Vec<_> = query::conds(ds).into_iter().filter(|c| ok(&c.name)).collect();
        if !conds.is_empty() {
            for (path, how) in PATHS.iter().enumerate() {
                let what = format!("{}, {} {}", name, how, search::show(&conds));
                let d = read(&Ask::Attr(conds.iter().map(|c| c.ask()).collect()), path, &p.bytes)?;
                search::check_attr(ds, p, &conds, &d, &what)?;
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- the documented layout

type R<T> = Result<T, String>;

const OBJECTS: [&str; 33] = [
    "Bridge", "BridgePart", "BridgeInstallation", "BridgeConstructiveElement", "BridgeRoom", "BridgeFurniture",
    "Building", "BuildingPart", "BuildingInstallation", "BuildingConstructiveElement", "BuildingFurniture",
    "BuildingStorey", "BuildingRoom", "BuildingUnit", "CityFurniture", "CityObjectGroup", "GenericCityObject",
    "LandUse", "OtherConstruction", "PlantCover", "SolitaryVegetationObject", "TINRelief", "Road", "Railway",
    "Waterway", "TransportSquare", "Tunnel", "TunnelPart", "TunnelInstallation", "TunnelConstructiveElement",
    "TunnelHollowSpace", "TunnelFurniture", "WaterBody",
];
const GEOMETRIES: [&str; 7] = [
    "MultiPoint", "MultiLineString", "MultiSurface", "CompositeSurface", "Solid", "MultiSolid", "CompositeSolid",
];
const SURFACES: [&str; 18] = [
    "RoofSurface", "GroundSurface", "WallSurface", "ClosureSurface", "OuterCeilingSurface", "OuterFloorSurface",
    "Window", "Door", "InteriorWallSurface", "CeilingSurface", "FloorSurface", "WaterSurface",
    "WaterGroundSurface", "WaterClosureSurface", "TrafficArea", "AuxiliaryTrafficArea", "TransportationMarking",
    "TransportationHole",
];

fn name_of(names: &[&str], n: u8, extension: Option<String>) -> R<Value> {
    match (names.get(n as usize), extension) {
        (Some(s), _) => Ok(json!(s)),
        (None, Some(e)) if n as usize == names.len() => Ok(json!(e)),
        _ => Err(format!("type number {}", n)),
    }
}

type Cols = Vec<(u16, String, u8)>;

fn columns(t: Option<Vec<Table>>) -> R<Option<Cols>> {
    let Some(t) = t else { return Ok(None) };
    let mut v = vec![];
    for c in t {
        v.push((c.u16(0, 0)?, c.string(1)?.ok_or("a column without a name")?, c.u8(2, 0)?));
    }
    Ok(Some(v))
}

/// Attribute records: column index (u16), then the value of the column's type.
fn attributes(b: &[u8], cols: &Cols) -> R<Value> {
    let mut at = 0;
    let mut m = Map::new();
    let take = |at: &mut usize, n: usize| -> R<&[u8]> {
        let s = b.get(*at..*at + n).ok_or_else(|| format!("attribute bytes end at {}, {} wanted at {}", b.len(), n, at))?;
        *at += n;
        Ok(s)
    };
    while at < b.len() {
        let i = u16::from_le_bytes(take(&mut at, 2)?.try_into().unwrap());
        let (_, name, t) = cols.iter().find(|c| c.0 == i).ok_or(format!("attribute of unknown column {}", i))?;
        macro_rules! le {
            ($t:ty, $n:expr) => {
                json!(<$t>::from_le_bytes(take(&mut at, $n)?.try_into().unwrap()))
            };
        }
        let v = match t {
            0 => le!(i8, 1),
            1 => le!(u8, 1),
            2 => match take(&mut at, 1)?[0] {
                0 => json!(false),
                1 => json!(true),
                x => return Err(format!("a boolean of {}", x)),
            },
            3 => le!(i16, 2),
            4 => le!(u16, 2),
            5 => le!(i32, 4),
            6 => le!(u32, 4),
            7 => le!(i64, 8),
            8 => le!(u64, 8),
            9 => json!(f32::from_le_bytes(take(&mut at, 4)?.try_into().unwrap()) as f64),
            10 => le!(f64, 8),
            11..=14 => {
                let n = u32::from_le_bytes(take(&mut at, 4)?.try_into().unwrap()) as usize;
                let s = std::str::from_utf8(take(&mut at, n)?).map_err(|e| e.to_string())?;
                if *t == 12 {
                    serde_json::from_str(s).map_err(|e| format!("column {:?}: {}", name, e))?
                } else {
                    json!(s)
                }
            }
            t => return Err(format!("column type {}", t)),
        };
        if m.insert(name.clone(), v).is_some() {
            return Err(format!("two values of {:?}", name));
        }
    }
    Ok(Value::Object(m))
}

/// Cuts `items` into groups of the given lengths.
fn grouped(items: Vec<Value>, lens: &[u32], what: &str) -> R<Vec<Value>> {
    let mut it = items.into_iter();
    let mut v = vec![];
    for n in lens {
        let g: Vec<Value> = it.by_ref().take(*n as usize).collect();
        if g.len() != *n as usize {
            return Err(format!("{} announce more parts than there are", what));
        }
        v.push(Value::Array(g));
    }
    if it.next().is_some() {
        return Err(format!("{} do not cover their parts", what));
    }
    Ok(v)
}

fn flat(v: &Value) -> Vec<Value> {
    match v {
        Value::Array(a) => a.iter().flat_map(flat).collect(),
        Value::Null => vec![json!(u32::MAX)],
        x => vec![x.clone()],
    }
}

fn geometry(g: &Table, sem: &Cols) -> R<Value> {
    let t = g.u8(0, 0)? as usize;
    let name = *GEOMETRIES.get(t).ok_or(format!("geometry type {}", t))?;
    let mut v: Vec<Value> = g.u32s(6)?.unwrap_or_default().iter().map(|x| json!(x)).collect();
    let lens = |slot: usize| -> R<Vec<u32>> { Ok(g.u32s(slot)?.unwrap_or_default()) };
    if t >= 1 {
        v = grouped(v, &lens(5)?, "strings")?;
    }
    if t >= 2 {
        v = grouped(v, &lens(4)?, "surfaces")?;
    }
    if t >= 4 {
        v = grouped(v, &lens(3)?, "shells")?;
    }
    if t >= 5 {
        v = grouped(v, &lens(2)?, "solids")?;
    }
    let mut o = Map::new();
    o.insert("type".into(), json!(name));
    o.insert("boundaries".into(), Value::Array(v));
    if let Some(l) = g.string(1)? {
        o.insert("lod".into(), json!(l));
    }
    if let Some(so) = g.tables(8)? {
        let mut surfaces = vec![];
        for s in so {
            let mut x = match s.vector(1)? {
                Some((p, n)) => attributes(s.bytes(p, n)?, sem)?,
                None => json!({}),
            };
            x["type"] = name_of(&SURFACES, s.u8(0, 0)?, s.string(4)?)?;
            if let Some(c) = s.u32s(2)? {
                x["children"] = json!(c);
            }
            if let Some(p) = s.u32(3)? {
                x["parent"] = json!(p);
            }
            surfaces.push(x);
        }
        o.insert("semantics".into(), json!({"surfaces": surfaces, "values": g.u32s(7)?.unwrap_or_default()}));
    }
    if let Some(ms) = g.tables(9)? {
        let mut m = Map::new();
        for t in ms {
            let v = match t.u32(4)? {
                Some(v) => json!({ "value": v }),
                None => json!({"values": t.u32s(3)?.unwrap_or_default()}),
            };
            m.insert(t.string(0)?.unwrap_or_default(), v);
        }
        o.insert("material".into(), Value::Object(m));
    }
    if let Some(ts) = g.tables(10)? {
        let mut m = Map::new();
        for t in ts {
            m.insert(t.string(0)?.unwrap_or_default(), json!({"values": t.u32s(5)?.unwrap_or_default()}));
        }
        o.insert("texture".into(), Value::Object(m));
    }
    Ok(Value::Object(o))
}

fn instance(g: &Table) -> R<Value> {
    let m = match g.structure(0)? {
        Some(p) => g.f64s(p, 16)?,
        None => return Err("a geometry instance without a matrix".into()),
    };
    Ok(json!({"type": "GeometryInstance", "template": g.u32(1)?.unwrap_or(0),
              "boundaries": g.u32s(2)?.unwrap_or_default(), "transformationMatrix": m}))
}

fn extent(t: &Table, slot: usize) -> R<Option<Value>> {
    t.structure(slot)?.map(|p| t.f64s(p, 6).map(|v| json!(v))).transpose()
}

/// A feature from its bytes, without its appearance.
fn feature(b: &[u8], cols: &Cols, sem: &Cols) -> R<Value> {
    let f = Table::root(b)?;
    let mut verts = vec![];
    if let Some((p, n)) = f.vector(2)? {
        for i in 0..n {
            let q = p + 12 * i;
            let c = |k: usize| -> R<i32> { Ok(layout::u32_at(b, q + 4 * k)? as i32) };
            verts.push(json!([c(0)?, c(1)?, c(2)?]));
        }
    }
    let mut objs = Map::new();
    for o in f.tables(1)?.unwrap_or_default() {
        let mut v = Map::new();
        v.insert("type".into(), name_of(&OBJECTS, o.u8(0, 0)?, o.string(1)?)?);
        if let Some(e) = extent(&o, 3)? {
            v.insert("geographicalExtent".into(), e);
        }
        for (slot, k) in [(8, "children"), (9, "children_roles"), (10, "parents")] {
            if let Some(s) = o.strings(slot)? {
                v.insert(k.into(), json!(s));
            }
        }
        if let Some((p, n)) = o.vector(6)? {
            let own = columns(o.tables(7)?)?;
            v.insert("attributes".into(), attributes(o.bytes(p, n)?, own.as_ref().unwrap_or(cols))?);
        }
        let mut gs = vec![];
        for g in o.tables(4)?.unwrap_or_default() {
            gs.push(geometry(&g, sem)?);
        }
        for g in o.tables(5)?.unwrap_or_default() {
            gs.push(instance(&g)?);
        }
        v.insert("geometry".into(), Value::Array(gs));
        let id = o.string(2)?.ok_or("an object without id")?;
        if objs.insert(id.clone(), Value::Object(v)).is_some() {
            return Err(format!("two objects {:?}", id));
        }
    }
    Ok(gen::canon_value(json!({
        "type": "CityJSONFeature", "id": f.string(0)?.ok_or("a feature without id")?,
        "vertices": verts, "CityObjects": objs,
    })))
}

/// The canonical feature in the shape the decoder above gives it.
fn flattened(f: &Value) -> Value {
    let mut f = f.clone();
    f.as_object_mut().unwrap().remove("appearance");
    for o in f["CityObjects"].as_object_mut().unwrap().values_mut() {
        for g in o.get_mut("geometry").and_then(|g| g.as_array_mut()).into_iter().flatten() {
            if let Some(s) = g.get_mut("semantics") {
                s["values"] = Value::Array(flat(&s["values"]));
            }
            for k in ["material", "texture"] {
                for m in g.get_mut(k).and_then(|m| m.as_object_mut()).into_iter().flatten() {
                    if let Some(v) = m.1.get_mut("values") {
                        *v = Value::Array(flat(v));
                    }
                }
            }
        }
    }
    f
}

/// The value of a key, which is stored little-endian and strings padded with zeros.
fn key_value(t: u8, b: &[u8]) -> R<Val> {
    macro_rules! int {
        ($t:ty) => {
            Val::I(<$t>::from_le_bytes(b.try_into().unwrap()) as i128)
        };
    }
    Ok(match t {
        0 => int!(i8),
        1 => int!(u8),
        2 => match b[0] {
            0 => Val::B(false),
            1 => Val::B(true),
            x => return Err(format!("a boolean key of {}", x)),
        },
        3 => int!(i16),
        4 => int!(u16),
        5 => int!(i32),
        6 => int!(u32),
        7 => int!(i64),
        8 => int!(u64),
        9 => Val::F(OrderedFloat(f32::from_le_bytes(b.try_into().unwrap()) as f64)),
        10 => Val::F(OrderedFloat(f64::from_le_bytes(b.try_into().unwrap()))),
        11 => {
            let n = b.iter().rposition(|c| *c != 0).map_or(0, |n| n + 1);
            Val::S(b[..n].to_vec())
        }
        13 => {
            let s = i64::from_le_bytes(b[..8].try_into().unwrap());
            let n = u32::from_le_bytes(b[8..].try_into().unwrap());
            Val::T(DateTime::from_timestamp(s, n).ok_or(format!("a date key of {} s and {} ns", s, n))?)
        }
        t => return Err(format!("a key of column type {}", t)),
    })
}

fn close(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-9 * a.abs().max(b.abs()).max(1e-3)
}

fn check_layout(p: &prep::Prep) -> R<()> {
    let (ds, l, b): (&Dataset, &Layout, &[u8]) = (&p.ds, &p.lay, &p.bytes);
    l.check()?;
    // the header
    let h = Table::root(&b[12..12 + l.header_size])?;
    let t = h.structure(0)?.ok_or("no transform in the header")?;
    let got = h.f64s(t, 6)?;
    for i in 0..6 {
        let want = ds.cj["transform"][["scale", "translate"][i / 3]][i % 3].as_f64().unwrap();
        if got[i] != want {
            return Err(format!("transform {:?}: number {} is not {}", got, i, want));
        }
    }
    let m = &ds.cj["metadata"];
    for (slot, k) in [(9, "identifier"), (10, "referenceDate"), (11, "title")] {
        let s = h.string(slot)?;
        if s.as_deref() != m[k].as_str() {
            return Err(format!("{}: {:?} instead of {}", k, s, m[k]));
        }
    }
    if h.string(27)?.as_deref() != ds.cj["version"].as_str() {
        return Err(format!("version {:?}", h.string(27)?));
    }
    let sem = columns(h.tables(3)?)?.unwrap_or_default();
    // the features
    let offset: BTreeMap<usize, u64> = p
        .stored
        .iter()
        .zip(&l.feats)
        .map(|(i, f)| (*i, (f.0 - l.feat_start) as u64))
        .collect();
    for (i, f) in p.stored.iter().zip(&l.feats) {
        let got = feature(&b[f.0 + 4..f.0 + f.1], &l.columns, &sem).map_err(|e| format!("feature {:?}: {}", f.2, e))?;
        let want = flattened(&p.canon[*i]);
        if got != want {
            return Err(format!("feature {:?}: {}", f.2, gen::diff(&want, &got, "").unwrap_or_default()));
        }
    }
    // the spatial index
    let boxes = ds.boxes();
    let at: BTreeMap<u64, usize> = offset.iter().map(|(i, o)| (*o, *i)).collect();
    for (x, o) in &l.rtree_leaves {
        let i = at[o];
        let empty = ds.feats[i]["vertices"].as_array().unwrap().is_empty();
        if !empty && (0..4).any(|k| !close(x[k], boxes[i][k])) {
            return Err(format!("spatial index: box {:?} of feature {:?} is stored as {:?}", boxes[i], p.canon[i]["id"], x));
        }
    }
    // the attribute indexes
    for a in &l.attr {
        let Some(c) = ds.cols.iter().find(|c| c.name == a.name) else { continue };
        // (a guessed column takes the type of its first value)
        if !c.kind.indexable() || a.coltype != c.kind.column().0 {
            continue;
        }
        // entries of the features by value
        let mut want: Vec<(Val, BTreeSet<u64>)> = vec![];
        for (i, f) in ds.feats.iter().enumerate() {
            for o in f["CityObjects"].as_object().unwrap().values() {
                let Some(v) = o.get("attributes").and_then(|x| x.get(&a.name)) else { continue };
                let Some(v) = query::val(c.kind, v) else { continue };
                match want.binary_search_by(|w| w.0.cmp(&v)) {
                    Ok(k) => {
                        want[k].1.insert(offset[&i]);
                    }
                    Err(k) => want.insert(k, (v, [offset[&i]].into())),
                }
            }
        }
        let mut got: Vec<(Val, BTreeSet<u64>)> = vec![];
        for (k, offs) in &a.leaves {
            got.push((key_value(a.coltype, k)?, offs.iter().copied().collect()));
        }
        if got != want {
            let n = got.iter().zip(&want).position(|(g, w)| g != w).unwrap_or(got.len().min(want.len()));
            return Err(format!(
                "index on {:?} ({:?}): entry {} of {} is {:?}, expected {:?} of {}",
                a.name,
                c.kind,
                n,
                got.len(),
                got.get(n),
                want.get(n),
                want.len()
            ));
        }
    }
    Ok(())
}

pub fn c16() -> SResult {
    if core::w(2) == 0 {
        let all = corpus();
        let s = &all[core::w(all.len())];
        let ds = load(&s.json);
        core::describe(format!("stored file {}: {}", s.name, ds.describe()));
        let canon = ds.canon();
        if !canon.is_empty() {
            core::nontrivial();
        }
        let p = prep::with_bytes(ds, canon, s.bytes.clone())?;
        core::probe("stored-file");
        return means_the_same(&p, &format!("stored file {}", s.name));
    }
    let p = prep::make(&Profile {
        geometry: core::wb(2, 3),
        attrs: core::w(2) as u8,
        spatial: core::wb(1, 3),
        ..Default::default()
    })?;
    if !p.canon.is_empty() {
        core::nontrivial();
    }
    core::probe("new-file");
    if let Err(e) = check_layout(&p) {
        viol!("layout of a new file", "{} ({})", e, p.ds.describe());
    }
    Ok(())
}
