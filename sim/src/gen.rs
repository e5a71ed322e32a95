//! Workloads: datasets, the canonical form in which features are compared, and writer options.

use crate::core::{self, Rng};
use cjseq::{CityJSON, CityJSONFeature};
use fcb_core::fb::ColumnType;
use fcb_core::{attribute::AttributeSchema, attribute::AttributeSchemaMethods};
use fcb_core::header_writer::HeaderWriterOptions;
use serde_json::{json, Map, Value};

/// Small datasets draw every choice from the tape, big ones expand one draw.
pub struct G {
    rng: Option<Rng>,
}
impl G {
    pub fn tape() -> G {
        G { rng: None }
    }
    pub fn expanded() -> G {
        G {
            rng: Some(Rng::new(core::w(1 << 30) as u64)),
        }
    }
    fn expanded_if(c: bool) -> G {
        if c {
            G::expanded()
        } else {
            G::tape()
        }
    }
    pub fn n(&mut self, n: usize) -> usize {
        match &mut self.rng {
            None => core::w(n),
            Some(r) => r.below(n as u64) as usize,
        }
    }
    /// true with probability num/den; false is the simple value
    pub fn b(&mut self, num: usize, den: usize) -> bool {
        self.n(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.n(xs.len())]
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Bool,
    ULong,
    Long,
    Double,
    Str,
    Date,
    Json,
    Int,
    UInt,
    Short,
    UShort,
    Byte,
    UByte,
    Float,
    Binary,
}
use Kind::*;

impl Kind {
    pub fn column(self) -> ColumnType {
        match self {
            Bool => ColumnType::Bool,
            ULong => ColumnType::ULong,
            Long => ColumnType::Long,
            Double => ColumnType::Double,
            Str => ColumnType::String,
            Date => ColumnType::DateTime,
            Json => ColumnType::Json,
            Int => ColumnType::Int,
            UInt => ColumnType::UInt,
            Short => ColumnType::Short,
            UShort => ColumnType::UShort,
            Byte => ColumnType::Byte,
            UByte => ColumnType::UByte,
            Float => ColumnType::Float,
            Binary => ColumnType::Binary,
        }
    }
    /// the schema guesser finds this kind by itself
    pub fn guessable(self) -> bool {
        matches!(self, Bool | ULong | Long | Double | Str | Date | Json)
    }
    /// the writer can put it in an attribute index
    pub fn indexable(self) -> bool {
        !matches!(self, Json | Binary)
    }
}

pub const GUESSABLE: [Kind; 7] = [ULong, Str, Double, Bool, Date, Long, Json];
pub const ALL_KINDS: [Kind; 15] = [
    ULong, Str, Double, Bool, Date, Int, Float, UInt, Long, Short, UShort, Json, UByte, Byte, Binary,
];

#[derive(Clone, Debug)]
pub struct Col {
    pub name: String,
    pub kind: Kind,
    pub pool: Vec<Value>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum SchemaMode {
    /// `add_attributes` over all objects, as the CLI does
    Guess,
    Explicit,
    /// some columns are missing from the schema
    Partial,
    None,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Count {
    True,
    Zero,
    Wrong(u64),
}

#[derive(Clone, Debug)]
pub struct Dataset {
    pub cj: Value,
    pub feats: Vec<Value>,
    pub cols: Vec<Col>,
    pub mode: SchemaMode,
    pub explicit: Vec<(String, u16, ColumnType)>,
    pub sem: Option<Vec<(String, u16, ColumnType)>>,
    pub write_index: bool,
    pub count: Count,
    pub indexed: Vec<(String, Option<u16>)>,
    pub extent: Option<[f64; 6]>,
    /// options are `None` (all defaults)
    pub no_options: bool,
}

/// What a scenario needs from its dataset.
#[derive(Clone, Copy, Debug)]
pub struct Profile {
    pub geometry: bool,
    /// every feature has a vertex and the placement is interesting
    pub spatial: bool,
    /// 0: some attributes, 1: indexed attributes are the point, 2: none
    pub attrs: u8,
    /// at most so many features (before the size classes)
    pub max_small: usize,
    pub many: bool,
    pub big: bool,
    pub meta: bool,
    /// the count the caller passes is right
    pub true_count: bool,
    /// force the spatial index on (Some(true)) or off
    pub index: Option<bool>,
    /// the schema is guessed from the values
    pub guess: bool,
}
impl Default for Profile {
    fn default() -> Self {
        Profile {
            geometry: true,
            spatial: false,
            attrs: 0,
            max_small: 8,
            many: true,
            big: true,
            meta: true,
            true_count: false,
            index: None,
            guess: false,
        }
    }
}

// ---------------------------------------------------------------- values

fn text(g: &mut G) -> String {
    match g.n(61) % 15 {
        10..=13 => format!("t{}", g.n(5)),
        14 => "long ".repeat([60, 15_000][g.n(2)]),
        0 => "a".into(),
        1 => "".into(),
        2 => "b".into(),
        3 => "Z\u{e9}\u{4e2d}".into(),
        4 => "x".repeat(50),
        5 => format!("{}{}", "y".repeat(50), g.n(3)),
        6 => "\"q\\\n\t\u{1}".into(),
        7 => format!("s{}", g.n(20)),
        8 => "a\u{7f}".into(),
        _ => "ab".into(),
    }
}

/// Strings that can be index keys: at most 50 bytes, no trailing NUL.
fn key_text(g: &mut G) -> String {
    match g.n(9) {
        0 => "a".into(),
        1 => "".into(),
        2 => "b".into(),
        3 => "\u{e9}\u{4e2d}".into(),
        4 => "x".repeat(50),
        5 => "ab".into(),
        6 => format!("k{:02}", g.n(30)),
        7 => "x".repeat(49),
        _ => "\u{10ffff}z".into(),
    }
}

pub fn f32_value(g: &mut G) -> f64 {
    let v: f32 = *g.pick(&[0.0f32, 1.5, -1.5, 0.25, 1e30, -1e30, f32::MAX, f32::MIN, 3.0, f32::MIN_POSITIVE]);
    v as f64
}

pub fn tape_value(k: Kind) -> Value {
    value(&mut G::tape(), k, true)
}

fn value(g: &mut G, k: Kind, key: bool) -> Value {
    let small = g.n(6) as i64;
    let ext = g.b(1, 4);
    match k {
        Bool => json!(g.b(1, 2)),
        ULong => {
            if ext {
                json!(*g.pick(&[u64::MAX, u64::MAX - 1, 1 << 53, i64::MAX as u64]))
            } else {
                json!(small as u64)
            }
        }
        Long => {
            if ext {
                json!(*g.pick(&[i64::MIN, i64::MAX, -1, i64::MIN + 1, i64::MAX - 1]))
            } else {
                json!(small - 3)
            }
        }
        Double => {
            if ext {
                json!(*g.pick(&[f64::MAX, f64::MIN, -0.5, 5e-324, 1e-300, 123456.789]))
            } else {
                json!(small as f64 + *g.pick(&[0.5, 0.25, 0.1]))
            }
        }
        Str => {
            if key {
                json!(key_text(g))
            } else {
                json!(text(g))
            }
        }
        Date => json!(*g.pick(&[
            "2020-01-01T00:00:00Z",
            "1970-01-01T00:00:00Z",
            "2020-01-01T00:00:00.5Z",
            "2021-06-01T12:00:00+02:00",
            "2021-06-01T10:00:00Z",
            "1969-12-31T23:59:59Z",
            "1900-02-28T06:07:08.123456789Z",
            "9999-12-31T23:59:59Z",
            "2024-02-29T23:59:59.999-11:30",
        ])),
        Json => match g.n(4) {
            0 => json!([1, 2, "x"]),
            1 => json!({"k": {"n": [null, true, -1.5]}}),
            2 => json!([]),
            _ => json!({}),
        },
        Int => {
            if ext {
                json!(*g.pick(&[i32::MIN, i32::MAX, -1, i32::MAX - 1]))
            } else {
                json!(small - 3)
            }
        }
        UInt => {
            if ext {
                json!(*g.pick(&[u32::MAX, u32::MAX - 1, 1 << 31]))
            } else {
                json!(small)
            }
        }
        Short => {
            if ext {
                json!(*g.pick(&[i16::MIN, i16::MAX, -1]))
            } else {
                json!(small - 3)
            }
        }
        UShort => {
            if ext {
                json!(*g.pick(&[u16::MAX, 256, 1 << 15]))
            } else {
                json!(small)
            }
        }
        Byte => {
            if ext {
                json!(*g.pick(&[i8::MIN, i8::MAX, -1]))
            } else {
                json!(small - 3)
            }
        }
        UByte => {
            if ext {
                json!(*g.pick(&[u8::MAX, 128, 127]))
            } else {
                json!(small)
            }
        }
        Float => json!(f32_value(g)),
        Binary => json!(text(g)),
    }
}

// ---------------------------------------------------------------- geometry

struct Ctx<'a> {
    nv: usize,
    /// how many materials, textures, texture vertices there are
    mats: usize,
    texs: usize,
    tverts: usize,
    sem: &'a [(String, Kind)],
    templates: usize,
}

fn ring(g: &mut G, c: &Ctx) -> Value {
    let n = [3, 4, 5, 1, 2][g.n(5)];
    Value::Array((0..n).map(|_| json!(g.n(c.nv))).collect())
}
fn surface(g: &mut G, c: &Ctx) -> Value {
    let n = 1 + [0, 0, 1, 2][g.n(4)];
    Value::Array((0..n).map(|_| ring(g, c)).collect())
}
fn shell(g: &mut G, c: &Ctx) -> Value {
    let n = 1 + g.n(3);
    Value::Array((0..n).map(|_| surface(g, c)).collect())
}
fn solid(g: &mut G, c: &Ctx) -> Value {
    let n = 1 + [0, 0, 1, 2][g.n(4)];
    Value::Array((0..n).map(|_| shell(g, c)).collect())
}

/// Replaces every value at `depth` (0: the value itself) by what `f` gives.
fn map_depth(v: &Value, depth: usize, f: &mut dyn FnMut(&Value) -> Value) -> Value {
    if depth == 0 {
        return f(v);
    }
    Value::Array(
        v.as_array()
            .unwrap()
            .iter()
            .map(|x| map_depth(x, depth - 1, f))
            .collect(),
    )
}

pub const SURFACE_TYPES: [&str; 21] = [
    "RoofSurface",
    "GroundSurface",
    "WallSurface",
    "ClosureSurface",
    "OuterCeilingSurface",
    "OuterFloorSurface",
    "Window",
    "Door",
    "InteriorWallSurface",
    "CeilingSurface",
    "FloorSurface",
    "WaterSurface",
    "WaterGroundSurface",
    "WaterClosureSurface",
    "TrafficArea",
    "AuxiliaryTrafficArea",
    "TransportationMarking",
    "TransportationHole",
    "+ThermalSurface",
    // types the format has no value for
    "SolarPanel",
    "ExtraSemanticSurface",
];

pub const OBJECT_TYPES: [&str; 36] = [
    "Building",
    "BuildingPart",
    "Bridge",
    "BridgePart",
    "BridgeInstallation",
    "BridgeConstructiveElement",
    "BridgeRoom",
    "BridgeFurniture",
    "BuildingInstallation",
    "BuildingConstructiveElement",
    "BuildingFurniture",
    "BuildingStorey",
    "BuildingRoom",
    "BuildingUnit",
    "CityFurniture",
    "CityObjectGroup",
    "GenericCityObject",
    "LandUse",
    "OtherConstruction",
    "PlantCover",
    "SolitaryVegetationObject",
    "TINRelief",
    "Road",
    "Railway",
    "Waterway",
    "TransportSquare",
    "Tunnel",
    "TunnelPart",
    "TunnelInstallation",
    "TunnelConstructiveElement",
    "TunnelHollowSpace",
    "TunnelFurniture",
    "WaterBody",
    "+NoiseBuilding",
    // types the format has no value for
    "WindTurbine",
    "ExtensionObject",
];

/// A geometry that is not an instance. `simple_nesting` avoids nothing: every shape is legal CityJSON.
fn geometry(g: &mut G, c: &Ctx) -> Value {
    // depth: levels of arrays above a surface
    let (ty, bounds, surf_depth): (&str, Value, Option<usize>) = match g.n(7) {
        0 => {
            let n = 1 + g.n(3);
            (
                "MultiSurface",
                Value::Array((0..n).map(|_| surface(g, c)).collect()),
                Some(1),
            )
        }
        1 => ("Solid", solid(g, c), Some(2)),
        2 => {
            let n = 1 + g.n(3);
            (
                "MultiPoint",
                Value::Array((0..n).map(|_| json!(g.n(c.nv))).collect()),
                None,
            )
        }
        3 => {
            let n = 1 + g.n(3);
            (
                "MultiLineString",
                Value::Array((0..n).map(|_| ring(g, c)).collect()),
                None,
            )
        }
        4 => ("CompositeSurface", shell(g, c), Some(1)),
        k => {
            let n = 1 + g.n(3);
            (
                if k == 5 { "MultiSolid" } else { "CompositeSolid" },
                Value::Array((0..n).map(|_| solid(g, c)).collect()),
                Some(3),
            )
        }
    };
    let mut o = Map::new();
    o.insert("type".into(), json!(ty));
    if !g.b(1, 8) {
        o.insert("lod".into(), json!(*g.pick(&["1", "2.2", "0", "1.2"])));
    }
    o.insert("boundaries".into(), bounds.clone());
    if let Some(d) = surf_depth {
        if g.b(1, 3) {
            let n = 1 + g.n(3);
            let surfaces: Vec<Value> = (0..n)
                .map(|i| {
                    let mut s = Map::new();
                    s.insert("type".into(), json!(SURFACE_TYPES[g.n(SURFACE_TYPES.len())]));
                    if g.b(1, 4) {
                        s.insert("parent".into(), json!(g.n(n)));
                    }
                    if g.b(1, 4) {
                        s.insert(
                            "children".into(),
                            Value::Array((0..1 + g.n(2)).map(|_| json!(g.n(n))).collect()),
                        );
                    }
                    for (name, kind) in c.sem {
                        if g.b(1, 2) {
                            s.insert(name.clone(), value(g, *kind, false));
                        }
                    }
                    let _ = i;
                    Value::Object(s)
                })
                .collect();
            let values = map_depth(&bounds, d, &mut |_| {
                if g.b(1, 4) {
                    Value::Null
                } else {
                    json!(g.n(n))
                }
            });
            o.insert("semantics".into(), json!({"surfaces": surfaces, "values": values}));
        }
        if c.mats > 0 && g.b(1, 2) {
            let mut m = Map::new();
            for t in 0..1 + g.n(2) {
                let r = if g.b(1, 2) {
                    json!({"value": g.n(c.mats)})
                } else {
                    let values = map_depth(&bounds, d, &mut |_| {
                        if g.b(1, 4) {
                            Value::Null
                        } else {
                            json!(g.n(c.mats))
                        }
                    });
                    json!({ "values": values })
                };
                m.insert(format!("theme{}", t), r);
            }
            o.insert("material".into(), Value::Object(m));
        }
        if c.texs > 0 && c.tverts > 0 && g.b(1, 2) {
            let mut m = Map::new();
            for t in 0..1 + g.n(2) {
                let values = map_depth(&bounds, d + 1, &mut |r| {
                    if g.b(1, 4) {
                        json!([null])
                    } else {
                        let mut v = vec![json!(g.n(c.texs))];
                        for _ in 0..r.as_array().unwrap().len() {
                            v.push(json!(g.n(c.tverts)));
                        }
                        Value::Array(v)
                    }
                });
                m.insert(format!("tex{}", t), json!({ "values": values }));
            }
            o.insert("texture".into(), Value::Object(m));
        }
    }
    Value::Object(o)
}

fn instance(g: &mut G, c: &Ctx) -> Value {
    let m: Vec<Value> = (0..16)
        .map(|i| {
            if i % 5 == 0 {
                json!(*g.pick(&[1.0, 2.5, -0.125]))
            } else {
                json!(*g.pick(&[0.0, 0.5, -3.0, 0.1 + i as f64]))
            }
        })
        .collect();
    json!({"type": "GeometryInstance", "template": g.n(c.templates), "boundaries": [g.n(c.nv)], "transformationMatrix": m})
}

fn colour(g: &mut G, n: usize) -> Value {
    Value::Array((0..n).map(|_| json!(*g.pick(&[0.0, 1.0, 0.5, 0.1]))).collect())
}

/// (appearance, materials, textures, texture vertices)
fn appearance(g: &mut G) -> (Value, usize, usize, usize) {
    // many parts are not drawn one by one
    let much = g.b(1, 20);
    let mut other = G::expanded_if(much);
    let g = if much { &mut other } else { g };
    let mut a = Map::new();
    let (mut nm, mut nt, mut nv) = (0, 0, 0);
    if !g.b(1, 4) {
        nm = if much && g.b(1, 2) { 300 } else { 1 + g.n(3) };
        let m: Vec<Value> = (0..nm)
            .map(|i| {
                let mut m = Map::new();
                m.insert("name".into(), json!(format!("m{}", i)));
                for k in ["ambientIntensity", "shininess", "transparency"] {
                    if g.b(1, 2) {
                        m.insert(k.into(), json!(*g.pick(&[0.0, 1.0, 0.2])));
                    }
                }
                for k in ["diffuseColor", "emissiveColor", "specularColor"] {
                    if g.b(1, 2) {
                        m.insert(k.into(), colour(g, 3));
                    }
                }
                if g.b(1, 2) {
                    m.insert("isSmooth".into(), json!(g.b(1, 2)));
                }
                Value::Object(m)
            })
            .collect();
        a.insert("materials".into(), Value::Array(m));
    }
    if !g.b(1, 4) {
        nt = if much && g.b(1, 2) { 300 } else { 1 + g.n(2) };
        let t: Vec<Value> = (0..nt)
            .map(|i| {
                let mut t = Map::new();
                t.insert("type".into(), json!(*g.pick(&["PNG", "JPG"])));
                t.insert("image".into(), json!(format!("img/{}.png", i)));
                if g.b(1, 2) {
                    t.insert(
                        "wrapMode".into(),
                        json!(*g.pick(&["none", "wrap", "mirror", "clamp", "border"])),
                    );
                }
                if g.b(1, 2) {
                    t.insert(
                        "textureType".into(),
                        json!(*g.pick(&["unknown", "specific", "typical"])),
                    );
                }
                if g.b(1, 2) {
                    t.insert("borderColor".into(), colour(g, 4));
                }
                Value::Object(t)
            })
            .collect();
        a.insert("textures".into(), Value::Array(t));
        nv = if much && g.b(1, 2) { *g.pick(&[300, 300, 300, 70_000]) } else { 1 + g.n(4) };
        let v: Vec<Value> = (0..nv).map(|_| colour(g, 2)).collect();
        a.insert("vertices-texture".into(), Value::Array(v));
    }
    if g.b(1, 3) {
        a.insert("default-theme-texture".into(), json!("tex0"));
    }
    if g.b(1, 3) {
        a.insert("default-theme-material".into(), json!("theme0"));
    }
    (Value::Object(a), nm, nt, nv)
}

fn extent(g: &mut G) -> [f64; 6] {
    let mut e = [0.0; 6];
    for (i, x) in e.iter_mut().enumerate() {
        *x = *g.pick(&[0.0, 1.5, -10.25, 84000.1, 1e7]) + if i >= 3 { 1.0 } else { 0.0 };
    }
    e
}

// ---------------------------------------------------------------- the dataset

pub fn dataset(p: &Profile) -> Dataset {
    let class = core::w(16);
    let (n, mut g) = match class {
        13 if p.many => (17 + core::w(24), G::expanded()),
        14 if p.many => (41 + core::w(80), G::expanded()),
        15 if p.many => (
            if core::wb(1, 4) {
                1000 + core::w(400)
            } else {
                257 + core::w(200)
            },
            G::expanded(),
        ),
        _ => (core::w(p.max_small + 1), G::tape()),
    };
    let n = if p.spatial && n == 0 { 1 } else { n };
    let tiny = n > 40;
    build(p, n, tiny, &mut g)
}

pub fn build(p: &Profile, n: usize, tiny: bool, g: &mut G) -> Dataset {
    // columns
    let mode = if p.guess {
        SchemaMode::Guess
    } else if p.attrs == 1 {
        *g.pick(&[SchemaMode::Explicit, SchemaMode::Guess])
    } else {
        *g.pick(&[
            SchemaMode::Guess,
            SchemaMode::Explicit,
            SchemaMode::Partial,
            SchemaMode::None,
        ])
    };
    let kinds: &[Kind] = if mode == SchemaMode::Guess {
        &GUESSABLE
    } else {
        &ALL_KINDS
    };
    let ncols = match p.attrs {
        2 => 0,
        1 => 1 + g.n(4),
        _ => g.n(6),
    };
    let mut cols: Vec<Col> = (0..ncols)
        .map(|i| {
            let kind = kinds[g.n(kinds.len())];
            let np = 1 + g.n(6);
            let mut pool: Vec<Value> = (0..np).map(|_| value(g, kind, p.attrs == 1)).collect();
            // a guessed signed or fractional column must show its type in every value,
            // unless mixed columns are wanted (below)
            if mode == SchemaMode::Guess && kind == Long {
                if p.attrs == 1 || !g.b(1, 3) {
                    for v in pool.iter_mut() {
                        if v.as_i64().is_some_and(|x| x >= 0) {
                            *v = json!(-1 - (v.as_i64().unwrap() / 2));
                        }
                    }
                } else {
                    core::probe("mixed-column");
                    pool.push(json!(7));
                    pool.push(json!(-7));
                }
            }
            Col {
                name: format!("{}_{}", ["col", "b", "\u{e9}t", "Z z"][g.n(4)], i),
                kind,
                pool,
            }
        })
        .collect();
    if p.attrs == 0 && mode == SchemaMode::Guess && g.b(1, 12) {
        core::probe("mixed-column");
        let pool = [
            vec![json!(3), json!(3.5), json!(-4)],
            vec![json!("a"), json!(1), json!(true)],
            vec![json!("2020-01-01T00:00:00Z"), json!("soon"), json!("")],
            vec![json!([1]), json!("x"), json!(2)],
            // integers between and beyond the ones a double column holds
            vec![
                json!(0.5),
                json!(3),
                json!(9007199254740993u64),
                json!(-9007199254740993i64),
                json!(u64::MAX),
                json!(i64::MIN),
            ],
        ][g.n(5)]
        .clone();
        cols.push(Col {
            name: "mixed".into(),
            kind: Kind::Json,
            pool,
        });
    }

    // semantic attributes need a full semantic schema
    let sem_kinds: Vec<(String, Kind)> = if p.geometry && g.b(1, 3) {
        (0..1 + g.n(3))
            .map(|i| (format!("sem{}", i), [Str, ULong, Double, Bool, Long, Int, Date, Json][g.n(8)]))
            .collect()
    } else {
        vec![]
    };
    let sem = if sem_kinds.is_empty() {
        None
    } else {
        Some(
            sem_kinds
                .iter()
                .enumerate()
                .map(|(i, (n, k))| (n.clone(), i as u16, k.column()))
                .collect(),
        )
    };

    // transform and placement
    let scale = *g.pick(&[1.0, 0.001, 0.5, 0.01, 0.25]);
    let scales = if g.b(1, 3) {
        core::probe("uneven-scale");
        [scale, *g.pick(&[0.001, 0.5, 0.01, 2.0, 1.0]), *g.pick(&[1.0, 0.01, 0.0001])]
    } else {
        [scale, scale, 0.001]
    };
    let translate = *g.pick(&[[0.0, 0.0, 0.0], [84000.0, 446000.0, -5.0], [-1000.5, 250.25, 3.125], [84000.0, 446000.0, -5.0]]);
    let layout = g.n(5);

    // the header
    let mut cj = Map::new();
    cj.insert("type".into(), json!("CityJSON"));
    cj.insert("version".into(), json!(*g.pick(&["2.0", "1.1", "2.0.1"])));
    cj.insert("CityObjects".into(), json!({}));
    cj.insert("vertices".into(), json!([]));
    cj.insert(
        "transform".into(),
        json!({"scale": scales, "translate": translate}),
    );
    let mut templates = 0;
    if p.meta {
        if !g.b(1, 4) {
            let mut m = Map::new();
            if g.b(1, 2) {
                m.insert("geographicalExtent".into(), json!(extent(g)));
            }
            for k in ["identifier", "title", "referenceDate"] {
                if g.b(1, 2) {
                    let t = if k == "referenceDate" {
                        "1977-02-28".to_string()
                    } else {
                        text(g)
                    };
                    m.insert(k.into(), json!(t));
                }
            }
            if g.b(1, 2) {
                m.insert(
                    "referenceSystem".into(),
                    json!(format!(
                        "https://www.opengis.net/def/crs/{}/{}/{}",
                        *g.pick(&["EPSG", "OGC"]),
                        g.n(3),
                        *g.pick(&[
                            "7415",
                            "4326",
                            "0",
                            "2147483647",
                            "CRS84",
                            "2147483648",
                            "007",
                            "-1",
                            "cr\u{e9}"
                        ])
                    )),
                );
            }
            if g.b(1, 2) {
                let mut poc = Map::new();
                poc.insert("contactName".into(), json!(text(g)));
                poc.insert("emailAddress".into(), json!(text(g)));
                for k in ["contactType", "role", "phone", "website"] {
                    if g.b(1, 2) {
                        poc.insert(k.into(), json!(text(g)));
                    }
                }
                if g.b(1, 2) {
                    poc.insert(
                        "address".into(),
                        json!({"thoroughfareNumber": *g.pick(&[1i64, -4, i64::MAX]), "thoroughfareName": text(g),
                               "locality": text(g), "postalCode": "2628 BL", "country": "NL"}),
                    );
                }
                m.insert("pointOfContact".into(), Value::Object(poc));
            }
            cj.insert("metadata".into(), Value::Object(m));
        }
        let mut mats = (0, 0, 0);
        if g.b(1, 3) {
            let (a, m, t, v) = appearance(g);
            cj.insert("appearance".into(), a);
            mats = (m, t, v);
        }
        if g.b(1, 3) {
            let much = g.b(1, 30);
            templates = if much { 300 } else { 1 + g.n(3) };
            let nv = 1 + g.n(6);
            let c = Ctx {
                nv,
                mats: mats.0,
                texs: mats.1,
                tverts: mats.2,
                sem: &sem_kinds,
                templates: 0,
            };
            let many = &mut G::expanded_if(much);
            let t: Vec<Value> = (0..templates).map(|_| geometry(if much { many } else { g }, &c)).collect();
            let v: Vec<Value> = (0..nv)
                .map(|_| json!([g.n(10) as f64 * 0.5, g.n(10) as f64 - 3.25, 0.0]))
                .collect();
            cj.insert(
                "geometry-templates".into(),
                json!({"templates": t, "vertices-templates": v}),
            );
        }
    }

    // features
    let big_at = if p.big && n > 0 && core::wb(1, 12) {
        Some((core::w(n), if core::wb(1, 10) { 1_200_000 } else { 70_000 }))
    } else {
        None
    };
    let feats: Vec<Value> = (0..n)
        .map(|i| {
            let mut f = feature(p, i, n, tiny, g, &cols, &sem_kinds, templates, layout);
            if let Some((at, size)) = big_at {
                if at == i {
                    core::probe(if size > 1_000_000 { "huge-feature" } else { "big-feature" });
                    let v = f["vertices"].as_array_mut().unwrap();
                    let base = v.first().cloned().unwrap_or(json!([0, 0, 0]));
                    let filler = vec![base; size / 12];
                    if v.is_empty() || !g.b(1, 2) {
                        v.extend(filler);
                    } else {
                        // the vertices in use are the last ones
                        core::probe("high-vertex-numbers");
                        v.splice(0..0, filler);
                        each_geometry(&mut f, &mut |geom| shift(&mut geom["boundaries"], size / 12));
                    }
                }
            }
            if p.big && p.geometry && !tiny && g.b(1, 40) {
                inflate(g, &mut f);
            }
            f
        })
        .collect();

    // schema and options
    let mut explicit: Vec<(String, u16, ColumnType)> = vec![];
    if matches!(mode, SchemaMode::Explicit | SchemaMode::Partial) {
        let mut order: Vec<usize> = (0..cols.len()).collect();
        for i in (1..order.len()).rev() {
            let k = g.n(i + 1);
            order.swap(i, i - k);
        }
        for (i, c) in order.iter().enumerate() {
            if mode == SchemaMode::Partial && g.b(1, 3) {
                continue;
            }
            let _ = i;
            let at = explicit.len() as u16;
            explicit.push((cols[*c].name.clone(), at, cols[*c].kind.column()));
        }
    }
    // a schema wider than a byte can count, the columns in use spread over it
    if !explicit.is_empty() && g.b(1, 24) {
        let step = 290 / (explicit.len() - 1).max(1);
        for (_, at, _) in explicit.iter_mut() {
            *at = *at * step as u16 + 7;
        }
        let used: Vec<u16> = explicit.iter().map(|(_, at, _)| *at).collect();
        for at in (0..310).filter(|at| !used.contains(at)) {
            explicit.push((format!("unused {}", at), at, ColumnType::UByte));
        }
    }
    let mut indexed = vec![];
    for c in &cols {
        let want = if p.attrs == 1 {
            c.kind.indexable() && !g.b(1, 6)
        } else {
            g.b(1, 3)
        };
        if want {
            let bf = *g.pick(&[None, Some(16u16), Some(3), Some(4), Some(256), Some(5), Some(2), Some(u16::MAX), Some(1), Some(0)]);
            indexed.push((c.name.clone(), bf));
            if g.b(1, 16) {
                core::probe("indexed-twice");
                indexed.push((c.name.clone(), *g.pick(&[bf, Some(7)])));
            }
        }
    }
    if g.b(1, 2) {
        indexed.reverse();
    }
    let true_count = g.n(3);
    let count = if p.true_count || true_count == 0 {
        Count::True
    } else if true_count == 1 {
        Count::Zero
    } else {
        Count::Wrong(*g.pick(&[1u64, n as u64 + 1, (n as u64).saturating_sub(1), u64::MAX, 1 << 40]))
    };
    let no_options = !p.true_count && p.attrs != 1 && p.index.is_none() && g.b(1, 12);
    let write_index = p.index.unwrap_or_else(|| !g.b(1, 3)) || no_options;
    Dataset {
        cj: Value::Object(cj),
        feats,
        cols,
        mode,
        explicit,
        sem,
        write_index,
        count: if no_options { Count::Zero } else { count },
        indexed: if no_options { vec![] } else { indexed },
        extent: if !no_options && p.meta && g.b(1, 5) { Some(extent(g)) } else { None },
        no_options,
    }
}

/// A dataset whose file has more than ten megabytes.
pub fn large() -> Dataset {
    let n = 2400usize;
    let col = |name: &str, kind, pool| Col {
        name: name.into(),
        kind,
        pool,
    };
    let when = |k: usize| json!(format!("20{:02}-{:02}-{:02}T00:00:00Z", k % 40, 1 + k % 12, 1 + k % 28));
    let cols = vec![
        col("num", ULong, (0..n).map(|k| json!(k)).collect()),
        col("grp", Str, (0..300).map(|k| json!(format!("group {}", k))).collect()),
        col("when", Date, (0..800).map(when).collect()),
        col("h", Double, (0..n).map(|k| json!(k as f64 * 0.25 - 50.5)).collect()),
        col("pad", Str, vec![json!("p".repeat(5000))]),
    ];
    let feats = (0..n)
        .map(|i| {
            let at = i * 1399 % n;
            let (x, y) = ((at % 60) as i64 * 100, (at / 60) as i64 * 100);
            let id = format!("L{}", i);
            let mut objs = Map::new();
            objs.insert(
                id.clone(),
                json!({"type": "Building", "attributes": {
                    "num": i * 7 % n, "grp": format!("group {}", i % 300), "when": when(i % 800),
                    "h": (i * 11 % n) as f64 * 0.25 - 50.5, "pad": "p".repeat(5000)}}),
            );
            json!({"type": "CityJSONFeature", "id": id, "CityObjects": objs,
                   "vertices": [[x, y, 0], [x + 50, y + 50, 10]]})
        })
        .collect();
    let explicit = cols.iter().enumerate().map(|(i, c)| (c.name.clone(), i as u16, c.kind.column())).collect();
    Dataset {
        cj: json!({"type": "CityJSON", "version": "2.0", "CityObjects": {}, "vertices": [],
                   "transform": {"scale": [0.5, 0.5, 0.5], "translate": [0.0, 0.0, 0.0]}}),
        feats,
        cols,
        mode: SchemaMode::Explicit,
        explicit,
        sem: None,
        write_index: true,
        count: Count::True,
        indexed: [("num", 16u16), ("grp", 16), ("when", 4), ("h", 64)]
            .iter()
            .map(|(n, b)| (n.to_string(), Some(*b)))
            .collect(),
        extent: None,
        no_options: false,
    }
}

/// A dataset with an index on a column of every kind, each with as many values as its type has
/// or hundreds: every index has several levels.
pub fn wide() -> Dataset {
    let n = 700usize;
    const KINDS: [(Kind, u16); 13] = [
        (Bool, 2),
        (ULong, 16),
        (Long, 3),
        (Double, 256),
        (Str, 4),
        (Date, 16),
        (Int, 2),
        (UInt, 5),
        (Short, 64),
        (UShort, 300),
        (Byte, 16),
        (UByte, 7),
        (Float, 16),
    ];
    let value = |k: Kind, i: usize| match k {
        Bool => json!(i % 3 == 0),
        ULong => json!(if i % 50 == 0 { u64::MAX - i as u64 } else { i as u64 * 3 }),
        UInt => json!(i as u32 * 6_000_000),
        UShort => json!(i as u16 * 90),
        UByte => json!(i as u8),
        Long => json!((i as i64 - 350) * 25_000_000_000_000_000),
        Int => json!((i as i32 - 350) * 6_000_000),
        Short => json!((i as i16 - 350) * 90),
        Byte => json!(i as u8 as i8),
        Double => json!((i as f64 - 350.0) * 1e10 + 0.5),
        Float => json!((i as f64 - 350.0) * 0.25),
        Str => match i % 20 {
            0 => json!(format!("{}{}", "longer than the index keeps, so that they are equal".repeat(2), i)),
            1 => json!("\u{e9}".repeat(i / 20)),
            _ => json!(format!("v{}", i)),
        },
        Date => json!(format!("{:04}-{:02}-{:02}T0{}:00:00.{:03}Z", 1700 + i, 1 + i % 12, 1 + i % 28, i % 10, i)),
        Json | Binary => unreachable!(),
    };
    let cols: Vec<Col> = KINDS
        .iter()
        .map(|(k, _)| Col {
            name: format!("{:?}", k),
            kind: *k,
            pool: (0..n).map(|i| value(*k, i)).collect(),
        })
        .collect();
    let feats = (0..n)
        .map(|i| {
            let id = format!("W{}", i);
            let mut objs = Map::new();
            for k in 0..1 + i % 3 / 2 {
                let mut a = Map::new();
                for (j, (kind, _)) in KINDS.iter().enumerate() {
                    // most values belong to one feature, some to several, some to none
                    let at = (i * (2 * j + 3) + k * 77) % n;
                    let at = if at % 11 == 0 { at / 22 * 2 } else { at };
                    a.insert(format!("{:?}", kind), value(*kind, at));
                }
                objs.insert(format!("{}-{}", id, k), json!({"type": "Building", "attributes": a}));
            }
            let (x, y) = ((i % 27) as i64 * 100, (i / 27) as i64 * 100);
            json!({"type": "CityJSONFeature", "id": id, "CityObjects": objs,
                   "vertices": [[x, y, 0], [x + 50, y + 50, 10]]})
        })
        .collect();
    let explicit = cols.iter().enumerate().map(|(i, c)| (c.name.clone(), i as u16, c.kind.column())).collect();
    Dataset {
        cj: json!({"type": "CityJSON", "version": "2.0", "CityObjects": {}, "vertices": [],
                   "transform": {"scale": [0.5, 0.5, 0.5], "translate": [0.0, 0.0, 0.0]}}),
        feats,
        indexed: cols.iter().zip(KINDS).map(|(c, (_, b))| (c.name.clone(), Some(b))).collect(),
        cols,
        mode: SchemaMode::Explicit,
        explicit,
        sem: None,
        write_index: true,
        count: Count::True,
        extent: None,
        no_options: false,
    }
}

#[allow(clippy::too_many_arguments)]
fn feature(
    p: &Profile,
    i: usize,
    n: usize,
    tiny: bool,
    g: &mut G,
    cols: &[Col],
    sem: &[(String, Kind)],
    templates: usize,
    layout: usize,
) -> Value {
    let id = if i > 0 && g.b(1, 8) {
        format!("{}-{}", ["\u{fc}", "a/b", "x y", "0"][g.n(4)], i)
    } else {
        format!("f{}", i)
    };
    // vertices
    let nv = if p.spatial || p.geometry {
        if tiny {
            1 + g.n(2)
        } else if !p.spatial && g.b(1, 10) {
            0
        } else {
            1 + g.n(5)
        }
    } else {
        g.n(3)
    };
    let side = (n as f64).sqrt().ceil() as i64;
    let (bx, by): (i64, i64) = match layout {
        0 => (10 * g.n(8) as i64, 10 * g.n(8) as i64),
        1 => ((i as i64 % side) * 10, (i as i64 / side) * 10),
        2 => {
            let c = g.n(3) as i64;
            (c * 100_000 + g.n(50) as i64, c * 50_000 + g.n(50) as i64)
        }
        3 => (
            g.n(2_000_000) as i64 - 1_000_000,
            g.n(2_000_000) as i64 - 1_000_000,
        ),
        _ => (0, 0),
    };
    let spread = [1usize, 10, 11, 21, 60][g.n(5)];
    let verts: Vec<Value> = (0..nv)
        .map(|k| {
            if !p.spatial && k == 0 && g.b(1, 20) {
                json!([i32::MAX, i32::MIN, 0])
            } else {
                json!([bx + g.n(spread) as i64, by + g.n(spread) as i64, g.n(30) as i64 - 5])
            }
        })
        .collect();
    let mut f = Map::new();
    f.insert("type".into(), json!("CityJSONFeature"));
    f.insert("id".into(), json!(id));
    f.insert("vertices".into(), Value::Array(verts));
    let mut mats = (0, 0, 0);
    if p.geometry && !tiny && g.b(1, 4) {
        let (a, m, t, v) = appearance(g);
        f.insert("appearance".into(), a);
        mats = (m, t, v);
    }
    let ctx = Ctx {
        nv: nv.max(1),
        mats: mats.0,
        texs: mats.1,
        tverts: mats.2,
        sem,
        templates,
    };
    let nobj = if tiny {
        1
    } else if p.attrs == 1 {
        1 + [0, 0, 0, 1, 2][g.n(5)]
    } else {
        [1, 1, 1, 2, 3, 0][g.n(6)]
    };
    let mut objs = Map::new();
    let oid = |k: usize| if k == 0 { id.clone() } else { format!("{}-{}", id, k) };
    for k in 0..nobj {
        let mut o = Map::new();
        o.insert("type".into(), json!(OBJECT_TYPES[g.n(OBJECT_TYPES.len())]));
        if k == 0 && nobj > 1 {
            o.insert("children".into(), Value::Array((1..nobj).map(|j| json!(oid(j))).collect()));
            if g.b(1, 4) {
                o.insert(
                    "children_roles".into(),
                    Value::Array((1..nobj).map(|j| json!(format!("role{}", j))).collect()),
                );
            }
        }
        if k > 0 {
            o.insert("parents".into(), json!([oid(0)]));
        }
        if g.b(1, 5) {
            o.insert("geographicalExtent".into(), json!(extent(g)));
        }
        if !cols.is_empty() && !g.b(1, 8) {
            let mut a = Map::new();
            for c in cols {
                let r = g.n(if p.attrs == 1 { 10 } else { 6 });
                if r == 1 {
                    continue;
                }
                if r == 2 {
                    a.insert(c.name.clone(), Value::Null);
                    continue;
                }
                a.insert(c.name.clone(), g.pick(&c.pool).clone());
            }
            if p.attrs == 0 && g.b(1, 12) {
                // an attribute no schema knows
                a.insert("extra".into(), value(g, Str, false));
            }
            o.insert("attributes".into(), Value::Object(a));
        }
        if p.geometry && nv > 0 && !g.b(1, 6) {
            let ng = if tiny { 1 } else { g.n(3) };
            let mut gs: Vec<Value> = if tiny {
                vec![json!({"type": "MultiPoint", "lod": "1", "boundaries": [0]})]
            } else {
                (0..ng).map(|_| geometry(g, &ctx)).collect()
            };
            if templates > 0 && g.b(1, 3) {
                gs.push(instance(g, &ctx));
            }
            o.insert("geometry".into(), Value::Array(gs));
        }
        objs.insert(oid(k), Value::Object(o));
    }
    f.insert("CityObjects".into(), Value::Object(objs));
    Value::Object(f)
}

// ---------------------------------------------------------------- unusual counts

fn each_geometry(f: &mut Value, go: &mut dyn FnMut(&mut Value)) {
    for (_, o) in f["CityObjects"].as_object_mut().unwrap() {
        if let Some(gs) = o.get_mut("geometry").and_then(Value::as_array_mut) {
            gs.iter_mut().for_each(&mut *go);
        }
    }
}

/// Adds `by` to every number.
fn shift(v: &mut Value, by: usize) {
    match v {
        Value::Array(a) => a.iter_mut().for_each(|x| shift(x, by)),
        Value::Number(n) => *v = json!(n.as_u64().unwrap() + by as u64),
        _ => {}
    }
}

fn repeat(v: &mut Value, times: usize) {
    if let Value::Array(a) = v {
        let one = a.clone();
        a.reserve(one.len() * times);
        for _ in 1..times {
            a.extend(one.iter().cloned());
        }
    }
}

/// Gives a feature more of something than a byte, or sometimes two bytes, can count.
fn inflate(g: &mut G, f: &mut Value) {
    let how = g.n(8);
    let times = *g.pick(&[257usize, 300, 512, 70_000]);
    let few = times.min(512);
    let mut done = false;
    match how {
        // members of a geometry, with everything that is parallel to them
        0 | 1 | 2 => each_geometry(f, &mut |geom| {
            if done || geom["type"] == "GeometryInstance" {
                return;
            }
            let size = geom.to_string().len();
            let times = if size * times < 2_000_000 { times } else { few };
            repeat(&mut geom["boundaries"], times);
            if let Some(v) = geom.get_mut("semantics").and_then(|s| s.get_mut("values")) {
                repeat(v, times);
            }
            for k in ["material", "texture"] {
                if let Some(themes) = geom.get_mut(k).and_then(Value::as_object_mut) {
                    themes.values_mut().filter_map(|t| t.get_mut("values")).for_each(|v| repeat(v, times));
                }
            }
            done = true;
        }),
        // a long ring or line
        3 => each_geometry(f, &mut |geom| {
            if done || geom["type"] == "GeometryInstance" || geom.get("texture").is_some() {
                return;
            }
            let mut v = &mut geom["boundaries"];
            while v[0].is_array() {
                v = &mut v[0];
            }
            repeat(v, times);
            done = true;
        }),
        // a surface with many rings
        4 => each_geometry(f, &mut |geom| {
            if done || geom["type"] == "GeometryInstance" || geom.get("texture").is_some() {
                return;
            }
            let mut v = &mut geom["boundaries"];
            if !v[0].is_array() || !v[0][0].is_array() {
                return;
            }
            while v[0][0].is_array() {
                v = &mut v[0];
            }
            repeat(v, few);
            done = true;
        }),
        // semantic surfaces of which the last are in use
        5 => each_geometry(f, &mut |geom| {
            let Some(s) = geom.get_mut("semantics").filter(|_| !done) else {
                return;
            };
            shift(&mut s["values"], few);
            let list = s["surfaces"].as_array_mut().unwrap();
            for x in list.iter_mut() {
                for k in ["parent", "children"] {
                    if let Some(x) = x.get_mut(k) {
                        shift(x, few);
                    }
                }
            }
            list.splice(0..0, vec![json!({"type": "RoofSurface"}); few]);
            done = true;
        }),
        // geometries of an object
        6 => {
            for (_, o) in f["CityObjects"].as_object_mut().unwrap() {
                if let Some(gs) = o.get_mut("geometry").filter(|gs| !done && gs.to_string().len() < 4000) {
                    repeat(gs, few);
                    done = true;
                }
            }
        }
        // objects, and children of one
        _ => {
            let objs = f["CityObjects"].as_object_mut().unwrap();
            if let Some((id, mut o)) = objs.iter().next().map(|(k, v)| (k.clone(), v.clone())) {
                let o = o.as_object_mut().unwrap();
                let names: Vec<Value> = (0..few).map(|k| json!(format!("{id}+{k}"))).collect();
                for k in ["children", "children_roles"] {
                    o.shift_remove(k);
                }
                o.insert("parents".into(), json!([id]));
                if Value::Object(o.clone()).to_string().len() < 4000 {
                    for k in &names {
                        objs.insert(k.as_str().unwrap().into(), Value::Object(o.clone()));
                    }
                    let parent = objs[&id].as_object_mut().unwrap();
                    parent.shift_remove("children_roles");
                    parent.insert("children".into(), Value::Array(names));
                    done = true;
                }
            }
        }
    }
    if done {
        core::probe(["many-members", "many-members", "many-members", "long-ring", "many-rings", "many-semantics", "many-geometries", "many-objects"][how]);
    }
}

// ---------------------------------------------------------------- use

impl Dataset {
    pub fn cityjson(&self) -> CityJSON {
        serde_json::from_value(self.cj.clone()).expect("generated header")
    }
    pub fn features(&self) -> Vec<CityJSONFeature> {
        self.feats
            .iter()
            .map(|f| serde_json::from_value(f.clone()).expect("generated feature"))
            .collect()
    }
    pub fn schema(&self) -> Option<AttributeSchema> {
        match self.mode {
            SchemaMode::None => None,
            SchemaMode::Guess => {
                let mut s = AttributeSchema::new();
                for f in &self.feats {
                    // object order as in the text
                    for o in f["CityObjects"].as_object().unwrap().values() {
                        if let Some(a) = o.get("attributes") {
                            s.add_attributes(a);
                        }
                    }
                }
                Some(s)
            }
            _ => Some(
                self.explicit
                    .iter()
                    .map(|(n, i, t)| (n.clone(), (*i, *t)))
                    .collect(),
            ),
        }
    }
    pub fn sem_schema(&self) -> Option<AttributeSchema> {
        self.sem
            .as_ref()
            .map(|v| v.iter().map(|(n, i, t)| (n.clone(), (*i, *t))).collect())
    }
    pub fn options(&self) -> Option<HeaderWriterOptions> {
        if self.no_options {
            return None;
        }
        Some(HeaderWriterOptions {
            write_index: self.write_index,
            feature_count: match self.count {
                Count::True => self.feats.len() as u64,
                Count::Zero => 0,
                Count::Wrong(x) => x,
            },
            index_node_size: 16,
            attribute_indices: if self.indexed.is_empty() {
                None
            } else {
                Some(self.indexed.clone())
            },
            geographical_extent: self.extent,
        })
    }
    pub fn describe(&self) -> String {
        format!(
            "{} features, {} columns ({:?} schema), index={}, attribute indices={:?}, count={:?}",
            self.feats.len(),
            self.cols.len(),
            self.mode,
            self.write_index,
            self.indexed,
            self.count
        )
    }
    /// Canonical forms in insertion order.
    pub fn canon(&self) -> Vec<Value> {
        self.feats.iter().map(|f| canon_value(f.clone())).collect()
    }
    /// Real-world boxes in insertion order.
    pub fn boxes(&self) -> Vec<[f64; 4]> {
        let t = &self.cj["transform"];
        let s = |i: usize| t["scale"][i].as_f64().unwrap();
        let d = |i: usize| t["translate"][i].as_f64().unwrap();
        self.feats
            .iter()
            .map(|f| {
                let v = f["vertices"].as_array().unwrap();
                let get = |i: usize| v.iter().map(move |p| p[i].as_i64().unwrap());
                let mm = |i: usize| {
                    (
                        get(i).min().unwrap_or(0) as f64 * s(i) + d(i),
                        get(i).max().unwrap_or(0) as f64 * s(i) + d(i),
                    )
                };
                let (x0, x1) = mm(0);
                let (y0, y1) = mm(1);
                [x0, y0, x1, y1]
            })
            .collect()
    }
    /// coordinates computed from this dataset's transform are exact in f64
    pub fn exact_coords(&self) -> bool {
        let s = |i: usize| self.cj["transform"]["scale"][i].as_f64().unwrap();
        (0..2).all(|i| [2.0, 1.0, 0.5, 0.25].contains(&s(i)))
    }
}

// ---------------------------------------------------------------- canonical form

fn num(v: &mut Value) {
    match v {
        Value::Number(n) => {
            if let Some(f) = n.as_f64() {
                if n.is_f64() && f.fract() == 0.0 {
                    if (-9223372036854775808.0..9223372036854775808.0).contains(&f) {
                        *v = json!(f as i64);
                    } else if (0.0..18446744073709551616.0).contains(&f) {
                        *v = json!(f as u64);
                    }
                }
            }
        }
        Value::Array(a) => a.iter_mut().for_each(num),
        Value::Object(o) => o.values_mut().for_each(num),
        _ => {}
    }
}

fn empty(v: &Value) -> bool {
    match v {
        Value::Null => true,
        Value::Array(a) => a.is_empty(),
        Value::Object(o) => o.is_empty(),
        _ => false,
    }
}

fn canon_geometry(g: &mut Value) {
    let Some(o) = g.as_object_mut() else { return };
    if o.get("type") == Some(&json!("GeometryInstance")) {
        o.remove("lod");
    }
    for k in ["material", "texture", "semantics", "template", "transformationMatrix", "lod"] {
        if o.get(k).is_some_and(empty) {
            o.remove(k);
        }
    }
    if let Some(s) = o
        .get_mut("semantics")
        .and_then(|s| s.get_mut("surfaces"))
        .and_then(|s| s.as_array_mut())
    {
        for x in s {
            if let Some(x) = x.as_object_mut() {
                x.retain(|_, v| !v.is_null());
            }
        }
    }
}

/// Two features have the same content exactly when their canonical forms are equal.
pub fn canon_value(mut v: Value) -> Value {
    num(&mut v);
    let Some(f) = v.as_object_mut() else { return v };
    f.retain(|_, v| !v.is_null());
    if let Some(objs) = f.get_mut("CityObjects").and_then(|o| o.as_object_mut()) {
        for o in objs.values_mut() {
            let Some(o) = o.as_object_mut() else { continue };
            if let Some(a) = o.get_mut("attributes").and_then(|a| a.as_object_mut()) {
                a.retain(|_, v| !v.is_null());
            }
            if let Some(gs) = o.get_mut("geometry").and_then(|g| g.as_array_mut()) {
                for g in gs.iter_mut() {
                    canon_geometry(g);
                }
                // instances are stored apart, after the other geometries
                let inst = |g: &Value| g.get("type") == Some(&json!("GeometryInstance"));
                let (a, b): (Vec<Value>, Vec<Value>) = gs.drain(..).partition(|g| !inst(g));
                gs.extend(a);
                gs.extend(b);
            }
            for k in ["attributes", "geometry", "children", "parents", "children_roles"] {
                if o.get(k).is_some_and(empty) {
                    o.remove(k);
                }
            }
        }
    }
    if let Some(a) = f.get_mut("appearance") {
        canon_appearance(a);
    }
    if f.get("appearance").is_some_and(empty) {
        f.remove("appearance");
    }
    v
}

fn canon_appearance(a: &mut Value) {
    if let Some(a) = a.as_object_mut() {
        a.retain(|_, v| !empty(v));
    }
}

pub fn canon(f: &CityJSONFeature) -> Value {
    canon_value(serde_json::to_value(f).unwrap_or(json!("unserialisable")))
}

/// The header as a reader should return it, given what the writer was given.
pub fn canon_header(mut v: Value, extent: Option<[f64; 6]>) -> Value {
    num(&mut v);
    let o = v.as_object_mut().unwrap();
    o.retain(|_, v| !empty(v));
    o.entry("CityObjects").or_insert(json!({}));
    o.entry("vertices").or_insert(json!([]));
    let m = o.entry("metadata").or_insert(json!({}));
    let m = m.as_object_mut().unwrap();
    m.retain(|_, v| !v.is_null());
    if let Some(e) = extent {
        m.insert("geographicalExtent".into(), json!(e));
    }
    m.entry("geographicalExtent").or_insert(json!([0, 0, 0, 0, 0, 0]));
    for x in m.values_mut() {
        num(x);
    }
    if let Some(a) = o.get_mut("appearance") {
        canon_appearance(a);
        if empty(a) {
            o.remove("appearance");
        }
    }
    if let Some(t) = o
        .get_mut("geometry-templates")
        .and_then(|t| t.get_mut("templates"))
        .and_then(|t| t.as_array_mut())
    {
        for g in t {
            canon_geometry(g);
        }
    }
    v
}

/// Where two values first differ.
pub fn diff(a: &Value, b: &Value, path: &str) -> Option<String> {
    if a == b {
        return None;
    }
    match (a, b) {
        (Value::Object(x), Value::Object(y)) => {
            for (k, v) in x {
                match y.get(k) {
                    None => return Some(format!("{}/{} is missing (expected {})", path, k, short(v))),
                    Some(w) => {
                        if let Some(d) = diff(v, w, &format!("{}/{}", path, k)) {
                            return Some(d);
                        }
                    }
                }
            }
            for (k, w) in y {
                if !x.contains_key(k) {
                    return Some(format!("{}/{} is unexpected ({})", path, k, short(w)));
                }
            }
            None
        }
        (Value::Array(x), Value::Array(y)) if x.len() == y.len() => {
            for (i, (v, w)) in x.iter().zip(y).enumerate() {
                if let Some(d) = diff(v, w, &format!("{}/{}", path, i)) {
                    return Some(d);
                }
            }
            None
        }
        _ => Some(format!("{}: expected {}, got {}", path, short(a), short(b))),
    }
}

pub fn short(v: &Value) -> String {
    let s = v.to_string();
    if s.chars().count() > 120 {
        format!("{}...", s.chars().take(120).collect::<String>())
    } else {
        s
    }
}
