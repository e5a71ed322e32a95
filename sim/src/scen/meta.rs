//! C02: header, metadata and layout.

use super::prep;
use crate::core::{self, SResult, Viol};
use crate::gen::{self, Profile, SchemaMode};
use crate::io::{IoPlan, IoState, SimRead, SimSeek};
use crate::net::{self, Server, ServerCfg};
use crate::paths::{self, Ask, Retry};
use crate::{drive, ensure, exec, query, viol};
use fcb_core::deserializer::to_cj_metadata;
use fcb_core::{FcbReader, Header, HttpFcbReader};
use serde_json::Value;
use std::sync::Arc;

/// What a reader says about the file.
#[derive(PartialEq, Debug)]
pub struct Said {
    pub meta: Result<Value, String>,
    pub count: u64,
    pub node_size: u16,
    pub columns: Vec<(u16, String, u8)>,
    pub sem: Vec<(u16, String, u8)>,
    pub attr: Vec<(u16, u32, u32)>,
    info: Option<(u64, Option<Vec<(u16, String, u8)>>)>,
}

pub fn said(h: &Header) -> Said {
    let cols = |v: Option<_>| -> Vec<(u16, String, u8)> {
        let v: Option<flatbuffers::Vector<flatbuffers::ForwardsUOffset<fcb_core::Column>>> = v;
        v.map(|v| v.iter().map(|c| (c.index(), c.name().to_string(), c.type_().0)).collect()).unwrap_or_default()
    };
    Said {
        meta: to_cj_metadata(h)
            .map(|m| gen::canon_header(serde_json::to_value(m).unwrap(), None))
            .map_err(|e| e.to_string()),
        count: h.features_count(),
        node_size: h.index_node_size(),
        columns: cols(h.columns()),
        sem: cols(h.semantic_columns()),
        attr: h
            .attribute_index()
            .map(|v| v.iter().map(|a| (a.index(), a.length(), a.num_unique_items())).collect())
            .unwrap_or_default(),
        info: None,
    }
}

/// What every reader says about a file.
pub fn headers(bytes: &Arc<Vec<u8>>) -> Result<Vec<(&'static str, Said)>, Viol> {
    let mut all: Vec<(&'static str, Said)> = vec![];
    for seek in [false, true] {
        let st = IoState::new(IoPlan::draw_benign());
        let src = SimRead::new(bytes, &st);
        let s = core::guard(|| {
            if seek {
                let r = FcbReader::open(SimSeek(src))?;
                Ok::<_, fcb_core::error::Error>(said(&r.header()))
            } else {
                let r = FcbReader::open(src)?;
                Ok(said(&r.header()))
            }
        })?;
        match s {
            Ok(s) => all.push((if seek { "seekable" } else { "sequential" }, s)),
            Err(e) => viol!("open failed", "{}", e),
        }
    }
    let srv = Server::new(bytes.clone(), ServerCfg { latency: core::fb(1, 2), split_seed: 1, ..Default::default() });
    let s = core::guard(|| {
        exec::block_on(async {
            let r = HttpFcbReader::new(net::client(&srv, 0)).await?;
            let s = said(&r.header());
            Ok::<_, fcb_core::error::Error>(s)
        })
    })??;
    match s {
        Ok(s) => all.push(("http", s)),
        Err(e) => viol!("open failed", "http: {}", e),
    }
    Ok(all)
}

pub fn c02() -> SResult {
    let prof = Profile { geometry: core::wb(3, 4), attrs: [0u8, 1][core::w(2)], ..Default::default() };
    let p = prep::make(&prof)?;
    let ds = &p.ds;
    core::nontrivial();
    if let Err(e) = p.lay.check() {
        viol!("layout", "{} ({})", e, ds.describe());
    }
    // what was asked for
    ensure!((p.lay.node_size > 0) == ds.write_index, "spatial index", "index asked for: {}, node size {}", ds.write_index, p.lay.node_size);
    ensure!(!ds.write_index || p.canon.is_empty() || p.lay.rtree.1 > 0, "spatial index", "no spatial index for {} features", p.canon.len());
    let schema = ds.schema();
    let mut want: Vec<(u16, String, u8)> = schema
        .iter()
        .flat_map(|s| s.iter().map(|(n, (i, t))| (*i, n.clone(), t.0)))
        .collect();
    want.sort();
    let mut got = p.lay.columns.clone();
    got.sort();
    ensure!(got == want, "columns", "the header lists {:?}, the schema is {:?}", got, want);
    if ds.mode == SchemaMode::Guess {
        for c in &ds.cols {
            if query::has_values(ds, &c.name) {
                ensure!(got.iter().any(|g| g.1 == c.name), "columns", "{:?} has values but no column", c.name);
            }
        }
    }
    for a in &p.lay.attr {
        ensure!(ds.indexed.iter().any(|i| i.0 == a.name), "attribute index list", "index on {:?} was not asked for", a.name);
        let asked = ds.indexed.iter().filter(|i| i.0 == a.name).count();
        ensure!(p.lay.attr.iter().filter(|b| b.name == a.name).count() <= asked, "attribute index list", "two indexes on {:?}", a.name);
    }
    for (n, k) in query::indexed_cols(ds) {
        let fits = prof.attrs == 1 && k.indexable();
        if fits && query::has_values(ds, &n) {
            ensure!(p.lay.attr.iter().any(|a| a.name == n), "attribute index list", "no index on {:?} ({:?}) although it was asked for", n, k);
        }
    }
    for a in &p.lay.attr {
        ensure!(a.num == a.leaves.len(), "attribute index list", "index on {:?}: {} items announced", a.name, a.num);
    }

    let all = headers(&p.bytes)?;
    let want_meta = gen::canon_header(ds.cj.clone(), ds.extent);
    for (what, s) in &all {
        match &s.meta {
            Err(e) => viol!("metadata unreadable", "{}: {}", what, e),
            Ok(m) => {
                if m != &want_meta {
                    viol!("metadata differs", "{}: {}", what, gen::diff(&want_meta, m, "").unwrap_or_default());
                }
            }
        }
        ensure!(s.count == p.canon.len() as u64, "count", "{} says {} features", what, s.count);
        let mut sem: Vec<(u16, String, u8)> = ds.sem.iter().flatten().map(|(n, i, t)| (*i, n.clone(), t.0)).collect();
        sem.sort();
        let mut got = s.sem.clone();
        got.sort();
        ensure!(got == sem, "semantic columns", "{}: {:?}, given {:?}", what, got, sem);
        ensure!(s == &all[0].1, "readers disagree on the header", "{}: {:?} / {:?}", what, s, all[0].1);
    }
    // announced and delivered
    for path in 0..3 {
        let d = if path < 2 {
            let st = IoState::new(IoPlan::draw_benign());
            paths::local(&Ask::All, path == 1, &p.bytes, &st, 0)?
        } else {
            let srv = Server::new(p.bytes.clone(), ServerCfg::default());
            paths::http_alone(&Ask::All, &srv, &Retry::default())?
        };
        ensure!(d.ok(), "scan failed", "path {}: {:?}", path, d.end);
        // the HTTP reader announces nothing for an empty file
        let a = d.announced.unwrap_or(0);
        ensure!(a == d.feats.len(), "announced count wrong", "path {}: announced {:?}, delivered {}", path, d.announced, d.feats.len());
        drive::same_list("scan", &d.feats, &p.all(), "scan")?;
    }
    Ok(())
}
