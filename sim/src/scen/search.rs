//! C03, C04, C05: queries through the local readers (C04 also HTTP).

use super::prep::{self, same_set};
use super::stretch::stretch;
use crate::core::{self, SResult};
use crate::gen::{Dataset, Profile};
use crate::io::{IoPlan, IoState};
use crate::net::{Server, ServerCfg};
use crate::paths::{self, Ask, End, Retry};
use crate::{ensure, query, viol};
use fcb_core::SpatialQuery;

pub fn spatial_profile() -> Profile {
    Profile {
        geometry: core::wb(1, 4),
        spatial: true,
        attrs: [2u8, 0][core::w(2)],
        max_small: 12,
        big: core::wb(1, 8),
        index: Some(!core::wb(1, 16)),
        ..Default::default()
    }
}

pub fn attr_profile() -> Profile {
    Profile {
        geometry: false,
        attrs: 1,
        max_small: 12,
        big: core::wb(1, 8),
        meta: false,
        ..Default::default()
    }
}

fn name(seek: bool) -> &'static str {
    if seek {
        "seekable"
    } else {
        "sequential"
    }
}

pub fn c03() -> SResult {
    let p = prep::make(&spatial_profile())?;
    let boxes = p.ds.boxes();
    let far = core::wb(1, 24);
    for _ in 0..1 + core::w(3) {
        let q = query::spatial(&p.ds, &boxes);
        if far && p.ds.write_index {
            let sel = query::spatial_answer(&q, &boxes);
            if let Some((bytes, _holes)) = stretch(&p, |i| !sel[i])? {
                let d = paths::local(&Ask::Spatial(q.clone()), true, &bytes, &IoState::new(IoPlan::draw_benign()), 0)?;
                let what = format!("many gigabytes: {:?}", q);
                ensure!(d.ok(), "query failed", "{}: {:?}", what, d.end);
                same_set("spatial query", &d.feats, &p.want(&sel), &what)?;
            }
        }
        for seek in [false, true] {
            let st = IoState::new(IoPlan::draw_benign());
            let d = paths::local(&Ask::Spatial(q.clone()), seek, &p.bytes, &st, 0)?;
            let what = format!("{} {:?}", name(seek), q);
            if !p.ds.write_index {
                ensure!(
                    matches!(d.end, End::OpenErr(_)),
                    "query without index succeeded",
                    "{} on a file without spatial index: {:?}",
                    what,
                    d.end
                );
                continue;
            }
            ensure!(d.ok(), "query failed", "{}: {:?}", what, d.end);
            let sel = query::spatial_answer(&q, &boxes);
            let want = p.want(&sel);
            if want.len() > 0 && want.len() < p.canon.len() {
                core::nontrivial();
            }
            same_set("spatial query", &d.feats, &want, &what)?;
            ensure!(
                d.announced == Some(want.len()),
                "announced count wrong",
                "{} announced {:?}, the answer has {}",
                what,
                d.announced,
                want.len()
            );
        }
    }
    Ok(())
}

pub fn c04() -> SResult {
    let p = prep::make(&spatial_profile())?;
    let boxes = p.ds.boxes();
    let far = core::wb(1, 24);
    for _ in 0..1 + core::w(3) {
        let (x, y) = query::nearest_point(&p.ds, &boxes);
        let ask = Ask::Spatial(SpatialQuery::PointNearest(x, y));
        let dist: Vec<f64> = boxes.iter().map(|b| query::centre_distance(b, x, y)).collect();
        let best = dist.iter().copied().fold(f64::INFINITY, f64::min);
        let near = |i: usize| dist[i] <= best + best * 1e-9 + 1e-6;
        if far && p.ds.write_index {
            if let Some((bytes, _holes)) = stretch(&p, |i| !near(i))? {
                let d = paths::local(&ask, true, &bytes, &IoState::new(IoPlan::draw_benign()), 0)?;
                ensure!(
                    d.ok() && d.feats.len() == 1 && p.canon.iter().enumerate().any(|(i, f)| near(i) && f == &d.feats[0]),
                    "query failed",
                    "many gigabytes: nearest to ({}, {}): {:?}, {:?}",
                    x, y, d.end, d.ids()
                );
            }
        }
        for path in 0..3 {
            let (what, d) = match path {
                0 | 1 => {
                    let st = IoState::new(IoPlan::draw_benign());
                    (name(path == 1), paths::local(&ask, path == 1, &p.bytes, &st, 0)?)
                }
                _ => {
                    let srv = Server::new(p.bytes.clone(), ServerCfg {
                        latency: core::fb(1, 2),
                        split_seed: core::f(1 << 16) as u64,
                        ignore_range: core::fb(1, 8),
                        ..Default::default()
                    });
                    ("http", paths::http_alone(&ask, &srv, &Retry::default())?)
                }
            };
            if !p.ds.write_index {
                ensure!(matches!(d.end, End::OpenErr(_)), "query without index succeeded", "{}: {:?}", what, d.end);
                continue;
            }
            let what = format!("{} nearest to ({}, {})", what, x, y);
            ensure!(d.ok(), "query failed", "{}: {:?}", what, d.end);
            ensure!(d.feats.len() == 1, "not exactly one feature", "{}: {} features", what, d.feats.len());
            ensure!(d.announced == Some(1), "announced count wrong", "{} announced {:?}", what, d.announced);
            let id = d.feats[0]["id"].clone();
            let Some(i) = p.canon.iter().position(|f| f["id"] == id) else {
                viol!("unknown feature", "{}: {}", what, id)
            };
            if p.canon[i] != d.feats[0] {
                viol!("content differs", "{}: {}", what, crate::gen::diff(&p.canon[i], &d.feats[0], "").unwrap_or_default());
            }
            if boxes.len() > 1 {
                core::nontrivial();
            }
            ensure!(
                dist[i] <= best + best * 1e-12 + 1e-7,
                "a closer feature exists",
                "{}: returned {} at distance {}, the closest of {} is at {}",
                what, id, dist[i], boxes.len(), best
            );
        }
    }
    Ok(())
}

pub fn check_attr(ds: &Dataset, p: &prep::Prep, conds: &[query::Cond], d: &paths::Delivered, what: &str) -> SResult {
    let sel = query::attr_answer(conds, ds);
    let want = p.want(&sel);
    // nothing carries the attribute at all: there may be no index on it
    if d.end != End::Done && want.is_empty() && conds.iter().any(|c| !query::has_values(ds, &c.name)) {
        core::probe("attribute-without-values");
        return Ok(());
    }
    ensure!(d.ok(), "query failed", "{}: {:?}", what, d.end);
    if !want.is_empty() && want.len() < p.canon.len() {
        core::nontrivial();
    }
    same_set("attribute query", &d.feats, &want, what)?;
    Ok(())
}

pub fn c05() -> SResult {
    let (wide, own);
    let p = if core::wb(1, 40) {
        core::probe("wide-file");
        core::describe("the file with an index on a column of every kind");
        wide = prep::wide()?;
        &*wide
    } else {
        own = prep::make(&attr_profile())?;
        &own
    };
    let cols = query::indexed_cols(&p.ds);
    if cols.is_empty() {
        let name = p.ds.cols.first().map(|c| c.name.clone()).unwrap_or("none".into());
        return unindexed(p, name, None);
    }
    let far = core::wb(1, 24);
    for _ in 0..1 + core::w(4) {
        let conds = query::conds(&p.ds);
        let ask = Ask::Attr(conds.iter().map(|c| c.ask()).collect());
        if far {
            let sel = query::attr_answer(&conds, &p.ds);
            if let Some((bytes, _holes)) = stretch(p, |i| !sel[i])? {
                let d = paths::local(&ask, true, &bytes, &IoState::new(IoPlan::draw_benign()), 0)?;
                check_attr(&p.ds, p, &conds, &d, &format!("many gigabytes: {}", show(&conds)))?;
            }
        }
        for seek in [false, true] {
            let st = IoState::new(IoPlan::draw_benign());
            let d = paths::local(&ask, seek, &p.bytes, &st, 0)?;
            let what = format!("{} {}", name(seek), show(&conds));
            check_attr(&p.ds, p, &conds, &d, &what)?;
            if d.ok() {
                ensure!(d.announced == Some(d.feats.len()), "announced count wrong", "{} announced {:?}, delivered {}", what, d.announced, d.feats.len());
            }
        }
    }
    if core::wb(1, 4) {
        let un = p.ds.cols.iter().find(|c| !p.ds.indexed.iter().any(|i| i.0 == c.name)).map(|c| c.name.clone());
        return unindexed(p, un.unwrap_or("none".into()), query::conds(&p.ds).into_iter().next());
    }
    Ok(())
}

pub fn show(c: &[query::Cond]) -> String {
    c.iter().map(|c| format!("{} ({:?}) {:?} {}", c.name, c.kind, c.op, c.value)).collect::<Vec<_>>().join(" AND ")
}

fn unindexed(p: &prep::Prep, attr: String, also: Option<query::Cond>) -> SResult {
    let mut q: Vec<_> = also.iter().map(|c| c.ask()).collect();
    // a conjunction whose other condition matches nothing may be answered without the index
    let empty = also.map(|c| query::attr_answer(&[c], &p.ds)).is_some_and(|a| p.want(&a).is_empty());
    let at = core::w(q.len() + 1);
    q.insert(at, (attr.clone(), fcb_core::Operator::Eq, fcb_core::KeyType::Int32(1)));
    for seek in [false, true] {
        let st = IoState::new(IoPlan::draw_benign());
        let d = paths::local(&Ask::Attr(q.clone()), seek, &p.bytes, &st, 0)?;
        if empty && d.ok() && d.feats.is_empty() {
            continue;
        }
        ensure!(matches!(d.end, End::OpenErr(_)), "query on an unindexed attribute succeeded", "{} query on {:?}: {:?}", name(seek), attr, d.end);
    }
    Ok(())
}
