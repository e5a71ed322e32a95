//! C06, C08, C17: reading over HTTP under any timing, with failures, and its cost.

use super::stretch;
use super::prep::{self, same_set, Prep};
use super::search;
use crate::core::{self, SResult, Viol};
use crate::drive::{prefix_list, same_list};
use crate::exec;
use crate::gen::Profile;
use crate::io::{IoPlan, IoState};
use crate::net::{self, NetFault, Server, ServerCfg};
use crate::paths::{self, Ask, Delivered, End, Retry};
use crate::{ensure, query, viol};
use fcb_core::SpatialQuery;
use serde_json::Value;
use std::cell::RefCell;
use std::rc::Rc;
use std::sync::{Arc, Mutex};

fn profile() -> Profile {
    let spatial = core::wb(1, 3);
    Profile {
        geometry: core::wb(1, 6),
        spatial,
        attrs: if spatial { 2 } else { [1u8, 1, 0][core::w(3)] },
        max_small: 10,
        big: core::wb(1, 4),
        meta: core::wb(1, 6),
        ..Default::default()
    }
}

pub enum Src {
    Own(Box<Prep>),
    Large(Rc<Prep>),
}
impl std::ops::Deref for Src {
    type Target = Prep;
    fn deref(&self) -> &Prep {
        match self {
            Src::Own(p) => p,
            Src::Large(p) => p,
        }
    }
}

pub fn source(large_one_in: u64) -> Result<Src, Viol> {
    if core::wb(1, large_one_in) {
        core::probe("large-file");
        core::describe("the large file");
        return Ok(Src::Large(prep::large()?));
    }
    if core::wb(1, large_one_in * 2) {
        core::probe("wide-file");
        core::describe("the file with an index on a column of every kind");
        return Ok(Src::Large(prep::wide()?));
    }
    Ok(Src::Own(Box::new(prep::make(&profile())?)))
}

/// A request of any kind that suits the dataset.
pub fn ask(p: &Prep, large: bool) -> (Ask, String) {
    let boxes = p.ds.boxes();
    let cols = query::indexed_cols(&p.ds);
    loop {
        match core::w(if large { 7 } else { 5 }) {
            0 if !large || core::wb(1, 4) => return (Ask::All, "scan".into()),
            1 | 2 | 6 if !boxes.is_empty() => {
                let q = if core::wb(1, 4) {
                    let (x, y) = query::nearest_point(&p.ds, &boxes);
                    SpatialQuery::PointNearest(x, y)
                } else {
                    query::spatial(&p.ds, &boxes)
                };
                return (Ask::Spatial(q.clone()), format!("{:?}", q));
            }
            _ if !cols.is_empty() => {
                let mut conds = query::conds(&p.ds);
                if core::wb(1, 12) {
                    // an attribute that does not exist
                    conds[0].name.push('?');
                }
                return (Ask::Attr(conds.iter().map(|c| c.ask()).collect()), search::show(&conds));
            }
            _ if boxes.is_empty() => return (Ask::All, "scan".into()),
            _ => {}
        }
        if !large && cols.is_empty() && boxes.is_empty() {
            return (Ask::All, "scan".into());
        }
    }
}

/// Large files are not read byte by byte.
pub fn plan_for(large: bool) -> IoPlan {
    let mut plan = IoPlan::draw_benign();
    if large {
        plan.split = plan.split.min(1);
        plan.eintr *= 100;
        plan.buffer = plan.buffer.max(if plan.buffer > 0 { 8192 } else { 0 });
    }
    plan
}

pub fn local_plain(a: &Ask, p: &Prep) -> Result<Delivered, Viol> {
    paths::local(a, true, &p.bytes, &IoState::new(IoPlan::default()), 0)
}

fn distance(p: &Prep, f: &Value, q: &SpatialQuery) -> Option<f64> {
    let SpatialQuery::PointNearest(x, y) = q else { return None };
    let i = p.canon.iter().position(|c| c["id"] == f["id"])?;
    Some(query::centre_distance(&p.ds.boxes()[i], *x, *y))
}

/// The HTTP answer is the local one.
pub fn agrees(p: &Prep, a: &Ask, http: &Delivered, local: &Delivered, what: &str) -> SResult {
    if !local.ok() {
        let fine = !http.ok() || (http.feats.is_empty() && matches!(local.end, End::OpenErr(_)));
        ensure!(fine, "HTTP succeeded where local reading fails", "{}: local {:?}, HTTP delivered {}", what, local.end, http.feats.len());
        return Ok(());
    }
    if let Ask::Attr(q) = a {
        // a condition that cannot be answered (no index, a key of another type) fails, unless another already
        // rules everything out
        let answerable = |c: &(String, _, _)| local_plain(&Ask::Attr(vec![c.clone()]), p).is_ok_and(|d| d.ok());
        if local.feats.is_empty() && !q.iter().all(answerable) {
            ensure!(!http.ok() || http.feats.is_empty(), "HTTP query: feature that does not match", "{}: {}", what, http.feats.len());
            return Ok(());
        }
    }
    ensure!(http.ok(), "HTTP failed where local reading succeeds", "{}: {:?}", what, http.end);
    if local.feats.len() > 0 && local.feats.len() < p.canon.len() || (matches!(a, Ask::All) && local.feats.len() > 1) {
        core::nontrivial();
    }
    let want: Vec<&Value> = local.feats.iter().collect();
    match a {
        Ask::All => same_list("HTTP scan", &http.feats, &want, what)?,
        Ask::Spatial(q @ SpatialQuery::PointNearest(..)) => {
            ensure!(http.feats.len() == want.len(), "nearest: number of features differs", "{}: {} over HTTP, {} locally", what, http.feats.len(), want.len());
            for (h, l) in http.feats.iter().zip(&want) {
                let (dh, dl) = (distance(p, h, q), distance(p, l, q));
                // equally near ones are equally right
                let tie = match (dh, dl) {
                    (Some(a), Some(b)) => (a - b).abs() <= b * 1e-12 + 1e-7,
                    _ => false,
                };
                ensure!(h == *l || tie, "nearest: another feature over HTTP", "{}: {} at {:?}, locally {} at {:?}", what, h["id"], dh, l["id"], dl);
            }
        }
        _ => same_set("HTTP query", &http.feats, &want, what)?,
    }
    ensure!(
        http.announced.unwrap_or(0) == http.feats.len(),
        "announced count wrong",
        "{} announced {:?}, delivered {}", what, http.announced, http.feats.len()
    );
    Ok(())
}

/// A file of many gigabytes.
fn far(p: &Prep) -> SResult {
    for _ in 0..2 {
        let (a, text) = ask(p, false);
        if matches!(a, Ask::All) {
            continue;
        }
        let plain = local_plain(&a, p)?;
        let in_answer = |i: usize| match &a {
            // (all of those which may be the answer)
            Ask::Spatial(q @ SpatialQuery::PointNearest(..)) => {
                let d = |f: &Value| distance(p, f, q).unwrap_or(0.0);
                plain.feats.first().is_none_or(|f| d(&p.canon[i]) <= d(f) * (1.0 + 1e-9) + 1e-6)
            }
            _ => plain.feats.iter().any(|f| f["id"] == p.canon[i]["id"]),
        };
        let Some((bytes, _holes)) = stretch::stretch(p, |i| !in_answer(i))? else { continue };
        let srv = Server::new(
            bytes,
            ServerCfg {
                latency: !core::fb(1, 4),
                split_seed: core::f(1 << 20) as u64,
                ..Default::default()
            },
        );
        let d = paths::http_alone(&a, &srv, &Retry::default())?;
        agrees(p, &a, &d, &plain, &format!("many gigabytes: {}", text))?;
    }
    Ok(())
}

pub fn c06() -> SResult {
    let src = source(40)?;
    let large = matches!(src, Src::Large(_));
    let p: &Prep = &src;
    if !large && core::wb(1, 24) {
        return far(p);
    }
    let n = 1 + core::w(4);
    let asks: Vec<(Ask, String)> = (0..n).map(|_| ask(p, large)).collect();
    let srv = Server::new(
        p.bytes.clone(),
        ServerCfg {
            latency: !core::fb(1, 4),
            split_seed: core::f(1 << 20) as u64,
            ignore_range: core::fb(1, 10),
            ..Default::default()
        },
    );
    // the first reader always finishes
    let cancel: Vec<Option<u64>> = (0..n)
        .map(|i| (i > 0 && core::fb(1, 4)).then(|| core::f(12) as u64))
        .collect();
    let out: Vec<RefCell<Option<Delivered>>> = (0..n).map(|_| RefCell::new(None)).collect();
    core::guard(|| {
        let tasks: Vec<exec::Task> = asks
            .iter()
            .enumerate()
            .map(|(i, (a, _))| {
                let c = net::client(&srv, i as u32);
                let slot = &out[i];
                let retry = Retry { give_up: paths::give_up(), ..Default::default() };
                let t: exec::Task = Box::pin(async move {
                    let d = paths::http(a, c, &retry).await;
                    *slot.borrow_mut() = Some(d);
                });
                t
            })
            .collect();
        exec::run(tasks, &cancel)
    })??;
    for i in 0..n {
        let Some(d) = out[i].borrow_mut().take() else {
            ensure!(cancel[i].is_some(), "reader never finished", "reader {} of {}", i, n);
            continue;
        };
        let local = local_plain(&asks[i].0, p)?;
        let what = format!("reader {} of {}: {}", i, n, asks[i].1);
        agrees(p, &asks[i].0, &d, &local, &what)?;
    }
    Ok(())
}

// ---------------------------------------------------------------- failures

pub fn net_fault() -> NetFault {
    match core::f(6) {
        0 => NetFault::Status(500),
        1 => NetFault::Conn,
        2 => NetFault::Short([0, 1, 3, 4, 7, 39, 100][core::f(7)]),
        3 => NetFault::Short(core::f(5000)),
        4 => NetFault::Status(*[404u16, 416, 403, 503].get(core::f(4)).unwrap()),
        _ => NetFault::Short(core::f(1 << 20)),
    }
}

/// What has been delivered so far, before and after failures, follows the whole answer.
pub fn follows(answer: &[&Value], d: &Delivered, what: &str) -> SResult {
    prefix_list("before the failure", &d.feats, answer, what)?;
    // a feature of which the bytes arrived but could not be used may be passed over
    prefix_list("after the failure", &d.later, &answer[d.feats.len()..], what)
}

pub fn c08() -> SResult {
    let src = source(60)?;
    let large = matches!(src, Src::Large(_));
    let p: &Prep = &src;
    let (a, text) = ask(p, large);
    // without failures
    let seed = core::f(1 << 20) as u64;
    let latency = core::fb(1, 3);
    let ignore_range = core::fb(1, 16);
    let cfg = |faults, down_from| ServerCfg {
        latency,
        split_seed: seed,
        ignore_range,
        faults,
        down_from,
    };
    let srv = Server::new(p.bytes.clone(), cfg(vec![], None));
    let whole = paths::http_alone(&a, &srv, &Retry::default())?;
    if !whole.ok() {
        // refused with or without failures (no index); that it fails is for C06 to judge
        core::probe("refused-query");
        return Ok(());
    }
    let requests = srv.lock().unwrap().n;
    let answer: Vec<&Value> = whole.feats.iter().collect();
    for _ in 0..3 {
        let k = core::f(requests as usize) as u64;
        let mode = core::f(4);
        let (faults, down, heal, calls) = match mode {
            // one failure, then all is well
            0 | 1 => (vec![(k, net_fault())], None, true, 3),
            // the server stays down from some request on
            2 => (vec![], Some((k, net_fault())), false, 3),
            // several failures, never declared over
            _ => {
                let n = 2 + core::f(3);
                let f: Vec<_> = (0..n as u64).map(|i| (k + i * core::f(3) as u64, net_fault())).collect();
                (f, None, false, 2 * n)
            }
        };
        let what = format!("{} with {:?} {:?}", text, faults, down);
        let srv = Server::new(p.bytes.clone(), cfg(faults, down));
        let retry = Retry {
            heal: heal.then(|| srv.clone()),
            calls,
            give_up: paths::give_up(),
        };
        let d = paths::http_alone(&a, &srv, &retry)?;
        if srv.lock().unwrap().faults_fired > 0 {
            core::nontrivial();
        }
        match &d.end {
            End::Done => same_list("normal end", &d.feats, &answer, &what)?,
            End::OpenErr(_) => {}
            End::Err(e) => {
                let what = format!("{} ({})", what, e);
                ensure!(srv.lock().unwrap().faults_fired > 0, "failed without a fault", "{}", what);
                follows(&answer, &d, &what)?;
                if d.later_end || mode != 2 {
                    ensure!(
                        d.later_end && d.feats.len() + d.later.len() == answer.len(),
                        "features missing after the fault cleared",
                        "{}: {} before and {} after the failure, the answer has {}, ended: {}, further errors: {}",
                        what, d.feats.len(), d.later.len(), answer.len(), d.later_end, d.later_errs - 1
                    );
                }
            }
        }
        // asking again from the start, faults being over, gives the answer
        if core::fb(1, 3) && !d.ok() {
            srv.lock().unwrap().healed = true;
            let again = paths::http_alone(&a, &srv, &Retry::default())?;
            ensure!(again.ok(), "failed after the fault cleared", "{}: {:?}", what, again.end);
            same_list("second attempt", &again.feats, &answer, &what)?;
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- cost

struct Cost {
    n: u64,
    bytes: u64,
}

fn cost(srv: &Arc<Mutex<Server>>, p: &Prep, what: &str) -> Result<Cost, Viol> {
    let s = srv.lock().unwrap();
    let len = s.image.len() as u64;
    let mut c = Cost { n: 0, bytes: 0 };
    for (i, r) in s.log.iter().enumerate() {
        c.n += 1;
        c.bytes += r.sent as u64;
        ensure!(r.start <= r.end, "empty request", "{}: request {} asks for {}-{}", what, i, r.start, r.end);
        ensure!(r.start < len, "request beyond the end", "{}: request {} asks for {}-{} of a file of {} bytes", what, i, r.start, r.end, len);
    }
    // the same range again and again, with nothing else in between, helps nobody
    for w in s.log.windows(2) {
        ensure!(
            (w[0].start, w[0].end) != (w[1].start, w[1].end) || w[0].fault,
            "request repeated without need",
            "{}: {}-{} twice in a row", what, w[0].start, w[0].end
        );
    }
    let _ = p;
    Ok(c)
}

const KB: u64 = 1024;
const MB: u64 = 1024 * 1024;

/// Depth of a tree with fan-out `b` over `n` items.
fn depth(n: u64, b: u64) -> u64 {
    let mut d = 1;
    let mut m = n;
    while m > 1 {
        m = m.div_ceil(b.max(2));
        d += 1;
    }
    d
}

pub fn c17() -> SResult {
    let src = source(12)?;
    let large = matches!(src, Src::Large(_));
    let p: &Prep = &src;
    let (a, text) = ask(p, large);
    let latency = core::fb(1, 2);
    let seed = core::f(1 << 20) as u64;
    let srv = Server::new(
        p.bytes.clone(),
        ServerCfg {
            latency,
            split_seed: seed,
            ..Default::default()
        },
    );
    let d = paths::http_alone(&a, &srv, &Retry::default())?;
    let c = cost(&srv, p, &text)?;
    let len = p.bytes.len() as u64;
    let k = d.feats.len() as u64;
    if k > 0 {
        core::nontrivial();
    }
    let open = 4;
    let huge = p.lay.feats.iter().filter(|f| f.1 as u64 > MB).count() as u64;
    let head = (p.lay.header_size as u64 + 12) + 32 * KB;
    let (max_n, max_bytes, of) = match &a {
        Ask::All => (
            open + len.div_ceil(MB) + 2 * huge,
            head + len + len / 4,
            "a scan",
        ),
        Ask::Spatial(_) => {
            let t = depth(p.canon.len() as u64, p.lay.node_size as u64);
            let rtree = p.lay.rtree.1 as u64;
            let sel: u64 = selected_bytes(p, &d);
            let nearest = matches!(a, Ask::Spatial(SpatialQuery::PointNearest(..)));
            // a nearest search reads one node after the other
            let nodes = if nearest { rtree / 40 } else { t + rtree.div_ceil(256 * KB) };
            let batches = k.min(1 + len / (256 * KB));
            (
                open + nodes + 2 * batches + sel.div_ceil(MB) + 2 * huge,
                head + rtree + rtree / 2 + sel + sel / 4 + batches * 256 * KB,
                "a spatial query",
            )
        }
        Ask::Attr(q) => {
            // every condition may read its index twice (both ends of a range)
            let per: u64 = q
                .iter()
                .map(|(name, _, _)| {
                    let at = p.lay.attr.iter().find(|s| &s.name == name);
                    at.map(|s| {
                        let t = depth(s.num as u64, s.bf as u64);
                        let leaves = (s.num as u64).div_ceil(s.bf as u64 - 1);
                        4 * t + 4 + leaves / 2 + s.len as u64 / (32 * KB)
                    })
                    .unwrap_or(4)
                })
                .sum();
            let sections: u64 = q
                .iter()
                .filter_map(|(name, _, _)| p.lay.attr.iter().find(|s| &s.name == name))
                .map(|s| s.len as u64)
                .sum();
            let sel: u64 = selected_bytes(p, &d);
            let batches = k.min(1 + len / MB);
            // features selected by attribute are fetched one by one, the larger ones in two steps
            let above = p.lay.feats.iter().filter(|f| f.1 as u64 > 16 * KB).count() as u64;
            (
                open + per + k + above,
                head + 2 * sections + sel + sel / 4 + (batches + 2 * q.len() as u64) * MB,
                "an attribute query",
            )
        }
    };
    ensure!(
        c.n <= max_n,
        "too many requests",
        "{} selecting {} features of a file of {} bytes made {} requests; {} would do ({})", of, k, len, c.n, max_n, text
    );
    ensure!(
        c.bytes <= max_bytes,
        "too many bytes",
        "{} selecting {} features of a file of {} bytes transferred {} bytes; {} would do ({})", of, k, len, c.bytes, max_bytes, text
    );
    let few = !matches!(a, Ask::All) && d.ok() && selected_bytes(p, &d) < len / 20;
    if large && few {
        let cond = if let Ask::Attr(q) = &a { q.len() as u64 } else { 1 };
        core::probe("few-of-a-large-file");
        if cond == 1 {
            ensure!(
                c.bytes < len,
                "more bytes than the whole file",
                "{} selecting {} features of a file of {} bytes transferred {} bytes ({})", of, k, len, c.bytes, text
            );
        }
    }
    // retries after failures make progress
    if d.ok() && core::fb(1, 2) {
        let n = 1 + core::f(4) as u64;
        let faults: Vec<(u64, NetFault)> = (0..n)
            .map(|i| (core::f(c.n as usize) as u64 + i, if core::fb(1, 2) { NetFault::Conn } else { NetFault::Status(503) }))
            .collect();
        let placed = faults.len();
        let what = format!("{} with {:?}", text, faults);
        let srv = Server::new(
            p.bytes.clone(),
            ServerCfg {
                latency,
                split_seed: seed,
                faults,
                ..Default::default()
            },
        );
        let r = paths::http_alone(&a, &srv, &Retry { calls: 3 * placed + 3, ..Default::default() })?;
        if let End::Err(e) = &r.end {
            core::probe("retried");
            ensure!(
                r.later_end && r.later_errs <= placed,
                "retries without progress",
                "{}: {} errors from {} faults, {} of {} features, ended: {} ({})", what, r.later_errs, placed, r.feats.len() + r.later.len(), d.feats.len(), r.later_end, e
            );
            let c2 = cost(&srv, p, &what)?;
            ensure!(
                c2.n <= c.n + 2 * placed as u64 + 2,
                "retries cost too many requests",
                "{}: {} requests, {} without faults", what, c2.n, c.n
            );
        }
    }
    Ok(())
}

fn selected_bytes(p: &Prep, d: &Delivered) -> u64 {
    let size: std::collections::HashMap<&str, usize> = p.lay.feats.iter().map(|f| (f.2.as_str(), f.1)).collect();
    d.ids().iter().map(|i| *size.get(i).unwrap_or(&0) as u64).sum()
}
