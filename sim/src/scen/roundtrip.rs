//! C01: full-scan round trip.

use crate::core::{self, SResult};
use crate::gen::{self, Profile};
use crate::io::{IoPlan, IoState};
use crate::net::{Server, ServerCfg};
use crate::paths::{self, Ask, Retry};
use crate::{drive, ensure, layout, viol};
use serde_json::Value;

/// The features in the order in which the file stores them.
pub fn stored_order<'a>(canon: &'a [Value], order: &[&str]) -> Option<Vec<&'a Value>> {
    if canon.len() != order.len() {
        return None;
    }
    order
        .iter()
        .map(|id| canon.iter().find(|f| f["id"].as_str() == Some(id)))
        .collect()
}

pub fn c01() -> SResult {
    let p = Profile {
        big: core::wb(1, 4),
        ..Default::default()
    };
    let ds = gen::dataset(&p);
    core::describe(ds.describe());
    let canon = ds.canon();
    let bytes = drive::write_ok(&ds)?;
    let lay = match layout::decode(&bytes) {
        Ok(l) => l,
        Err(e) => viol!("unreadable layout", "{}", e),
    };
    let order = lay.order();
    let mut sorted: Vec<&str> = order.clone();
    sorted.sort();
    let mut want: Vec<&str> = canon.iter().map(|f| f["id"].as_str().unwrap()).collect();
    if !ds.write_index {
        ensure!(order == want, "insertion order lost", "without a spatial index the file stores {:?}, added were {:?}", order, want);
    }
    want.sort();
    ensure!(sorted == want, "features lost or duplicated in the file", "the file stores {:?}, added were {:?}", sorted, want);
    let want = stored_order(&canon, &order).unwrap();
    if !want.is_empty() {
        core::nontrivial();
    }
    for seek in [false, true] {
        let st = IoState::new(IoPlan::draw_benign());
        let d = paths::local(&Ask::All, seek, &bytes, &st, 0)?;
        let what = if seek { "select_all" } else { "select_all_seq" };
        ensure!(d.ok(), "scan failed", "{}: {:?}", what, d.end);
        drive::same_list("scan", &d.feats, &want, what)?;
    }
    let srv = Server::new(bytes.clone(), ServerCfg { latency: core::fb(1, 2), split_seed: core::f(1 << 16) as u64, ..Default::default() });
    let d = paths::http_alone(&Ask::All, &srv, &Retry::default())?;
    ensure!(d.ok(), "scan failed", "http select_all: {:?}", d.end);
    drive::same_list("http scan", &d.feats, &want, "http select_all")?;
    Ok(())
}
