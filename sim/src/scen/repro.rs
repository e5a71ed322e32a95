//! C18: the same dataset, the same bytes.

use super::cli;
use crate::core::{self, SResult, Viol};
use crate::drive;
use crate::gen::{self, Dataset, Profile};
use crate::io::{IoPlan, IoState, SimWrite};
use crate::layout;
use crate::sys;
use crate::{ensure, viol};
use cjseq::{CityJSON, CityJSONFeature};
use fcb_core::FcbWriter;
use std::io::BufWriter;

/// Where in the file two outputs first differ.
fn place(a: &[u8], b: &[u8]) -> String {
    let at = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    let part = match layout::decode(a) {
        Err(_) => "?".to_string(),
        Ok(l) => {
            if at < l.header_size {
                "header".into()
            } else if at < l.rtree.0 + l.rtree.1 {
                "spatial index".into()
            } else if at < l.feat_start {
                "attribute indexes".into()
            } else {
                "features".into()
            }
        }
    };
    format!("in the {} at byte {} ({} and {} bytes)", part, at, a.len(), b.len())
}

fn class(a: &[u8], b: &[u8]) -> String {
    let p = place(a, b);
    format!("bytes differ {}", p.split(" at ").next().unwrap())
}

struct Sink {
    out: SimWrite,
    buffered: usize,
}

/// Several writers of the same dataset in one process, their calls interleaved.
fn together(sets: &[(CityJSON, Vec<CityJSONFeature>)], ds: &Dataset, other: Option<&(CityJSON, Vec<CityJSONFeature>, Dataset)>) -> Result<Vec<Vec<u8>>, Viol> {
    sys::stop_if_running();
    sys::start(drive::benign_sys(), vec![], true, vec![]);
    let r = core::guard(|| -> Result<Vec<Vec<u8>>, String> {
        let mut outs = vec![];
        let mut writers: Vec<Option<FcbWriter>> = vec![];
        let mut next = vec![];
        let mut sinks = vec![];
        for (cj, _) in sets {
            let st = IoState::new(IoPlan::draw_benign());
            let out = SimWrite::new(&st);
            outs.push(out.data.clone());
            sinks.push(Some(Sink { out, buffered: [0usize, 16, 8192][core::f(3)] }));
            writers.push(Some(FcbWriter::new(cj.clone(), ds.options(), ds.schema(), ds.sem_schema()).map_err(|e| e.to_string())?));
            next.push(0);
        }
        // another dataset's writer in between
        let mut stranger = None;
        if let Some((cj, _, ods)) = other {
            stranger = Some(FcbWriter::new(cj.clone(), ods.options(), ods.schema(), ods.sem_schema()).map_err(|e| e.to_string())?);
        }
        let mut at = 0;
        let mut open = writers.len();
        while open > 0 {
            let live: Vec<usize> = (0..writers.len()).filter(|i| writers[*i].is_some()).collect();
            let k = live[core::f(live.len())];
            core::ev("turn", k as u64, next[k] as u64);
            if let (Some(w), Some((_, feats, _))) = (stranger.as_mut(), other) {
                if at < feats.len() && core::fb(1, 3) {
                    w.add_feature(&feats[at]).map_err(|e| e.to_string())?;
                    at += 1;
                }
            }
            let burst = 1 + core::f(4) * core::f(8);
            for _ in 0..burst {
                let feats = &sets[k].1;
                if next[k] < feats.len() {
                    let w = writers[k].as_mut().unwrap();
                    w.add_feature(&feats[next[k]]).map_err(|e| e.to_string())?;
                    next[k] += 1;
                } else {
                    let w = writers[k].take().unwrap();
                    let s = sinks[k].take().unwrap();
                    let r = if s.buffered == 0 { w.write(s.out) } else { w.write(BufWriter::with_capacity(s.buffered, s.out)) };
                    r.map_err(|e| e.to_string())?;
                    open -= 1;
                    break;
                }
            }
        }
        drop(stranger);
        Ok(outs.iter().map(|o| o.borrow().clone()).collect())
    });
    drive::stop_sys();
    match r? {
        Ok(v) => Ok(v),
        Err(e) => viol!("writer refused the dataset", "{} ({})", e, ds.describe()),
    }
}

pub fn c18() -> SResult {
    let ds = gen::dataset(&Profile {
        geometry: core::wb(3, 4),
        attrs: core::w(2) as u8,
        guess: core::wb(1, 4),
        ..Default::default()
    });
    core::describe(ds.describe());
    if ds.feats.len() > 1 {
        core::nontrivial();
    }
    let cj = ds.cityjson();
    let feats = ds.features();
    let plain = drive::write_plain(&ds)?;
    // the same objects in memory
    let n = 2 + core::f(2);
    let parsed_again = core::fb(1, 2);
    let sets: Vec<(CityJSON, Vec<CityJSONFeature>)> = (0..n)
        .map(|_| if parsed_again { (ds.cityjson(), ds.features()) } else { (cj.clone(), feats.clone()) })
        .collect();
    let other = if core::fb(1, 3) {
        let o = gen::dataset(&Profile { many: false, big: false, ..Default::default() });
        Some((o.cityjson(), o.features(), o))
    } else {
        None
    };
    if parsed_again {
        core::probe("parsed-again");
    }
    let outs = together(&sets, &ds, other.as_ref())?;
    for (i, o) in outs.iter().enumerate() {
        ensure!(o == &outs[0], class(&outs[0], o), "writers 0 and {} of {}: {} ({})", i, n, place(&outs[0], o), ds.describe());
    }
    ensure!(
        outs[0] == *plain,
        class(&plain, &outs[0]),
        "alone and with {} writers: {} ({})",
        n,
        place(&plain, &outs[0]),
        ds.describe()
    );
    // the tool in two processes with different hash seeds
    if core::wb(1, 12) {
        let (a, b) = cli::twice(&ds)?;
        core::probe("two-processes");
        ensure!(a == b, format!("tool: {}", class(&a, &b)), "{} ({})", place(&a, &b), ds.describe());
    }
    Ok(())
}
