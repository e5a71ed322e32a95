//! Files of many gigabytes: features which no answer contains get a long tail of zeros that is not
//! kept in memory. (Such a tail is allowed: a record may be longer than what its tables use.)

use super::prep::Prep;
use crate::core::{self, Viol};
use crate::io::Holes;
use crate::layout;
use crate::viol;
use std::collections::BTreeSet;
use std::sync::Arc;

/// The file with the features lengthened which may be (by position of insertion).
pub fn stretch(p: &Prep, may: impl Fn(usize) -> bool) -> Result<Option<(Arc<Vec<u8>>, Holes)>, Viol> {
    let l = &p.lay;
    let last = p.stored.iter().rposition(|i| !may(*i));
    let Some(last) = last else { return Ok(None) };
    // those in front of something that is wanted
    let can: Vec<usize> = (0..last).filter(|k| may(p.stored[*k])).collect();
    if can.is_empty() {
        return Ok(None);
    }
    let first = core::w(can.len());
    let n = 1 + core::w(4);
    let mut b = p.bytes.to_vec();
    let mut holes = vec![];
    for k in can.iter().skip(first).take(n) {
        let (at, len, _) = &l.feats[*k];
        // the longest record is just under 2 GiB
        let more = [(1u64 << 31) - 1 - *len as u64, 1 << 30, 1 << 20, (1 << 31) - 2 - *len as u64][core::w(4)];
        holes.push((at + len, more));
        b[*at..*at + 4].copy_from_slice(&((*len as u64 - 4 + more) as u32).to_le_bytes());
    }
    let total: u64 = holes.iter().map(|h| h.1).sum();
    core::probe(if total > 1 << 32 { "file-over-4-GiB" } else { "stretched-file" });
    core::describe(format!("{} GB of zeros in {} features", total >> 30, holes.len()));
    let base = l.feat_start;
    let moved = |off: u64| off + holes.iter().filter(|h| h.0 <= base + off as usize).map(|h| h.1).sum::<u64>();
    let mut done = BTreeSet::new();
    let mut patch = |at: usize| -> Result<(), Viol> {
        if !done.insert(at) {
            return Ok(());
        }
        match layout::u64_at(&b, at) {
            Ok(v) => b[at..at + 8].copy_from_slice(&moved(v).to_le_bytes()),
            Err(e) => viol!("unreadable layout", "{}", e),
        }
        Ok(())
    };
    for i in 0..l.rtree_leaves.len() {
        patch(l.rtree.0 + l.rtree.1 - (l.rtree_leaves.len() - i) * 40 + 32)?;
    }
    for a in &l.attr {
        if a.num == 0 {
            continue;
        }
        let ks = layout::key_size(a.coltype).unwrap_or(0);
        let nodes = layout::btree_nodes(a.num, (a.bf as usize).max(2));
        for k in nodes - a.num..nodes {
            let at = a.start + k * (ks + 8) + ks;
            let v = layout::u64_at(&p.bytes, at).unwrap_or(0);
            if v >> 63 == 0 {
                patch(at)?;
                continue;
            }
            let list = a.start + nodes * (ks + 8) + (v & !(1 << 63)) as usize;
            let c = layout::u32_at(&p.bytes, list).unwrap_or(0) as usize;
            for j in 0..c {
                patch(list + 4 + 8 * j)?;
            }
        }
    }
    Ok(Some((Arc::new(b), Holes::new(holes))))
}
