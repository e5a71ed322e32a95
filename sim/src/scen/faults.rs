//! C07, C09, C10, C11: failing sources and sinks, cut and damaged files.

use super::prep::{self, Prep};
use super::meta;
use super::remote::{self, Src};
use crate::core::{self, SResult, Viol};
use crate::drive::{self, prefix_list, same_list, Wrap};
use crate::gen::{self, Profile};
use crate::io::{DATA_ERROR, EOF_ERROR, OTHER_ERROR, WRITE_ZERO_ERROR, IoFault, IoPlan, IoState, SimRead, SimSeek};
use crate::net::{self, Server, ServerCfg};
use crate::paths::{self, Ask, Delivered, End, Retry};
use crate::sys::{SysFault, SysPlan};
use crate::{ensure, exec, layout, viol};
use fcb_core::{FcbReader, HttpFcbReader};
use serde_json::Value;
use std::sync::Arc;

fn errno() -> i32 {
    *[libc::EIO, libc::ETIMEDOUT, libc::EAGAIN, libc::ENXIO, libc::ESTALE, libc::EBADF, libc::ECONNRESET, EOF_ERROR, DATA_ERROR, OTHER_ERROR, libc::EPIPE]
        .get(core::f(11))
        .unwrap()
}

/// `got` picks values of `from` in order.
fn subsequence(class: &str, got: &[Value], from: &[&Value], what: &str) -> SResult {
    let mut at = 0;
    for g in got {
        match from[at..].iter().position(|f| *f == g) {
            Some(i) => at += i + 1,
            None => viol!(class.to_string(), "{}: {} delivered out of place", what, g["id"]),
        }
    }
    Ok(())
}

pub fn c07() -> SResult {
    let src = remote::source(60)?;
    let large = matches!(src, Src::Large(_));
    let p: &Prep = &src;
    let (a, text) = remote::ask(p, large);
    let seek = core::wb(1, 2);
    let plan = remote::plan_for(large);
    let st = IoState::new(plan.clone());
    let whole = paths::local(&a, seek, &p.bytes, &st, 0)?;
    let way = if seek { "seekable" } else { "sequential" };
    if !whole.ok() {
        ensure!(matches!(whole.end, End::OpenErr(_)), "failed without a fault", "{} {}: {:?}", way, text, whole.end);
        core::probe("refused-query");
        return Ok(());
    }
    let answer: Vec<&Value> = whole.feats.iter().collect();
    let ops = st.borrow().ops;
    let log = st.borrow().log.clone();
    for _ in 0..4 {
        let k = core::f(ops as usize) as u64;
        let is_seek = log.get(k as usize).is_some_and(|l| l.0 == b's');
        let fault = if !is_seek && core::f(3) == 2 { IoFault::Zero } else { IoFault::Errno(errno()) };
        let sticky = core::fb(1, 2);
        let mut faults = vec![(k, fault, sticky)];
        if !sticky && core::fb(1, 4) {
            faults.push((k + 1 + core::f(6) as u64, IoFault::Errno(errno()), false));
        }
        let what = format!("{} {} with {:?}", way, text, faults);
        let st = IoState::new(IoPlan { faults, ..plan.clone() });
        let d = paths::local(&a, seek, &p.bytes, &st, 3)?;
        let fired = st.borrow().errors > 0;
        if fired {
            core::nontrivial();
        }
        match &d.end {
            End::Done => same_list("normal end", &d.feats, &answer, &what)?,
            End::OpenErr(_) => ensure!(fired, "failed without a fault", "{}: {:?}", what, d.end),
            End::Err(e) => {
                ensure!(fired, "failed without a fault", "{}: {}", what, e);
                prefix_list("before the failure", &d.feats, &answer, &what)?;
                subsequence("wrong feature after the failure", &d.later, &answer[d.feats.len()..], &what)?;
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- writing

fn sys_fault() -> SysFault {
    match core::f(6) {
        5 => SysFault::Zero,
        i => SysFault::Errno([libc::EIO, libc::ENOSPC, libc::EDQUOT, libc::EFBIG, libc::EBADF][i]),
    }
}

pub fn c09() -> SResult {
    let prof = Profile {
        geometry: core::wb(1, 6),
        spatial: core::wb(1, 2),
        attrs: [0u8, 1, 2][core::w(3)],
        max_small: 8,
        big: core::wb(1, 3),
        ..Default::default()
    };
    let ds = gen::dataset(&prof);
    core::describe(ds.describe());
    let feats = ds.features();
    let canon = ds.canon();
    let wrap = |i: usize| match i {
        0 => Wrap::Plain,
        1 => Wrap::BufRef([8192usize, 16, 1 << 20][core::f(3)]),
        _ => Wrap::BufVal([8192usize, 64, 1 << 20][core::f(3)]),
    };
    let verify = |bytes: &[u8], what: &str| -> Result<(), Viol> {
        let lay = match layout::decode(bytes) {
            Ok(l) => l,
            Err(e) => viol!("success without a complete file", "{}: {}", what, e),
        };
        ensure!(lay.feats.len() == canon.len(), "success without a complete file", "{}: {} of {} features", what, lay.feats.len(), canon.len());
        let want = match super::roundtrip::stored_order(&canon, &lay.order()) {
            Some(w) => w,
            None => viol!("success without a complete file", "{}: other features than added", what),
        };
        let data = Arc::new(bytes.to_vec());
        let d = paths::local(&Ask::All, true, &data, &IoState::new(IoPlan::default()), 0)?;
        ensure!(d.ok(), "success without a complete file", "{}: {:?}", what, d.end);
        same_list("written", &d.feats, &want, what)
    };
    // how it goes without failures
    let w0 = wrap(core::f(3));
    let base_sys = drive::benign_sys();
    let base_sink = IoPlan { buffer: 0, ..IoPlan::draw_benign() };
    let base = drive::write(&ds, ds.cityjson(), &feats, base_sys.clone(), base_sink.clone(), w0)?;
    if let Err(e) = &base.res {
        viol!("failed without a fault", "{:?} {}", w0, e);
    }
    verify(&base.bytes, &format!("without failures, {:?}", w0))?;
    let (sink_ops, tmp_ops) = (base.st.borrow().ops, base.sys.ops);
    let (sink_len, tmp_len) = (base.bytes.len() as u64, base.sys.written);
    for _ in 0..4 {
        let mut tmp = base_sys.clone();
        let mut sink = base_sink.clone();
        match core::f(8) {
            0 | 1 => {
                let k = core::f(sink_ops.max(1) as usize) as u64;
                let f = if core::f(4) == 3 { IoFault::Zero } else { IoFault::Errno(*[libc::EIO, libc::ENOSPC, libc::EPIPE, libc::EAGAIN, EOF_ERROR, WRITE_ZERO_ERROR, OTHER_ERROR].get(core::f(7)).unwrap()) };
                sink.faults = vec![(k, f, core::fb(1, 2))];
            }
            2 => sink.space = Some(core::f(sink_len as usize) as u64),
            3 => sink.space = Some(sink_len.saturating_sub(1 + core::f(40) as u64)),
            4 => sink.flush_fault = Some([libc::EIO, libc::EPIPE, libc::ENOSPC, WRITE_ZERO_ERROR][core::f(4)]),
            5 | 6 => {
                let k = core::f(tmp_ops.max(1) as usize) as u64;
                tmp.faults = vec![(k, sys_fault(), core::fb(1, 2))];
            }
            _ => tmp.space = core::f(tmp_len.max(1) as usize) as u64,
        }
        let what = format!("{:?}, sink {:?} space {:?} flush {:?}, temporary file {:?} space {}", w0, sink.faults, sink.space, sink.flush_fault, tmp.faults, tmp.space as i64);
        let plain_flush = sink.flush_fault.is_some();
        let w = drive::write(&ds, ds.cityjson(), &feats, tmp, sink, w0)?;
        let hit = w.st.borrow().errors > 0 || w.sys.fired.iter().any(|f| !f.contains("short") && !f.contains("eintr"));
        if hit {
            core::nontrivial();
        }
        match &w.res {
            Ok(()) => verify(&w.bytes, &format!("reported success: {}", what))?,
            Err(e) => ensure!(hit, "failed without a fault", "{}: {}", what, e),
        }
        let _ = plain_flush;
    }
    Ok(())
}

// ---------------------------------------------------------------- cut files

type Ways = Vec<(&'static str, Delivered)>;

fn read_all_ways(a: &Ask, image: &Arc<Vec<u8>>) -> Result<Ways, Viol> {
    #[cfg(feature = "wasm")]
    if let Some(ways) = super::wasm::ways(a, image) {
        return ways;
    }
    let plan = remote::plan_for(image.len() > 4 << 20);
    let s = paths::local(a, false, image, &IoState::new(plan.clone()), 2)?;
    let k = paths::local(a, true, image, &IoState::new(plan), 2)?;
    let srv = Server::new(
        image.clone(),
        ServerCfg {
            latency: core::fb(1, 4),
            split_seed: core::f(1 << 16) as u64,
            ..Default::default()
        },
    );
    let h = paths::http_alone(a, &srv, &Retry { calls: 2, ..Default::default() })?;
    Ok(vec![("sequential", s), ("seekable", k), ("HTTP", h)])
}

fn cut_point(p: &Prep) -> usize {
    let len = p.lay.len;
    let near = |x: usize| (x as i64 + [0i64, -1, 1, 4, -4, 3, 8][core::f(7)]).clamp(0, len as i64 - 1) as usize;
    match core::f(8) {
        0 if !p.lay.feats.is_empty() => near(p.lay.feats[core::f(p.lay.feats.len())].0),
        1 => core::f(len),
        2 => near(len - 1 - core::f(len.min(64))),
        3 => near(p.lay.feat_start),
        4 => near(12 + p.lay.header_size as usize),
        5 if !p.lay.attr.is_empty() => near(p.lay.attr[core::f(p.lay.attr.len())].start),
        6 => near(p.lay.rtree.0 + core::f(p.lay.rtree.1.max(1))),
        _ => len - 1 - core::f(p.lay.feats.last().map(|f| f.1 + 4).unwrap_or(1).min(len)).min(len - 1),
    }
}

pub fn c10() -> SResult {
    let src = remote::source(80)?;
    let large = matches!(src, Src::Large(_));
    let p: &Prep = &src;
    let all = p.all();
    for _ in 0..3 {
        let ask = if core::wb(1, 2) { (Ask::All, "scan".to_string()) } else { remote::ask(p, large) };
        let (a, text) = &ask;
        let cut = cut_point(p);
        let zeros = core::f(4) == 3 && cut >= 12 + p.lay.header_size as usize;
        // how many features are wholly there, and whether the one after them is partly there
        let whole = p.lay.feats.iter().filter(|f| f.0 + f.1 <= cut).count();
        let partly = p.lay.feats.get(whole).is_some_and(|f| f.0 < cut);
        let mut image = p.bytes[..cut].to_vec();
        let mut what = format!("{} of a file of {} bytes cut at {} ({} of {} features whole)", text, p.lay.len, cut, whole, all.len());
        if zeros {
            let to = [p.lay.len, cut.next_multiple_of(512).max(cut + 1), p.lay.len + 4096][core::f(3)];
            image.resize(to.max(cut + 1), 0);
            what.push_str(&format!(", zeros up to {}", image.len()));
            core::fired("zero-filled-tail");
        } else {
            core::fired("file-cut");
        }
        core::ev("cut", cut as u64, zeros as u64);
        if zeros && image[..] == p.bytes[..image.len().min(p.lay.len)] && image.len() >= p.lay.len {
            core::probe("zeros-equal-data");
            continue;
        }
        core::nontrivial();
        let image = Arc::new(image);
        let in_index = cut < p.lay.feat_start;
        if !matches!(a, Ask::All) && zeros && (in_index || partly) {
            // indices and records have no checksum: zeros inside them cannot be told from data
            continue;
        }
        let reference = if matches!(a, Ask::All) { None } else { Some(paths::local(a, true, &p.bytes, &IoState::new(IoPlan::default()), 0)?) };
        for (way, d) in read_all_ways(a, &image)? {
            let what = format!("{}: {}", way, what);
            match &reference {
                None => {
                    if zeros && partly {
                        // the record in which the zeros start may look valid; those after it do not
                        let n = whole.min(d.feats.len());
                        same_list("cut file", &d.feats[..n], &all[..n], &what)?;
                        ensure!(d.feats.len() <= whole + 1, "cut file: too many features", "{}: {}", what, d.feats.len());
                        ensure!(!d.ok() || whole + 1 == all.len(), "cut file taken for complete", "{}: scan ended normally after {} features", what, d.feats.len());
                        continue;
                    }
                    ensure!(!d.ok(), "cut file taken for complete", "{}: scan ended normally after {} features", what, d.feats.len());
                    ensure!(d.feats.len() <= whole, "cut file: too many features", "{}: {}", what, d.feats.len());
                    prefix_list("cut file", &d.feats, &all, &what)?;
                    ensure!(d.later.is_empty(), "cut file: feature after the error", "{}: {}", what, d.later.len());
                }
                Some(r) => {
                    if !r.ok() {
                        ensure!(!d.ok() || d.feats.is_empty(), "cut file: refused query succeeded", "{}", what);
                        continue;
                    }
                    let nearest = text.starts_with("PointNearest");
                    if d.ok() && !nearest {
                        let want: Vec<&Value> = r.feats.iter().collect();
                        prep::same_set("cut file query", &d.feats, &want, &what)?;
                    } else if d.ok() {
                        ensure!(d.feats.len() == r.feats.len(), "cut file query: wrong number of features", "{}: {}", what, d.feats.len());
                        subsequence("cut file query: wrong feature", &d.feats, &all, &what)?;
                    } else if !nearest {
                        let want: Vec<&Value> = r.feats.iter().collect();
                        let mut left = want.clone();
                        for f in d.feats.iter().chain(&d.later) {
                            match left.iter().position(|w| *w == f) {
                                Some(i) => {
                                    left.remove(i);
                                }
                                None => viol!("cut file query: wrong feature", "{}: {}", what, f["id"]),
                            }
                        }
                    }
                }
            }
        }
    }
    if core::wb(1, 3) && !large {
        crashed_writer(p)?;
    }
    Ok(())
}

/// The process dies in the middle of `write`; what the sink had accepted survives.
fn crashed_writer(p: &Prep) -> SResult {
    let feats = p.ds.features();
    let sink = IoPlan { buffer: 0, ..IoPlan::draw_benign() };
    let wrap = if core::f(2) == 0 { Wrap::Plain } else { Wrap::BufVal([64usize, 4096][core::f(2)]) };
    let base = drive::write(&p.ds, p.ds.cityjson(), &feats, drive::no_sys(), sink.clone(), wrap)?;
    let ops = base.st.borrow().ops;
    let k = core::f(ops.max(1) as usize) as u64;
    let mut plan = sink;
    plan.faults = vec![(k, IoFault::Errno(libc::EIO), true)];
    let w = drive::write(&p.ds, p.ds.cityjson(), &feats, drive::no_sys(), plan, wrap)?;
    core::fired("writer-crash");
    if w.bytes.len() >= base.bytes.len() {
        return Ok(());
    }
    let what = format!("writer died at sink operation {} of {}, {} bytes durable", k, ops, w.bytes.len());
    let image = Arc::new(w.bytes);
    let all = p.all();
    for (way, d) in read_all_ways(&Ask::All, &image)? {
        let what = format!("{}: {}", way, what);
        ensure!(!d.ok(), "cut file taken for complete", "{}: scan ended normally after {} features", what, d.feats.len());
        prefix_list("cut file", &d.feats, &all, &what)?;
    }
    Ok(())
}

// ---------------------------------------------------------------- damaged files

const ALLOC_FLOOR: usize = 8 << 20;

/// All ways of reading `image` without a panic, a hang or an allocation out of proportion.
fn survive(a: &Ask, image: &Arc<Vec<u8>>, what: &str) -> Result<Ways, Viol> {
    core::alloc_reset();
    let r = read_all_ways(a, image).map_err(|v| Viol { msg: format!("{} ({})", v.msg, what), ..v })?;
    let big = core::alloc_biggest();
    ensure!(big <= ALLOC_FLOOR + 16 * image.len(), "allocation out of proportion", "{}: {} bytes at once for a file of {}", what, big, image.len());
    Ok(r)
}

/// Everything a reader says about a file, without a panic.
fn header_survives(image: &Arc<Vec<u8>>, what: &str) -> SResult {
    let at = |v: Viol| Viol { msg: format!("{} (metadata, {})", v.msg, what), ..v };
    core::alloc_reset();
    for seek in [false, true] {
        let st = IoState::new(IoPlan::default());
        let src = SimRead::new(image, &st);
        core::guard(|| {
            if seek {
                FcbReader::open(SimSeek(src)).map(|r| meta::said(&r.header())).is_ok()
            } else {
                FcbReader::open(src).map(|r| meta::said(&r.header())).is_ok()
            }
        })
        .map_err(at)?;
    }
    let srv = Server::new(image.clone(), ServerCfg::default());
    core::guard(|| exec::block_on(async { HttpFcbReader::new(net::client(&srv, 0)).await.map(|r| meta::said(&r.header())).is_ok() }))
        .and_then(|r| r)
        .map_err(at)?;
    let big = core::alloc_biggest();
    ensure!(big <= ALLOC_FLOOR + 16 * image.len(), "allocation out of proportion", "metadata, {}: {} bytes at once for a file of {}", what, big, image.len());
    Ok(())
}

fn smash(b: &mut [u8]) -> String {
    let n = b.len();
    match core::f(6) {
        0 => {
            let i = core::f(n);
            b[i] ^= 1 << core::f(8);
            format!("bit flipped in byte {}", i)
        }
        1 => {
            let i = core::f(n);
            b[i] = [0u8, 255, 1, 127, 128][core::f(5)];
            format!("byte {} overwritten", i)
        }
        2 => {
            let i = core::f(n);
            let k = (1 + core::f(64)).min(n - i);
            b[i..i + k].fill([0u8, 255][core::f(2)]);
            format!("{} bytes from {} filled", k, i)
        }
        3 => {
            let m = 1 + core::f(6);
            for _ in 0..m {
                let i = core::f(n);
                b[i] = core::f(256) as u8;
            }
            format!("{} random bytes", m)
        }
        4 if n >= 4 => {
            // an aligned word: offsets, lengths, counts
            let i = core::f(n / 4) * 4;
            let v = [0u32, u32::MAX, 1, 4, 0x7fff_ffff, 0x8000_0000, n as u32, 0x1000_0000][core::f(8)];
            b[i..i + 4].copy_from_slice(&v.to_le_bytes());
            format!("word at {} set to {}", i, v)
        }
        _ => {
            let i = core::f(n);
            let j = core::f(n);
            let k = (1 + core::f(32)).min(n - i.max(j));
            b.copy_within(i..i + k, j);
            format!("{} bytes copied from {} to {}", k, i, j)
        }
    }
}

/// Where the record or header in `b` keeps its lists of numbers and its attribute bytes:
/// offset, length in bytes, width of an element.
fn lists(b: &[u8], header: bool) -> Vec<(usize, usize, usize)> {
    use fcb_core::fb::*;
    let mut at: Vec<(usize, usize, usize)> = vec![];
    let mut keep = |v: &[u8], w: usize| {
        if !v.is_empty() {
            at.push((v.as_ptr() as usize - b.as_ptr() as usize, v.len(), w));
        }
    };
    let mut geom = |g: Geometry, keep: &mut dyn FnMut(&[u8], usize)| {
        for v in [g.solids(), g.shells(), g.surfaces(), g.strings(), g.boundaries(), g.semantics()].into_iter().flatten() {
            keep(v.bytes(), 4);
        }
        for m in g.material().iter().flatten() {
            for v in [m.solids(), m.shells(), m.vertices()].into_iter().flatten() {
                keep(v.bytes(), 4);
            }
        }
        for m in g.texture().iter().flatten() {
            for v in [m.solids(), m.shells(), m.surfaces(), m.strings(), m.vertices()].into_iter().flatten() {
                keep(v.bytes(), 4);
            }
        }
        for o in g.semantics_objects().iter().flatten() {
            if let Some(v) = o.attributes() {
                keep(v.bytes(), 1);
            }
            if let Some(v) = o.children() {
                keep(v.bytes(), 4);
            }
        }
    };
    if header {
        let Ok(h) = size_prefixed_root_as_header(b) else { return at };
        for g in h.templates().iter().flatten() {
            geom(g, &mut keep);
        }
        if let Some(v) = h.attributes() {
            keep(v.bytes(), 1);
        }
        for a in h.attribute_index().iter().flatten() {
            // (index, length, branching factor, number of items)
            keep(&a.0, 2);
        }
        for c in h.columns().iter().flatten().chain(h.semantic_columns().iter().flatten()) {
            keep(c.name().as_bytes(), 1);
        }
    } else {
        let Ok(f) = size_prefixed_root_as_city_feature(b) else { return at };
        for o in f.objects().iter().flatten() {
            for g in o.geometry().iter().flatten() {
                geom(g, &mut keep);
            }
            for i in o.geometry_instances().iter().flatten() {
                if let Some(v) = i.boundaries() {
                    keep(v.bytes(), 4);
                }
            }
            if let Some(v) = o.attributes() {
                keep(v.bytes(), 1);
            }
        }
    }
    at
}

/// Damages one number of one list, or the length of the list.
fn smash_list(b: &mut [u8], header: bool) -> Option<String> {
    let lists = lists(b, header);
    if lists.is_empty() {
        return None;
    }
    let (at, len, w) = lists[core::f(lists.len())];
    if w == 1 {
        let k = core::f(len);
        let v = match core::f(4) {
            0 => b[at + k].wrapping_add(1),
            1 => 255,
            2 => 0,
            _ => core::f(256) as u8,
        };
        b[at + k] = v;
        return Some(format!("byte {} of {} at {} set to {}", k, len, at, v));
    }
    if w == 4 && core::f(6) == 5 {
        let n = (len / 4) as u32;
        let v = [n - 1, 0, n / 2, n + 1][core::f(4)];
        b[at - 4..at].copy_from_slice(&v.to_le_bytes());
        return Some(format!("length {} at {} set to {}", n, at - 4, v));
    }
    let k = core::f(len / w) * w;
    if w == 2 {
        let v = [0u16, 1, u16::MAX, 2, 0x8000, 3][core::f(6)];
        b[at + k..at + k + 2].copy_from_slice(&v.to_le_bytes());
        return Some(format!("half-word {} at {} set to {}", k / 2, at, v));
    }
    let old = u32::from_le_bytes(b[at + k..at + k + 4].try_into().unwrap());
    let v = match core::f(7) {
        0 => old.wrapping_add(1),
        1 => old.wrapping_sub(1),
        2 => 0,
        3 => u32::MAX,
        4 => 0x7fff_ffff,
        5 => u32::MAX - 1,
        _ => core::f(1 << 20) as u32,
    };
    b[at + k..at + k + 4].copy_from_slice(&v.to_le_bytes());
    Some(format!("number {} of {} at {} changed from {} to {}", k / 4, len / 4, at, old, v))
}

pub fn c11() -> SResult {
    let src = remote::source(100)?;
    let large = matches!(src, Src::Large(_));
    let p: &Prep = &src;
    let all = p.all();
    let hsize = p.lay.header_size as usize;
    for _ in 0..4 {
        let ask = if core::f(3) > 0 { (Ask::All, "scan".to_string()) } else { remote::ask(p, large) };
        let (a, text) = &ask;
        let mut image = (*p.bytes).clone();
        core::fired("stored-bytes-damaged");
        match core::f(8) {
            0 => {
                // signature and version
                let i = core::f(7);
                let old = image[i];
                image[i] = if i == 3 {
                    // a later version
                    old + 1 + core::f(255 - old as usize) as u8
                } else if core::f(2) == 0 {
                    old ^ (1 << core::f(8))
                } else {
                    old.wrapping_add(1 + core::f(255) as u8)
                };
                let what = format!("{}: signature byte {} changed from {} to {}", text, i, old, image[i]);
                core::nontrivial();
                for (way, d) in survive(a, &Arc::new(image), &what)? {
                    ensure!(matches!(d.end, End::OpenErr(_)) && d.feats.is_empty(), "damaged signature accepted", "{}: {}", way, what);
                }
            }
            1 => {
                // header size
                let v: u32 = match core::f(6) {
                    0 => core::f(8) as u32,
                    1 => (512 << 20) + 1 + core::f(1 << 30) as u32,
                    2 => u32::MAX - core::f(16) as u32,
                    3 => (hsize as i64 + [-1i64, 1, -4, 4, -8, 8, -16, 64][core::f(8)]).max(0) as u32,
                    4 => (p.lay.len + core::f(1 << 20)) as u32,
                    _ => core::f(512 << 20) as u32,
                };
                if v as usize == hsize {
                    continue;
                }
                image[8..12].copy_from_slice(&v.to_le_bytes());
                let what = format!("{}: header size changed from {} to {}", text, hsize, v);
                let valid = (8..=512 << 20).contains(&v)
                    && 12 + v as usize <= image.len()
                    && fcb_core::fb::size_prefixed_root_as_header(&image[8..12 + v as usize]).is_ok();
                refused_unless(valid, a, image, &what)?;
            }
            2 => {
                let mut note = smash(&mut image[12..12 + hsize]);
                while core::f(4) == 3 {
                    note.push_str(", ");
                    note.push_str(&smash(&mut image[12..12 + hsize]));
                }
                let what = format!("{}: header damaged: {}", text, note);
                let valid = fcb_core::fb::size_prefixed_root_as_header(&image[8..12 + hsize]).is_ok();
                refused_unless(valid, a, image, &what)?;
            }
            3 if !p.lay.feats.is_empty() => {
                // framing of a feature
                let i = core::f(p.lay.feats.len());
                let (at, size) = (p.lay.feats[i].0, p.lay.feats[i].1 - 4);
                let v: u32 = match core::f(5) {
                    0 => 0,
                    1 => u32::MAX - core::f(1 << 10) as u32,
                    2 => (size as i64 + [-1i64, 1, -4, 4, -8, 8, 40, -40][core::f(8)]).max(0) as u32,
                    3 => core::f(1 << 31) as u32,
                    _ => core::f(size) as u32,
                };
                if v as usize == size {
                    continue;
                }
                image[at..at + 4].copy_from_slice(&v.to_le_bytes());
                let end = at + 4 + v as usize;
                let valid = end <= image.len() && fcb_core::fb::size_prefixed_root_as_city_feature(&image[at..end]).is_ok();
                let what = format!("{}: size of feature {} changed from {} to {}", text, i, size, v);
                bad_record(p, a, i, valid, true, image, &all, &what)?;
            }
            4 if !p.lay.feats.is_empty() => {
                let i = core::f(p.lay.feats.len());
                let (at, len) = (p.lay.feats[i].0, p.lay.feats[i].1);
                let note = smash(&mut image[at + 4..at + len]);
                let valid = fcb_core::fb::size_prefixed_root_as_city_feature(&image[at..at + len]).is_ok();
                let what = format!("{}: feature {} damaged: {}", text, i, note);
                bad_record(p, a, i, valid, false, image, &all, &what)?;
            }
            6 => {
                let Some(note) = smash_list(&mut image[8..12 + hsize], true) else { continue };
                core::probe("list-damaged-in-header");
                let what = format!("{}: header damaged: {}", text, note);
                let valid = fcb_core::fb::size_prefixed_root_as_header(&image[8..12 + hsize]).is_ok();
                refused_unless(valid, a, image, &what)?;
            }
            7 if !p.lay.feats.is_empty() => {
                let i = core::f(p.lay.feats.len());
                let (at, len) = (p.lay.feats[i].0, p.lay.feats[i].1);
                let Some(mut note) = smash_list(&mut image[at..at + len], false) else { continue };
                while core::f(4) == 3 {
                    if let Some(n) = smash_list(&mut image[at..at + len], false) {
                        note = format!("{}, {}", note, n);
                    }
                }
                core::probe("list-damaged");
                let valid = fcb_core::fb::size_prefixed_root_as_city_feature(&image[at..at + len]).is_ok();
                let what = format!("{}: feature {} damaged: {}", text, i, note);
                bad_record(p, a, i, valid, false, image, &all, &what)?;
            }
            5 if p.lay.feat_start > 12 + hsize => {
                // indices: whatever they say, a scan does not depend on them and a search survives it
                let (lo, hi) = (12 + hsize, p.lay.feat_start);
                let mut note = smash(&mut image[lo..hi]);
                while core::f(3) == 2 {
                    note.push_str(", ");
                    note.push_str(&smash(&mut image[lo..hi]));
                }
                let what = format!("{}: index damaged: {}", text, note);
                core::nontrivial();
                for (way, d) in survive(a, &Arc::new(image), &what)? {
                    if let Ask::All = a {
                        ensure!(d.ok(), "scan depends on an index", "{}: {}: {:?}", way, what, d.end);
                        same_list("with a damaged index", &d.feats, &all, &format!("{}: {}", way, what))?;
                    }
                }
            }
            _ => {}
        }
    }
    Ok(())
}

fn refused_unless(valid: bool, a: &Ask, image: Vec<u8>, what: &str) -> SResult {
    if !valid {
        core::nontrivial();
    } else {
        core::probe("header-damage-undetectable");
    }
    let image = Arc::new(image);
    header_survives(&image, what)?;
    for (way, d) in survive(a, &image, what)? {
        ensure!(valid || (matches!(d.end, End::OpenErr(_)) && d.feats.is_empty()), "damaged header accepted", "{}: {}", way, what);
    }
    Ok(())
}

/// Record `i` is damaged; `valid` when it still passes verification.
#[allow(clippy::too_many_arguments)]
fn bad_record(p: &Prep, a: &Ask, i: usize, valid: bool, framing: bool, image: Vec<u8>, all: &[&Value], what: &str) -> SResult {
    if valid && !framing {
        // what a record says has no checksum
        core::probe("record-damage-undetectable");
        return survive(a, &Arc::new(image), what).map(|_| ());
    }
    if !valid {
        core::nontrivial();
    } else {
        core::probe("framing-damage-undetectable");
    }
    let image = Arc::new(image);
    for (way, d) in survive(a, &image, what)? {
        let what = format!("{}: {}", way, what);
        match a {
            Ask::All if !valid => {
                ensure!(!d.ok(), "damaged record accepted", "{}: scan ended normally", what);
                ensure!(d.feats.len() <= i, "damaged record accepted", "{}: {} features delivered before the error", what, d.feats.len());
                same_list("before the damaged record", &d.feats, &all[..d.feats.len()], &what)?;
            }
            Ask::All => {
                let n = d.feats.len().min(i);
                same_list("before the damaged record", &d.feats[..n], &all[..n], &what)?;
            }
            _ if !valid => {
                let bad = &p.lay.feats[i].2;
                ensure!(!d.feats.iter().chain(&d.later).any(|f| f["id"].as_str() == Some(bad)), "damaged record accepted", "{}: {:?} delivered", what, bad);
            }
            _ => {}
        }
    }
    Ok(())
}
