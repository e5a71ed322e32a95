//! C15: CityJSON text.

use super::cli::{self, Scratch};
use crate::core::{self, SResult, Viol};
use crate::gen::{self, Dataset, Profile};
use crate::io::{DATA_ERROR, EOF_ERROR, IoFault, IoPlan, IoState, SimRead};
use crate::sys::{self, SysFault, SysPlan};
use crate::{drive, ensure, viol};
use fcb_core::{read_cityjson, read_cityjson_from_reader, CJType, CJTypeKind};
use serde_json::Value;
use std::io::BufReader;
use std::sync::Arc;

/// What came out: the header or document, and the features.
struct Got {
    head: Value,
    feats: Vec<Value>,
    seq: bool,
}

fn got(r: Result<CJType, impl ToString>) -> Result<Got, String> {
    match r {
        Err(e) => Err(e.to_string()),
        Ok(CJType::Normal(cj)) => Ok(Got { head: serde_json::to_value(cj).unwrap(), feats: vec![], seq: false }),
        Ok(CJType::Seq(s)) => Ok(Got {
            head: serde_json::to_value(&s.cj).unwrap(),
            feats: s.features.iter().map(gen::canon).collect(),
            seq: true,
        }),
    }
}

struct Src {
    text: Vec<u8>,
    seq: bool,
    /// through a path and the system-call seam
    file: bool,
}

/// One reading. A fault position counts reads.
fn read(s: &Src, plan: &IoPlan, capacity: usize) -> Result<(Result<Got, String>, u64, Vec<u64>), Viol> {
    let kind = || if s.seq { CJTypeKind::Seq } else { CJTypeKind::Normal };
    if s.file {
        let dir = Scratch::new();
        dir.put("text", &s.text);
        let path = dir.path("text");
        let p = SysPlan {
            faults: plan
                .faults
                .iter()
                .map(|(k, f, st)| {
                    let f = match f {
                        IoFault::Errno(e) => SysFault::Errno(if *e > 0 { *e } else { libc::EIO }),
                        IoFault::Zero => SysFault::Zero,
                    };
                    (*k, f, *st)
                })
                .collect(),
            split: plan.split.min(2),
            split_seed: plan.seed,
            eintr: plan.eintr,
            ..drive::no_sys()
        };
        sys::stop_if_running();
        sys::start(p, path.clone().into_bytes(), true, vec![]);
        let r = core::guard(|| got(read_cityjson(&path, kind())));
        let st = drive::stop_sys();
        // the position of each read is unknown after the fact: the amounts asked for are enough
        let pos = st.log.iter().map(|_| u64::MAX).collect();
        return Ok((r?, st.ops, pos));
    }
    let st = IoState::new(plan.clone());
    let data = Arc::new(s.text.clone());
    let src = SimRead::new(&data, &st);
    let r = core::guard(|| got(read_cityjson_from_reader(BufReader::with_capacity(capacity, src), kind())))?;
    let st = st.borrow();
    let pos = st.log.iter().map(|l| l.1).collect();
    Ok((r, st.ops, pos))
}

/// The answer for a text: None when it is not well-formed.
fn want(ds: &Dataset, text: &[u8], seq: bool) -> Option<usize> {
    if !seq {
        return serde_json::from_slice::<Value>(text).ok().map(|_| 0);
    }
    let t = std::str::from_utf8(text).ok()?;
    let lines: Vec<&str> = t.lines().collect();
    if lines.is_empty() || lines.iter().any(|l| serde_json::from_str::<Value>(l).is_err()) {
        return None;
    }
    // a cut never leaves more lines than there were
    Some((lines.len() - 1).min(ds.feats.len()))
}

fn check(what: &str, ds: &Dataset, g: &Got, n: usize, doc: &Value) -> SResult {
    if !g.seq {
        let have = gen::canon_header(g.head.clone(), None);
        let want = gen::canon_header(doc.clone(), None);
        ensure!(have == want, format!("{}: document differs", what), "{}", gen::diff(&want, &have, "").unwrap_or_default());
        return Ok(());
    }
    let have = gen::canon_header(g.head.clone(), None);
    let want = gen::canon_header(ds.cj.clone(), None);
    ensure!(have == want, format!("{}: first line differs", what), "{}", gen::diff(&want, &have, "").unwrap_or_default());
    let canon = ds.canon();
    let want: Vec<&Value> = canon.iter().take(n).collect();
    drive::same_list(what, &g.feats, &want, "text")
}

/// A line that says nothing of its kind.
fn broken(line: &str) -> Vec<u8> {
    let b = line.as_bytes();
    match core::w(9) {
        0 => {
            // cut inside
            let mut k = core::w(b.len());
            while !line.is_char_boundary(k) {
                k -= 1;
            }
            b[..k.max(1).min(b.len() - 1)].to_vec()
        }
        1 => [b, b"}"].concat(),
        2 => b"{}".to_vec(),
        3 => b"null".to_vec(),
        4 => {
            let mut v = b.to_vec();
            let k = core::w(v.len());
            v.insert(k, 0xff);
            v
        }
        5 => [b, b" x"].concat(),
        6 => [b"x", b].concat(),
        7 => b"[]".to_vec(),
        _ => {
            // the first half of it and the first half again
            let mut k = b.len() / 2;
            while !line.is_char_boundary(k) {
                k -= 1;
            }
            [&b[..k], &b[..k]].concat()
        }
    }
}

pub fn c15() -> SResult {
    let mut ds = gen::dataset(&Profile { geometry: core::wb(3, 4), ..Default::default() });
    cli::settled(&mut ds);
    let seq = !core::wb(1, 4);
    let doc = cli::document(&ds);
    core::describe(format!("{} text: {}", if seq { "sequence" } else { "document" }, ds.describe()));
    core::nontrivial();
    let eol = if core::wb(1, 3) { "\r\n" } else { "\n" };
    let lines: Vec<String> = if seq {
        std::iter::once(ds.cj.to_string()).chain(ds.feats.iter().map(|f| f.to_string())).collect()
    } else if core::wb(1, 2) {
        vec![doc.to_string()]
    } else {
        serde_json::to_string_pretty(&doc).unwrap().lines().map(String::from).collect()
    };
    let mut text = lines.join(eol).into_bytes();
    if core::wb(1, 2) {
        text.extend_from_slice(eol.as_bytes());
    }
    let mut s = Src { text, seq, file: core::wb(1, 4) };
    let mut capacity = *[8192usize, 1, 7, 64, 1 << 20].get(core::f(5)).unwrap();
    if s.text.len() > 100_000 {
        capacity = capacity.max(8192);
    }
    let plan = IoPlan { buffer: 0, ..IoPlan::draw_benign() };

    // healthy
    let (r, ops, pos) = read(&s, &plan, capacity)?;
    match &r {
        Err(e) => viol!("well-formed text refused", "{} ({})", e, ds.describe()),
        Ok(g) => {
            ensure!(g.seq == seq, "wrong kind", "asked for a sequence: {}", seq);
            check("text", &ds, g, ds.feats.len(), &doc)?;
        }
    }

    // a failing source
    for _ in 0..3 {
        if ops == 0 {
            break;
        }
        let k = core::f(pos.len().min(ops as usize));
        let zero = !s.file && core::fb(1, 3);
        let fault = if zero { IoFault::Zero } else { IoFault::Errno(*[libc::EIO, libc::EAGAIN, libc::ETIMEDOUT, libc::ECONNRESET, libc::ENOMEM, EOF_ERROR, DATA_ERROR, libc::EPIPE].get(core::f(8)).unwrap()) };
        let p = IoPlan { faults: vec![(k as u64, fault, zero || core::fb(1, 2))], ..plan.clone() };
        let (r, _, _) = read(&s, &p, capacity)?;
        if !zero {
            core::fired("read-error");
            ensure!(r.is_err(), "a failing source became a dataset", "operation {} of {} failed; {} features came out", k, ops, r.map_or(0, |g| g.feats.len()));
            continue;
        }
        core::fired("read-eof");
        let at = pos[k] as usize;
        if let Ok(g) = &r {
            match want(&ds, &s.text[..at.min(s.text.len())], seq) {
                None => viol!("a cut text became a dataset", "it ended at {} of {}; {} features came out", at, s.text.len(), g.feats.len()),
                Some(n) => check("cut text", &ds, g, n, &doc)?,
            }
        }
    }

    // a cut text
    let whole = s.text.clone();
    for _ in 0..2 {
        let at = core::f(whole.len());
        s.text = whole[..at].to_vec();
        core::fired("cut");
        let (r, _, _) = read(&s, &plan, capacity)?;
        match (r, want(&ds, &s.text, seq)) {
            (Ok(g), None) => viol!("a cut text became a dataset", "cut at {} of {}; {} features came out", at, whole.len(), g.feats.len()),
            (Ok(g), Some(n)) => check("cut text", &ds, &g, n, &doc)?,
            (Err(e), Some(n)) => viol!("well-formed text refused", "{} whole lines: {}", n + 1, e),
            (Err(_), None) => {}
        }
    }

    // a line that is no feature, a missing first line, a missing source
    if seq {
        let mut bad: Vec<Vec<u8>> = lines.iter().map(|l| l.clone().into_bytes()).collect();
        if core::wb(1, 6) && lines.len() > 1 {
            bad.remove(0);
        } else {
            let k = core::w(lines.len());
            bad[k] = broken(&lines[k]);
        }
        s.text = bad.join(eol.as_bytes());
        core::fired("broken-line");
        let (r, _, _) = read(&s, &plan, capacity)?;
        if let Ok(g) = r {
            viol!("a broken line was accepted", "{} of {} features came out", g.feats.len(), ds.feats.len());
        }
    }
    // lines that say nothing, anywhere: refused or passed over, but nothing else is
    if seq && core::wb(1, 2) {
        let mut gaps: Vec<&[u8]> = lines.iter().map(|l| l.as_bytes()).collect();
        for _ in 0..1 + core::w(2) {
            let nothing: &[u8] = [&b""[..], b" ", b"\t  ", b"\xef\xbb\xbf", b"\0", b"\x0c", b"\x1a"][core::w(7)];
            gaps.insert(core::w(gaps.len() + 1), nothing);
        }
        s.text = gaps.join(eol.as_bytes());
        core::fired("empty-line");
        let (r, _, _) = read(&s, &plan, capacity)?;
        if let Ok(g) = r {
            check("text with empty lines", &ds, &g, ds.feats.len(), &doc)?;
        }
    }
    // more than one document
    if !seq {
        s.text = [&whole[..], [&b"\n"[..], b"", b"\n\n\0"][core::w(3)], [&whole[..], b"{}", b"x", b"]"][core::w(4)]].concat();
        core::fired("second-document");
        let (r, _, _) = read(&s, &plan, capacity)?;
        ensure!(r.is_err(), "what follows the document was passed over", "");
    }
    let dir = Scratch::new();
    let r = core::guard(|| got(read_cityjson(&dir.path("none"), if seq { CJTypeKind::Seq } else { CJTypeKind::Normal })))?;
    ensure!(r.is_err(), "a missing file became a dataset", "");
    Ok(())
}
