//! Running the real writer under simulation.

use crate::core::{self, SResult, Viol};
use crate::gen::Dataset;
use crate::io::{IoPlan, IoState, SimWrite};
use crate::sys::{self, SysPlan, SysState};
use crate::{ensure, viol};
use cjseq::{CityJSON, CityJSONFeature};
use fcb_core::FcbWriter;
use std::io::{BufWriter, Write};
use std::sync::Arc;

pub fn no_sys() -> SysPlan {
    SysPlan {
        space: u64::MAX,
        ..Default::default()
    }
}

/// A plan for the temporary file without failures.
pub fn benign_sys() -> SysPlan {
    SysPlan {
        split: [0u8, 0, 1, 2][core::f(4)],
        split_seed: core::f(1 << 20) as u64,
        eintr: [0u64, 0, 3, 9][core::f(4)],
        ..no_sys()
    }
}

pub fn stop_sys() -> Box<SysState> {
    let s = sys::stop();
    for k in &s.fired {
        core::fired(k);
    }
    core::ev("tmp-ops", s.ops, s.written);
    s
}

/// How the sink is handed to the writer.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Wrap {
    Plain,
    /// `&mut BufWriter`, flushed by nobody but the library
    BufRef(usize),
    /// `BufWriter` by value
    BufVal(usize),
}

pub struct Written {
    /// Err: what the library reported, and the stage
    pub res: Result<(), String>,
    /// what reached the sink when `write` returned
    pub bytes: Vec<u8>,
    pub sys: Box<SysState>,
    pub st: std::rc::Rc<std::cell::RefCell<IoState>>,
}

/// Writes the dataset with the real writer.
pub fn write(
    ds: &Dataset,
    cj: CityJSON,
    feats: &[CityJSONFeature],
    tmp: SysPlan,
    sink: IoPlan,
    wrap: Wrap,
) -> Result<Written, Viol> {
    let st = IoState::new(sink);
    let out = SimWrite::new(&st);
    let data = out.data.clone();
    let opts = ds.options();
    let schema = ds.schema();
    let sem = ds.sem_schema();
    sys::stop_if_running();
    sys::start(tmp, vec![], true, vec![]);
    let r = core::guard(move || -> (Result<(), String>, Vec<u8>) {
        let r = (|| {
            let mut w =
                FcbWriter::new(cj, opts, schema, sem).map_err(|e| format!("new: {}", e))?;
            for f in feats {
                w.add_feature(f).map_err(|e| format!("add_feature: {}", e))?;
            }
            let d = data.clone();
            match wrap {
                Wrap::Plain => w.write(out).map_err(|e| format!("write: {}", e))?,
                Wrap::BufRef(c) => {
                    let mut b = BufWriter::with_capacity(c, out);
                    let r = w.write(&mut b).map_err(|e| format!("write: {}", e));
                    let now = d.borrow().clone();
                    // what the buffer still holds is lost with the process
                    let (_lost, _) = b.into_parts();
                    r?;
                    return Ok(now);
                }
                Wrap::BufVal(c) => {
                    let b = BufWriter::with_capacity(c, out);
                    w.write(b).map_err(|e| format!("write: {}", e))?
                }
            }
            let now = d.borrow().clone();
            Ok(now)
        })();
        match r {
            Ok(b) => (Ok(()), b),
            Err(e) => {
                let b = data.borrow().clone();
                (Err(e), b)
            }
        }
    });
    let sys = stop_sys();
    let (res, bytes) = r?;
    core::ev("written", bytes.len() as u64, res.is_ok() as u64);
    Ok(Written {
        res,
        bytes,
        sys,
        st,
    })
}

/// Writes with transfers split at random but no failures; a failure is a violation.
pub fn write_ok(ds: &Dataset) -> Result<Arc<Vec<u8>>, Viol> {
    let tmp = benign_sys();
    let sink = IoPlan::draw_benign();
    let w = write(ds, ds.cityjson(), &ds.features(), tmp, sink, Wrap::Plain)?;
    match w.res {
        Ok(()) => Ok(Arc::new(w.bytes)),
        Err(e) => viol!("writer refused the dataset", "{} ({})", e, ds.describe()),
    }
}

/// Writes without any perturbation.
pub fn write_plain(ds: &Dataset) -> Result<Arc<Vec<u8>>, Viol> {
    let w = write(
        ds,
        ds.cityjson(),
        &ds.features(),
        no_sys(),
        IoPlan::default(),
        Wrap::Plain,
    )?;
    match w.res {
        Ok(()) => Ok(Arc::new(w.bytes)),
        Err(e) => viol!("writer refused the dataset", "{} ({})", e, ds.describe()),
    }
}

/// `got` holds the wanted features in the wanted order.
pub fn same_list(
    class: &str,
    got: &[serde_json::Value],
    want: &[&serde_json::Value],
    what: &str,
) -> SResult {
    let id = |v: &serde_json::Value| v["id"].as_str().unwrap_or("?").to_string();
    let n = got.len().min(want.len());
    for i in 0..n {
        if &got[i] != want[i] {
            if id(&got[i]) != id(want[i]) {
                viol!(
                    format!("{}: wrong feature", class),
                    "{}: feature {} of {} is {:?}, expected {:?}",
                    what,
                    i,
                    want.len(),
                    id(&got[i]),
                    id(want[i])
                );
            }
            let d = crate::gen::diff(want[i], &got[i], "").unwrap_or_default();
            viol!(
                format!("{}: content differs", class),
                "{}: feature {:?}: {}",
                what,
                id(want[i]),
                d
            );
        }
    }
    ensure!(
        got.len() == want.len(),
        format!("{}: wrong number of features", class),
        "{}: {} features delivered, expected {}",
        what,
        got.len(),
        want.len()
    );
    Ok(())
}

/// `got` is a prefix of `want`.
pub fn prefix_list(
    class: &str,
    got: &[serde_json::Value],
    want: &[&serde_json::Value],
    what: &str,
) -> SResult {
    ensure!(
        got.len() <= want.len(),
        format!("{}: too many features", class),
        "{}: {} features delivered, the whole answer has {}",
        what,
        got.len(),
        want.len()
    );
    same_list(class, got, &want[..got.len()], what)
}

#[allow(dead_code)]
pub fn flush(w: &mut dyn Write) {
    let _ = w.flush();
}
