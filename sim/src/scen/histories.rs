//! C22: several readers and writers in one process, each used in its own way.

use super::meta::{self, Said};
use super::prep::{self, Prep};
use super::remote;
use crate::core::{self, SResult, Viol};
use crate::gen::{self, Profile};
use crate::io::{EOF_ERROR, IoFault, IoPlan, IoState, SimRead, SimSeek, SimWrite};
use crate::net::{self, Server, ServerCfg};
use crate::paths::{self, Ask, Delivered, Retry};
use crate::{drive, ensure, exec, sys, viol};
use fallible_streaming_iterator::FallibleStreamingIterator;
use fcb_core::{FcbReader, FcbWriter, HttpFcbReader};
use serde_json::Value;
use std::cell::RefCell;
use std::collections::HashMap;
use std::future::Future;
use std::io::{Read, Seek};
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};

/// Lets another task go first.
struct Pass(bool);
impl Future for Pass {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<()> {
        if self.0 {
            return Poll::Ready(());
        }
        self.0 = true;
        cx.waker().wake_by_ref();
        Poll::Pending
    }
}
async fn pass() {
    Pass(false).await
}

/// What is known of a file and of the answer to one request.
struct Known {
    p: Prep,
    said: Said,
    /// id -> length of its record
    len: HashMap<String, usize>,
}

fn known(writers: bool) -> Result<Known, Viol> {
    let profile = Profile {
        geometry: core::wb(1, 3),
        spatial: core::wb(2, 3),
        attrs: core::w(3) as u8,
        max_small: 10,
        meta: core::wb(1, 3),
        ..Default::default()
    };
    let p = if writers {
        // more than a writer keeps in memory
        prep::of(gen::build(&profile, 40 + core::w(60), true, &mut gen::G::expanded()))?
    } else {
        prep::make(&profile)?
    };
    let said = match core::guard(|| FcbReader::open(std::io::Cursor::new(p.bytes.as_slice())).map(|r| meta::said(&r.header())))? {
        Ok(s) => s,
        Err(e) => viol!("open failed", "{}", e),
    };
    let len = p.lay.feats.iter().map(|f| (f.2.clone(), f.1)).collect();
    Ok(Known { p, said, len })
}

/// One request and the answer to it.
struct Job {
    k: usize,
    ask: Ask,
    text: String,
    seek: bool,
    /// when it is asked alone and nothing fails
    alone: Delivered,
    /// whether this one meets failures
    faulty: bool,
}

/// What the history so far implies.
struct Model<'a> {
    k: &'a Known,
    j: &'a Job,
    at: usize,
    /// a feature is current
    cur: bool,
    ended: bool,
    failed: bool,
    steps: Vec<String>,
}

impl<'a> Model<'a> {
    fn new(k: &'a Known, j: &'a Job) -> Model<'a> {
        Model { k, j, at: 0, cur: false, ended: false, failed: false, steps: vec![] }
    }
    fn what(&self) -> String {
        let n = self.steps.len();
        format!("{} [{}] after {}", self.j.text, if self.j.seek { "seekable" } else { "sequential" }, self.steps[n.saturating_sub(8)..].join(" "))
    }
    fn left(&self) -> usize {
        self.j.alone.feats.len() - self.at
    }
    /// A step forward over `skip` features ended this way.
    fn moved(&mut self, skip: usize, r: Result<bool, String>) -> SResult {
        self.cur = false;
        match r {
            Ok(true) => {
                ensure!(!self.ended, "feature after the end", "{}", self.what());
                ensure!(!self.failed, "feature after an error", "{}", self.what());
                ensure!(skip < self.left(), "more features than the answer has", "{}: the answer has {}", self.what(), self.j.alone.feats.len());
                self.at += skip + 1;
                self.cur = true;
            }
            Ok(false) => {
                // (where the number of features is unknown, a source that ends early ends them)
                if !self.failed && !(self.j.faulty && self.k.said.count == 0) {
                    ensure!(skip >= self.left(), "ended before the last feature", "{}: {} left", self.what(), self.left());
                    self.at = self.j.alone.feats.len();
                }
                self.ended = true;
            }
            Err(e) => {
                ensure!(self.j.faulty, "failed without a fault", "{}: {}", self.what(), e);
                self.failed = true;
            }
        }
        Ok(())
    }
    fn hinted(&self, (lo, hi): (usize, Option<usize>)) -> SResult {
        if self.failed {
            return Ok(());
        }
        let left = self.left();
        ensure!(
            lo <= left && hi.is_none_or(|h| left <= h),
            "size hint wrong",
            "{}: {} to {:?}, there are {} left", self.what(), lo, hi, left
        );
        Ok(())
    }
    fn shown(&self, cj: Result<Value, String>, id: &str, len: Option<usize>, how: &str) -> SResult {
        let want = &self.j.alone.feats[self.at - 1];
        match cj {
            Ok(v) => ensure!(&v == want, "current feature differs", "{} by {}: {:?}, expected {:?}: {}", self.what(), how, v["id"], want["id"], gen::diff(want, &v, "").unwrap_or_default()),
            Err(e) => viol!("current feature undecodable", "{} by {}: {}", self.what(), how, e),
        }
        ensure!(want["id"] == id, "current feature differs", "{} by {}: {:?}, expected {:?}", self.what(), how, id, want["id"]);
        if let (Some(l), Some(w)) = (len, self.k.len.get(id)) {
            ensure!(l == *w, "length of the current feature", "{}: {}, its record has {}", self.what(), l, w);
        }
        Ok(())
    }
    fn headed(&self, said: Said, schema: Vec<(u16, String, u8)>) -> SResult {
        ensure!(said == self.k.said, "header differs", "{}: {:?}, the file says {:?}", self.what(), said, self.k.said);
        ensure!(schema == self.k.said.columns, "schema differs", "{}: {:?}", self.what(), schema);
        Ok(())
    }
    /// `FcbBuffer::meta`
    fn described(&self, m: Result<fcb_core::Meta, String>) -> SResult {
        let said = &self.k.said;
        match m {
            Ok(m) => {
                ensure!(m.feature_count == said.count, "meta differs", "{}: {} features", self.what(), m.feature_count);
                let v = serde_json::to_value(&m).unwrap();
                let got: Vec<(u64, String, String, bool)> = v["columns"]
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|c| (c["index"].as_u64().unwrap(), c["name"].as_str().unwrap().into(), c["type"].as_str().unwrap_or("?").into(), c["attrIndex"].as_bool().unwrap()))
                    .collect();
                let want: Vec<(u64, String, String, bool)> = said
                    .columns
                    .iter()
                    .map(|(i, n, t)| {
                        let t = fcb_core::ColumnType(*t).variant_name().unwrap_or("?").to_string();
                        (*i as u64, n.clone(), t, said.attr.iter().any(|a| a.0 == *i))
                    })
                    .collect();
                let same = got.len() == want.len() && got.iter().zip(&want).all(|(g, w)| g.0 == w.0 && g.1 == w.1 && g.2.eq_ignore_ascii_case(&w.2) && g.3 == w.3);
                ensure!(same, "meta differs", "{}: {:?}, the header says {:?}", self.what(), got, want);
                core::probe("meta");
            }
            // a file without columns has no meta
            Err(e) => ensure!(said.columns.is_empty(), "meta refused", "{}: {}", self.what(), e),
        }
        Ok(())
    }
}

fn schema_of(v: Option<flatbuffers::Vector<flatbuffers::ForwardsUOffset<fcb_core::Column>>>) -> Vec<(u16, String, u8)> {
    v.map(|v| v.iter().map(|c| (c.index(), c.name().to_string(), c.type_().0)).collect()).unwrap_or_default()
}

macro_rules! history {
    ($m:expr, $it:expr, $len:expr) => {{
        let m = $m;
        let mut it = $it;
        let len = $len;
        let count = it.features_count();
        ensure!(count == m.j.alone.announced, "announced count differs", "{}: {:?}, alone {:?}", m.what(), count, m.j.alone.announced);
        let mut after = 0;
        loop {
            pass().await;
            core::step();
            // (the simplest history: to the end, looking at every feature)
            let op = core::f(10);
            match op {
                0..=3 => {
                    m.steps.push("next".into());
                    let r = it.next().map(|r| r.is_some()).map_err(|e| e.to_string());
                    m.moved(0, r)?;
                }
                4 => {
                    let n = core::f(4);
                    m.steps.push(format!("nth({})", n));
                    let r = FallibleStreamingIterator::nth(&mut it, n).map(|r| r.is_some()).map_err(|e| e.to_string());
                    m.moved(n, r)?;
                }
                5 => {
                    m.steps.push("size_hint".into());
                    m.hinted(it.size_hint())?;
                }
                6 => {
                    m.steps.push("header".into());
                    m.headed(meta::said(&it.header()), schema_of(it.root_attr_schema()))?;
                    ensure!(it.features_count() == count, "announced count changes", "{}: {:?}, first {:?}", m.what(), it.features_count(), count);
                }
                7 if core::f(4) == 3 && !m.failed && !m.ended => {
                    m.steps.push("count".into());
                    let left = m.left();
                    match FallibleStreamingIterator::count(it) {
                        Ok(n) => ensure!(n == left, "count differs", "{}: {}, there are {}", m.what(), n, left),
                        Err(e) => m.moved(0, Err(e.to_string()))?,
                    }
                    return Ok(());
                }
                8 if core::f(12) == 11 => {
                    core::probe("reader-dropped");
                    return Ok(());
                }
                _ => {}
            }
            if m.cur && (op == 0 || op == 9) {
                m.steps.push("cur".into());
                let cj = it.cur_cj_feature().map(|f| gen::canon(&f)).map_err(|e| e.to_string());
                m.shown(cj, it.cur_feature().id(), len(&it), "cur_cj_feature")?;
                let Some(b) = it.get() else { viol!("no current feature", "{}", m.what()) };
                m.shown(b.cj_feature().map(|f| gen::canon(&f)).map_err(|e| e.to_string()), b.feature().id(), Some(b.features_buf.len()), "get")?;
                m.headed(meta::said(&b.header()), schema_of(b.header().columns()))?;
                m.described(b.meta().map_err(|e| e.to_string()))?;
            }
            if m.ended || m.failed {
                if m.ended && !m.failed {
                    ensure!(it.get().is_none(), "a current feature after the end", "{}", m.what());
                }
                after += 1;
                if after > 3 {
                    break;
                }
            }
        }
        Ok(())
    }};
}

async fn local_task(m: &mut Model<'_>, st: Rc<RefCell<IoState>>, unchecked: bool) -> SResult {
    let src = SimRead::new(&m.k.p.bytes, &st);
    if m.j.seek {
        seek_task(m, SimSeek(src), unchecked).await
    } else {
        seq_task(m, src, unchecked).await
    }
}

macro_rules! opened {
    ($m:expr, $r:expr) => {
        match $r {
            Ok(r) => r,
            Err(e) => {
                let refused = matches!($m.j.alone.end, paths::End::OpenErr(_));
                ensure!(refused || $m.j.faulty, "failed without a fault", "{}: {}", $m.what(), e);
                return Ok(());
            }
        }
    };
}

fn open<R: Read>(src: R, unchecked: bool) -> Result<FcbReader<R>, fcb_core::error::Error> {
    if unchecked {
        core::probe("open-unchecked");
        // the file is intact
        unsafe { FcbReader::open_unchecked(src) }
    } else {
        FcbReader::open(src)
    }
}

async fn seek_task<R: Read + Seek>(m: &mut Model<'_>, src: R, unchecked: bool) -> SResult {
    let r = opened!(m, open(src, unchecked));
    pass().await;
    m.headed(meta::said(&r.header()), schema_of(r.root_attr_schema()))?;
    pass().await;
    let it = match &m.j.ask {
        Ask::All => r.select_all(),
        Ask::Spatial(q) => r.select_query(q.clone()),
        Ask::Attr(q) => r.select_attr_query(q.clone()),
    };
    let it = opened!(m, it);
    history!(m, it, |it: &fcb_core::FeatureIter<R, _>| Some(it.cur_feature_len()))
}

async fn seq_task<R: Read>(m: &mut Model<'_>, src: R, unchecked: bool) -> SResult {
    let r = opened!(m, open(src, unchecked));
    pass().await;
    m.headed(meta::said(&r.header()), schema_of(r.root_attr_schema()))?;
    pass().await;
    let it = match &m.j.ask {
        Ask::All => r.select_all_seq(),
        Ask::Spatial(q) => r.select_query_seq(q.clone()),
        Ask::Attr(q) => r.select_attr_query_seq(q.clone()),
    };
    let it = opened!(m, it);
    history!(m, it, |_: &fcb_core::FeatureIter<R, _>| None)
}

async fn http_task(m: &mut Model<'_>, client: http_range_client::AsyncBufferedHttpRangeClient<net::Client>) -> SResult {
    let r = opened!(m, HttpFcbReader::new(client).await);
    m.headed(meta::said(&r.header()), schema_of(r.header().columns()))?;
    let it = match &m.j.ask {
        Ask::All => r.select_all().await,
        Ask::Spatial(q) => r.select_query(q.clone()).await,
        Ask::Attr(q) => r.select_attr_query(q).await,
    };
    let mut it = opened!(m, it);
    let count = it.features_count();
    ensure!(count == m.j.alone.announced, "announced count differs", "{}: {:?}, alone {:?}", m.what(), count, m.j.alone.announced);
    let mut after = 0;
    loop {
        core::step();
        let op = core::f(6);
        match op {
            0..=2 => {
                m.steps.push("next".into());
                // giving up the wait changes nothing: the same feature is still the next one
                let patience = if core::f(6) == 5 { 1 + core::f(3) as u64 } else { u64::MAX };
                let Some(next) = exec::patient(it.next(), patience).await else {
                    m.steps.push("given up".into());
                    m.cur = false;
                    continue;
                };
                let r = match next {
                    Ok(Some(b)) => {
                        // what is handed out is what is current
                        let got = b.cj_feature().map(|f| gen::canon(&f)).map_err(|e| e.to_string());
                        let (id, len) = (b.feature().id().to_string(), b.features_buf.len());
                        m.moved(0, Ok(true))?;
                        m.shown(got, &id, Some(len), "next")?;
                        continue;
                    }
                    Ok(None) => Ok(false),
                    Err(e) => Err(e.to_string()),
                };
                if m.failed && matches!(r, Ok(false)) {
                    return Ok(());
                }
                let failed = r.is_err();
                m.moved(0, r)?;
                if failed {
                    // what follows a failure is for C08 to judge
                    return Ok(());
                }
            }
            3 => {
                m.steps.push("header".into());
                m.headed(meta::said(&it.header()), schema_of(it.header().columns()))?;
                ensure!(it.features_count() == count, "announced count changes", "{}: {:?}, first {:?}", m.what(), it.features_count(), count);
            }
            4 if core::f(12) == 11 => {
                core::probe("reader-dropped");
                return Ok(());
            }
            _ if m.cur => {
                m.steps.push("cur".into());
                let cj = it.cur_cj_feature().map(|f| gen::canon(&f)).map_err(|e| e.to_string());
                let b = it.cur_feature();
                m.shown(cj, b.feature().id(), Some(b.features_buf.len()), "cur_cj_feature")?;
                m.described(b.meta().map_err(|e| e.to_string()))?;
                pass().await;
            }
            _ => pass().await,
        }
        if m.ended {
            after += 1;
            if after > 3 {
                return Ok(());
            }
        }
    }
}

/// Writes the dataset again, letting others go between the calls.
async fn writer_task(k: &Known, feats: &[cjseq::CityJSONFeature]) -> SResult {
    let ds = &k.p.ds;
    let st = IoState::new(IoPlan::default());
    let out = SimWrite::new(&st);
    let data = out.data.clone();
    let w = FcbWriter::new(ds.cityjson(), ds.options(), ds.schema(), ds.sem_schema());
    let mut w = match w {
        Ok(w) => w,
        Err(e) => viol!("writer failed among others", "new: {}", e),
    };
    for f in feats {
        pass().await;
        if let Err(e) = w.add_feature(f) {
            viol!("writer failed among others", "add_feature: {}", e);
        }
        if core::f(60) == 59 {
            core::probe("writer-dropped");
            return Ok(());
        }
    }
    pass().await;
    if let Err(e) = w.write(out) {
        viol!("writer failed among others", "write: {}", e);
    }
    let got = data.borrow();
    ensure!(*got == *k.p.bytes, "writer disturbed by others", "{} bytes, {} when it writes alone; first difference at {:?} ({})", got.len(), k.p.bytes.len(), got.iter().zip(k.p.bytes.iter()).position(|(a, b)| a != b), ds.describe());
    core::probe("written-among-others");
    Ok(())
}

fn io_fault() -> IoFault {
    [IoFault::Errno(libc::EIO), IoFault::Zero, IoFault::Errno(libc::ECONNRESET), IoFault::Errno(EOF_ERROR)][core::f(4)]
}

pub fn c22() -> SResult {
    // several writers at once, rather than anything
    let writers = core::wb(1, 10);
    let files = (0..1 + core::w(2)).map(|_| known(writers)).collect::<Result<Vec<_>, _>>()?;
    let n = 1 + core::w(4) + writers as usize;
    let mut jobs: Vec<(Job, u8)> = vec![];
    for _ in 0..n {
        let k = core::w(files.len());
        let p = &files[k].p;
        let way = if writers && !core::wb(1, 4) { 6 } else { core::w(7) as u8 };
        let (ask, text) = remote::ask(p, false);
        let seek = way < 3;
        let alone = match way {
            0..=4 => paths::local(&ask, seek, &p.bytes, &IoState::new(IoPlan::default()), 0)?,
            5 => paths::http_alone(&ask, &Server::new(p.bytes.clone(), ServerCfg::default()), &Retry::default())?,
            _ => Delivered::open_err("-"),
        };
        if way < 6 && matches!(alone.end, paths::End::Err(_)) {
            viol!("request failed", "{}: {:?}", text, alone.end);
        }
        let faulty = way < 6 && core::f(4) == 3;
        jobs.push((Job { k, ask, text, seek, alone, faulty }, way));
    }
    let feats: Vec<Vec<cjseq::CityJSONFeature>> = files.iter().map(|k| k.p.ds.features()).collect();
    let results: Vec<RefCell<SResult>> = jobs.iter().map(|_| RefCell::new(Ok(()))).collect();
    if n > 1 || jobs[0].0.alone.feats.len() > 1 {
        core::nontrivial();
    }
    sys::stop_if_running();
    sys::start(drive::benign_sys(), vec![], true, vec![]);
    let mut tasks: Vec<exec::Task> = vec![];
    for ((j, way), res) in jobs.iter().zip(&results) {
        let k = &files[j.k];
        match way {
            0..=4 => {
                let mut plan = IoPlan::draw_benign();
                plan.buffer = 0;
                if j.faulty {
                    plan.faults = vec![(core::f(60) as u64, io_fault(), core::fb(1, 2))];
                }
                let st = IoState::new(plan);
                let unchecked = core::f(4) == 3;
                tasks.push(Box::pin(async move {
                    let mut m = Model::new(k, j);
                    let r = local_task(&mut m, st, unchecked).await;
                    *res.borrow_mut() = r;
                }));
            }
            5 => {
                let srv = Server::new(
                    k.p.bytes.clone(),
                    ServerCfg {
                        latency: core::fb(2, 3),
                        split_seed: core::f(1 << 20) as u64,
                        faults: if j.faulty { vec![(core::f(6) as u64, remote::net_fault())] } else { vec![] },
                        ..Default::default()
                    },
                );
                tasks.push(Box::pin(async move {
                    let mut m = Model::new(k, j);
                    let r = http_task(&mut m, net::client(&srv, 0)).await;
                    *res.borrow_mut() = r;
                }));
            }
            _ => {
                let feats = &feats[j.k];
                tasks.push(Box::pin(async move {
                    let r = writer_task(k, feats).await;
                    *res.borrow_mut() = r;
                }));
            }
        }
    }
    // some are given up midway
    let cancel: Vec<Option<u64>> = (0..n).map(|_| (core::f(8) == 7).then(|| core::f(40) as u64)).collect();
    let r = core::guard(move || exec::run(tasks, &cancel));
    drive::stop_sys();
    r??;
    for r in results {
        r.into_inner()?;
    }
    Ok(())
}
