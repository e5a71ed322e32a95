//! C14: the real `fcb` executable, its system calls under the seam of `preload/`.

use super::{meta, prep};
use crate::core::{self, SResult, Viol};
use crate::gen::{self, Dataset, Profile};
use crate::io::{IoPlan, IoState, SimRead};
use crate::paths::{self, Ask};
use crate::sys::{SysFault, SysPlan};
use crate::{drive, ensure, layout, query, viol};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::fs;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::Arc;

/// A directory of this run's own, removed when it ends.
pub struct Scratch(PathBuf);

impl Scratch {
    pub fn root() -> PathBuf {
        let shm = Path::new("/dev/shm");
        if shm.is_dir() {
            shm.into()
        } else {
            std::env::temp_dir()
        }
    }
    pub fn name(pid: u32) -> PathBuf {
        Scratch::root().join(format!("fcbsim-cli-{}", pid))
    }
    pub fn new() -> Scratch {
        let p = Scratch::name(std::process::id());
        let _ = fs::remove_dir_all(&p);
        fs::create_dir_all(&p).expect("harness: scratch directory");
        Scratch(p)
    }
    pub fn path(&self, n: &str) -> String {
        self.0.join(n).to_str().unwrap().to_string()
    }
    pub fn put(&self, n: &str, b: &[u8]) {
        fs::write(self.0.join(n), b).expect("harness: scratch file");
    }
    fn get(&self, n: &str) -> Vec<u8> {
        fs::read(self.0.join(n)).unwrap_or_default()
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}

/// One use of the tool.
#[derive(Clone)]
struct Job {
    args: Vec<String>,
    input: Vec<u8>,
    /// the input goes through standard input, the output through standard output
    stdin: bool,
    stdout: bool,
    /// the output file holds this much already
    old: usize,
}

struct Ran {
    ok: bool,
    code: i32,
    out: Vec<u8>,
    stdout: Vec<u8>,
    stderr: String,
    fired: Vec<String>,
    /// call and role of each operation
    ops: Vec<(u8, u8)>,
}

fn invoke(s: &Scratch, job: &Job, plan: &SysPlan, hash: u64) -> Result<Ran, Viol> {
    let exe = std::env::current_exe().expect("harness: own path");
    let dir = exe.parent().unwrap();
    s.put("in", &job.input);
    s.put("out", &vec![b'#'; job.old]);
    if job.old == 0 {
        let _ = fs::remove_file(s.path("out"));
    }
    let _ = fs::remove_file(s.path("log"));
    let args: Vec<String> = job
        .args
        .iter()
        .map(|a| match a.as_str() {
            "<in>" if job.stdin => "-".into(),
            "<in>" => s.path("in"),
            "<out>" if job.stdout => "-".into(),
            "<out>" => s.path("out"),
            a => a.to_string(),
        })
        .collect();
    let file = |n: &str| fs::File::create(s.path(n)).expect("harness: scratch file");
    let status = Command::new(dir.join("fcb"))
        .args(&args)
        .env_clear()
        .env("LD_PRELOAD", dir.join("libfcbsim_preload.so"))
        .env("FCBSIM_PLAN", plan.text(hash, s.0.to_str().unwrap(), &s.path("log")))
        .current_dir(&s.0)
        .stdin(if job.stdin {
            Stdio::from(fs::File::open(s.path("in")).expect("harness: input"))
        } else {
            Stdio::null()
        })
        .stdout(Stdio::from(file("stdout")))
        .stderr(Stdio::from(file("stderr")))
        .status()
        .expect("harness: the tool does not start");
    let stderr = String::from_utf8_lossy(&s.get("stderr")).into_owned();
    if status.signal() == Some(libc::SIGALRM) {
        viol!("hang", "{:?} was still running after 20 s", job.args);
    }
    if status.signal() == Some(libc::SIGKILL) || status.code() == Some(99) {
        panic!("harness: the tool was ended: {:?} {}", status, stderr);
    }
    let log = String::from_utf8_lossy(&s.get("log")).into_owned();
    let mut fired = vec![];
    let mut ops = vec![];
    for l in log.lines() {
        if let Some(f) = l.strip_prefix("f ") {
            let name = f.split(' ').next().unwrap();
            core::fired(name);
            fired.push(name.to_string());
        } else if let Some(o) = l.strip_prefix('o') {
            ops = o.as_bytes().chunks(2).map(|c| (c[0], c[1] - b'0')).collect();
        }
    }
    for _ in 0..ops.len().min(1000) {
        core::step();
    }
    let stdout = s.get("stdout");
    let out = if job.stdout { stdout.clone() } else { s.get("out") };
    core::ev("cli", status.code().unwrap_or(-1) as u64, ops.len() as u64);
    core::ev("cli-out", core::fnv(&out), out.len() as u64);
    core::note(|| format!("fcb {:?} {:?}: {:?}, {} bytes, {}", job.args, plan, status, out.len(), stderr.trim()));
    Ok(Ran {
        ok: status.success(),
        code: status.code().unwrap_or(-1),
        out,
        stdout,
        stderr,
        fired,
        ops,
    })
}

fn hard(fired: &[String]) -> bool {
    fired.iter().any(|f| f != "sys-eintr" && f != "sys-short-read" && f != "sys-short-write")
}

/// Where to fail: an operation of the fault-free run.
fn faulted(base: &SysPlan, ops: &[(u8, u8)], out_len: usize, text_input: bool) -> SysPlan {
    let mut p = base.clone();
    if core::f(5) == 4 && out_len > 0 {
        p.space = match core::f(4) {
            0 => 0,
            1 => out_len as u64 - 1,
            _ => core::f(2 * out_len + 64) as u64,
        };
        return p;
    }
    if ops.is_empty() {
        return p;
    }
    // the kinds of operation are equally likely, however many there are of each
    let mut by: BTreeMap<(u8, u8), Vec<usize>> = BTreeMap::new();
    for (i, o) in ops.iter().enumerate() {
        by.entry(*o).or_default().push(i);
    }
    for _ in 0..1 + core::f(4) / 3 {
        let k = core::f(by.len());
        let ((call, role), at) = by.iter().nth(k).unwrap();
        let op = match core::f(4) {
            3 => at[at.len() - 1],
            2 => at[0],
            _ => at[core::f(at.len())],
        } as u64;
        let fault = match call {
            b'r' => match core::f(5) {
                3 => SysFault::Errno(libc::EISDIR),
                4 => SysFault::Errno(libc::ECONNRESET),
                // an early end of a text is a shorter text: cut inputs are made apart
                2 if !(text_input && *role != 1) => SysFault::Zero,
                1 => SysFault::Errno(libc::EIO),
                _ => SysFault::Errno(libc::ENOMEM),
            },
            b'w' => match core::f(6) {
                4 => SysFault::Errno(libc::EPIPE),
                5 => SysFault::Errno(libc::EFBIG),
                3 => SysFault::Zero,
                2 => SysFault::Errno(libc::EDQUOT),
                1 => SysFault::Errno(libc::ENOSPC),
                _ => SysFault::Errno(libc::EIO),
            },
            b'o' => SysFault::Errno([libc::EMFILE, libc::EACCES, libc::ENOSPC][core::f(3)]),
            _ => SysFault::Errno(libc::EIO),
        };
        p.faults.push((op, fault, core::fb(1, 2)));
    }
    p
}

fn base_plan() -> SysPlan {
    SysPlan {
        split: [0u8, 0, 1, 2][core::f(4)],
        split_seed: core::f(1 << 20) as u64,
        eintr: [0u64, 0, 3, 9][core::f(4)],
        ..drive::no_sys()
    }
}

/// Runs the job without failures (it must succeed and be right) and then with some.
fn campaign(s: &Scratch, job: &Job, text_input: bool, check: &dyn Fn(&Ran) -> SResult) -> SResult {
    let base = base_plan();
    let hash = core::draw(core::H, 1 << 32);
    let r = invoke(s, job, &base, hash)?;
    ensure!(r.ok, "failure without a cause", "{:?} ended with {}: {}", job.args, r.code, last(&r.stderr));
    check(&r)?;
    for _ in 0..2 {
        let plan = faulted(&base, &r.ops, r.out.len(), text_input);
        let x = invoke(s, job, &plan, hash)?;
        if !hard(&x.fired) {
            ensure!(x.ok, "failure without a cause", "{:?} ended with {}: {}", job.args, x.code, last(&x.stderr));
            ensure!(x.out == r.out, "output differs between runs", "{:?}", job.args);
        }
        if x.ok {
            if hard(&x.fired) {
                core::probe("success-despite-fault");
            }
            check(&x).map_err(|v| Viol {
                class: format!("success reported although {}: {}", x.fired.iter().find(|f| hard(&[f.to_string()])).map_or("nothing failed", |f| f), v.class),
                msg: format!("{:?} {:?}: {}", job.args, plan.faults, v.msg),
            })?;
        }
    }
    Ok(())
}

fn last(s: &str) -> String {
    let l: Vec<&str> = s.trim().lines().rev().take(2).collect();
    l.join(" / ").chars().take(300).collect()
}

fn text_of(ds: &Dataset, end_newline: bool) -> Vec<u8> {
    let mut t = ds.cj.to_string();
    for f in &ds.feats {
        t.push('\n');
        t.push_str(&f.to_string());
    }
    if end_newline {
        t.push('\n');
    }
    t.into_bytes()
}

// ---------------------------------------------------------------- ser

struct Ser {
    ds: Dataset,
    /// features that must be there, features that may be
    must: Vec<bool>,
    may: Vec<bool>,
    spatial: bool,
    extent: bool,
    /// attributes that were asked to be indexed; None: all
    indexed: Option<Vec<String>>,
}

fn world(ds: &Dataset, f: &Value) -> Vec<[f64; 3]> {
    let t = &ds.cj["transform"];
    let g = |k: &str, i: usize| t[k][i].as_f64().unwrap();
    f["vertices"]
        .as_array()
        .unwrap()
        .iter()
        .map(|v| {
            let c = |i: usize| v[i].as_i64().unwrap() as f64 * g("scale", i) + g("translate", i);
            [c(0), c(1), c(2)]
        })
        .collect()
}

fn check_ser(c: &Ser, bytes: &[u8], queries: bool) -> SResult {
    let lay = match layout::decode(bytes) {
        Ok(l) => l,
        Err(e) => viol!("ser: the output is not a file", "{}", e),
    };
    if let Err(e) = lay.check() {
        viol!("ser: layout", "{}", e);
    }
    let canon: BTreeMap<String, Value> = c
        .ds
        .canon()
        .into_iter()
        .map(|f| (f["id"].as_str().unwrap().to_string(), f))
        .collect();
    let ids: Vec<String> = c.ds.feats.iter().map(|f| f["id"].as_str().unwrap().to_string()).collect();
    let got = lay.order();
    let mut kept = vec![false; ids.len()];
    for g in &got {
        let Some(i) = ids.iter().position(|x| x == g) else { viol!("ser: unknown feature", "{:?}", g) };
        ensure!(!kept[i], "ser: feature written twice", "{:?}", g);
        kept[i] = true;
        ensure!(c.may[i], "ser: feature outside the filter", "{:?}", g);
    }
    for i in 0..ids.len() {
        ensure!(kept[i] || !c.must[i], "ser: feature missing", "{:?} of {} features; {} written", ids[i], ids.len(), got.len());
    }
    ensure!(lay.count == got.len() as u64, "ser: count", "{} announced, {} written", lay.count, got.len());
    ensure!((lay.node_size > 0) == c.spatial, "ser: spatial index", "asked for {}, node size {}", c.spatial, lay.node_size);
    ensure!(!c.spatial || got.is_empty() || lay.rtree.1 > 0, "ser: spatial index", "there is none");
    let bytes = Arc::new(bytes.to_vec());
    let want: Vec<&Value> = got.iter().map(|g| &canon[*g]).collect();
    let st = IoState::new(IoPlan::default());
    let d = paths::local(&Ask::All, false, &bytes, &st, 0)?;
    ensure!(d.ok(), "ser: the output cannot be read", "{:?}", d.end);
    drive::same_list("ser", &d.feats, &want, "scan")?;

    // header
    let said = core::guard(|| {
        let st = IoState::new(IoPlan::default());
        fcb_core::FcbReader::open(SimRead::new(&bytes, &st)).map(|r| meta::said(&r.header()))
    })?;
    let said = match said {
        Ok(s) => s,
        Err(e) => viol!("ser: the output cannot be opened", "{}", e),
    };
    let mut have = match said.meta {
        Ok(m) => m,
        Err(e) => viol!("ser: metadata unreadable", "{}", e),
    };
    let mut points = vec![];
    for (i, f) in c.ds.feats.iter().enumerate() {
        if kept[i] {
            points.extend(world(&c.ds, f));
        }
    }
    let mut extent = None;
    if c.extent && points.is_empty() {
        // nothing to compute it from: the given one, or none
        let given = gen::canon_header(c.ds.cj.clone(), None)["metadata"]["geographicalExtent"].clone();
        let x = have["metadata"]["geographicalExtent"].clone();
        ensure!(x == given || x == json!([0, 0, 0, 0, 0, 0]), "ser: extent", "{} of nothing", x);
        have["metadata"]["geographicalExtent"] = given;
    } else if c.extent {
        let mut e = [f64::MAX, f64::MAX, f64::MAX, f64::MIN, f64::MIN, f64::MIN];
        for p in &points {
            for i in 0..3 {
                e[i] = e[i].min(p[i]);
                e[i + 3] = e[i + 3].max(p[i]);
            }
        }
        let x: Vec<f64> = have["metadata"]["geographicalExtent"]
            .as_array()
            .map(|a| a.iter().map(|v| v.as_f64().unwrap_or(f64::NAN)).collect())
            .unwrap_or_default();
        let near = x.len() == 6 && (0..6).all(|i| (x[i] - e[i]).abs() <= 1e-9 * (1.0 + e[i].abs()));
        ensure!(near, "ser: extent", "{:?}, the features span {:?}", x, e);
        let exact = gen::canon_header(c.ds.cj.clone(), Some(e));
        have["metadata"]["geographicalExtent"] = exact["metadata"]["geographicalExtent"].clone();
        extent = Some(e);
    }
    let want = gen::canon_header(c.ds.cj.clone(), extent);
    ensure!(have == want, "ser: metadata differs", "{}", gen::diff(&want, &have, "").unwrap_or_default());

    // the columns and indexes
    let mut sub = c.ds.clone();
    let mut i = 0;
    sub.feats.retain(|_| {
        i += 1;
        kept[i - 1]
    });
    for col in &sub.cols {
        if query::has_values(&sub, &col.name) {
            let want = c.indexed.as_ref().map_or(true, |l| l.contains(&col.name));
            if queries && want && col.kind.indexable() {
                ensure!(lay.attr.iter().any(|x| x.name == col.name), "ser: no attribute index", "on {:?}, which was asked for", col.name);
            }
        }
    }
    if let Some(l) = &c.indexed {
        for a in &lay.attr {
            ensure!(l.contains(&a.name), "ser: attribute index", "on {:?}, which was not asked for", a.name);
        }
    }
    if !queries {
        return Ok(());
    }
    sub.indexed = sub
        .cols
        .iter()
        .filter(|x| x.kind.indexable() && query::has_values(&sub, &x.name) && lay.attr.iter().any(|a| a.name == x.name))
        .map(|x| (x.name.clone(), None))
        .collect();
    if !sub.indexed.is_empty() {
        let conds = query::conds(&sub);
        let q: fcb_core::AttrQuery = conds.iter().map(|c| c.ask()).collect();
        let sel = query::attr_answer(&conds, &sub);
        let st = IoState::new(IoPlan::default());
        let d = paths::local(&Ask::Attr(q), true, &bytes, &st, 0)?;
        ensure!(d.ok(), "ser: attribute query failed", "{:?} {:?}", conds, d.end);
        let want: Vec<&Value> = sub.feats.iter().zip(&sel).filter(|x| *x.1).map(|(f, _)| &canon[f["id"].as_str().unwrap()]).collect();
        prep::same_set("ser: attribute query", &d.feats, &want, &format!("{:?}", conds))?;
        core::probe("cli-attribute-query");
    }
    if c.spatial && !sub.feats.is_empty() && sub.feats.iter().all(|f| !f["vertices"].as_array().unwrap().is_empty()) {
        let boxes = sub.boxes();
        let q = query::spatial(&sub, &boxes);
        let sel = query::spatial_answer(&q, &boxes);
        let st = IoState::new(IoPlan::default());
        let d = paths::local(&Ask::Spatial(q), true, &bytes, &st, 0)?;
        ensure!(d.ok(), "ser: spatial query failed", "{:?}", d.end);
        let want: Vec<&Value> = sub.feats.iter().zip(&sel).filter(|x| *x.1).map(|(f, _)| &canon[f["id"].as_str().unwrap()]).collect();
        prep::same_set("ser: spatial query", &d.feats, &want, "query")?;
    }
    Ok(())
}

/// A long dataset in which an attribute appears late.
fn late(g: &mut gen::G) -> Dataset {
    let n = 1001 + core::w(300);
    let p = Profile { geometry: false, spatial: true, attrs: 1, guess: true, meta: false, true_count: true, ..Default::default() };
    let mut ds = gen::build(&p, n, true, g);
    settled(&mut ds);
    let from = 1000 + core::w(n - 1000);
    let mut any = false;
    for f in ds.feats.iter_mut().skip(from) {
        for o in f["CityObjects"].as_object_mut().unwrap().values_mut() {
            if o.get("attributes").is_none_or(|a| a.is_null()) {
                o["attributes"] = json!({});
            }
            o["attributes"]["late"] = json!("x");
            any = true;
        }
    }
    if any {
        core::probe("late-attribute");
        ds.cols.push(gen::Col { name: "late".into(), kind: gen::Kind::Str, pool: vec![json!("x")] });
    }
    ds
}

fn ser(s: &Scratch) -> SResult {
    let queries = core::wb(1, 2);
    let is_late = core::wb(1, 40);
    let ds = if is_late {
        late(&mut gen::G::expanded())
    } else {
        dataset(&Profile {
            geometry: core::wb(1, 2),
            spatial: core::wb(1, 2),
            attrs: queries as u8,
            guess: true,
            true_count: true,
            max_small: 6,
            ..Default::default()
        })
    };
    core::describe(format!("ser: {}", ds.describe()));
    let mut args: Vec<String> = ["ser", "-i", "<in>", "-o", "<out>"].map(String::from).into();
    let mut indexed = Some(vec![]);
    match core::w(4) {
        0 => {}
        1 => {
            args.extend(["-A".into(), "true".into()]);
            indexed = None;
        }
        2 => {
            args.push("-A".into());
            args.push("false".into());
        }
        _ => {
            let mut l: Vec<String> = ds.cols.iter().filter(|_| core::wb(2, 3)).map(|c| c.name.clone()).collect();
            if !l.is_empty() && core::wb(1, 12) {
                l.push(l[0].clone());
            }
            if !l.is_empty() {
                args.push("-a".into());
                args.push(l.join(*core::wpick(&[",", " , ", ",,"])));
            }
            indexed = Some(l);
        }
    }
    if indexed.as_ref().is_none_or(|l| !l.is_empty()) && core::wb(1, 2) {
        args.push("--attr-branching-factor".into());
        args.push(core::wpick(&["16", "3", "5", "64", "256", "2", "0", "65535"]).to_string());
    }
    let spatial = match core::w(3) {
        0 => true,
        1 => {
            args.extend(["-s".into(), "true".into()]);
            true
        }
        _ => {
            args.extend(["-s".into(), "false".into()]);
            false
        }
    };
    let extent = match core::w(4) {
        0 | 1 => true,
        2 => {
            args.extend(["-g".into(), "true".into()]);
            true
        }
        _ => {
            args.extend(["-g".into(), "false".into()]);
            false
        }
    };
    let n = ds.feats.len();
    let (mut must, mut may) = (vec![true; n], vec![true; n]);
    if n > 0 && core::wb(1, 3) {
        core::probe("cli-bbox-filter");
        let pts: Vec<[f64; 3]> = ds.feats.iter().flat_map(|f| world(&ds, f)).collect();
        let scale = |i: usize| ds.cj["transform"]["scale"][i].as_f64().unwrap();
        let mut at = || -> [f64; 2] {
            if pts.is_empty() {
                return [0.0, 0.0];
            }
            let p = core::wpick(&pts);
            let off = |i| {
                scale(i) * if ds.exact_coords() { [0.0, 0.5, -0.5, 1.0, -1.0, 10.0][core::w(6)] } else { [0.5, -0.5, 1.5, -10.5][core::w(4)] }
            };
            [p[0] + off(0), p[1] + off(1)]
        };
        let (a, b) = (at(), at());
        let q = [a[0].min(b[0]), a[1].min(b[1]), a[0].max(b[0]), a[1].max(b[1])];
        for (i, f) in ds.feats.iter().enumerate() {
            let v = world(&ds, f);
            must[i] = v.iter().any(|p| p[0] >= q[0] && p[0] <= q[2] && p[1] >= q[1] && p[1] <= q[3]);
            let side = |k: usize| {
                let lo = v.iter().map(|p| p[k]).fold(f64::MAX, f64::min);
                let hi = v.iter().map(|p| p[k]).fold(f64::MIN, f64::max);
                lo <= q[k + 2] && hi >= q[k]
            };
            may[i] = !v.is_empty() && side(0) && side(1);
        }
        args.push(format!("--bbox={},{},{}{},{}", q[0], q[1], if core::wb(1, 3) { " " } else { "" }, q[2], q[3]));
    }
    let mut job = Job {
        args,
        input: text_of(&ds, core::wb(1, 2)),
        stdin: core::wb(1, 2),
        stdout: core::wb(1, 2),
        old: if core::wb(1, 2) { 300_000 } else { 0 },
    };
    if n > 0 {
        core::nontrivial();
    }
    let c = Ser { ds, must, may, spatial, extent, indexed };
    campaign(s, &job, true, &|r| check_ser(&c, &r.out, queries))?;

    // a cut text: inside a line it is no text at all
    let whole = job.input.clone();
    let at = if core::fb(1, 2) { whole.len() - 1 - core::f(whole.len().min(200)) } else { core::f(whole.len()) };
    job.input.truncate(at);
    let r = invoke(s, &job, &drive::no_sys(), 1)?;
    core::fired("cut-input");
    if r.ok {
        let t = String::from_utf8_lossy(&job.input).into_owned();
        let mut short = c.ds.clone();
        let lines: Vec<&str> = t.lines().collect();
        ensure!(!lines.is_empty(), "cut: empty input accepted", "{:?}", job.args);
        for (i, l) in lines.iter().enumerate() {
            ensure!(serde_json::from_str::<Value>(l).is_ok(), "cut: a broken line accepted", "line {} of {}", i, lines.len());
        }
        short.feats.truncate(lines.len() - 1);
        let k = short.feats.len();
        let c2 = Ser {
            ds: short,
            must: c.must[..k].to_vec(),
            may: c.may[..k].to_vec(),
            spatial: c.spatial,
            extent: c.extent,
            indexed: c.indexed.clone(),
        };
        check_ser(&c2, &r.out, false)?;
    }
    Ok(())
}

// ---------------------------------------------------------------- deser

fn check_deser(p: &prep::Prep, out: &[u8]) -> SResult {
    let t = match std::str::from_utf8(out) {
        Ok(t) => t,
        Err(e) => viol!("deser: output is not text", "{}", e),
    };
    ensure!(t.is_empty() || t.ends_with('\n'), "deser: output ends inside a line", "{} bytes", t.len());
    let mut lines = t.lines();
    let Some(first) = lines.next() else { viol!("deser: empty output", "") };
    let v: Value = match serde_json::from_str(first) {
        Ok(v) => v,
        Err(e) => viol!("deser: broken line", "the first: {}", e),
    };
    let have = gen::canon_header(v, None);
    let want = gen::canon_header(p.ds.cj.clone(), p.ds.extent);
    ensure!(have == want, "deser: metadata differs", "{}", gen::diff(&want, &have, "").unwrap_or_default());
    let mut got = vec![];
    for (i, l) in lines.enumerate() {
        match serde_json::from_str::<Value>(l) {
            Ok(v) => got.push(gen::canon_value(v)),
            Err(e) => viol!("deser: broken line", "feature {}: {}", i, e),
        }
    }
    drive::same_list("deser", &got, &p.all(), "output")
}

fn deser(s: &Scratch) -> SResult {
    let p = prep::of(dataset(&Profile { geometry: core::wb(1, 2), max_small: 6, ..Default::default() }))?;
    core::describe(format!("deser: {}", p.ds.describe()));
    let mut job = Job {
        args: ["deser", "-i", "<in>", "-o", "<out>"].map(String::from).into(),
        input: p.bytes.to_vec(),
        stdin: core::wb(1, 2),
        stdout: core::wb(1, 2),
        old: if core::wb(1, 2) { 300_000 } else { 0 },
    };
    if !p.canon.is_empty() {
        core::nontrivial();
    }
    campaign(s, &job, false, &|r| check_deser(&p, &r.out))?;
    // a cut file
    let starts: Vec<usize> = p.lay.feats.iter().map(|f| f.0).collect();
    let at = match core::f(3) {
        0 if !starts.is_empty() => starts[core::f(starts.len())],
        1 => p.bytes.len() - 1 - core::f(p.bytes.len().min(200)),
        _ => core::f(p.bytes.len()),
    };
    job.input.truncate(at);
    core::fired("cut-input");
    let r = invoke(s, &job, &drive::no_sys(), 1)?;
    if r.ok {
        check_deser(&p, &r.out).map_err(|v| Viol { class: format!("cut input: {}", v.class), msg: v.msg })?;
    }
    Ok(())
}

// ---------------------------------------------------------------- cbor, bson, info

pub fn document(ds: &Dataset) -> Value {
    let mut v = ds.cj.clone();
    if let Some(f) = ds.feats.first() {
        v["CityObjects"] = f["CityObjects"].clone();
        v["vertices"] = f["vertices"].clone();
        if let Some(a) = f.get("appearance") {
            v["appearance"] = a.clone();
        }
    }
    v
}

fn json_norm(v: Value) -> Value {
    match v {
        Value::Number(n) => match n.as_f64() {
            // -0.0 and 0 are one number
            Some(x) if n.is_f64() && x == 0.0 => json!(0),
            Some(x) if n.is_f64() && x.fract() == 0.0 && x.abs() < 9e15 => json!(x as i64),
            _ => Value::Number(n),
        },
        Value::Array(a) => Value::Array(a.into_iter().map(json_norm).collect()),
        Value::Object(o) => Value::Object(o.into_iter().map(|(k, v)| (k, json_norm(v))).collect()),
        v => v,
    }
}

fn from_bson(b: &bson::Bson) -> Result<Value, String> {
    Ok(match b {
        bson::Bson::Double(x) => json!(x),
        bson::Bson::String(s) => json!(s),
        bson::Bson::Array(a) => Value::Array(a.iter().map(from_bson).collect::<Result<_, _>>()?),
        bson::Bson::Document(d) => Value::Object(d.iter().map(|(k, v)| Ok((k.clone(), from_bson(v)?))).collect::<Result<_, String>>()?),
        bson::Bson::Boolean(x) => json!(x),
        bson::Bson::Null => Value::Null,
        bson::Bson::Int32(x) => json!(x),
        bson::Bson::Int64(x) => json!(x),
        x => return Err(format!("{:?}", x)),
    })
}

fn no_null(v: Value) -> Value {
    match v {
        Value::Array(a) => Value::Array(a.into_iter().map(no_null).collect()),
        Value::Object(o) => Value::Object(o.into_iter().filter(|(_, v)| !v.is_null()).map(|(k, v)| (k, no_null(v))).collect()),
        v => v,
    }
}

fn big_number(v: &Value) -> bool {
    match v {
        Value::Number(n) => n.as_u64().is_some_and(|x| x > i64::MAX as u64),
        Value::Array(a) => a.iter().any(big_number),
        Value::Object(o) => o.values().any(big_number),
        _ => false,
    }
}

fn binary(s: &Scratch, to_bson: bool) -> SResult {
    let ds = dataset(&Profile { max_small: 4, many: false, big: core::wb(1, 3), ..Default::default() });
    let name = if to_bson { "bson" } else { "cbor" };
    core::describe(format!("{}: {}", name, ds.describe()));
    let doc = document(&ds);
    let mut job = Job {
        args: [name, "-i", "<in>", "-o", "<out>"].map(String::from).into(),
        input: match core::w(3) {
            0 => doc.to_string(),
            1 => serde_json::to_string_pretty(&doc).unwrap(),
            _ => format!("{}\n", doc),
        }
        .into_bytes(),
        stdin: core::wb(1, 2),
        stdout: core::wb(1, 2),
        old: if core::wb(1, 2) { 300_000 } else { 0 },
    };
    core::nontrivial();
    if to_bson {
        let cj: Result<cjseq::CityJSON, _> = serde_json::from_value(doc.clone());
        let Ok(cj) = cj else { return Ok(()) };
        let want = json_norm(no_null(serde_json::to_value(&cj).expect("harness: document")));
        let check = |r: &Ran| -> SResult {
            let d: bson::Document = match bson::Document::from_reader(&mut &r.out[..]) {
                Ok(d) => d,
                Err(e) => viol!("bson: the output cannot be decoded", "{}", e),
            };
            let len = bson::to_vec(&d).map(|v| v.len()).unwrap_or(0);
            ensure!(len == r.out.len(), "bson: extra bytes", "{} bytes, the document has {}", r.out.len(), len);
            let have = match from_bson(&bson::Bson::Document(d)) {
                Ok(v) => json_norm(no_null(v)),
                Err(e) => viol!("bson: unexpected value", "{}", e),
            };
            ensure!(have == want, "bson: content differs", "{}", gen::diff(&want, &have, "").unwrap_or_default());
            Ok(())
        };
        if big_number(&want) {
            // such numbers do not exist in BSON
            let r = invoke(s, &job, &drive::no_sys(), 1)?;
            if r.ok {
                check(&r)?;
            }
            core::probe("bson-large-number");
            return Ok(());
        }
        campaign(s, &job, true, &check)?;
    } else {
        let want = json_norm(doc.clone());
        campaign(s, &job, true, &|r| {
            let have: Value = match serde_cbor::from_slice(&r.out) {
                Ok(v) => json_norm(v),
                Err(e) => viol!("cbor: the output cannot be decoded", "{}", e),
            };
            ensure!(have == want, "cbor: content differs", "{}", gen::diff(&want, &have, "").unwrap_or_default());
            Ok(())
        })?;
    }
    // a cut document
    let end = job.input.iter().rposition(|b| *b == b'}').unwrap();
    job.input.truncate(core::f(end + 1));
    core::fired("cut-input");
    let r = invoke(s, &job, &drive::no_sys(), 1)?;
    ensure!(!r.ok, "cut: a broken document accepted", "{:?}, cut at {}", job.args, job.input.len());
    Ok(())
}

fn info(s: &Scratch) -> SResult {
    let p = prep::of(dataset(&Profile { geometry: false, attrs: core::w(2) as u8, max_small: 6, big: false, ..Default::default() }))?;
    core::describe(format!("info: {}", p.ds.describe()));
    let job = Job {
        args: ["info", "-i", "<in>"].map(String::from).into(),
        input: p.bytes.to_vec(),
        stdin: false,
        stdout: true,
        old: 0,
    };
    core::nontrivial();
    let head = gen::canon_header(p.ds.cj.clone(), p.ds.extent);
    campaign(s, &job, false, &|r| {
        let t = String::from_utf8_lossy(&r.stdout).into_owned();
        let has = |x: &str| t.contains(x);
        ensure!(has(&format!("Version: {}", p.lay.version)), "info: version", "{}", t);
        ensure!(has(&format!("Features count: {}\n", p.canon.len())), "info: count", "{} features: {}", p.canon.len(), t);
        for a in &p.lay.attr {
            ensure!(has(&format!("{:?}", a.name)), "info: attribute indexes", "{:?} is not named: {}", a.name, t);
        }
        if let Some(title) = head["metadata"]["title"].as_str() {
            ensure!(has(&format!("Title: {}", title)), "info: title", "{:?}: {}", title, t);
        }
        let e = head["metadata"]["geographicalExtent"].as_array().unwrap();
        if e.iter().any(|x| x != &json!(0)) {
            for x in e {
                ensure!(has(&format!("{}", x.as_f64().unwrap())), "info: extent", "{}: {}", x, t);
            }
        }
        Ok(())
    })?;
    // a file that is none
    let mut job = job;
    let at = core::f(p.lay.header_size.max(1));
    job.input.truncate(at);
    core::fired("cut-input");
    let r = invoke(s, &job, &drive::no_sys(), 1)?;
    ensure!(!r.ok, "cut: a broken file accepted", "info, cut at {}", at);
    Ok(())
}

/// Numbers that reading their text gives back: the JSON parser in use may be off by one unit in
/// the last place.
fn settle(v: &mut Value) {
    match v {
        Value::Number(n) if n.is_f64() => {
            for _ in 0..8 {
                let w: Value = serde_json::from_str(&v.to_string()).expect("harness: number");
                if &w == v {
                    return;
                }
                *v = w;
            }
            *v = json!(2.5);
        }
        Value::Array(a) => a.iter_mut().for_each(settle),
        Value::Object(o) => o.values_mut().for_each(settle),
        _ => {}
    }
}

fn dataset(p: &Profile) -> Dataset {
    let mut ds = gen::dataset(p);
    settled(&mut ds);
    ds
}

pub fn settled(ds: &mut Dataset) {
    settle(&mut ds.cj);
    ds.feats.iter_mut().for_each(settle);
    for c in &mut ds.cols {
        c.pool.iter_mut().for_each(settle);
    }
}

/// The same text converted by two processes.
pub fn twice(ds: &Dataset) -> Result<(Vec<u8>, Vec<u8>), Viol> {
    let s = Scratch::new();
    let mut args: Vec<String> = ["ser", "-i", "<in>", "-o", "<out>"].map(String::from).into();
    if core::wb(1, 2) {
        args.extend(["-A".into(), "true".into()]);
    }
    let mut job = Job { args, input: text_of(ds, true), stdin: false, stdout: false, old: 0 };
    let mut outs = vec![];
    for _ in 0..2 {
        job.stdin = core::fb(1, 2);
        job.stdout = core::fb(1, 2);
        let hash = core::draw(core::H, 1 << 32);
        let r = invoke(&s, &job, &base_plan(), hash)?;
        ensure!(r.ok, "failure without a cause", "{:?} ended with {}: {}", job.args, r.code, last(&r.stderr));
        outs.push(r.out);
    }
    let b = outs.pop().unwrap();
    Ok((outs.pop().unwrap(), b))
}

pub fn c14() -> SResult {
    let s = Scratch::new();
    match core::w(8) {
        0..=2 => ser(&s),
        3 | 4 => deser(&s),
        5 => binary(&s, false),
        6 => binary(&s, true),
        _ => info(&s),
    }
}
