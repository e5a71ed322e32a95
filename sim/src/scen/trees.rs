//! C12, C13: the two index structures used directly, against a sorted multimap and a linear scan.

use crate::core::{self, Rng, SResult, Viol};
use crate::exec;
use crate::io::{EOF_ERROR, IoFault, IoPlan, IoState, SimRead, SimSeek, SimWrite};
use crate::net::{self, Client, NetFault, Server, ServerCfg};
use crate::{ensure, query, viol};
use chrono::{DateTime, Utc};
use fcb_core::static_btree::{
    Entry, FixedStringKey, HttpIndex, HttpMultiIndex, Key, KeyType, MemoryIndex, MemoryMultiIndex,
    MultiIndex, Operator, QueryCondition, SearchIndex, Stree, StreamIndex, StreamMultiIndex,
    TypedHttpSearchIndex, TypedSearchIndex, TypedStreamSearchIndex,
};
use fcb_core::packed_rtree::{calc_extent, hilbert_sort, NodeItem, PackedRTree, Query};
use http_range_client::AsyncBufferedHttpRangeClient;
use ordered_float::OrderedFloat;
use std::cell::RefCell;
use std::collections::BTreeSet;
use std::io::Seek;
use std::rc::Rc;
use std::sync::{Arc, Mutex};

// ---------------------------------------------------------------- keys

trait SimKey: Key + 'static {
    /// A key; `mode` chooses the region.
    fn fresh(mode: usize, r: &mut Rng) -> Self;
    fn wrap(&self) -> KeyType;
    fn add_stream(m: &mut StreamMultiIndex, name: &str, i: StreamIndex<Self>, len: u64);
}

macro_rules! int_key {
    ($t:ty, $v:ident, $add:ident) => {
        impl SimKey for $t {
            fn fresh(mode: usize, r: &mut Rng) -> Self {
                match mode {
                    0 => r.below(24) as $t,
                    1 => <$t>::MAX - r.below(4) as $t,
                    2 => <$t>::MIN + r.below(4) as $t,
                    3 => (100 as $t).wrapping_mul(r.below(5) as $t),
                    _ => r.next() as $t,
                }
            }
            fn wrap(&self) -> KeyType {
                KeyType::$v(*self)
            }
            fn add_stream(m: &mut StreamMultiIndex, name: &str, i: StreamIndex<Self>, len: u64) {
                m.$add(name.to_string(), i, len)
            }
        }
    };
}
int_key!(i8, Int8, add_i8_index);
int_key!(u8, UInt8, add_u8_index);
int_key!(i16, Int16, add_i16_index);
int_key!(u16, UInt16, add_u16_index);
int_key!(i32, Int32, add_i32_index);
int_key!(u32, UInt32, add_u32_index);
int_key!(i64, Int64, add_i64_index);
int_key!(u64, UInt64, add_u64_index);

macro_rules! float_key {
    ($t:ty, $v:ident, $add:ident) => {
        impl SimKey for OrderedFloat<$t> {
            fn fresh(mode: usize, r: &mut Rng) -> Self {
                OrderedFloat(match mode {
                    0 => r.below(24) as $t * 0.5 - 4.0,
                    1 => *[<$t>::INFINITY, <$t>::MAX, 1e30, 0.0, -0.0]
                        .get(r.below(5) as usize)
                        .unwrap(),
                    2 => *[<$t>::NEG_INFINITY, <$t>::MIN, -1e-30, <$t>::MIN_POSITIVE]
                        .get(r.below(4) as usize)
                        .unwrap(),
                    3 => (0.1 as $t) * r.below(6) as $t,
                    _ => r.next() as i64 as $t / 1e9,
                })
            }
            fn wrap(&self) -> KeyType {
                KeyType::$v(*self)
            }
            fn add_stream(m: &mut StreamMultiIndex, name: &str, i: StreamIndex<Self>, len: u64) {
                m.$add(name.to_string(), i, len)
            }
        }
    };
}
float_key!(f32, Float32, add_f32_index);
float_key!(f64, Float64, add_f64_index);

impl SimKey for bool {
    fn fresh(_: usize, r: &mut Rng) -> Self {
        r.below(2) == 1
    }
    fn wrap(&self) -> KeyType {
        KeyType::Bool(*self)
    }
    fn add_stream(m: &mut StreamMultiIndex, name: &str, i: StreamIndex<Self>, len: u64) {
        m.add_bool_index(name.to_string(), i, len)
    }
}

impl SimKey for DateTime<Utc> {
    fn fresh(mode: usize, r: &mut Rng) -> Self {
        let t = |s: i64, n: u32| DateTime::<Utc>::from_timestamp(s, n).unwrap();
        match mode {
            0 => t(1_700_000_000 + r.below(20) as i64, 0),
            1 => *[DateTime::<Utc>::MAX_UTC, t(253_402_300_799, 999_999_999), t(0, 0)]
                .get(r.below(3) as usize)
                .unwrap(),
            2 => *[DateTime::<Utc>::MIN_UTC, t(-1, 999_999_999), t(-1, 0)]
                .get(r.below(3) as usize)
                .unwrap(),
            3 => t(1_700_000_000, r.below(6) as u32),
            _ => t((r.next() as i64) >> 31, r.below(1_000_000_000) as u32),
        }
    }
    fn wrap(&self) -> KeyType {
        KeyType::DateTime(*self)
    }
    fn add_stream(m: &mut StreamMultiIndex, name: &str, i: StreamIndex<Self>, len: u64) {
        m.add_datetime_index(name.to_string(), i, len)
    }
}

fn text(mode: usize, n: usize, r: &mut Rng) -> String {
    match mode {
        0 => format!("k{:02}", r.below(24)),
        // around the key length
        1 => "x".repeat(n - 2 + r.below(4) as usize),
        2 => ["", " ", "a", "\u{10FFFF}", "\u{10FFFF}\u{10FFFF}", "\u{1}", "~", "é"][r.below(8) as usize].to_string(),
        3 => format!("{}{}", "p".repeat(n - 1), r.below(12)),
        _ => (0..r.below(12)).map(|_| char::from(b' ' + r.below(95) as u8)).collect(),
    }
}

macro_rules! string_key {
    ($n:literal, $v:ident, $add:ident) => {
        impl SimKey for FixedStringKey<$n> {
            fn fresh(mode: usize, r: &mut Rng) -> Self {
                FixedStringKey::from_str(&text(mode, $n, r))
            }
            fn wrap(&self) -> KeyType {
                KeyType::$v(self.clone())
            }
            fn add_stream(m: &mut StreamMultiIndex, name: &str, i: StreamIndex<Self>, len: u64) {
                m.$add(name.to_string(), i, len)
            }
        }
    };
}
string_key!(20, StringKey20, add_string_index20);
string_key!(50, StringKey50, add_string_index50);
string_key!(100, StringKey100, add_string_index100);

// ---------------------------------------------------------------- one B+tree and its reference

fn draw_bf() -> u16 {
    match core::w(8) {
        0 => 16,
        1 => [2u16, 3][core::w(2)],
        2 => [255u16, 256, 257, 1000, 65535][core::w(5)],
        3 => 4,
        _ => 2 + core::w(18) as u16,
    }
}

struct Multimap<K> {
    /// sorted by key
    entries: Vec<(K, u64)>,
    unique: Vec<K>,
    bf: u16,
}

#[derive(Clone, Debug)]
enum Lookup<K> {
    Exact(K),
    Range(Option<K>, Option<K>),
}

impl<K: SimKey> Multimap<K> {
    fn draw(universe: u64) -> (Multimap<K>, Vec<Entry<K>>) {
        let bf = draw_bf();
        let seed = core::w(1 << 20) as u64;
        let mut r = Rng::new(seed);
        let n = match core::w(10) {
            0..=3 => 1 + core::w(8),
            4..=7 => 1 + core::w(80),
            8 => 1 + core::w(600),
            _ if core::wb(1, 300) => {
                core::probe("more-than-65536");
            core::more_steps(100_000_000);
                66_000 + core::w(80_000)
            }
            _ => 500 + core::w(3000),
        };
        let modes: Vec<usize> = match core::w(4) {
            0 => vec![0],
            1 => vec![0, 1, 2],
            2 => vec![4],
            _ => vec![3, 1, 2, 0, 4],
        };
        // few distinct keys give long lists of duplicates
        let pool: usize = match core::w(4) {
            0 => 1 + core::w(4),
            1 => 1 + core::w(30),
            _ => n,
        };
        let keys: Vec<K> = (0..pool)
            .map(|_| K::fresh(modes[r.below(modes.len() as u64) as usize], &mut r))
            .collect();
        let huge = core::wb(1, 10);
        let entries: Vec<Entry<K>> = (0..n)
            .map(|i| {
                let k = if pool == n && r.below(4) > 0 { i } else { r.below(pool as u64) as usize };
                let mut off = r.below(universe) * 64;
                if huge {
                    off += 1 << 40;
                }
                Entry::new(keys[k].clone(), off)
            })
            .collect();
        let mut sorted: Vec<(K, u64)> = entries.iter().map(|e| (e.key.clone(), e.offset)).collect();
        sorted.sort();
        let mut unique: Vec<K> = sorted.iter().map(|(k, _)| k.clone()).collect();
        unique.dedup();
        (Multimap { entries: sorted, unique, bf }, entries)
    }

    fn some_key(&self) -> K {
        match core::w(8) {
            0 => K::max_value(),
            1 => K::min_value(),
            2 => {
                // the first key of a leaf node
                let node = self.bf as usize - 1;
                let nodes = self.unique.len().div_ceil(node);
                self.unique[core::w(nodes) * node].clone()
            }
            3 => {
                let mut r = Rng::new(core::w(1 << 16) as u64);
                K::fresh(core::w(5), &mut r)
            }
            4 => self.unique[self.unique.len() - 1].clone(),
            _ => self.unique[core::w(self.unique.len())].clone(),
        }
    }

    fn lookup(&self) -> Lookup<K> {
        match core::w(6) {
            0 | 1 => Lookup::Exact(self.some_key()),
            2 => Lookup::Range(Some(self.some_key()), None),
            3 => Lookup::Range(None, Some(self.some_key())),
            _ => Lookup::Range(Some(self.some_key()), Some(self.some_key())),
        }
    }

    fn pick(&self, f: impl Fn(&K) -> bool) -> Vec<u64> {
        let mut v: Vec<u64> = self.entries.iter().filter(|(k, _)| f(k)).map(|(_, o)| *o).collect();
        v.sort();
        v
    }

    fn answer(&self, l: &Lookup<K>) -> Vec<u64> {
        match l {
            Lookup::Exact(q) => self.pick(|k| k == q),
            Lookup::Range(a, b) => self.pick(|k| a.as_ref().is_none_or(|a| k >= a) && b.as_ref().is_none_or(|b| k <= b)),
        }
    }

    /// What the documented gap of `find_range` leaves: an upper bound that is the first key of a
    /// leaf node other than the first one.
    fn answer_with_gap(&self, l: &Lookup<K>) -> Option<Vec<u64>> {
        let Lookup::Range(a, b) = l else { return None };
        let upper = b.clone().unwrap_or(K::max_value());
        if a.as_ref() == Some(&upper) {
            return None;
        }
        let i = self.unique.iter().position(|k| *k == upper)?;
        if i == 0 || i % (self.bf as usize - 1) != 0 {
            return None;
        }
        Some(self.pick(|k| a.as_ref().is_none_or(|a| k >= a) && *k < upper))
    }

    fn check(
        &self,
        what: &str,
        l: &Lookup<K>,
        mut got: Vec<u64>,
        gap: &mut Option<Viol>,
    ) -> SResult {
        got.sort();
        let want = self.answer(l);
        if !want.is_empty() && want.len() < self.entries.len() {
            core::nontrivial();
        }
        if got == want {
            return Ok(());
        }
        if self.answer_with_gap(l).as_ref() == Some(&got) {
            core::probe("find_range-gap");
            if gap.is_none() {
                *gap = Some(Viol {
                    class: "B+tree find_range misses an upper bound that is the first key of a leaf node".into(),
                    msg: format!("{} {} bf {} with {} keys", what, short(l), self.bf, self.unique.len()),
                });
            }
            return Ok(());
        }
        viol!(
            "B+tree answer wrong",
            "{} {:?} bf {} with {} keys: {}",
            what,
            short(l),
            self.bf,
            self.unique.len(),
            list_diff(&got, &want)
        )
    }
}

fn short(x: &impl std::fmt::Debug) -> String {
    let mut s = format!("{:?}", x);
    if s.len() > 400 {
        let mut n = 400;
        while !s.is_char_boundary(n) {
            n -= 1;
        }
        s.truncate(n);
    }
    s
}

fn list_diff(got: &[u64], want: &[u64]) -> String {
    let missing: Vec<u64> = {
        let mut left = got.to_vec();
        want.iter()
            .filter(|w| match left.iter().position(|g| g == *w) {
                Some(i) => {
                    left.swap_remove(i);
                    false
                }
                None => true,
            })
            .copied()
            .take(5)
            .collect()
    };
    let extra: Vec<u64> = {
        let mut left = want.to_vec();
        got.iter()
            .filter(|g| match left.iter().position(|w| w == *g) {
                Some(i) => {
                    left.swap_remove(i);
                    false
                }
                None => true,
            })
            .copied()
            .take(5)
            .collect()
    };
    format!(
        "{} offsets instead of {}, missing {:?}, extra {:?}",
        got.len(),
        want.len(),
        missing,
        extra
    )
}

// ---------------------------------------------------------------- carrying the bytes

/// `base` bytes, the content, then at least one byte.
fn embed(content: &[u8]) -> (Arc<Vec<u8>>, usize) {
    let base = match core::w(4) {
        0 => 0,
        1 => core::w(64),
        2 => core::w(5000),
        _ => 1000 + core::w(40_000),
    };
    let tail = 1 + match core::w(3) {
        0 => 0,
        1 => core::w(3000),
        _ => core::w(100_000),
    };
    let mut v = vec![0xA5u8; base];
    v.extend_from_slice(content);
    v.resize(v.len() + tail, 0x5A);
    (Arc::new(v), base)
}

fn io_fault() -> (IoFault, bool) {
    (
        [IoFault::Errno(libc::EIO), IoFault::Zero, IoFault::Errno(libc::ECONNRESET), IoFault::Errno(EOF_ERROR)][core::f(4)],
        core::fb(1, 3),
    )
}

fn net_fault() -> NetFault {
    match core::f(4) {
        0 => NetFault::Status([404u16, 500, 503, 416][core::f(4)]),
        1 => NetFault::Conn,
        _ => NetFault::Short(match core::f(3) {
            0 => 0,
            1 => core::f(200),
            _ => core::f(40_000),
        }),
    }
}

fn server(image: &Arc<Vec<u8>>) -> Arc<Mutex<Server>> {
    Server::new(
        image.clone(),
        ServerCfg {
            latency: core::fb(1, 2),
            split_seed: core::f(1 << 16) as u64,
            ..Default::default()
        },
    )
}

/// Runs `go` on a seekable source without failures (its answer is checked), or, in some runs, once
/// more with failures: then it fails or is right, and is right again once the failures are over.
fn over_stream<T>(
    image: &Arc<Vec<u8>>,
    base: usize,
    mut go: impl FnMut(&mut SimSeek) -> Result<T, String>,
    mut check: impl FnMut(T) -> SResult,
    what: &str,
) -> SResult {
    let plan = IoPlan {
        buffer: 0,
        ..IoPlan::draw_benign()
    };
    let run = |st: &Rc<RefCell<IoState>>, go: &mut dyn FnMut(&mut SimSeek) -> Result<T, String>| {
        let mut s = SimSeek(SimRead::new(image, st));
        s.0.pos = base as u64;
        let r = go(&mut s);
        (r, s)
    };
    let st = IoState::new(plan.clone());
    let (r, _) = run(&st, &mut go);
    let ops = st.borrow().ops;
    match r {
        Ok(v) => check(v)?,
        Err(e) => viol!("lookup failed", "{} over a stream: {}", what, e),
    }
    if core::fb(1, 2) && ops > 0 {
        let at = core::f(ops as usize) as u64;
        let (f, sticky) = io_fault();
        let st = IoState::new(IoPlan {
            faults: vec![(at, f, sticky)],
            ..plan
        });
        let (r, mut s) = run(&st, &mut go);
        if st.borrow().errors > 0 {
            core::nontrivial();
        }
        match r {
            Ok(v) => {
                core::probe("right-despite-fault");
                check(v)?
            }
            Err(_) => core::probe("fault-reported"),
        }
        // the source works again
        st.borrow_mut().healed = true;
        s.seek(std::io::SeekFrom::Start(base as u64)).unwrap();
        match go(&mut s) {
            Ok(v) => check(v)?,
            Err(e) => viol!("retry failed", "{} over a stream that works again: {}", what, e),
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C12: direct lookups

fn direct<K: SimKey>() -> SResult {
    let (map, entries) = Multimap::<K>::draw(1 << 20);
    core::describe(format!(
        "{} entries, {} keys of {}, branching factor {}",
        map.entries.len(),
        map.unique.len(),
        std::any::type_name::<K>().rsplit("::").next().unwrap_or(""),
        map.bf
    ));
    let mut gap: Option<Viol> = None;
    let mem = match MemoryIndex::build(&entries, map.bf) {
        Ok(m) => m,
        Err(e) => viol!("build failed", "{}", e),
    };
    ensure!(
        mem.num_items() == map.unique.len(),
        "item count wrong",
        "num_items {} for {} distinct keys",
        mem.num_items(),
        map.unique.len()
    );
    // serialization
    let wst = IoState::new(IoPlan::draw_benign());
    let mut sink = SimWrite::new(&wst);
    let written = match mem.serialize(&mut sink) {
        Ok(n) => n,
        Err(e) => viol!("serialize failed", "{}", e),
    };
    let bytes = sink.data.borrow().clone();
    ensure!(
        written == bytes.len(),
        "serialized size wrong",
        "serialize returned {} but wrote {}",
        written,
        bytes.len()
    );
    let wops = wst.borrow().ops;
    if core::fb(1, 4) {
        let (f, sticky) = io_fault();
        let st = IoState::new(IoPlan {
            faults: vec![(core::f(wops as usize) as u64, f, sticky)],
            ..wst.borrow().plan.clone()
        });
        let mut sink = SimWrite::new(&st);
        if mem.serialize(&mut sink).is_ok() {
            ensure!(
                *sink.data.borrow() == bytes,
                "serialize lost bytes",
                "serialize succeeded on a failing sink with {} of {} bytes",
                sink.data.borrow().len(),
                bytes.len()
            );
        } else {
            core::probe("fault-reported");
        }
    }
    // reload
    let content = Arc::new(bytes.clone());
    let rst = IoState::new(IoPlan {
        buffer: 0,
        ..IoPlan::draw_benign()
    });
    let re = match MemoryIndex::<K>::from_buf(SimRead::new(&content, &rst), map.unique.len(), map.bf) {
        Ok(m) => m,
        Err(e) => viol!("reload failed", "{}", e),
    };
    let rops = rst.borrow().ops;
    let broken = if core::fb(1, 4) {
        let (f, sticky) = io_fault();
        let st = IoState::new(IoPlan {
            faults: vec![(core::f(rops as usize) as u64, f, sticky)],
            ..rst.borrow().plan.clone()
        });
        let r = MemoryIndex::<K>::from_buf(SimRead::new(&content, &st), map.unique.len(), map.bf).ok();
        core::probe(if r.is_some() { "loaded-despite-fault" } else { "fault-reported" });
        r
    } else {
        None
    };
    let (image, base) = embed(&bytes);
    let stream = StreamIndex::<K>::new(map.unique.len(), map.bf, base as u64, bytes.len() as u64);
    let feature_begin = base + bytes.len() + [0usize, 0, 8, 3000][core::w(4)].min(image.len() - base - bytes.len());
    let combine = [1usize << 20, 0, 100, usize::MAX][core::w(4)];
    let web = HttpIndex::<K>::new(map.unique.len(), map.bf, base, feature_begin, combine);
    let srv = server(&image);
    let mut cl = net::client(&srv, 0);
    let fetched = if core::wb(1, 4) {
        let mut trees = vec![];
        over_http(&srv, &mut cl, "reload over HTTP", &mut trees, &mut |cl, trees| {
            Ok(match exec::block_on(Stree::<K>::from_http(cl, base, map.unique.len(), map.bf))? {
                Ok(t) => {
                    trees.push(t);
                    None
                }
                Err(e) => Some(e.to_string()),
            })
        })?;
        trees
    } else {
        vec![]
    };

    for _ in 0..1 + core::w(3) {
        let l = map.lookup();
        for t in &fetched {
            let got = match l.clone() {
                Lookup::Exact(k) => t.find_exact(k),
                Lookup::Range(a, b) => t.find_range(a.unwrap_or(K::min_value()), b.unwrap_or(K::max_value())),
            };
            match got {
                Ok(v) => map.check(
                    "memory after reload over HTTP",
                    &l,
                    v.into_iter().map(|i| i.offset as u64).collect(),
                    &mut gap,
                )?,
                Err(e) => viol!("lookup failed", "memory after reload over HTTP {}: {}", short(&l), e),
            }
        }
        let ask = |m: &MemoryIndex<K>| match l.clone() {
            Lookup::Exact(k) => m.find_exact(k),
            Lookup::Range(a, b) => m.find_range(a, b),
        };
        for (m, what) in [(&mem, "memory"), (&re, "memory after reload")] {
            match ask(m) {
                Ok(v) => map.check(what, &l, v, &mut gap)?,
                Err(e) => viol!("lookup failed", "{} {}: {}", what, short(&l), e),
            }
        }
        if let Some(m) = &broken {
            if let Ok(v) = ask(m) {
                map.check("memory loaded from a failing source", &l, v, &mut gap)?;
            }
        }
        let what = format!("stream at {}", base);
        over_stream(
            &image,
            base,
            |s| {
                match l.clone() {
                    Lookup::Exact(k) => stream.find_exact_with_reader(s, k),
                    Lookup::Range(a, b) => stream.find_range_with_reader(s, a, b),
                }
                .map_err(|e| e.to_string())
            },
            |v| map.check(&what, &l, v, &mut gap),
            &what,
        )?;
        over_http(&srv, &mut cl, &format!("HTTP {}", short(&l)), &mut gap, &mut |cl, gap| {
            match ask_http(&web, cl, &l, feature_begin)? {
                Ok(v) => {
                    map.check("HTTP", &l, v, gap)?;
                    Ok(None)
                }
                Err(e) => Ok(Some(e)),
            }
        })?;
        if core::fb(1, 6) {
            // an abandoned lookup leaves the client usable
            let mut cl = net::client(&srv, 2);
            let at = 1 + core::f(4) as u64;
            exec::run(
                vec![Box::pin(async {
                    let _ = match l.clone() {
                        Lookup::Exact(k) => web.find_exact(&mut cl, k).await,
                        Lookup::Range(a, b) => web.find_range(&mut cl, a, b).await,
                    };
                })],
                &[Some(at)],
            )?;
            match ask_http(&web, &mut cl, &l, feature_begin)? {
                Ok(v) => map.check("HTTP after an abandoned lookup", &l, v, &mut gap)?,
                Err(e) => viol!("lookup failed", "HTTP after an abandoned lookup {}: {}", short(&l), e),
            }
        }
    }
    gap.map_or(Ok(()), Err)
}

fn ask_http<K: SimKey>(
    web: &HttpIndex<K>,
    cl: &mut Web,
    l: &Lookup<K>,
    feature_begin: usize,
) -> Result<Result<Vec<u64>, String>, Viol> {
    let got = exec::block_on(async {
        match l.clone() {
            Lookup::Exact(k) => web.find_exact(cl, k).await,
            Lookup::Range(a, b) => web.find_range(cl, a, b).await,
        }
    })?;
    match got {
        Ok(v) => {
            let mut offs = vec![];
            for i in v {
                ensure!(
                    i.range.start() >= feature_begin,
                    "B+tree answer wrong",
                    "HTTP result {} before the features at {}",
                    i.range.start(),
                    feature_begin
                );
                offs.push((i.range.start() - feature_begin) as u64);
            }
            Ok(Ok(offs))
        }
        Err(e) => Ok(Err(e.to_string())),
    }
}

type Web = AsyncBufferedHttpRangeClient<Client>;

/// `go` checks an answer and returns the error text when the lookup failed.
fn over_http<C>(
    srv: &Arc<Mutex<Server>>,
    cl: &mut Web,
    what: &str,
    ctx: &mut C,
    go: &mut dyn FnMut(&mut Web, &mut C) -> Result<Option<String>, Viol>,
) -> SResult {
    let n0 = srv.lock().unwrap().n;
    if let Some(e) = go(cl, ctx)? {
        viol!("lookup failed", "{}: {}", what, e);
    }
    let used = srv.lock().unwrap().n - n0;
    if core::fb(1, 2) {
        // a new client has nothing buffered
        let mut cl2 = net::client(srv, 1);
        let n1 = {
            let mut s = srv.lock().unwrap();
            let n1 = s.n;
            let at = n1 + core::f(used.max(1) as usize + 1) as u64;
            let f = net_fault();
            s.healed = false;
            if core::fb(1, 4) {
                s.cfg.down_from = Some((at, f));
            } else {
                s.cfg.faults = vec![(at, f)];
            }
            s.faults_fired
        };
        let r = go(&mut cl2, ctx)?;
        {
            let mut s = srv.lock().unwrap();
            s.healed = true;
            s.cfg.down_from = None;
            s.cfg.faults.clear();
            if s.faults_fired > n1 {
                core::nontrivial();
            }
        }
        core::probe(if r.is_some() { "fault-reported" } else { "right-despite-fault" });
        if let Some(e) = go(&mut cl2, ctx)? {
            viol!("retry failed", "{} when the server works again: {}", what, e);
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C12: multi-indices

struct Field {
    name: String,
    bytes: Vec<u8>,
    add_mem: Box<dyn Fn(&mut MemoryMultiIndex)>,
    add_stream: Box<dyn Fn(&mut StreamMultiIndex, u64)>,
    add_http: Box<dyn Fn(&mut HttpMultiIndex<Client>, usize, usize, usize)>,
    cond: Box<dyn Fn() -> (Operator, KeyType, BTreeSet<u64>)>,
}

const OPS: [Operator; 6] = [
    Operator::Eq,
    Operator::Ne,
    Operator::Gt,
    Operator::Lt,
    Operator::Ge,
    Operator::Le,
];

fn field<K: SimKey>(name: &str, universe: u64) -> Result<Field, Viol>
where
    MemoryIndex<K>: TypedSearchIndex,
    StreamIndex<K>: TypedStreamSearchIndex,
    HttpIndex<K>: TypedHttpSearchIndex<Client>,
{
    let (map, entries) = Multimap::<K>::draw(universe);
    let mem = match MemoryIndex::build(&entries, map.bf) {
        Ok(m) => m,
        Err(e) => viol!("build failed", "{}", e),
    };
    let mut bytes = Vec::new();
    if let Err(e) = mem.serialize(&mut bytes) {
        viol!("serialize failed", "{}", e);
    }
    let (n, bf) = (map.unique.len(), map.bf);
    let reload = core::wb(1, 2);
    let b2 = bytes.clone();
    let len = bytes.len() as u64;
    let (n1, n2, n3) = (name.to_string(), name.to_string(), name.to_string());
    Ok(Field {
        name: name.to_string(),
        bytes,
        add_mem: Box::new(move |m| {
            let i = if reload {
                MemoryIndex::<K>::from_buf(&b2[..], n, bf).expect("reload")
            } else {
                MemoryIndex::build(&entries, bf).expect("build")
            };
            m.add_index(n1.clone(), i)
        }),
        add_stream: Box::new(move |m, at| {
            K::add_stream(m, &n2, StreamIndex::new(n, bf, at, len), len)
        }),
        add_http: Box::new(move |m, begin, features, combine| {
            m.add_index(n3.clone(), HttpIndex::<K>::new(n, bf, begin, features, combine))
        }),
        cond: Box::new(move || {
            let op = OPS[core::w(6)];
            let k = map.some_key();
            let set = map
                .entries
                .iter()
                .filter(|(e, _)| query::op_holds(op, e.cmp(&k)))
                .map(|(_, o)| *o)
                .collect();
            (op, k.wrap(), set)
        }),
    })
}

fn any_field(name: &str, universe: u64) -> Result<Field, Viol> {
    match core::w(15) {
        0 => field::<i32>(name, universe),
        1 => field::<FixedStringKey<50>>(name, universe),
        2 => field::<OrderedFloat<f64>>(name, universe),
        3 => field::<bool>(name, universe),
        4 => field::<u8>(name, universe),
        5 => field::<i8>(name, universe),
        6 => field::<i16>(name, universe),
        7 => field::<u16>(name, universe),
        8 => field::<u32>(name, universe),
        9 => field::<i64>(name, universe),
        10 => field::<u64>(name, universe),
        11 => field::<OrderedFloat<f32>>(name, universe),
        12 => field::<DateTime<Utc>>(name, universe),
        13 => field::<FixedStringKey<20>>(name, universe),
        _ => field::<FixedStringKey<100>>(name, universe),
    }
}

fn multi() -> SResult {
    let universe = [40u64, 6, 400, 1 << 20][core::w(4)];
    let n = 1 + core::w(3);
    let mut fields = vec![];
    for i in 0..n {
        fields.push(any_field(&format!("f{}", i), universe)?);
    }
    core::describe(format!("multi-index of {} fields", n));
    let mut content = vec![];
    let mut begin = vec![];
    for f in &fields {
        begin.push(content.len());
        content.extend_from_slice(&f.bytes);
    }
    let (image, base) = embed(&content);
    let feature_begin = base + content.len();
    let combine = [1usize << 20, 0, 100, usize::MAX][core::w(4)];
    let mut mem = MemoryMultiIndex::new();
    let mut stream = StreamMultiIndex::new();
    let mut web = HttpMultiIndex::<Client>::new();
    for (f, b) in fields.iter().zip(&begin) {
        (f.add_mem)(&mut mem);
        (f.add_stream)(&mut stream, (base + b) as u64);
        (f.add_http)(&mut web, base + b, feature_begin, combine);
    }
    let srv = server(&image);
    let mut cl = net::client(&srv, 0);
    for _ in 0..1 + core::w(3) {
        let mut conds = vec![];
        let mut want: Option<BTreeSet<u64>> = None;
        for _ in 0..1 + core::w(3) {
            let f = &fields[core::w(n)];
            let (operator, key, set) = (f.cond)();
            conds.push(QueryCondition {
                field: f.name.clone(),
                operator,
                key,
            });
            want = Some(match want {
                None => set,
                Some(w) => w.intersection(&set).copied().collect(),
            });
        }
        let want = want.unwrap();
        if !want.is_empty() {
            core::nontrivial();
        }
        let said = short(&conds);
        let check = |what: &str, got: Vec<u64>| -> SResult {
            let got: BTreeSet<u64> = got.into_iter().collect();
            ensure!(
                got == want,
                "B+tree query answer wrong",
                "{} {}: {}",
                what,
                said,
                list_diff(
                    &got.iter().copied().collect::<Vec<_>>(),
                    &want.iter().copied().collect::<Vec<_>>()
                )
            );
            Ok(())
        };
        match mem.query(&conds) {
            Ok(v) => check("memory", v)?,
            Err(e) => viol!("lookup failed", "memory {}: {}", said, e),
        }
        over_stream(
            &image,
            base,
            |s| stream.query(s, &conds).map_err(|e| e.to_string()),
            |v| check("stream", v),
            &said,
        )?;
        over_http(&srv, &mut cl, &format!("HTTP {}", said), &mut (), &mut |cl, _| {
            match exec::block_on(web.query(cl, &conds))? {
                Ok(v) => {
                    let mut offs = vec![];
                    for i in v {
                        ensure!(
                            i.range.start() >= feature_begin,
                            "B+tree query answer wrong",
                            "HTTP result {} before the features at {}",
                            i.range.start(),
                            feature_begin
                        );
                        offs.push((i.range.start() - feature_begin) as u64);
                    }
                    check("HTTP", offs)?;
                    Ok(None)
                }
                Err(e) => Ok(Some(e.to_string())),
            }
        })?;
    }
    Ok(())
}

pub fn c12() -> SResult {
    if core::wb(1, 2) {
        return multi();
    }
    match core::w(8) {
        0 => direct::<i32>(),
        1 => direct::<FixedStringKey<20>>(),
        2 => direct::<u8>(),
        3 => direct::<OrderedFloat<f64>>(),
        4 => direct::<i64>(),
        5 => direct::<DateTime<Utc>>(),
        6 => direct::<u64>(),
        _ => direct::<FixedStringKey<50>>(),
    }
}

// ---------------------------------------------------------------- C13

fn tree_boxes(r: &mut Rng) -> Vec<NodeItem> {
    let n = match core::w(8) {
        0..=2 => 1 + core::w(6),
        3..=5 => 1 + core::w(60),
        6 => 1 + core::w(400),
        _ if core::wb(1, 300) => {
            core::probe("more-than-65536");
            core::more_steps(100_000_000);
            66_000 + core::w(80_000)
        }
        _ => 300 + core::w(3000),
    };
    let span = [8u64, 1000, 100_000][core::w(3)];
    let scale = [1.0, 0.25, 1000.0][core::w(3)];
    let shift = [0.0, -500.0, 85_000.0][core::w(3)];
    let long = core::wb(1, 4);
    (0..n)
        .map(|_| {
            let x = r.below(span) as f64 * scale + shift;
            let y = r.below(span) as f64 * scale + shift;
            let m = if long && r.below(8) == 0 { span } else { 3 };
            NodeItem::bounds(
                x,
                y,
                x + r.below(m) as f64 * scale,
                y + r.below(m) as f64 * scale,
            )
        })
        .collect()
}

struct Boxes {
    items: Vec<NodeItem>,
    node_size: u16,
}

impl Boxes {
    fn hit(&self, q: &Query) -> Vec<usize> {
        let f: Box<dyn Fn(&NodeItem) -> bool> = match *q {
            Query::BBox(a, b, c, d) => Box::new(move |i| {
                i.min_x <= c && i.max_x >= a && i.min_y <= d && i.max_y >= b
            }),
            Query::PointIntersects(x, y) => Box::new(move |i| {
                i.min_x <= x && x <= i.max_x && i.min_y <= y && y <= i.max_y
            }),
            Query::PointNearest(..) => Box::new(|_| false),
        };
        (0..self.items.len()).filter(|i| f(&self.items[*i])).collect()
    }

    fn query(&self) -> Query {
        let coord = |v: f64| match core::w(4) {
            0 | 1 => v,
            2 => v + [0.25, -0.25, 1.0, -1.0][core::w(4)],
            _ => v + core::w(2000) as f64 - 1000.0,
        };
        let it = |i: usize| &self.items[i];
        let a = it(core::w(self.items.len()));
        let b = it(core::w(self.items.len()));
        match core::w(5) {
            0 => Query::PointIntersects(
                coord([a.min_x, a.max_x][core::w(2)]),
                coord([a.min_y, a.max_y][core::w(2)]),
            ),
            1 => Query::PointNearest(coord(a.min_x), coord(b.min_y)),
            k => {
                let (mut x0, mut x1) = (coord(a.min_x), coord(if k == 2 { a.max_x } else { b.max_x }));
                let (mut y0, mut y1) = (coord(a.min_y), coord(if k == 2 { a.max_y } else { b.max_y }));
                if core::wb(1, 4) {
                    // touches a box at its edge
                    (x0, x1) = if core::wb(1, 2) { (a.max_x, x1) } else { (x0, a.min_x) };
                }
                if x1 < x0 {
                    (x0, x1) = (x1, x0);
                }
                if y1 < y0 {
                    (y0, y1) = (y1, y0);
                }
                Query::BBox(x0, y0, x1, y1)
            }
        }
    }

    /// `got`: indices (when known) and offsets
    fn check(&self, what: &str, q: &Query, got: &[(Option<usize>, u64)]) -> SResult {
        let said = || format!("{} {:?} over {} boxes, node size {}", what, q, self.items.len(), self.node_size);
        let mut idx = vec![];
        for (i, off) in got {
            let at = match self.items.binary_search_by(|x| x.offset.cmp(off)) {
                Ok(k) => k,
                Err(_) => viol!("R-tree result is no item", "{}: offset {}", said(), off),
            };
            if let Some(i) = i {
                ensure!(*i == at, "R-tree result index wrong", "{}: offset {} has index {}, not {}", said(), off, at, i);
            }
            idx.push(at);
        }
        if let Query::PointNearest(x, y) = q {
            ensure!(idx.len() == 1, "R-tree nearest count wrong", "{}: {} results", said(), idx.len());
            let d = |i: &NodeItem| {
                let (cx, cy) = ((i.min_x + i.max_x) / 2.0, (i.min_y + i.max_y) / 2.0);
                ((cx - x).powi(2) + (cy - y).powi(2)).sqrt()
            };
            let best = self.items.iter().map(d).fold(f64::INFINITY, f64::min);
            let has = d(&self.items[idx[0]]);
            if self.items.len() > 1 {
                core::nontrivial();
            }
            ensure!(
                has <= best * (1.0 + 1e-9) + 1e-9,
                "R-tree nearest wrong",
                "{}: item {} at {} but {} exists",
                said(),
                idx[0],
                has,
                best
            );
            return Ok(());
        }
        let want = self.hit(q);
        if !want.is_empty() && want.len() < self.items.len() {
            core::nontrivial();
        }
        let got: Vec<u64> = idx.iter().map(|i| *i as u64).collect();
        let want: Vec<u64> = want.iter().map(|i| *i as u64).collect();
        if got != want {
            let mut sorted = got.clone();
            sorted.sort();
            ensure!(sorted != want, "R-tree results out of order", "{}: {:?}", said(), &got[..got.len().min(20)]);
            viol!("R-tree answer wrong", "{}: {}", said(), list_diff(&got, &want));
        }
        Ok(())
    }
}

pub fn c13() -> SResult {
    let mut r = Rng::new(core::w(1 << 20) as u64);
    let mut items = tree_boxes(&mut r);
    let extent = calc_extent(&items);
    let ends = items.iter().fold([f64::INFINITY, f64::INFINITY, f64::NEG_INFINITY, f64::NEG_INFINITY], |e, i| {
        [e[0].min(i.min_x), e[1].min(i.min_y), e[2].max(i.max_x), e[3].max(i.max_y)]
    });
    ensure!(
        [extent.min_x, extent.min_y, extent.max_x, extent.max_y] == ends,
        "extent wrong",
        "calc_extent {:?} of boxes within {:?}",
        extent,
        ends
    );
    if core::wb(3, 4) {
        let key = |i: &NodeItem| [i.min_x, i.min_y, i.max_x, i.max_y].map(f64::to_bits);
        let mut before: Vec<_> = items.iter().map(key).collect();
        hilbert_sort(&mut items, &extent);
        let mut after: Vec<_> = items.iter().map(key).collect();
        before.sort();
        after.sort();
        ensure!(before == after, "sorting changed the boxes", "{} boxes", items.len());
    }
    let mut at = 0;
    let far = core::wb(1, 6);
    for i in items.iter_mut() {
        i.offset = at;
        at += 1 + r.below(300);
        // files may be larger than four gigabytes
        if far && r.below(3) == 0 {
            at += (1 << 31) - r.below(400);
        }
    }
    let node_size = match core::w(6) {
        0 => 16,
        1 => 2,
        2 => [255u16, 256, 1000, 65535][core::w(4)],
        _ => 2 + core::w(20) as u16,
    };
    let bx = Boxes { items, node_size };
    let n = bx.items.len();
    core::describe(format!("{} boxes, node size {}", n, node_size));
    let tree = match PackedRTree::build(&bx.items, &extent, node_size) {
        Ok(t) => t,
        Err(e) => viol!("build failed", "{}", e),
    };
    let wst = IoState::new(IoPlan::draw_benign());
    let mut sink = SimWrite::new(&wst);
    if let Err(e) = tree.stream_write(&mut sink) {
        viol!("serialize failed", "{}", e);
    }
    let bytes = sink.data.borrow().clone();
    ensure!(
        bytes.len() == tree.size() && bytes.len() == PackedRTree::index_size(n, node_size),
        "serialized size wrong",
        "{} bytes written, size() {}, index_size() {}",
        bytes.len(),
        tree.size(),
        PackedRTree::index_size(n, node_size)
    );
    if core::fb(1, 4) {
        let (f, sticky) = io_fault();
        let ops = wst.borrow().ops as usize;
        let st = IoState::new(IoPlan {
            faults: vec![(core::f(ops) as u64, f, sticky)],
            ..wst.borrow().plan.clone()
        });
        let mut sink = SimWrite::new(&st);
        if tree.stream_write(&mut sink).is_ok() {
            ensure!(
                *sink.data.borrow() == bytes,
                "serialize lost bytes",
                "stream_write succeeded on a failing sink with {} of {} bytes",
                sink.data.borrow().len(),
                bytes.len()
            );
        } else {
            core::probe("fault-reported");
        }
    }
    let content = Arc::new(bytes.clone());
    let rst = IoState::new(IoPlan {
        buffer: 0,
        ..IoPlan::draw_benign()
    });
    let re = match PackedRTree::from_buf(SimRead::new(&content, &rst), n, node_size) {
        Ok(t) => t,
        Err(e) => viol!("reload failed", "{}", e),
    };
    if core::fb(1, 4) {
        let (f, sticky) = io_fault();
        let ops = rst.borrow().ops as usize;
        let st = IoState::new(IoPlan {
            faults: vec![(core::f(ops) as u64, f, sticky)],
            ..rst.borrow().plan.clone()
        });
        if let Ok(t) = PackedRTree::from_buf(SimRead::new(&content, &st), n, node_size) {
            let q = bx.query();
            if let Ok(v) = t.search(q) {
                let got: Vec<_> = v.iter().map(|i| (Some(i.index), i.offset as u64)).collect();
                bx.check("tree loaded from a failing source", &q, &got)?;
            }
        } else {
            core::probe("fault-reported");
        }
    }
    let attr = [0usize, 0, 100, 5000][core::w(4)];
    let mut body = bytes.clone();
    body.resize(body.len() + attr, 0x77);
    let (image, base) = embed(&body);
    let feature_begin = base + body.len();
    let srv = server(&image);
    let mut cl = net::client(&srv, 0);
    let mut trees = vec![(&tree, "memory"), (&re, "memory after reload")];
    let mut fetched = vec![];
    if core::wb(1, 4) {
        over_http(&srv, &mut cl, "reload over HTTP", &mut fetched, &mut |cl, fetched| {
            Ok(match exec::block_on(PackedRTree::from_http(cl, base, n, node_size))? {
                Ok(t) => {
                    fetched.push(t);
                    None
                }
                Err(e) => Some(e.to_string()),
            })
        })?;
        trees.extend(fetched.iter().map(|t| (t, "memory after reload over HTTP")));
    }
    for _ in 0..1 + core::w(3) {
        let q = bx.query();
        for (t, what) in &trees {
            match t.search(q) {
                Ok(v) => {
                    let got: Vec<_> = v.iter().map(|i| (Some(i.index), i.offset as u64)).collect();
                    bx.check(what, &q, &got)?
                }
                Err(e) => viol!("lookup failed", "{} {:?}: {}", what, q, e),
            }
        }
        let what = format!("stream at {}", base);
        over_stream(
            &image,
            base,
            |s| PackedRTree::stream_search(s, n, node_size, q).map_err(|e| e.to_string()),
            |v| {
                let got: Vec<_> = v.iter().map(|i| (Some(i.index), i.offset as u64)).collect();
                bx.check(&what, &q, &got)
            },
            &what,
        )?;
        let combine = [256 * 1024usize, 0, 40, 200, 4000, usize::MAX][core::w(6)];
        let what = format!("HTTP merging over {}", combine);
        let mut ask = |cl: &mut Web| -> Result<Option<String>, Viol> {
            let got = exec::block_on(PackedRTree::http_stream_search(
                cl, base, attr, n, node_size, q, combine,
            ))?;
            let found = match got {
                Ok(v) => v,
                Err(e) => return Ok(Some(e.to_string())),
            };
            let mut got = vec![];
            for i in &found {
                let s = i.range.start();
                ensure!(s >= feature_begin, "R-tree result is no item", "{}: starts at {}", what, s);
                let off = (s - feature_begin) as u64;
                if let Ok(k) = bx.items.binary_search_by(|x| x.offset.cmp(&off)) {
                    // (where the last one ends is not known; a nearest one may be met where its
                    // successor was not fetched)
                    let open = i.range.end().is_none() && matches!(q, Query::PointNearest(..));
                    let next = bx.items.get(k + 1).map(|x| feature_begin + x.offset as usize);
                    let end = i.range.end();
                    ensure!(
                        open || next == end,
                        "R-tree result range wrong",
                        "{} {:?}: item {} ends at {:?} but the next one starts at {:?}",
                        what,
                        q,
                        k,
                        end,
                        next
                    );
                }
                got.push((None, off));
            }
            bx.check(&what, &q, &got)?;
            Ok(None)
        };
        over_http(&srv, &mut cl, &format!("{} {:?}", what, q), &mut (), &mut |cl, _| ask(cl))?;
        if core::fb(1, 6) {
            let at = 1 + core::f(6) as u64;
            let mut cl = net::client(&srv, 2);
            exec::run(
                vec![Box::pin(async {
                    let _ = PackedRTree::http_stream_search(&mut cl, base, attr, n, node_size, q, combine).await;
                })],
                &[Some(at)],
            )?;
            if let Some(e) = ask(&mut cl)? {
                viol!("lookup failed", "{} {:?} after an abandoned search: {}", what, q, e);
            }
        }
    }
    Ok(())
}
