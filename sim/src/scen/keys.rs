//! C19: keys written to and read from byte streams.

use crate::core::{self, Rng, SResult};
use crate::io::{EOF_ERROR, WRITE_ZERO_ERROR, IoFault, IoPlan, IoState, SimRead, SimWrite};
use crate::{ensure, viol};
use chrono::{DateTime, Utc};
use fcb_core::static_btree::{Entry, FixedStringKey, Key};
use ordered_float::OrderedFloat;
use std::cell::RefCell;
use std::cmp::Ordering;
use std::rc::Rc;
use std::sync::Arc;

/// A value, the key that stands for it, and the order of values.
struct Kind<V, K> {
    name: &'static str,
    draw: fn(usize, &mut Rng) -> V,
    key: fn(&V) -> K,
    cmp: fn(&V, &V) -> Ordering,
    /// takes part in the order between the least and the greatest key
    bounded: fn(&V) -> bool,
}

fn words(mode: usize, n: usize, r: &mut Rng) -> String {
    match mode {
        0 => format!("k{:02}", r.below(24)),
        1 => "x".repeat(n - 2 + r.below(5) as usize),
        2 => ["", " ", "a", "\u{10FFFF}", "\u{7f}", "\u{80}", "\u{1}", "~", "é", "A", "aa"][r.below(11) as usize].to_string(),
        3 => format!("{}{}", "p".repeat(n - 1), ["é", "a", "", "\u{10FFFF}"][r.below(4) as usize]),
        _ => (0..r.below(2 * n as u64)).filter_map(|_| char::from_u32(1 + r.below(0x2fff) as u32)).collect(),
    }
}

fn run<V, K: Key>(kind: Kind<V, K>) -> SResult {
    let mode = core::w(5);
    let mut r = Rng::new(core::w(1 << 20) as u64);
    let n = 1 + core::w(24);
    let values: Vec<V> = (0..n).map(|_| (kind.draw)(mode, &mut r)).collect();
    let keys: Vec<K> = values.iter().map(kind.key).collect();
    let size = K::SERIALIZED_SIZE;
    let name = kind.name;
    core::describe(format!("{n} keys of type {name}, mode {mode}"));

    let write = |plan: IoPlan| {
        let st = IoState::new(plan);
        let mut s = SimWrite::new(&st);
        let mut done = 0;
        let mut failed = None;
        for k in &keys {
            match k.write_to(&mut s) {
                Ok(m) => {
                    if m != size {
                        failed = Some(format!("{m} bytes reported instead of {size}"));
                        done = usize::MAX;
                        break;
                    }
                    done += 1;
                }
                Err(e) => {
                    failed = Some(e.to_string());
                    break;
                }
            }
        }
        let data = s.data.borrow().clone();
        (done, failed, data, st)
    };
    let plan = IoPlan { buffer: 0, ..IoPlan::draw_benign() };
    let (done, failed, bytes, st) = write(plan.clone());
    ensure!(done == n, "key not written", "{name}: {done} of {n}: {failed:?}");
    ensure!(bytes.len() == n * size, "wrong size", "{name}: {} bytes for {n} keys of {size}", bytes.len());

    // a sink which fails
    let ops = st.borrow().ops;
    if core::fb(1, 2) {
        let mut p = plan.clone();
        if core::fb(1, 3) {
            p.space = Some(core::f(bytes.len() + 1) as u64);
        } else {
            let f = [IoFault::Errno(libc::EIO), IoFault::Zero, IoFault::Errno(libc::ENOSPC), IoFault::Errno(WRITE_ZERO_ERROR)][core::f(4)];
            p.faults = vec![(core::f(ops.max(1) as usize) as u64, f, core::fb(1, 2))];
        }
        let (done, failed, got, st) = write(p);
        ensure!(done <= n, "wrong size", "{name}: {failed:?}");
        ensure!(bytes.starts_with(&got), "wrong bytes", "{name}: a failing sink was given other bytes");
        ensure!(got.len() >= done * size, "lost failure", "{name}: {done} keys written, but {} bytes arrived", got.len());
        if st.borrow().errors > 0 {
            core::nontrivial();
            ensure!(done < n, "lost failure", "{name}: a sink failed and all keys were written");
        }
    }

    let read = |image: &Arc<Vec<u8>>, plan: IoPlan| {
        let st = IoState::new(plan);
        let mut s = SimRead::new(image, &st);
        let mut got = vec![];
        let mut failed = None;
        for _ in 0..n {
            match K::read_from(&mut s) {
                Ok(k) => got.push(k),
                Err(e) => {
                    failed = Some(e.to_string());
                    break;
                }
            }
        }
        (got, failed, st)
    };
    let image = Arc::new(bytes.clone());
    let plan = IoPlan { buffer: 0, ..IoPlan::draw_benign() };
    let (got, failed, st) = read(&image, plan.clone());
    ensure!(got.len() == n, "key not read", "{name}: {} of {n}: {failed:?}", got.len());
    let same = |got: &[K], what: &str| -> SResult {
        for (i, k) in got.iter().enumerate() {
            ensure!(*k == keys[i], "key altered", "{name}: {what} gave {k:?} for {:?}", keys[i]);
            let mut again = vec![];
            if let Err(e) = k.write_to(&mut again) {
                viol!("key not written", "{name}: {e}");
            }
            ensure!(again == bytes[i * size..(i + 1) * size], "key altered", "{name}: {what}: {k:?} is encoded in two ways");
        }
        Ok(())
    };
    same(&got, "reading")?;
    let mut slices = vec![];
    for i in 0..n {
        match K::from_bytes(&bytes[i * size..(i + 1) * size]) {
            Ok(k) => slices.push(k),
            Err(e) => viol!("key not read", "{name}: from_bytes: {e}"),
        }
    }
    same(&slices, "from_bytes")?;

    // the order of keys, written or read, is the order of what they stand for
    let (min, max) = (K::min_value(), K::max_value());
    for i in 0..n {
        for j in 0..n {
            let want = (kind.cmp)(&values[i], &values[j]);
            for (what, a, b) in [("", &keys[i], &keys[j]), (" after reading", &got[i], &got[j]), (" with one read", &got[i], &keys[j])] {
                ensure!(a.cmp(b) == want, "wrong order", "{name}: {a:?} and {b:?} compare as {:?}{what}", a.cmp(b));
                ensure!((a == b) == want.is_eq(), "wrong order", "{name}: {a:?} == {b:?} is {}{what}", a == b);
                ensure!(a.partial_cmp(b) == Some(want), "wrong order", "{name}: {a:?} and {b:?} compare as {:?}{what}", a.partial_cmp(b));
            }
        }
        if (kind.bounded)(&values[i]) {
            ensure!(min <= keys[i] && keys[i] <= max, "outside of the bounds", "{name}: {:?}", keys[i]);
        }
    }

    // a source which fails or ends early
    let ops = st.borrow().ops;
    if core::fb(2, 3) {
        core::nontrivial();
        let (image, plan, cut) = if core::fb(1, 2) {
            let cut = core::f(bytes.len());
            core::fired("cut-source");
            (Arc::new(bytes[..cut].to_vec()), plan, Some(cut))
        } else {
            let f = [IoFault::Errno(libc::EIO), IoFault::Zero, IoFault::Errno(libc::ECONNRESET), IoFault::Errno(EOF_ERROR)][core::f(4)];
            (image, IoPlan { faults: vec![(core::f(ops.max(1) as usize) as u64, f, core::fb(1, 2))], ..plan }, None)
        };
        let (got, failed, st) = read(&image, plan);
        same(&got, "reading a failing source")?;
        if let Some(cut) = cut {
            ensure!(got.len() == cut / size, "wrong length", "{name}: {} keys from {cut} bytes", got.len());
        } else if st.borrow().errors > 0 {
            ensure!(failed.is_some(), "lost failure", "{name}: a source failed and all keys were read");
        }
    }

    // an entry is its key and an offset
    let i = core::w(n);
    let off = [0u64, 1, u64::MAX, 1 << 63, r.next()][core::w(5)];
    let e = Entry { key: keys[i].clone(), offset: off };
    let st = IoState::new(IoPlan { buffer: 0, ..IoPlan::draw_benign() });
    let mut s = SimWrite::new(&st);
    if let Err(e) = e.write_to(&mut s) {
        viol!("key not written", "{name}: entry: {e}");
    }
    let data = Arc::new(s.data.borrow().clone());
    let mut want = bytes[i * size..(i + 1) * size].to_vec();
    want.extend_from_slice(&off.to_le_bytes());
    ensure!(*data == want, "wrong bytes", "{name}: entry: {data:?} instead of {want:?}");
    let st: Rc<RefCell<IoState>> = IoState::new(IoPlan { buffer: 0, ..IoPlan::draw_benign() });
    match Entry::<K>::from_reader(&mut SimRead::new(&data, &st)) {
        Ok(g) => ensure!(g.key == e.key && g.offset == off, "key altered", "{name}: entry {g:?} for {e:?}"),
        Err(e) => viol!("key not read", "{name}: entry: {e}"),
    }
    Ok(())
}

/// Bytes which are no date are refused, others are a date which has these bytes.
fn any_date() -> SResult {
    let mut r = Rng::new(core::w(1 << 20) as u64);
    core::nontrivial();
    for _ in 0..20 {
        let secs = match r.below(4) {
            0 => r.next() as i64,
            1 => (r.next() as i64) >> 20,
            2 => [i64::MIN, i64::MAX, 8210266876799, 8210266876800, -8334601228800, -8334601228801][r.below(6) as usize],
            _ => r.below(4_000_000_000) as i64,
        };
        let nanos = match r.below(3) {
            0 => r.next() as u32,
            1 => [0u32, 999_999_999, 1_000_000_000, 1_999_999_999, 2_000_000_000][r.below(5) as usize],
            _ => r.below(1_000_000_000) as u32,
        };
        let mut b = secs.to_le_bytes().to_vec();
        b.extend(nanos.to_le_bytes());
        let want = DateTime::<Utc>::from_timestamp(secs, nanos);
        let st = IoState::new(IoPlan { buffer: 0, ..IoPlan::draw_benign() });
        let got = DateTime::<Utc>::read_from(&mut SimRead::new(&Arc::new(b.clone()), &st));
        ensure!(got.as_ref().ok() == want.as_ref(), "key altered", "{secs} s {nanos} ns read as {got:?}");
        let got = DateTime::<Utc>::from_bytes(&b);
        ensure!(got.as_ref().ok() == want.as_ref(), "key altered", "{secs} s {nanos} ns taken from bytes as {got:?}");
    }
    Ok(())
}

macro_rules! int {
    ($t:ty) => {
        run(Kind {
            name: stringify!($t),
            draw: |mode, r| match mode {
                0 => r.below(24) as $t,
                1 => <$t>::MAX - r.below(4) as $t,
                2 => <$t>::MIN + r.below(4) as $t,
                3 => <$t>::try_from(1i128 << r.below(<$t>::BITS as u64 - 1)).unwrap().wrapping_sub(r.below(3) as $t),
                _ => r.next() as $t,
            },
            key: |v: &$t| *v,
            cmp: |a, b| (*a as i128 - *b as i128).cmp(&0),
            bounded: |_| true,
        })
    };
}
macro_rules! float {
    ($t:ty) => {
        run(Kind {
            name: stringify!($t),
            draw: |mode, r| -> $t {
                match mode {
                    0 => r.below(24) as $t * 0.5 - 4.0,
                    1 => [<$t>::INFINITY, <$t>::MAX, <$t>::EPSILON, 0.0, -0.0][r.below(5) as usize],
                    2 => [<$t>::NEG_INFINITY, <$t>::MIN, -<$t>::MIN_POSITIVE, <$t>::MIN_POSITIVE, <$t>::from_bits(1)][r.below(5) as usize],
                    3 => <$t>::from_bits(r.next() as _),
                    _ => r.next() as i64 as $t / 1e9,
                }
            },
            key: |v: &$t| OrderedFloat(*v),
            // a NaN is equal to itself and above the numbers
            cmp: |a, b| match (a.is_nan(), b.is_nan()) {
                (false, false) if a < b => Ordering::Less,
                (false, false) if a > b => Ordering::Greater,
                (a, b) => a.cmp(&b),
            },
            bounded: |v| !v.is_nan(),
        })
    };
}
macro_rules! string {
    ($n:literal) => {
        run(Kind {
            name: stringify!($n),
            draw: |mode, r| words(mode, $n, r),
            key: |v: &String| FixedStringKey::<$n>::from_str(v),
            cmp: |a, b| {
                let cut = |s: &str| {
                    let mut v = s.as_bytes().to_vec();
                    v.resize($n, 0);
                    v
                };
                cut(a).cmp(&cut(b))
            },
            bounded: |_| true,
        })
    };
}

pub fn c19() -> SResult {
    match core::w(16) {
        0 => int!(i32),
        1 => int!(u8),
        2 => int!(i8),
        3 => int!(u16),
        4 => int!(i16),
        5 => int!(u32),
        6 => int!(u64),
        7 => int!(i64),
        8 => float!(f32),
        9 => float!(f64),
        10 => run(Kind {
            name: "bool",
            draw: |_, r| r.below(2) == 1,
            key: |v: &bool| *v,
            cmp: |a, b| (*a as u8).cmp(&(*b as u8)),
            bounded: |_| true,
        }),
        11 => string!(20),
        12 => string!(50),
        13 => string!(100),
        14 => any_date(),
        _ => run(Kind {
            name: "date",
            draw: |mode, r| -> (i64, u32) {
                match mode {
                    0 => (1_700_000_000 + r.below(20) as i64, 0),
                    1 => [(8210266876799, 999_999_999), (253_402_300_799, 999_999_999), (0, 0), (59, 1_500_000_000)][r.below(4) as usize],
                    2 => [(-8334601228800, 0), (-1, 999_999_999), (-1, 0), (-1, 1)][r.below(4) as usize],
                    3 => (-5 + r.below(10) as i64, r.below(4) as u32 * 300_000_000),
                    _ => ((r.next() as i64) >> 31, r.below(1_000_000_000) as u32),
                }
            },
            key: |v: &(i64, u32)| DateTime::<Utc>::from_timestamp(v.0, v.1).unwrap(),
            cmp: |a, b| a.cmp(b),
            bounded: |_| true,
        }),
    }
}
