//! A written dataset with its reference answers.

use crate::core::{self, SResult, Viol};
use crate::drive;
use crate::gen::{self, Dataset, Profile};
use crate::layout::{self, Layout};
use crate::{ensure, viol};
use serde_json::Value;
use std::sync::Arc;

pub struct Prep {
    pub ds: Dataset,
    /// insertion order
    pub canon: Vec<Value>,
    pub bytes: Arc<Vec<u8>>,
    pub lay: Layout,
    /// stored position -> insertion index
    pub stored: Vec<usize>,
}

pub fn make(p: &Profile) -> Result<Prep, Viol> {
    let ds = gen::dataset(p);
    of(ds)
}

pub fn of(ds: Dataset) -> Result<Prep, Viol> {
    core::describe(ds.describe());
    let canon = ds.canon();
    let bytes = drive::write_plain(&ds)?;
    with_bytes(ds, canon, bytes)
}

pub fn with_bytes(ds: Dataset, canon: Vec<Value>, bytes: Arc<Vec<u8>>) -> Result<Prep, Viol> {
    let lay = match layout::decode(&bytes) {
        Ok(l) => l,
        Err(e) => viol!("unreadable layout", "{} ({})", e, ds.describe()),
    };
    if lay.header_size > 13_000 {
        core::probe("large-header");
    }
    let mut stored = vec![];
    let at: std::collections::HashMap<&str, usize> = canon
        .iter()
        .enumerate()
        .map(|(i, f)| (f["id"].as_str().unwrap(), i))
        .collect();
    for id in lay.order() {
        match at.get(id) {
            Some(i) => stored.push(*i),
            None => viol!("unknown feature in the file", "{:?}", id),
        }
    }
    ensure!(
        stored.len() == canon.len(),
        "features lost or duplicated in the file",
        "{} stored, {} added",
        stored.len(),
        canon.len()
    );
    let mut seen = stored.clone();
    seen.sort();
    seen.dedup();
    ensure!(
        seen.len() == stored.len(),
        "features lost or duplicated in the file",
        "a feature is stored twice"
    );
    Ok(Prep {
        ds,
        canon,
        bytes,
        lay,
        stored,
    })
}

/// A file of more than ten megabytes, the same in every run, made once per process.
pub fn large() -> Result<std::rc::Rc<Prep>, Viol> {
    thread_local! {
        static LARGE: std::cell::RefCell<Option<std::rc::Rc<Prep>>> = const { std::cell::RefCell::new(None) };
    }
    LARGE.with(|l| {
        if let Some(p) = l.borrow().as_ref() {
            return Ok(p.clone());
        }
        let p = std::rc::Rc::new(core::aside(0x1a49e, || of(gen::large()))?);
        *l.borrow_mut() = Some(p.clone());
        Ok(p)
    })
}

/// The file with indexes of several levels on columns of every kind, likewise.
pub fn wide() -> Result<std::rc::Rc<Prep>, Viol> {
    thread_local! {
        static WIDE: std::cell::RefCell<Option<std::rc::Rc<Prep>>> = const { std::cell::RefCell::new(None) };
    }
    WIDE.with(|l| {
        if let Some(p) = l.borrow().as_ref() {
            return Ok(p.clone());
        }
        let p = std::rc::Rc::new(core::aside(0x71de, || of(gen::wide()))?);
        *l.borrow_mut() = Some(p.clone());
        Ok(p)
    })
}

impl Prep {
    /// The selected features in storage order.
    pub fn want(&self, sel: &[bool]) -> Vec<&Value> {
        self.stored
            .iter()
            .filter(|i| sel[**i])
            .map(|i| &self.canon[*i])
            .collect()
    }
    pub fn all(&self) -> Vec<&Value> {
        self.stored.iter().map(|i| &self.canon[*i]).collect()
    }
}

/// `got` is exactly the wanted features in any order.
pub fn same_set(class: &str, got: &[Value], want: &[&Value], what: &str) -> SResult {
    let id = |v: &Value| v["id"].as_str().unwrap_or("?").to_string();
    let mut left: std::collections::BTreeMap<String, &Value> =
        want.iter().map(|f| (id(f), *f)).collect();
    let mut done = std::collections::BTreeSet::new();
    for g in got {
        let i = id(g);
        match left.remove(&i) {
            Some(f) => {
                if f != g {
                    viol!(
                        format!("{}: content differs", class),
                        "{}: feature {:?}: {}",
                        what,
                        i,
                        gen::diff(f, g, "").unwrap_or_default()
                    );
                }
                done.insert(i);
            }
            None if done.contains(&i) => viol!(
                format!("{}: feature delivered twice", class),
                "{}: {:?}",
                what,
                i
            ),
            None => viol!(
                format!("{}: feature that does not match", class),
                "{}: {:?} was delivered; the answer is {:?}",
                what,
                i,
                ids(want)
            ),
        }
    }
    if !left.is_empty() {
        viol!(
            format!("{}: matching feature missing", class),
            "{}: {:?} missing; delivered {}, the answer is {:?}",
            what,
            left.keys().take(5).collect::<Vec<_>>(),
            got.len(),
            ids(want)
        );
    }
    Ok(())
}

pub fn ids(v: &[&Value]) -> Vec<String> {
    v.iter()
        .take(12)
        .map(|f| f["id"].as_str().unwrap_or("?").to_string())
        .collect()
}
