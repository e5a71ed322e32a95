//! The ways a user reads a file, each reduced to what it delivered and how it ended.

use crate::core::{self, Viol};
use crate::exec;
use crate::gen;
use crate::io::{IoState, SimRead, SimSeek};
use crate::net::{self, Client, Server};
use fcb_core::{AttrQuery, FcbReader, HttpFcbReader, SpatialQuery};
use http_range_client::AsyncBufferedHttpRangeClient;
use serde_json::Value;
use std::cell::RefCell;
use std::io::{BufReader, Read, Seek};
use std::rc::Rc;
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug)]
pub enum Ask {
    All,
    Spatial(SpatialQuery),
    Attr(AttrQuery),
}

#[derive(Clone, Debug, PartialEq)]
pub enum End {
    Done,
    /// while opening or selecting
    OpenErr(String),
    /// while iterating
    Err(String),
}

#[derive(Clone, Debug)]
pub struct Delivered {
    pub feats: Vec<Value>,
    /// delivered by further calls after the first error
    pub later: Vec<Value>,
    /// further calls after the first error, up to the first normal end: number of errors, ended
    pub later_errs: usize,
    pub later_end: bool,
    pub announced: Option<usize>,
    pub end: End,
}

impl Delivered {
    fn new() -> Delivered {
        Delivered {
            feats: vec![],
            later: vec![],
            later_errs: 0,
            later_end: false,
            announced: None,
            end: End::Done,
        }
    }
    pub fn open_err(e: impl ToString) -> Delivered {
        Delivered {
            end: End::OpenErr(e.to_string()),
            ..Delivered::new()
        }
    }
    pub fn ok(&self) -> bool {
        self.end == End::Done
    }
    pub fn ids(&self) -> Vec<&str> {
        self.feats
            .iter()
            .map(|f| f["id"].as_str().unwrap_or("?"))
            .collect()
    }
}

macro_rules! drain {
    ($it:expr, $after:expr) => {{
        let mut d = Delivered::new();
        let mut it = $it;
        d.announced = it.features_count();
        let mut failed = false;
        let mut tries = 0;
        loop {
            let r = match it.next() {
                Ok(Some(_)) => Ok(true),
                Ok(None) => Ok(false),
                Err(e) => Err(e.to_string()),
            };
            core::step();
            core::delivered(d.feats.len() + d.later.len(), d.announced);
            match r {
                Ok(true) => match it.cur_cj_feature() {
                    Ok(f) => {
                        if failed {
                            d.later.push(gen::canon(&f));
                        } else {
                            d.feats.push(gen::canon(&f));
                        }
                    }
                    Err(e) => {
                        if !failed {
                            failed = true;
                            d.end = End::Err(format!("decoding: {}", e));
                        }
                        d.later_errs += 1;
                        tries += 1;
                    }
                },
                Ok(false) => {
                    d.later_end = failed;
                    break;
                }
                Err(e) => {
                    if !failed {
                        failed = true;
                        d.end = End::Err(e);
                    }
                    d.later_errs += 1;
                    tries += 1;
                }
            }
            if tries > $after {
                break;
            }
        }
        d
    }};
}

/// Reads through the local readers. `after`: how often to call again after an error.
pub fn local(
    ask: &Ask,
    seek: bool,
    data: &Arc<Vec<u8>>,
    st: &Rc<RefCell<IoState>>,
    after: usize,
) -> Result<Delivered, Viol> {
    core::guard(|| {
        core::ev("read-path", seek as u64, 0);
        let src = SimRead::new(data, st);
        let cap = st.borrow().plan.buffer;
        match (seek, cap) {
            (true, 0) => by_seek(SimSeek(src), ask, after),
            (true, c) => by_seek(BufReader::with_capacity(c, SimSeek(src)), ask, after),
            (false, 0) => by_seq(src, ask, after),
            (false, c) => by_seq(BufReader::with_capacity(c, src), ask, after),
        }
    })
}

fn by_seek<R: Read + Seek>(src: R, ask: &Ask, after: usize) -> Delivered {
    let r = match FcbReader::open(src) {
        Ok(r) => r,
        Err(e) => return Delivered::open_err(e),
    };
    let it = match ask {
        Ask::All => r.select_all(),
        Ask::Spatial(q) => r.select_query(q.clone()),
        Ask::Attr(q) => r.select_attr_query(q.clone()),
    };
    match it {
        Ok(it) => drain!(it, after),
        Err(e) => Delivered::open_err(e),
    }
}

fn by_seq<R: Read>(src: R, ask: &Ask, after: usize) -> Delivered {
    let r = match FcbReader::open(src) {
        Ok(r) => r,
        Err(e) => return Delivered::open_err(e),
    };
    let it = match ask {
        Ask::All => r.select_all_seq(),
        Ask::Spatial(q) => r.select_query_seq(q.clone()),
        Ask::Attr(q) => r.select_attr_query_seq(q.clone()),
    };
    match it {
        Ok(it) => drain!(it, after),
        Err(e) => Delivered::open_err(e),
    }
}

/// What to do when an HTTP operation fails.
#[derive(Clone, Default)]
pub struct Retry {
    /// faults end when the first error was seen, then so many further calls
    pub heal: Option<Arc<Mutex<Server>>>,
    pub calls: usize,
    /// waits for a feature that are given up at most; it is then asked for again
    pub give_up: usize,
}

/// Some readers give up waiting now and then.
pub fn give_up() -> usize {
    if core::fb(1, 4) {
        1 + core::f(4)
    } else {
        0
    }
}

pub async fn http(ask: &Ask, client: AsyncBufferedHttpRangeClient<Client>, retry: &Retry) -> Delivered {
    let r = match HttpFcbReader::new(client).await {
        Ok(r) => r,
        Err(e) => return Delivered::open_err(e),
    };
    let it = match ask {
        Ask::All => r.select_all().await,
        Ask::Spatial(q) => r.select_query(q.clone()).await,
        Ask::Attr(q) => r.select_attr_query(q).await,
    };
    let mut it = match it {
        Ok(it) => it,
        Err(e) => return Delivered::open_err(e),
    };
    let mut d = Delivered::new();
    d.announced = it.features_count();
    let mut failed = false;
    let mut tries = 0;
    let mut give_up = retry.give_up;
    loop {
        core::step();
        core::delivered(d.feats.len() + d.later.len(), d.announced);
        let patience = if give_up > 0 && core::fb(1, 2) { 1 + core::f(3) as u64 } else { u64::MAX };
        let Some(r) = exec::patient(it.next(), patience).await else {
            give_up -= 1;
            continue;
        };
        let r = match r {
            Ok(Some(_)) => Ok(true),
            Ok(None) => Ok(false),
            Err(e) => Err(e.to_string()),
        };
        let err = match r {
            Ok(true) => match it.cur_cj_feature() {
                Ok(f) => {
                    if failed {
                        d.later.push(gen::canon(&f));
                    } else {
                        d.feats.push(gen::canon(&f));
                    }
                    continue;
                }
                Err(e) => format!("decoding: {}", e),
            },
            Ok(false) => {
                d.later_end = failed;
                return d;
            }
            Err(e) => e,
        };
        if !failed {
            failed = true;
            d.end = End::Err(err);
            if let Some(s) = &retry.heal {
                s.lock().unwrap().healed = true;
                core::ev("healed", 0, 0);
            }
        }
        d.later_errs += 1;
        tries += 1;
        if tries > retry.calls {
            return d;
        }
    }
}

/// One HTTP reader on its own.
pub fn http_alone(ask: &Ask, srv: &Arc<Mutex<Server>>, retry: &Retry) -> Result<Delivered, Viol> {
    core::guard(|| exec::block_on(http(ask, net::client(srv, 0), retry)))?
}
