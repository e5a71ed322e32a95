//! A simulated HTTP file server behind the `AsyncHttpRangeClient` trait.

use crate::core::{self, Rng};
use crate::io;
use crate::exec;
use async_trait::async_trait;
use bytes::Bytes;
use http_range_client::{AsyncBufferedHttpRangeClient, AsyncHttpRangeClient, HttpError};
use std::sync::{Arc, Mutex};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum NetFault {
    Status(u16),
    Conn,
    /// only so many bytes of the body arrive, the transfer looks complete
    Short(usize),
}

#[derive(Clone, Debug)]
pub struct Req {
    pub client: u32,
    pub start: u64,
    pub end: u64, // inclusive
    pub sent: usize,
    pub ok: bool,
    pub fault: bool,
}

#[derive(Default, Clone)]
pub struct ServerCfg {
    /// 0: immediate, 1: a draw per request
    pub latency: bool,
    pub ignore_range: bool,
    /// faults by request number
    pub faults: Vec<(u64, NetFault)>,
    /// from this request on every request fails
    pub down_from: Option<(u64, NetFault)>,
    pub split_seed: u64,
}

pub struct Server {
    pub image: Arc<Vec<u8>>,
    /// different files have different addresses
    pub url: String,
    pub cfg: ServerCfg,
    pub log: Vec<Req>,
    pub n: u64,
    /// faults are over
    pub healed: bool,
    pub faults_fired: u64,
    rng: Rng,
}

#[derive(Clone)]
pub struct Client {
    pub srv: Arc<Mutex<Server>>,
    pub id: u32,
}

fn address(image: &[u8]) -> String {
    let step = 1 + image.len() / (1 << 20);
    let mut h = Rng::new(image.len() as u64).0;
    for c in image.chunks(8).step_by(step) {
        let mut b = [0; 8];
        b[..c.len()].copy_from_slice(c);
        h = (h ^ u64::from_le_bytes(b)).wrapping_mul(0x0100_0000_01b3).rotate_left(23);
    }
    format!("http://sim/{:016x}", Rng(h).next())
}

impl Server {
    pub fn new(image: Arc<Vec<u8>>, cfg: ServerCfg) -> Arc<Mutex<Server>> {
        let rng = Rng::new(cfg.split_seed);
        Arc::new(Mutex::new(Server {
            url: address(&image),
            image,
            cfg,
            log: Vec::new(),
            n: 0,
            healed: false,
            faults_fired: 0,
            rng,
        }))
    }
}

pub fn client(srv: &Arc<Mutex<Server>>, id: u32) -> AsyncBufferedHttpRangeClient<Client> {
    let url = srv.lock().unwrap().url.clone();
    AsyncBufferedHttpRangeClient::with(
        Client {
            srv: srv.clone(),
            id,
        },
        &url,
    )
}

fn parse_range(r: &str) -> Option<(u64, u64)> {
    let r = r.strip_prefix("bytes=")?;
    let (a, b) = r.split_once('-')?;
    Some((a.parse().ok()?, b.parse().ok()?))
}

#[async_trait]
impl AsyncHttpRangeClient for Client {
    async fn get_range(&self, url: &str, range: &str) -> Result<Bytes, HttpError> {
        core::step();
        if !url.starts_with(&self.srv.lock().unwrap().url) {
            return Err(HttpError::HttpStatus(404));
        }
        let parsed = parse_range(range);
        let (n, latency, fault) = {
            let mut s = self.srv.lock().unwrap();
            let n = s.n;
            s.n += 1;
            let fault = if s.healed {
                None
            } else {
                s.cfg
                    .faults
                    .iter()
                    .find(|(i, _)| *i == n)
                    .map(|(_, f)| *f)
                    .or_else(|| s.cfg.down_from.filter(|(i, _)| n >= *i).map(|(_, f)| f))
            };
            let latency = if s.cfg.latency {
                Some(1_000 + s.rng.below(1 << 20) * 100)
            } else {
                None
            };
            (n, latency, fault)
        };
        let (a, b) = parsed.unwrap_or((1, 0));
        core::ev("req", a, b);
        core::note(|| format!("    request #{} of client {} {} fault={:?}", n, self.id, range, fault));
        if let Some(l) = latency {
            exec::sleep(l).await;
        }
        let mut s = self.srv.lock().unwrap();
        let len = io::image_len(&s.image);
        let mut req = Req {
            client: self.id,
            start: a,
            end: b,
            sent: 0,
            ok: false,
            fault: fault.is_some(),
        };
        if fault.is_some() {
            s.faults_fired += 1;
        }
        let r = match fault {
            Some(NetFault::Status(c)) => {
                core::fired("http-error-status");
                Err(HttpError::HttpStatus(c))
            }
            Some(NetFault::Conn) => {
                core::fired("http-connection-broken");
                Err(HttpError::HttpError("simulated connection error".into()))
            }
            _ if s.cfg.ignore_range => {
                core::fired("http-range-ignored");
                req.ok = true;
                Ok(Bytes::copy_from_slice(&s.image))
            }
            _ if a > b || a >= len => Err(HttpError::HttpStatus(416)),
            f => {
                let end = (b + 1).min(len);
                if end < b + 1 {
                    core::fired("http-range-clamped");
                }
                let mut n = (end - a) as usize;
                if let Some(NetFault::Short(k)) = f {
                    if k < n {
                        core::fired("http-short-body");
                        n = k;
                    }
                }
                req.ok = true;
                let mut body = vec![0; n];
                io::image_read(&s.image, a, &mut body);
                Ok(Bytes::from(body))
            }
        };
        if let Ok(b) = &r {
            req.sent = b.len();
        }
        core::ev("resp", n, req.sent as u64);
        s.log.push(req);
        r
    }
    async fn head_response_header(&self, _url: &str, _h: &str) -> Result<Option<String>, HttpError> {
        Ok(None)
    }
}
