//! Simulated byte sources and sinks.

use crate::core::{self, Rng};
use std::cell::RefCell;
use std::io::{self, Read, Seek, SeekFrom, Write};
use std::rc::Rc;
use std::sync::Arc;

/// Errors that carry no number, as sources within the process give them.
pub const EOF_ERROR: i32 = -1;
pub const WRITE_ZERO_ERROR: i32 = -2;
pub const DATA_ERROR: i32 = -3;
pub const OTHER_ERROR: i32 = -4;

pub fn io_error(e: i32) -> io::Error {
    match e {
        EOF_ERROR => io::ErrorKind::UnexpectedEof.into(),
        WRITE_ZERO_ERROR => io::ErrorKind::WriteZero.into(),
        DATA_ERROR => io::ErrorKind::InvalidData.into(),
        OTHER_ERROR => io::Error::new(io::ErrorKind::Other, "the source is gone"),
        e => io::Error::from_raw_os_error(e),
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum IoFault {
    /// a number of the system, or one of the above
    Errno(i32),
    /// read: end of file; write: accepts nothing
    Zero,
}

#[derive(Clone, Debug, Default)]
pub struct IoPlan {
    /// 0 whole transfers, 1 random short transfers, 2 one byte at a time, 3 small chunks
    pub split: u8,
    pub seed: u64,
    /// one in n operations is interrupted first (0: never)
    pub eintr: u64,
    /// (operation, fault, sticky)
    pub faults: Vec<(u64, IoFault, bool)>,
    /// sinks: bytes accepted before ENOSPC
    pub space: Option<u64>,
    /// sinks: flush fails
    pub flush_fault: Option<i32>,
    /// sources: read through a `BufReader` of this capacity (0: directly)
    pub buffer: usize,
}

impl IoPlan {
    /// A plan without faults, drawn from the schedule stream.
    pub fn draw_benign() -> IoPlan {
        IoPlan {
            split: [0u8, 0, 1, 3, 2][core::f(5)],
            seed: core::f(1 << 20) as u64,
            eintr: [0u64, 0, 3, 7][core::f(4)],
            buffer: [0usize, 0, 0, 8192, 64, 1][core::f(6)],
            ..Default::default()
        }
    }
}

const MANY_OPS: u64 = 20_000;

#[derive(Default)]
pub struct IoState {
    pub plan: IoPlan,
    rng: Option<Rng>,
    pub ops: u64,
    /// b'r' read, b's' seek, b'w' write, b'f' flush; with the position
    pub log: Vec<(u8, u64)>,
    /// error faults that fired
    pub errors: u64,
    last_eintr: bool,
    pub healed: bool,
}
impl IoState {
    pub fn new(plan: IoPlan) -> Rc<RefCell<IoState>> {
        let rng = Some(Rng::new(plan.seed));
        Rc::new(RefCell::new(IoState {
            plan,
            rng,
            ..Default::default()
        }))
    }
    fn interrupted(&mut self) -> bool {
        if self.plan.eintr > 0 && !self.last_eintr && self.ops <= MANY_OPS {
            let e = self.plan.eintr;
            if self.rng.as_mut().unwrap().below(e) == 0 {
                self.last_eintr = true;
                core::fired("eintr");
                return true;
            }
        }
        self.last_eintr = false;
        false
    }
    fn op(&mut self, kind: u8, pos: u64) -> Option<IoFault> {
        let i = self.ops;
        self.ops += 1;
        if self.log.len() < 200_000 {
            self.log.push((kind, pos));
        }
        if self.healed {
            return None;
        }
        let f = self
            .plan
            .faults
            .iter()
            .find(|(k, _, sticky)| *k == i || (*sticky && i > *k))
            .map(|(_, f, _)| *f);
        if f.is_some() {
            self.errors += 1;
        }
        f
    }
    fn size(&mut self, n: usize) -> usize {
        // a long transfer is split only at its start
        if self.ops > MANY_OPS {
            return n;
        }
        let r = self.rng.as_mut().unwrap();
        match self.plan.split {
            1 if n > 1 && r.below(2) == 0 => {
                core::fired("short-transfer");
                1 + r.below(n as u64 - 1) as usize
            }
            2 if n > 1 => {
                core::fired("short-transfer");
                1
            }
            3 if n > 7 => {
                core::fired("short-transfer");
                1 + r.below(n.min(64) as u64 - 1) as usize
            }
            _ => n,
        }
    }
}

fn eintr() -> io::Error {
    io::Error::from(io::ErrorKind::Interrupted)
}

thread_local! {
    /// Where images have zeros which are not kept in memory: (position in memory, how many).
    static HOLES: RefCell<Vec<(usize, u64)>> = const { RefCell::new(vec![]) };
}

/// While this lives, images are read with these holes.
pub struct Holes;
impl Holes {
    pub fn new(h: Vec<(usize, u64)>) -> Holes {
        HOLES.with(|x| *x.borrow_mut() = h);
        Holes
    }
}
impl Drop for Holes {
    fn drop(&mut self) {
        HOLES.with(|x| x.borrow_mut().clear());
    }
}

pub fn image_len(data: &[u8]) -> u64 {
    data.len() as u64 + HOLES.with(|h| h.borrow().iter().map(|x| x.1).sum::<u64>())
}

/// Where a position lies: in memory or in a hole, and how far this part reaches.
fn part(len: usize, holes: &[(usize, u64)], pos: u64) -> (Option<usize>, u64) {
    let mut added = 0;
    for (at, n) in holes {
        let start = *at as u64 + added;
        if pos < start {
            return (Some((pos - added) as usize), start - pos);
        }
        if pos < start + n {
            return (None, start + n - pos);
        }
        added += n;
    }
    (Some((pos - added) as usize), len as u64 + added - pos)
}

/// Fills `buf` with what is at `pos`; all of it must be within the image.
pub fn image_read(data: &[u8], mut pos: u64, mut buf: &mut [u8]) {
    HOLES.with(|h| {
        let h = h.borrow();
        while !buf.is_empty() {
            let (at, n) = part(data.len(), &h, pos);
            let k = n.min(buf.len() as u64) as usize;
            let (now, rest) = std::mem::take(&mut buf).split_at_mut(k);
            match at {
                Some(at) => now.copy_from_slice(&data[at..at + k]),
                None => now.fill(0),
            }
            pos += k as u64;
            buf = rest;
        }
    })
}

/// A source that can only be read.
pub struct SimRead {
    pub data: Arc<Vec<u8>>,
    pub pos: u64,
    pub st: Rc<RefCell<IoState>>,
}
impl SimRead {
    pub fn new(data: &Arc<Vec<u8>>, st: &Rc<RefCell<IoState>>) -> SimRead {
        SimRead {
            data: data.clone(),
            pos: 0,
            st: st.clone(),
        }
    }
}
impl Read for SimRead {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        core::step();
        let mut s = self.st.borrow_mut();
        if s.interrupted() {
            return Err(eintr());
        }
        match s.op(b'r', self.pos) {
            Some(IoFault::Errno(e)) => {
                core::fired("read-error");
                core::ev("read-error", self.pos, e as u64);
                return Err(io_error(e));
            }
            Some(IoFault::Zero) => {
                core::fired("read-eof");
                core::ev("read-eof", self.pos, 0);
                return Ok(0);
            }
            None => {}
        }
        let len = image_len(&self.data);
        let avail = len.saturating_sub(self.pos) as usize;
        let n = buf.len().min(avail);
        let n = if n > 0 { s.size(n) } else { 0 };
        let p = self.pos;
        if n > 0 {
            image_read(&self.data, p, &mut buf[..n]);
        }
        self.pos += n as u64;
        core::ev("read", p, n as u64);
        Ok(n)
    }
}

/// A source that can also seek.
pub struct SimSeek(pub SimRead);
impl Read for SimSeek {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.0.read(buf)
    }
}
impl Seek for SimSeek {
    fn seek(&mut self, to: SeekFrom) -> io::Result<u64> {
        core::step();
        let r = &mut self.0;
        let mut s = r.st.borrow_mut();
        if let Some(f) = s.op(b's', r.pos) {
            core::fired("seek-error");
            core::ev("seek-error", r.pos, 0);
            let e = match f {
                IoFault::Errno(e) => e,
                IoFault::Zero => libc::EIO,
            };
            return Err(io_error(e));
        }
        let len = image_len(&r.data) as i128;
        let t: i128 = match to {
            SeekFrom::Start(p) => p as i128,
            SeekFrom::Current(d) => r.pos as i128 + d as i128,
            SeekFrom::End(d) => len + d as i128,
        };
        if t < 0 || t > i64::MAX as i128 {
            return Err(io::Error::from_raw_os_error(libc::EINVAL));
        }
        core::ev("seek", r.pos, t as u64);
        r.pos = t as u64;
        Ok(r.pos)
    }
}

/// A sink; what it accepted is what survives a crash.
pub struct SimWrite {
    pub data: Rc<RefCell<Vec<u8>>>,
    pub st: Rc<RefCell<IoState>>,
}
impl SimWrite {
    pub fn new(st: &Rc<RefCell<IoState>>) -> SimWrite {
        SimWrite {
            data: Rc::new(RefCell::new(Vec::new())),
            st: st.clone(),
        }
    }
}
impl Write for SimWrite {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        core::step();
        let mut s = self.st.borrow_mut();
        if s.interrupted() {
            return Err(eintr());
        }
        let mut d = self.data.borrow_mut();
        match s.op(b'w', d.len() as u64) {
            Some(IoFault::Errno(e)) => {
                core::fired("write-error");
                core::ev("write-error", d.len() as u64, e as u64);
                return Err(io_error(e));
            }
            Some(IoFault::Zero) => {
                core::fired("write-zero");
                core::ev("write-zero", d.len() as u64, 0);
                return Ok(0);
            }
            None => {}
        }
        let mut n = buf.len();
        if n > 0 {
            n = s.size(n);
        }
        if let Some(sp) = s.plan.space {
            let left = sp.saturating_sub(d.len() as u64) as usize;
            if left < n {
                core::fired("disk-full");
                s.errors += 1;
                if left == 0 {
                    core::ev("enospc", d.len() as u64, 0);
                    return Err(io::Error::from_raw_os_error(libc::ENOSPC));
                }
                n = left;
            }
        }
        d.extend_from_slice(&buf[..n]);
        core::ev("write", d.len() as u64, n as u64);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        let mut s = self.st.borrow_mut();
        let n = self.data.borrow().len() as u64;
        if s.op(b'f', n).is_some() {
            core::fired("flush-error");
            return Err(io::Error::from_raw_os_error(libc::EIO));
        }
        if let Some(e) = s.plan.flush_fault {
            core::fired("flush-error");
            s.errors += 1;
            return Err(io_error(e));
        }
        Ok(())
    }
}
