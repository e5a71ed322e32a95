//! System-call seam: the libc functions the standard library uses for files are defined here, in
//! the executable, so they take precedence over libc's. Outside a simulation, and for descriptors
//! that are not under simulation, they go straight to the kernel. Under simulation they inject
//! short transfers, interruptions and errors; the data itself lives in a memfd or a scratch file.

use crate::core::Rng;
use libc::{c_char, c_int, c_void, mode_t, off64_t, size_t, ssize_t};
use std::cell::Cell;
use std::ptr::null_mut;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum SysFault {
    Errno(i32),
    /// read: end of file; write: accepts nothing
    Zero,
}

#[derive(Clone, Debug, Default)]
pub struct SysPlan {
    /// faults by operation index; a sticky fault persists from there on
    pub faults: Vec<(u64, SysFault, bool)>,
    /// 0: whole transfers, 1: random short transfers, 2: one byte at a time
    pub split: u8,
    pub split_seed: u64,
    /// one in n operations is interrupted first (0: never)
    pub eintr: u64,
    /// writes: total bytes accepted before ENOSPC (u64::MAX: unlimited)
    pub space: u64,
}

impl SysPlan {
    /// For the preloaded library: `split;seed;eintr;space;hash;prefix;log;op:errno:sticky,...`
    /// (errno 0: end of file, or nothing accepted).
    pub fn text(&self, hash: u64, prefix: &str, log: &str) -> String {
        let faults: Vec<String> = self
            .faults
            .iter()
            .map(|(op, f, s)| {
                let e = match f {
                    SysFault::Errno(e) => *e,
                    SysFault::Zero => 0,
                };
                format!("{}:{}:{}", op, e, *s as u8)
            })
            .collect();
        format!(
            "{};{};{};{};{};{};{};{}",
            self.split, self.split_seed, self.eintr, self.space, hash, prefix, log, faults.join(",")
        )
    }
    /// The plan, the hash seed, the path of the dump, the prefix of the simulated paths.
    pub fn parse(text: &str) -> Option<(SysPlan, u64, String, String)> {
        let p: Vec<&str> = text.split(';').collect();
        let [split, seed, eintr, space, hash, prefix, log, faults] = p[..] else { return None };
        let mut plan = SysPlan {
            split: split.parse().ok()?,
            split_seed: seed.parse().ok()?,
            eintr: eintr.parse().ok()?,
            space: space.parse().ok()?,
            faults: vec![],
        };
        for f in faults.split(',').filter(|f| !f.is_empty()) {
            let q: Vec<&str> = f.split(':').collect();
            let [op, e, sticky] = q[..] else { return None };
            let f = match e.parse().ok()? {
                0 => SysFault::Zero,
                e => SysFault::Errno(e),
            };
            plan.faults.push((op.parse().ok()?, f, sticky == "1"));
        }
        Some((plan, hash.parse().ok()?, log.to_string(), prefix.to_string()))
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct SysOp {
    pub call: &'static str,
    pub fd_role: u8,
    pub len: u64,
}

pub struct SysState {
    pub plan: SysPlan,
    pub rng: Rng,
    pub fds: Vec<(c_int, u8)>,
    pub ops: u64,
    pub log: Vec<SysOp>,
    pub written: u64,
    pub fired: Vec<&'static str>,
    pub seek_ops: u64,
    eintr_last: bool,
    /// paths under simulation (CLI runs); empty means: temporary files only
    pub prefix: Vec<u8>,
    /// temporary files become memfds
    pub memfd: bool,
}

thread_local! {
    static STATE: Cell<*mut SysState> = const { Cell::new(null_mut()) };
}

pub const ROLE_TMP: u8 = 1;
pub const ROLE_FILE: u8 = 2;
pub const ROLE_STDIN: u8 = 3;
pub const ROLE_STDOUT: u8 = 4;

pub fn start(plan: SysPlan, prefix: Vec<u8>, memfd: bool, fds: Vec<(c_int, u8)>) {
    let rng = Rng::new(plan.split_seed);
    let s = Box::new(SysState {
        plan,
        rng,
        fds,
        ops: 0,
        log: Vec::new(),
        written: 0,
        fired: Vec::new(),
        seek_ops: 0,
        eintr_last: false,
        prefix,
        memfd,
    });
    STATE.with(|c| {
        assert!(c.get().is_null(), "nested system-call simulation");
        c.set(Box::into_raw(s))
    });
}
pub fn stop() -> Box<SysState> {
    STATE.with(|c| {
        let p = c.replace(null_mut());
        assert!(!p.is_null());
        unsafe { Box::from_raw(p) }
    })
}
pub fn stop_if_running() {
    STATE.with(|c| {
        let p = c.replace(null_mut());
        if !p.is_null() {
            drop(unsafe { Box::from_raw(p) });
        }
    })
}
pub fn with_state<T>(f: impl FnOnce(&mut SysState) -> T) -> Option<T> {
    STATE
        .try_with(|c| {
            let p = c.get();
            if p.is_null() {
                None
            } else {
                Some(f(unsafe { &mut *p }))
            }
        })
        .ok()
        .flatten()
}

fn set_errno(e: i32) {
    unsafe { *libc::__errno_location() = e }
}

enum Act {
    Pass,
    Len(usize),
    Ret(ssize_t),
}

impl SysState {
    /// Lines `f <fault> <times>`, then `o` and two characters per operation: its call and role.
    pub fn dump(&self) -> Vec<u8> {
        let mut out = Vec::new();
        let mut names = self.fired.clone();
        names.sort();
        for g in names.chunk_by(|a, b| a == b) {
            out.extend_from_slice(format!("f {} {}\n", g[0], g.len()).as_bytes());
        }
        out.push(b'o');
        for op in self.log.iter().take(50_000) {
            out.push(if op.call == "lseek" { b's' } else { op.call.as_bytes()[0] });
            out.push(b'0' + op.fd_role);
        }
        out.push(b'\n');
        out
    }
    fn role(&self, fd: c_int) -> Option<u8> {
        self.fds.iter().find(|(f, _)| *f == fd).map(|(_, r)| *r)
    }
    fn fault_for(&mut self, op: u64) -> Option<SysFault> {
        self.plan
            .faults
            .iter()
            .find(|(i, _, sticky)| *i == op || (*sticky && op > *i))
            .map(|(_, f, _)| *f)
    }
    /// decides one transfer
    fn transfer(&mut self, call: &'static str, role: u8, len: usize) -> Act {
        let write = call == "write";
        // interruptions do not count as operations, so they do not move the faults
        if self.plan.eintr > 0 && !self.eintr_last && self.rng.below(self.plan.eintr) == 0 {
            self.eintr_last = true;
            self.fired.push("sys-eintr");
            set_errno(libc::EINTR);
            return Act::Ret(-1);
        }
        self.eintr_last = false;
        let op = self.ops;
        self.ops += 1;
        if self.log.len() < 100_000 {
            self.log.push(SysOp {
                call,
                fd_role: role,
                len: len as u64,
            });
        }
        if let Some(f) = self.fault_for(op) {
            match f {
                SysFault::Errno(e) => {
                    self.fired.push(if write { "sys-write-error" } else { "sys-read-error" });
                    set_errno(e);
                    return Act::Ret(-1);
                }
                SysFault::Zero => {
                    if len > 0 {
                        self.fired
                            .push(if write { "sys-write-zero" } else { "sys-read-eof" });
                    }
                    return Act::Ret(0);
                }
            }
        }
        let mut n = len;
        match if self.ops > 20_000 { 0 } else { self.plan.split } {
            1 if len > 1 => {
                if self.rng.below(2) == 0 {
                    n = 1 + self.rng.below(len as u64) as usize;
                    n = n.min(len);
                }
            }
            2 => n = len.min(1),
            _ => {}
        }
        if n < len {
            self.fired.push(if write { "sys-short-write" } else { "sys-short-read" });
        }
        if write && self.plan.space != u64::MAX {
            let left = self.plan.space.saturating_sub(self.written);
            if left == 0 && n > 0 {
                self.fired.push("sys-enospc");
                set_errno(libc::ENOSPC);
                return Act::Ret(-1);
            }
            n = n.min(left as usize);
        }
        if n == len {
            Act::Pass
        } else {
            Act::Len(n)
        }
    }
    fn simple(&mut self, call: &'static str, role: u8) -> bool {
        let op = self.ops;
        self.ops += 1;
        self.log.push(SysOp {
            call,
            fd_role: role,
            len: 0,
        });
        if let Some(SysFault::Errno(e)) = self.fault_for(op) {
            self.fired.push(match call {
                "open" => "sys-open-error",
                "lseek" => "sys-seek-error",
                _ => "sys-other-error",
            });
            set_errno(e);
            return true;
        }
        false
    }
}

unsafe fn raw_open(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    libc::syscall(libc::SYS_openat, libc::AT_FDCWD, path, flags, mode as libc::c_uint) as c_int
}

unsafe fn do_open(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    let under = with_state(|s| {
        let p = std::ffi::CStr::from_ptr(path).to_bytes();
        let tmp = flags & libc::O_TMPFILE == libc::O_TMPFILE
            || p.windows(5).any(|x| x == b"/.tmp");
        if tmp {
            Some((ROLE_TMP, s.memfd))
        } else if !s.prefix.is_empty() && p.starts_with(&s.prefix) {
            Some((ROLE_FILE, false))
        } else {
            None
        }
    })
    .flatten();
    match under {
        None => raw_open(path, flags, mode),
        Some((role, memfd)) => {
            if with_state(|s| s.simple("open", role)) == Some(true) {
                return -1;
            }
            let fd = if role == ROLE_TMP && memfd {
                libc::syscall(libc::SYS_memfd_create, c"simtmp".as_ptr(), libc::MFD_CLOEXEC) as c_int
            } else {
                raw_open(path, flags, mode)
            };
            if fd >= 0 {
                with_state(|s| s.fds.push((fd, role)));
            }
            fd
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(path, flags, mode)
}
#[no_mangle]
#[allow(unknown_lints, invalid_runtime_symbol_definitions)]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    with_state(|s| s.fds.retain(|(f, _)| *f != fd));
    libc::syscall(libc::SYS_close, fd) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    let act = with_state(|s| s.role(fd).map(|r| s.transfer("read", r, n))).flatten();
    match act {
        None | Some(Act::Pass) => libc::syscall(libc::SYS_read, fd, buf, n) as ssize_t,
        Some(Act::Len(k)) => libc::syscall(libc::SYS_read, fd, buf, k) as ssize_t,
        Some(Act::Ret(r)) => r,
    }
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    let act = with_state(|s| s.role(fd).map(|r| s.transfer("write", r, n))).flatten();
    let r = match act {
        None => return libc::syscall(libc::SYS_write, fd, buf, n) as ssize_t,
        Some(Act::Pass) => libc::syscall(libc::SYS_write, fd, buf, n) as ssize_t,
        Some(Act::Len(k)) => libc::syscall(libc::SYS_write, fd, buf, k) as ssize_t,
        Some(Act::Ret(r)) => r,
    };
    if r > 0 {
        with_state(|s| s.written += r as u64);
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const libc::iovec, cnt: c_int) -> ssize_t {
    if with_state(|s| s.role(fd)).flatten().is_some() {
        for i in 0..cnt as isize {
            let v = &*iov.offset(i);
            if v.iov_len > 0 {
                return read(fd, v.iov_base, v.iov_len);
            }
        }
        return 0;
    }
    libc::syscall(libc::SYS_readv, fd, iov, cnt) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, cnt: c_int) -> ssize_t {
    if with_state(|s| s.role(fd)).flatten().is_some() {
        for i in 0..cnt as isize {
            let v = &*iov.offset(i);
            if v.iov_len > 0 {
                return write(fd, v.iov_base, v.iov_len);
            }
        }
        return 0;
    }
    libc::syscall(libc::SYS_writev, fd, iov, cnt) as ssize_t
}
unsafe fn do_lseek(fd: c_int, off: off64_t, whence: c_int) -> off64_t {
    let bad = with_state(|s| match s.role(fd) {
        Some(r) => {
            s.seek_ops += 1;
            s.simple("lseek", r)
        }
        None => false,
    });
    if bad == Some(true) {
        return -1;
    }
    libc::syscall(libc::SYS_lseek, fd, off, whence) as off64_t
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: off64_t, whence: c_int) -> off64_t {
    do_lseek(fd, off, whence)
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: c_int, off: off64_t, whence: c_int) -> off64_t {
    do_lseek(fd, off, whence)
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    if with_state(|s| s.role(fd).map(|r| s.simple("fsync", r))).flatten() == Some(true) {
        return -1;
    }
    libc::syscall(libc::SYS_fsync, fd) as c_int
}

/// Transfers between descriptors inside the kernel would pass by the faults: not available.
macro_rules! no_kernel_copy {
    ($name:ident, $nr:ident, $($a:ident: $t:ty),*) => {
        #[no_mangle]
        pub unsafe extern "C" fn $name($($a: $t),*) -> ssize_t {
            if with_state(|_| ()).is_some() {
                set_errno(libc::ENOSYS);
                return -1;
            }
            libc::syscall(libc::$nr, $($a),*) as ssize_t
        }
    };
}
no_kernel_copy!(copy_file_range, SYS_copy_file_range, a: c_int, b: *mut off64_t, c: c_int, d: *mut off64_t, n: size_t, f: libc::c_uint);
no_kernel_copy!(sendfile64, SYS_sendfile, a: c_int, b: c_int, o: *mut off64_t, n: size_t);
no_kernel_copy!(splice, SYS_splice, a: c_int, b: *mut off64_t, c: c_int, d: *mut off64_t, n: size_t, f: libc::c_uint);

/// CLI runs: a fixed hash seed
pub static mut CLI_HASH_SEED: Option<u64> = None;

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: size_t, flags: libc::c_uint) -> ssize_t {
    if let Some(seed) = CLI_HASH_SEED {
        let mut r = Rng::new(seed);
        for i in 0..len {
            *(buf as *mut u8).add(i) = r.next() as u8;
        }
        return len as ssize_t;
    }
    if crate::core::ACTIVE.try_with(|a| a.get()).unwrap_or(false) {
        let mut i = 0;
        while i < len {
            match crate::core::draw_hash_key() {
                Some(v) => {
                    for b in v.to_le_bytes() {
                        if i < len {
                            *(buf as *mut u8).add(i) = b;
                            i += 1;
                        }
                    }
                }
                None => break,
            }
        }
        if i >= len {
            return len as ssize_t;
        }
    }
    libc::syscall(libc::SYS_getrandom, buf, len, flags) as ssize_t
}
