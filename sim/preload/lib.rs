//! Loaded into the real `fcb` process with LD_PRELOAD: the same system-call seam as in the
//! simulator, its plan taken from FCBSIM_PLAN, the operations it saw dumped at exit.

#[path = "../src/sys.rs"]
mod sys;
#[path = "../src/rng.rs"]
mod rng;

/// What `sys.rs` needs from the simulator.
mod core {
    use std::cell::Cell;
    pub use crate::rng::Rng;
    thread_local! {
        pub static ACTIVE: Cell<bool> = const { Cell::new(false) };
    }
    pub fn draw_hash_key() -> Option<u64> {
        None
    }
}

use std::ffi::CString;
use std::sync::Mutex;

static LOG: Mutex<Option<CString>> = Mutex::new(None);

extern "C" fn at_exit() {
    let Some(path) = LOG.lock().ok().and_then(|mut l| l.take()) else { return };
    let Some(out) = sys::with_state(|s| s.dump()) else { return };
    sys::stop_if_running();
    unsafe {
        let fd = libc::syscall(
            libc::SYS_openat,
            libc::AT_FDCWD,
            path.as_ptr(),
            libc::O_WRONLY | libc::O_CREAT | libc::O_TRUNC,
            0o600,
        );
        let mut at = 0;
        while at < out.len() {
            let n = libc::syscall(libc::SYS_write, fd, out.as_ptr().add(at), out.len() - at);
            if n <= 0 {
                break;
            }
            at += n as usize;
        }
        libc::syscall(libc::SYS_close, fd);
    }
}

extern "C" fn init() {
    let Ok(text) = std::env::var("FCBSIM_PLAN") else { return };
    let Some((plan, hash, log, prefix)) = sys::SysPlan::parse(&text) else {
        eprintln!("FCBSIM_PLAN is not understood");
        unsafe { libc::_exit(99) }
    };
    unsafe {
        sys::CLI_HASH_SEED = Some(hash);
        libc::alarm(20);
        libc::atexit(at_exit);
    }
    *LOG.lock().unwrap() = CString::new(log).ok();
    sys::start(
        plan,
        prefix.into_bytes(),
        true,
        vec![(0, sys::ROLE_STDIN), (1, sys::ROLE_STDOUT)],
    );
}

#[used]
#[link_section = ".init_array"]
static INIT: extern "C" fn() = init;
