//! A single-threaded executor on virtual time. Which ready task runs next is a draw; when nothing
//! is ready the clock jumps to the next timer.

use crate::core::{self, Viol};
use std::cell::RefCell;
use std::cmp::Reverse;
use std::collections::BinaryHeap;
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};

#[derive(Default)]
struct Timers {
    seq: u64,
    heap: BinaryHeap<Reverse<(u64, u64)>>,
    wakers: Vec<(u64, Waker)>,
}

thread_local! {
    static TIMERS: RefCell<Timers> = RefCell::new(Timers::default());
}

pub struct Sleep {
    at: u64,
    id: Option<u64>,
}
/// Suspends the task for `ns` of virtual time.
pub fn sleep(ns: u64) -> Sleep {
    Sleep {
        at: core::now() + ns,
        id: None,
    }
}
impl Future for Sleep {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<()> {
        if core::now() >= self.at && self.id.is_some() {
            return Poll::Ready(());
        }
        TIMERS.with(|t| {
            let mut t = t.borrow_mut();
            match self.id {
                None => {
                    t.seq += 1;
                    let id = t.seq;
                    t.heap.push(Reverse((self.at, id)));
                    t.wakers.push((id, cx.waker().clone()));
                    self.id = Some(id);
                }
                Some(id) => {
                    if let Some(w) = t.wakers.iter_mut().find(|(i, _)| *i == id) {
                        w.1 = cx.waker().clone();
                    }
                }
            }
        });
        Poll::Pending
    }
}

struct TaskWaker {
    id: usize,
    ready: Arc<Mutex<Vec<usize>>>,
}
impl Wake for TaskWaker {
    fn wake(self: Arc<Self>) {
        let mut r = self.ready.lock().unwrap();
        if !r.contains(&self.id) {
            r.push(self.id);
        }
    }
}

pub type Task<'a> = Pin<Box<dyn Future<Output = ()> + 'a>>;

/// Runs the tasks to completion. `cancel[i]`: drop task i after that many polls.
pub fn run(tasks: Vec<Task>, cancel: &[Option<u64>]) -> Result<(), Viol> {
    TIMERS.with(|t| *t.borrow_mut() = Timers::default());
    let ready: Arc<Mutex<Vec<usize>>> = Arc::new(Mutex::new((0..tasks.len()).collect()));
    let mut tasks: Vec<Option<Task>> = tasks.into_iter().map(Some).collect();
    let wakers: Vec<Waker> = (0..tasks.len())
        .map(|id| {
            Waker::from(Arc::new(TaskWaker {
                id,
                ready: ready.clone(),
            }))
        })
        .collect();
    let mut polls = vec![0u64; tasks.len()];
    let mut total = 0u64;
    while tasks.iter().any(|t| t.is_some()) {
        total += 1;
        if total > 500_000 {
            crate::viol!("hang", "the executor made 500000 polls without finishing");
        }
        let next = {
            let mut r = ready.lock().unwrap();
            r.retain(|i| tasks[*i].is_some());
            if r.is_empty() {
                None
            } else {
                let k = core::f(r.len());
                Some(r.remove(k))
            }
        };
        match next {
            Some(i) => {
                if let Some(c) = cancel.get(i).copied().flatten() {
                    if polls[i] >= c {
                        core::fired("task-cancelled");
                        core::ev("cancel", i as u64, polls[i]);
                        tasks[i] = None;
                        continue;
                    }
                }
                polls[i] += 1;
                core::ev("poll", i as u64, polls[i]);
                let mut cx = Context::from_waker(&wakers[i]);
                let done = tasks[i].as_mut().unwrap().as_mut().poll(&mut cx).is_ready();
                if done {
                    tasks[i] = None;
                }
            }
            None => {
                let fire = TIMERS.with(|t| {
                    let mut t = t.borrow_mut();
                    t.heap.pop().map(|Reverse((at, id))| {
                        let w = t
                            .wakers
                            .iter()
                            .position(|(i, _)| *i == id)
                            .map(|k| t.wakers.swap_remove(k).1);
                        (at, w)
                    })
                });
                match fire {
                    Some((at, w)) => {
                        if at > core::now() {
                            core::set_now(at);
                        }
                        if let Some(w) = w {
                            w.wake();
                        }
                    }
                    None => crate::viol!("hang", "a task waits for something that never happens"),
                }
            }
        }
    }
    Ok(())
}

/// Runs one future to completion.
pub fn block_on<T>(fut: impl Future<Output = T>) -> Result<T, Viol> {
    let mut out = None;
    {
        let slot = &mut out;
        let t: Task = Box::pin(async move {
            *slot = Some(fut.await);
        });
        run(vec![t], &[])?;
    }
    Ok(out.expect("finished"))
}

/// The outcome of the future, or None when it is given up at its `patience`-th wait.
pub async fn patient<F: Future>(fut: F, mut patience: u64) -> Option<F::Output> {
    let mut fut = Box::pin(fut);
    std::future::poll_fn(move |cx| match fut.as_mut().poll(cx) {
        Poll::Ready(v) => Poll::Ready(Some(v)),
        Poll::Pending => {
            patience -= 1;
            if patience > 0 {
                return Poll::Pending;
            }
            core::fired("call-abandoned");
            core::ev("abandoned", 0, 0);
            Poll::Ready(None)
        }
    })
    .await
}
