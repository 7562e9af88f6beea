//! The single-threaded task scheduler: seeded choice of what runs next,
//! simulated time, spurious polls, waker replacement, task cancellation.
use crate::engine::*;
use async_global_executor as pool;
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

struct Flag {
    woken: AtomicBool,
}
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.woken.store(true, Ordering::SeqCst);
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.woken.store(true, Ordering::SeqCst);
    }
}

type Fut = Pin<Box<dyn Future<Output = ()>>>;
struct Task {
    name: &'static str,
    fut: Option<Fut>,
    done: bool,
    cancelled: bool,
    flag: Arc<Flag>,
    polls: u64,
    /// drop the task once it has been polled this often and is still pending
    cancel_after: Option<u64>,
    /// a service task: may still be waiting when the system is quiescent
    daemon: bool,
}
#[derive(Clone, Copy)]
pub struct Cfg {
    pub spurious: bool,
    pub waker_swap: bool,
}
struct Sim {
    tasks: Vec<Task>,
    timers: BTreeMap<(u64, u64), Waker>,
    seq: u64,
    cfg: Cfg,
    last: usize,
}
thread_local! {
    static SIM: RefCell<Sim> = RefCell::new(Sim { tasks: Vec::new(), timers: BTreeMap::new(), seq: 0, cfg: Cfg { spurious: false, waker_swap: false }, last: usize::MAX });
    static STEP_CAP: Cell<u64> = const { Cell::new(200_000) };
}

/// Draws this run's scheduler configuration (swarm style).
pub fn configure() {
    let cfg = Cfg { spurious: chance(1, 3), waker_swap: chance(1, 2) };
    SIM.with(|s| s.borrow_mut().cfg = cfg);
}
pub fn teardown() {
    // Blocking jobs still queued run to completion (the pool would run them);
    // their owners would otherwise wait for them in drop.
    drain_jobs();
    loop {
        let t = SIM.with(|s| s.borrow_mut().tasks.pop());
        match t {
            Some(mut t) => drop(t.fut.take()),
            None => break,
        }
    }
    drain_jobs();
    SIM.with(|s| s.borrow_mut().timers.clear());
    pool::sim_clear();
}
/// Runs every queued pool item (no scheduling choice): used before something
/// that would block on them is dropped.
pub fn drain_jobs() {
    let mut n = 0;
    while pool::sim_len() > 0 && n < 100_000 {
        pool::sim_run(0);
        n += 1;
    }
}

pub type TaskId = usize;
pub fn spawn(name: &'static str, f: impl Future<Output = ()> + 'static) -> TaskId {
    let fut: Fut = Box::pin(f);
    SIM.with(|s| {
        let mut s = s.borrow_mut();
        s.tasks.push(Task {
            name,
            fut: Some(fut),
            done: false,
            cancelled: false,
            flag: Arc::new(Flag { woken: AtomicBool::new(true) }),
            polls: 0,
            cancel_after: None,
            daemon: false,
        });
        s.tasks.len() - 1
    })
}
/// Spawns a task that returns a scenario result, stored in the returned cell.
pub fn spawn_res(name: &'static str, f: impl Future<Output = Res> + 'static) -> (TaskId, Rc<RefCell<Option<Res>>>) {
    let cell = Rc::new(RefCell::new(None));
    let c2 = cell.clone();
    let id = spawn(name, async move {
        let r = f.await;
        *c2.borrow_mut() = Some(r);
    });
    (id, cell)
}
pub fn cancel_after(id: TaskId, polls: u64) {
    SIM.with(|s| s.borrow_mut().tasks[id].cancel_after = Some(polls));
}
pub fn set_daemon(id: TaskId) {
    SIM.with(|s| s.borrow_mut().tasks[id].daemon = true);
}
pub fn is_done(id: TaskId) -> bool {
    SIM.with(|s| s.borrow().tasks[id].done)
}
pub fn was_cancelled(id: TaskId) -> bool {
    SIM.with(|s| s.borrow().tasks[id].cancelled)
}
pub fn cancel(id: TaskId) {
    let f = SIM.with(|s| {
        let mut s = s.borrow_mut();
        let t = &mut s.tasks[id];
        if t.done {
            return None;
        }
        t.cancelled = true;
        t.done = true;
        t.fut.take()
    });
    if let Some(f) = f {
        fault("task_cancelled");
        ev_sched("cancel", id as u64, 0);
        drain_jobs();
        drop(f);
    }
}
/// Wakes `w` after `us` of simulated time.
pub fn wake_after(us: u64, w: Waker) {
    let at = now_us() + us;
    SIM.with(|s| {
        let mut s = s.borrow_mut();
        s.seq += 1;
        let k = (at, s.seq);
        s.timers.insert(k, w);
    });
}
pub fn sleep(us: u64) -> impl Future<Output = ()> {
    let at = now_us() + us;
    let mut armed: Option<Waker> = None;
    std::future::poll_fn(move |cx| {
        if now_us() >= at {
            return Poll::Ready(());
        }
        // one timer per waker, or spurious polls would breed timers
        if !matches!(&armed, Some(w) if w.will_wake(cx.waker())) {
            armed = Some(cx.waker().clone());
            wake_after(at - now_us(), cx.waker().clone());
        }
        Poll::Pending
    })
}
pub fn yield_now() -> impl Future<Output = ()> {
    let mut done = false;
    std::future::poll_fn(move |cx| {
        if done {
            return Poll::Ready(());
        }
        done = true;
        cx.waker().wake_by_ref();
        Poll::Pending
    })
}
/// A delay of random kind: none, a yield, or simulated time.
pub async fn jitter() {
    match weighted(&[4, 3, 3]) {
        0 => {}
        1 => yield_now().await,
        _ => sleep(range(1, 1000)).await,
    }
}

enum Item {
    Task(usize),
    Pool(usize),
}

fn poll_task(i: usize) {
    let (fut, waker, name) = SIM.with(|s| {
        let mut s = s.borrow_mut();
        let swap = s.cfg.waker_swap;
        let t = &mut s.tasks[i];
        t.polls += 1;
        if swap {
            // Only the most recent waker counts from here on.
            t.flag = Arc::new(Flag { woken: AtomicBool::new(false) });
        } else {
            t.flag.woken.store(false, Ordering::SeqCst);
        }
        (t.fut.take(), Waker::from(t.flag.clone()), t.name)
    });
    let Some(mut fut) = fut else { return };
    let mut cx = Context::from_waker(&waker);
    let r = fut.as_mut().poll(&mut cx);
    ev_sched(name, i as u64, r.is_ready() as u64);
    if r.is_ready() {
        drop(fut);
        SIM.with(|s| s.borrow_mut().tasks[i].done = true);
        return;
    }
    let kill = SIM.with(|s| {
        let s = s.borrow();
        let t = &s.tasks[i];
        matches!(t.cancel_after, Some(n) if t.polls >= n)
    });
    SIM.with(|s| s.borrow_mut().tasks[i].fut = Some(fut));
    if kill {
        cancel(i);
    }
}

/// Runs until nothing can happen any more. Returns a violation if a task that
/// should finish is stuck, or if the system makes no end.
pub fn run() -> Res {
    run_until(|| false)
}
pub fn run_until(mut stop: impl FnMut() -> bool) -> Res {
    let cap = STEP_CAP.with(|c| c.get());
    loop {
        if stop() {
            return Ok(());
        }
        let (ready, pending, cfg): (Vec<Item>, Vec<usize>, Cfg) = SIM.with(|s| {
            let s = s.borrow();
            let mut r = Vec::new();
            let mut p = Vec::new();
            for (i, t) in s.tasks.iter().enumerate() {
                if t.done {
                    continue;
                }
                if t.flag.woken.load(Ordering::SeqCst) {
                    r.push(Item::Task(i));
                } else {
                    p.push(i);
                }
            }
            (r, p, s.cfg)
        });
        let mut ready = ready;
        for i in 0..pool::sim_len() {
            ready.push(Item::Pool(i));
        }
        if ready.is_empty() {
            let next = SIM.with(|s| {
                let mut s = s.borrow_mut();
                let k = s.timers.keys().next().copied();
                k.map(|k| (k.0, s.timers.remove(&k).unwrap()))
            });
            match next {
                Some((at, w)) => {
                    if at > now_us() {
                        set_now_us(at);
                    }
                    w.wake();
                    // Sometimes poll something that was not woken.
                    if cfg.spurious && !pending.is_empty() && chance(1, 8) {
                        fault("spurious_poll");
                        let i = *pick(&pending);
                        poll_task(i);
                    }
                    continue;
                }
                None => {
                    let stuck: Vec<(&'static str, u64)> = SIM.with(|s| {
                        s.borrow()
                            .tasks
                            .iter()
                            .filter(|t| !t.done && !t.daemon)
                            .map(|t| (t.name, t.polls))
                            .collect()
                    });
                    if stuck.is_empty() {
                        return Ok(());
                    }
                    return viol(
                        "stuck",
                        format!("nothing left to happen, but these tasks wait forever (name, polls): {stuck:?}"),
                    );
                }
            }
        }
        let n = ready.len();
        if cfg.spurious && !pending.is_empty() && chance(1, 8) {
            fault("spurious_poll");
            let i = *pick(&pending);
            count_step(true);
            poll_task(i);
            continue;
        }
        let k = choose_usize(n);
        match ready[k] {
            Item::Task(i) => {
                let sw = SIM.with(|s| {
                    let mut s = s.borrow_mut();
                    let sw = s.last != i;
                    s.last = i;
                    sw
                });
                if count_step(sw) > cap {
                    return viol("no-progress", format!("no end after {cap} steps"));
                }
                poll_task(i);
            }
            Item::Pool(i) => {
                SIM.with(|s| s.borrow_mut().last = usize::MAX);
                if count_step(true) > cap {
                    return viol("no-progress", format!("no end after {cap} steps"));
                }
                ev_sched("pool", i as u64, (pool::sim_kind(i) == pool::Kind::Blocking) as u64);
                pool::sim_run(i);
            }
        }
    }
}
/// Runs one root future to completion with everything it spawned.
pub fn run_root(f: impl Future<Output = Res> + 'static) -> Res {
    let (_, cell) = spawn_res("main", f);
    run()?;
    let r = cell.borrow_mut().take();
    match r {
        Some(r) => r,
        None => viol("stuck", "main task never finished"),
    }
}

/// Polls the inner future at most `left`+1 times; `None` if it was abandoned
/// while still pending.
pub struct Abandon<F> {
    f: Option<F>,
    left: u64,
}
impl<F: Future + Unpin> Future for Abandon<F> {
    type Output = Option<F::Output>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let me = &mut *self;
        let f = me.f.as_mut().expect("polled after end");
        match Pin::new(f).poll(cx) {
            Poll::Ready(v) => Poll::Ready(Some(v)),
            Poll::Pending => {
                if me.left == 0 {
                    fault("op_abandoned");
                    drain_jobs();
                    me.f = None;
                    return Poll::Ready(None);
                }
                me.left -= 1;
                Poll::Pending
            }
        }
    }
}
pub fn abandon<F: Future + Unpin>(f: F, polls: u64) -> Abandon<F> {
    Abandon { f: Some(f), left: polls }
}
