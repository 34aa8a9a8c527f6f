//! Executor, virtual clock, processes and signals.

use std::any::Any;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};

use crate::mix;

pub type Pid = usize;
/// the simulated outside world is process 0
pub const WORLD: Pid = 0;
pub type Nanos = u64;

type BoxFut = Pin<Box<dyn Future<Output = ()>>>;

struct Flag {
    id: u64,
    queued: AtomicBool,
    ready: Arc<Mutex<Vec<u64>>>,
}

impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        if !self.queued.swap(true, Ordering::SeqCst) {
            self.ready.lock().unwrap().push(self.id);
        }
    }
}

struct Task {
    pid: Pid,
    fut: Option<BoxFut>,
    flag: Arc<Flag>,
}

#[derive(Default)]
pub struct Proc {
    pub name: String,
    pub alive: bool,
    /// signal kinds with a handler, and the handlers' wakers
    handlers: BTreeMap<i32, Vec<Arc<Mutex<SigState>>>>,
    /// time a blocking call made its thread wait for; charged to its next network call
    pub debt: Nanos,
    pub paused_until: Nanos,
}

#[derive(Default)]
pub struct SigState {
    pending: u32,
    waker: Option<Waker>,
}

#[derive(Default)]
struct Rt {
    now: Nanos,
    seed: u64,
    rng: u64,
    next: u64,
    cur_pid: Pid,
    cur_task: u64,
    tasks: BTreeMap<u64, Task>,
    ready: Arc<Mutex<Vec<u64>>>,
    timers: BTreeMap<(Nanos, u64), Waker>,
    timer_seq: u64,
    procs: Vec<Proc>,
    steps: u64,
    switches: u64,
    trace: u64,
    last_pid: Pid,
    stop: bool,
    aborted: BTreeSet<u64>,
}

thread_local! {
    static RT: RefCell<Rt> = RefCell::new(Rt::default());
}

fn with<T>(f: impl FnOnce(&mut Rt) -> T) -> T {
    RT.with(|r| f(&mut r.borrow_mut()))
}

/// starts a fresh simulation on this thread
pub fn reset(seed: u64) {
    let old = RT.with(|r| {
        std::mem::replace(
            &mut *r.borrow_mut(),
            Rt { seed, rng: mix(seed), procs: vec![Proc { name: "world".into(), alive: true, ..Default::default() }], ..Default::default() },
        )
    });
    drop(old);
}

/// drops everything of the simulation
pub fn teardown() {
    let tasks = with(|r| std::mem::take(&mut r.tasks));
    with(|r| r.timers.clear());
    drop(tasks);
    reset(0);
}

pub fn now() -> Nanos {
    with(|r| r.now)
}

pub fn pid() -> Pid {
    with(|r| r.cur_pid)
}

pub fn seed() -> u64 {
    with(|r| r.seed)
}

/// a draw of the scheduler
pub fn draw(n: u64) -> u64 {
    with(|r| {
        r.rng = mix(r.rng);
        if n == 0 { 0 } else { r.rng % n }
    })
}

/// (steps, context switches between processes, hash of the schedule)
pub fn stats() -> (u64, u64, u64) {
    with(|r| (r.steps, r.switches, r.trace))
}

pub fn new_process(name: &str) -> Pid {
    with(|r| {
        r.procs.push(Proc { name: name.into(), alive: true, ..Default::default() });
        r.procs.len() - 1
    })
}

pub fn alive(pid: Pid) -> bool {
    with(|r| r.procs.get(pid).map_or(false, |p| p.alive))
}

pub fn proc_name(pid: Pid) -> String {
    with(|r| r.procs.get(pid).map(|p| p.name.clone()).unwrap_or_default())
}

pub fn pause(pid: Pid, until: Nanos) {
    with(|r| r.procs[pid].paused_until = until)
}

pub fn add_debt(d: Nanos) {
    with(|r| {
        let p = r.cur_pid;
        if let Some(p) = r.procs.get_mut(p) {
            p.debt += d;
        }
    })
}

pub fn take_debt() -> Nanos {
    with(|r| {
        let p = r.cur_pid;
        r.procs.get_mut(p).map_or(0, |p| std::mem::take(&mut p.debt))
    })
}

/// the process is gone at once: nothing of it runs again
pub fn kill(pid: Pid) {
    let dead: Vec<Task> = with(|r| {
        r.procs[pid].alive = false;
        r.procs[pid].handlers.clear();
        let ids: Vec<u64> = r.tasks.iter().filter(|(_, t)| t.pid == pid).map(|(i, _)| *i).collect();
        ids.into_iter().filter_map(|i| r.tasks.remove(&i)).collect()
    });
    let prev = with(|r| std::mem::replace(&mut r.cur_pid, pid));
    drop(dead);
    with(|r| r.cur_pid = prev);
}

/// delivers a signal; a process without a handler for it dies
pub fn signal(pid: Pid, kind: i32) -> bool {
    if !alive(pid) {
        return false;
    }
    let hs = with(|r| r.procs[pid].handlers.get(&kind).cloned());
    match hs {
        None => {
            kill(pid);
            false
        }
        Some(hs) => {
            for h in hs {
                let w = {
                    let mut h = h.lock().unwrap();
                    h.pending += 1;
                    h.waker.take()
                };
                if let Some(w) = w {
                    w.wake();
                }
            }
            true
        }
    }
}

pub fn signal_handler(kind: i32) -> Arc<Mutex<SigState>> {
    let h = Arc::new(Mutex::new(SigState::default()));
    with(|r| {
        let p = r.cur_pid;
        r.procs[p].handlers.entry(kind).or_default().push(h.clone());
    });
    h
}

pub fn poll_signal(h: &Arc<Mutex<SigState>>, cx: &mut Context<'_>) -> Poll<()> {
    let mut h = h.lock().unwrap();
    if h.pending > 0 {
        h.pending = 0;
        Poll::Ready(())
    } else {
        h.waker = Some(cx.waker().clone());
        Poll::Pending
    }
}

pub fn spawn_raw(pid: Pid, fut: BoxFut) -> u64 {
    with(|r| {
        let id = r.next;
        r.next += 1;
        // a dead process starts nothing
        if r.procs.get(pid).map_or(false, |p| p.alive) {
            let flag = Arc::new(Flag { id, queued: AtomicBool::new(true), ready: r.ready.clone() });
            r.ready.lock().unwrap().push(id);
            r.tasks.insert(id, Task { pid, fut: Some(fut), flag });
        }
        id
    })
}

pub fn remove_task(id: u64) {
    let t = with(|r| {
        if r.cur_task == id {
            r.aborted.insert(id);
            None
        } else {
            r.tasks.remove(&id)
        }
    });
    drop(t);
}

// ---------------------------------------------------------------- join handles

pub enum Out<T> {
    Done(T),
    Panicked(Box<dyn Any + Send>),
    Cancelled,
}

pub struct JoinInner<T> {
    pub out: Option<Out<T>>,
    pub done: bool,
    pub waker: Option<Waker>,
}

pub struct Join<T> {
    pub inner: Arc<Mutex<JoinInner<T>>>,
    pub id: u64,
}

struct Finish<T>(Arc<Mutex<JoinInner<T>>>);
impl<T> Drop for Finish<T> {
    fn drop(&mut self) {
        let w = {
            let mut i = self.0.lock().unwrap();
            if !i.done {
                i.done = true;
                i.out = Some(Out::Cancelled);
            }
            i.waker.take()
        };
        if let Some(w) = w {
            w.wake();
        }
    }
}

struct Guarded<F: Future> {
    fut: Option<Pin<Box<F>>>,
    fin: Finish<F::Output>,
}

impl<F: Future> Future for Guarded<F> {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let me = &mut *self;
        let Some(fut) = me.fut.as_mut() else { return Poll::Ready(()) };
        let r = catch_unwind(AssertUnwindSafe(|| fut.as_mut().poll(cx)));
        let out = match r {
            Ok(Poll::Pending) => return Poll::Pending,
            Ok(Poll::Ready(v)) => Out::Done(v),
            Err(p) => Out::Panicked(p),
        };
        let f = me.fut.take();
        let _ = catch_unwind(AssertUnwindSafe(|| drop(f)));
        let w = {
            let mut i = me.fin.0.lock().unwrap();
            i.done = true;
            i.out = Some(out);
            i.waker.take()
        };
        if let Some(w) = w {
            w.wake();
        }
        Poll::Ready(())
    }
}
impl<F: Future> Unpin for Guarded<F> {}

pub fn spawn_in<F>(pid: Pid, fut: F) -> Join<F::Output>
where
    F: Future + 'static,
    F::Output: 'static,
{
    let inner = Arc::new(Mutex::new(JoinInner { out: None, done: false, waker: None }));
    let g = Guarded { fut: Some(Box::pin(fut)), fin: Finish(inner.clone()) };
    let id = spawn_raw(pid, Box::pin(g));
    Join { inner, id }
}

pub fn spawn<F>(fut: F) -> Join<F::Output>
where
    F: Future + 'static,
    F::Output: 'static,
{
    spawn_in(pid(), fut)
}

impl<T> Join<T> {
    pub fn poll_out(&self, cx: &mut Context<'_>) -> Poll<Out<T>> {
        let mut i = self.inner.lock().unwrap();
        if i.done {
            Poll::Ready(i.out.take().unwrap_or(Out::Cancelled))
        } else {
            i.waker = Some(cx.waker().clone());
            Poll::Pending
        }
    }
    pub fn finished(&self) -> bool {
        self.inner.lock().unwrap().done
    }
    pub fn abort(&self) {
        remove_task(self.id);
    }
}

// ---------------------------------------------------------------- time

pub fn wake_at(at: Nanos, w: Waker) {
    with(|r| {
        r.timer_seq += 1;
        let s = r.timer_seq;
        r.timers.insert((at, s), w);
    })
}

pub struct SleepUntil(pub Nanos);
impl Future for SleepUntil {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if now() >= self.0 {
            Poll::Ready(())
        } else {
            wake_at(self.0, cx.waker().clone());
            Poll::Pending
        }
    }
}

pub fn sleep(d: Nanos) -> SleepUntil {
    SleepUntil(now().saturating_add(d))
}

// ---------------------------------------------------------------- running

pub fn stop() {
    with(|r| r.stop = true)
}

#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub enum Ended {
    Stopped,
    Deadline,
    Idle,
    Steps,
}

/// runs until `stop`, the deadline, or nothing is left to do
pub fn run(deadline: Nanos, max_steps: u64) -> Ended {
    loop {
        if with(|r| std::mem::take(&mut r.stop)) {
            return Ended::Stopped;
        }
        // a runnable task chosen by the seed, among processes that are not stalled
        let pick = with(|r| {
            let mut q = r.ready.lock().unwrap();
            q.retain(|i| r.tasks.contains_key(i));
            let ok: Vec<usize> = q
                .iter()
                .enumerate()
                .filter(|(_, i)| r.procs[r.tasks[i].pid].paused_until <= r.now)
                .map(|(k, _)| k)
                .collect();
            if ok.is_empty() {
                return None;
            }
            r.rng = mix(r.rng);
            let k = ok[(r.rng % ok.len() as u64) as usize];
            let id = q.swap_remove(k);
            drop(q);
            let t = r.tasks.get_mut(&id).unwrap();
            t.flag.queued.store(false, Ordering::SeqCst);
            let fut = t.fut.take();
            let (pid, flag) = (t.pid, t.flag.clone());
            r.cur_pid = pid;
            r.cur_task = id;
            r.steps += 1;
            if pid != r.last_pid {
                r.switches += 1;
                r.last_pid = pid;
            }
            r.trace = mix(r.trace ^ (pid as u64) << 32 ^ id);
            fut.map(|f| (id, f, flag))
        });
        match pick {
            Some((id, mut fut, flag)) => {
                let w = Waker::from(flag);
                let mut cx = Context::from_waker(&w);
                let done = fut.as_mut().poll(&mut cx).is_ready();
                let drop_it = with(|r| {
                    r.cur_task = u64::MAX;
                    let ab = r.aborted.remove(&id);
                    match r.tasks.get_mut(&id) {
                        // killed while it ran
                        None => Some(fut),
                        Some(_) if done || ab => {
                            r.tasks.remove(&id);
                            Some(fut)
                        }
                        Some(t) => {
                            t.fut = Some(fut);
                            None
                        }
                    }
                });
                drop(drop_it);
                with(|r| r.cur_pid = WORLD);
                if with(|r| r.steps) > max_steps {
                    return Ended::Steps;
                }
            }
            None => {
                // nothing can run now: let time pass
                let due = with(|r| {
                    let t = r.timers.keys().next().map(|k| k.0);
                    let p = r.procs.iter().map(|p| p.paused_until).filter(|u| *u > r.now).min();
                    match (t, p) {
                        (Some(t), Some(p)) => Some(t.min(p)),
                        (a, b) => a.or(b),
                    }
                });
                let Some(t) = due else { return Ended::Idle };
                if t > deadline {
                    with(|r| r.now = deadline);
                    return Ended::Deadline;
                }
                let ws: Vec<Waker> = with(|r| {
                    r.now = r.now.max(t);
                    let now = r.now;
                    let rest = r.timers.split_off(&(now + 1, 0));
                    std::mem::replace(&mut r.timers, rest).into_values().collect()
                });
                for w in ws {
                    w.wake();
                }
            }
        }
    }
}
