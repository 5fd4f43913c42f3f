//! A single-threaded async executor. Ready tasks run in FIFO order; with `set_reorder(k)` up to `k` times the
//! executor may instead pick any other ready task (a symbolic choice).
use crate::Global;
use std::future::Future;
use std::pin::Pin;
use std::sync::Arc;
use std::time::Duration;
use std::task::{Context, Poll, Wake, Waker};

type Fut = Pin<Box<dyn Future<Output = ()>>>;

struct Task { fut: Option<Fut>, queued: bool, done: bool, frozen: bool, woken: bool }
struct Ex { tasks: Vec<Task>, ready: Vec<usize>, reorder: usize, polls: u64 }

static X: Global<Ex> = Global::new();
fn ex() -> &'static mut Ex { X.get(|| Ex { tasks: vec![], ready: vec![], reorder: 0, polls: 0 }) }

pub fn set_reorder(n: usize) { ex().reorder = n }

struct W(usize);
impl Wake for W {
    fn wake(self: Arc<Self>) { self.wake_by_ref() }
    fn wake_by_ref(self: &Arc<Self>) {
        let e = ex();
        let t = &mut e.tasks[self.0];
        if t.frozen { t.woken = true; return; }
        if !t.queued && !t.done {
            t.queued = true;
            e.ready.push(self.0);
            crate::sched::wake_idle();
        }
    }
}

pub fn spawn(f: impl Future<Output = ()> + 'static) -> usize {
    let e = ex();
    let id = e.tasks.len();
    e.tasks.push(Task { fut: Some(Box::pin(f)), queued: true, done: false, frozen: false, woken: false });
    e.ready.push(id);
    id
}

/// Drops a task's future, as when the runtime or the requester goes away.
pub fn abort(id: usize) {
    let t = &mut ex().tasks[id];
    t.done = true;
    let f = t.fut.take();
    drop(f);
}
/// The task is not polled any more, whatever wakes it, until thawed.
pub fn freeze(id: usize) {
    let e = ex();
    let t = &mut e.tasks[id];
    t.frozen = true;
    t.woken = t.queued;
    t.queued = false;
    e.ready.retain(|x| *x != id);
}
pub fn thaw(id: usize) {
    let e = ex();
    let t = &mut e.tasks[id];
    t.frozen = false;
    if t.woken && !t.done { t.woken = false; t.queued = true; e.ready.push(id); }
}
pub fn is_done(id: usize) -> bool { ex().tasks[id].done }

/// Polls one ready task. False if none is ready.
pub fn step() -> bool {
    let e = ex();
    if e.ready.is_empty() { return false; }
    let n = e.ready.len();
    let k = if n > 1 && e.reorder > 0 {
        let k = crate::choose("task", n);
        if k > 0 { e.reorder -= 1; }
        k
    } else { 0 };
    let id = e.ready.remove(k);
    let t = &mut e.tasks[id];
    t.queued = false;
    if t.done { return true; }
    let Some(mut f) = t.fut.take() else { return true };
    e.polls += 1;
    if e.polls > 200_000 { crate::fail("livelock: tasks keep running without reaching quiescence"); }
    let w = Waker::from(Arc::new(W(id)));
    let mut cx = Context::from_waker(&w);
    let r = f.as_mut().poll(&mut cx);
    let t = &mut ex().tasks[id];
    match r {
        Poll::Ready(()) => { t.done = true; drop(f); }
        Poll::Pending => { if !t.done { t.fut = Some(f) } }
    }
    true
}

/// Runs all ready tasks and threads until none can run (time does not advance).
pub fn settle() {
    loop {
        while step() {}
        if !crate::sched::others_ready() { return; }
        crate::sched::idle();
    }
}
/// Number of tasks that have not completed.
pub fn pending() -> usize { ex().tasks.iter().filter(|t| !t.done).count() }

/// Advances the clock to `t`, firing timers in order and letting tasks settle after each.
pub fn advance_to(t: Duration) {
    settle();
    while crate::time::fire_next(t) { settle(); }
    let c = crate::time::clock();
    if t > c.now { c.now = t; }
}
pub fn advance(d: Duration) { advance_to(crate::time::now() + d) }

pub struct Slot<T>(std::rc::Rc<std::cell::RefCell<Option<T>>>, usize);
impl<T> Slot<T> {
    pub fn take(&self) -> Option<T> { self.0.borrow_mut().take() }
    pub fn ready(&self) -> bool { self.0.borrow().is_some() }
    pub fn freeze(&self) { freeze(self.1) }
    pub fn thaw(&self) { thaw(self.1) }
    pub fn cancel(&self) { abort(self.1) }
}

/// Starts `f` as a task whose result can be collected later.
pub fn start<T: 'static>(f: impl Future<Output = T> + 'static) -> Slot<T> {
    let c = std::rc::Rc::new(std::cell::RefCell::new(None));
    let c2 = c.clone();
    let id = spawn(async move { let v = f.await; *c2.borrow_mut() = Some(v); });
    Slot(c, id)
}

/// Runs `f` to completion; time does not advance. None if it cannot complete without time passing.
pub fn run<T: 'static>(f: impl Future<Output = T> + 'static) -> Option<T> {
    let s = start(f);
    settle();
    s.take()
}

struct TW(u64);
impl Wake for TW {
    fn wake(self: Arc<Self>) { self.wake_by_ref() }
    fn wake_by_ref(self: &Arc<Self>) { crate::sched::progress(self.0) }
}
/// Runs `f` on the current (cooperative) thread, which sleeps while `f` waits.
pub fn block_on<T>(f: impl Future<Output = T>) -> T {
    let key = crate::sched::new_key();
    let w = Waker::from(Arc::new(TW(key)));
    let mut cx = Context::from_waker(&w);
    let mut f = Box::pin(f);
    loop {
        let e = crate::sched::events();
        if let Poll::Ready(v) = f.as_mut().poll(&mut cx) { return v; }
        if crate::sched::events() == e { crate::sched::park(key); }
    }
}
