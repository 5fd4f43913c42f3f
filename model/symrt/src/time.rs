//! Virtual clock. Values may be symbolic.
use crate::Global;
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll, Waker};
use std::time::Duration;

pub struct Timer { pub at: Duration, pub waker: Option<Waker>, pub fired: bool, pub dropped: bool }

pub struct Clock { pub now: Duration, pub timers: Vec<Timer> }

static C: Global<Clock> = Global::new();
pub fn clock() -> &'static mut Clock { C.get(|| Clock { now: Duration::ZERO, timers: vec![] }) }
pub fn now() -> Duration { clock().now }

pub fn add_timer(at: Duration) -> usize {
    let c = clock();
    c.timers.push(Timer { at, waker: None, fired: false, dropped: false });
    c.timers.len() - 1
}

/// Completes once the clock has reached `at`.
pub struct SleepUntil { id: usize }
impl SleepUntil {
    pub fn new(at: Duration) -> Self { SleepUntil { id: add_timer(at) } }
    pub fn fired(&self) -> bool { clock().timers[self.id].fired }
    pub fn at(&self) -> Duration { clock().timers[self.id].at }
    pub fn reset(&mut self, at: Duration) {
        clock().timers[self.id].dropped = true;
        self.id = add_timer(at);
    }
}
impl Future for SleepUntil {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let t = &mut clock().timers[self.id];
        if t.fired { return Poll::Ready(()); }
        t.waker = Some(cx.waker().clone());
        Poll::Pending
    }
}
impl Drop for SleepUntil {
    fn drop(&mut self) {
        let t = &mut clock().timers[self.id];
        t.dropped = true;
        t.waker = None;
    }
}

/// The pending timer that is due first (ties: any of them, chosen), if it is due by `limit`.
pub fn fire_next(limit: Duration) -> bool {
    let c = clock();
    let mut best: Option<usize> = None;
    for i in 0..c.timers.len() {
        let t = &c.timers[i];
        if t.fired || t.dropped { continue; }
        match best {
            None => best = Some(i),
            Some(b) => if crate::concretize((t.at < c.timers[b].at) as u64) == 1 { best = Some(i); },
        }
    }
    let Some(b) = best else { return false };
    if c.timers[b].at > limit { return false; }
    let at = c.timers[b].at;
    if at > c.now { c.now = at; }
    c.timers[b].fired = true;
    if let Some(w) = c.timers[b].waker.take() { w.wake(); }
    true
}
