//! A channel between threads with crossbeam's semantics, on the cooperative scheduler. Every operation is a
//! scheduling point.
use crate::sched;
use std::cell::UnsafeCell;
use std::collections::VecDeque;
use std::sync::Arc;

struct Inner<T> {
    q: VecDeque<T>, cap: Option<usize>, tx: usize, rx: usize, key: u64,
    /// without capacity: what blocked senders offer
    offers: VecDeque<(u64, T)>, tickets: u64,
    /// receivers blocked
    waiting: usize,
}
impl<T> Inner<T> {
    fn pop(&mut self) -> Option<T> { if self.cap == Some(0) { self.offers.pop_front().map(|x| x.1) } else { self.q.pop_front() } }
}
struct Shared<T>(UnsafeCell<Inner<T>>);
// one thread runs at a time
unsafe impl<T: Send> Send for Shared<T> {}
unsafe impl<T: Send> Sync for Shared<T> {}
impl<T> Shared<T> {
    #[allow(clippy::mut_from_ref)]
    fn g(&self) -> &mut Inner<T> { unsafe { &mut *self.0.get() } }
}

pub struct Sender<T>(Arc<Shared<T>>);
pub struct Receiver<T>(Arc<Shared<T>>);

pub fn new<T>(cap: Option<usize>) -> (Sender<T>, Receiver<T>) {
    let a = Arc::new(Shared(UnsafeCell::new(Inner { q: VecDeque::new(), cap, tx: 1, rx: 1, key: sched::new_key(), offers: VecDeque::new(), tickets: 0, waiting: 0 })));
    (Sender(a.clone()), Receiver(a))
}

impl<T> Sender<T> {
    pub fn send(&self, v: T) -> Result<(), T> {
        sched::preempt();
        if self.0.g().cap == Some(0) { return self.meet(v); }
        loop {
            let g = self.0.g();
            if g.rx == 0 { return Err(v); }
            if g.cap.is_none_or(|c| g.q.len() < c) {
                g.q.push_back(v);
                sched::progress(g.key);
                return Ok(());
            }
            sched::park(g.key);
        }
    }
    /// Without capacity: done once a receiver has taken the value.
    fn meet(&self, v: T) -> Result<(), T> {
        let g = self.0.g();
        if g.rx == 0 { return Err(v); }
        let me = g.tickets;
        g.tickets += 1;
        g.offers.push_back((me, v));
        sched::progress(g.key);
        loop {
            let g = self.0.g();
            let Some(at) = g.offers.iter().position(|x| x.0 == me) else { return Ok(()) };
            if g.rx == 0 { return match g.offers.remove(at) { Some(x) => Err(x.1), None => Ok(()) }; }
            sched::park(g.key);
        }
    }
    /// Err((value, full?))
    pub fn try_send(&self, v: T) -> Result<(), (T, bool)> {
        sched::preempt();
        let g = self.0.g();
        if g.rx == 0 { return Err((v, false)); }
        if g.cap == Some(0) {
            if g.waiting <= g.offers.len() { return Err((v, true)); }
            let me = g.tickets;
            g.tickets += 1;
            g.offers.push_back((me, v));
            sched::progress(g.key);
            return Ok(());
        }
        if g.cap.is_some_and(|c| g.q.len() >= c) { return Err((v, true)); }
        g.q.push_back(v);
        sched::progress(g.key);
        Ok(())
    }
    pub fn len(&self) -> usize { self.0.g().q.len() }
}
impl<T> Receiver<T> {
    /// None: empty and disconnected
    pub fn recv(&self) -> Option<T> {
        sched::preempt();
        loop {
            let g = self.0.g();
            if let Some(v) = g.pop() {
                sched::progress(g.key);
                return Some(v);
            }
            if g.tx == 0 {
                // receiving again from a dead channel must not spin for ever unnoticed
                return None;
            }
            g.waiting += 1;
            sched::park(g.key);
            self.0.g().waiting -= 1;
        }
    }
    /// Err(disconnected?). An empty channel is a polling point: other threads run before this returns.
    pub fn try_recv(&self) -> Result<T, bool> {
        sched::preempt();
        let g = self.0.g();
        if let Some(v) = g.pop() { sched::progress(g.key); return Ok(v); }
        if g.tx == 0 { return Err(true); }
        sched::poll_wait(g.key);
        let g = self.0.g();
        if let Some(v) = g.pop() { sched::progress(g.key); return Ok(v); }
        Err(g.tx == 0)
    }
    pub fn len(&self) -> usize { self.0.g().q.len() }
}
impl<T> Clone for Sender<T> { fn clone(&self) -> Self { self.0.g().tx += 1; Sender(self.0.clone()) } }
impl<T> Clone for Receiver<T> { fn clone(&self) -> Self { self.0.g().rx += 1; Receiver(self.0.clone()) } }
impl<T> Drop for Sender<T> { fn drop(&mut self) { let g = self.0.g(); g.tx -= 1; if g.tx == 0 { sched::progress(g.key); } } }
impl<T> Drop for Receiver<T> {
    fn drop(&mut self) {
        let g = self.0.g();
        g.rx -= 1;
        if g.rx == 0 {
            let q = std::mem::take(&mut g.q);
            sched::progress(g.key);
            drop(q);
        }
    }
}
