//! Cooperative threads. Exactly one runs at a time; at every scheduling point the next one is chosen (a
//! symbolic choice, so every interleaving of the scheduling points is explored, up to the preemption bound).
//!
//! Scheduling points are the operations through which threads can observe each other: channel operations,
//! thread creation and joining, locks, and the harness' own jobs.
use crate::Global;

extern "C" {
    fn __sym_thread_new(f: extern "C" fn(u64), data: u64) -> u64;
    fn __sym_switch(id: u64);
}

#[derive(Clone, Copy, PartialEq)]
enum St {
    Ready,
    /// waits for `progress(key)`
    Parked(u64),
    /// polls in a loop: as Parked, but also runs again when nothing else can, if anything happened since
    Poll(u64, u64),
    /// runs when nothing else can, or when woken
    Idle,
    Done,
}

struct S {
    th: Vec<St>,
    ids: Vec<u64>,
    cur: usize,
    preemptions: usize,
    /// choices among threads when one blocks: None: all explored; Some(n): n more departures from the default
    delays: Option<usize>,
    deadlock: Option<fn()>,
    events: u64,
    keys: u64,
}

static S_: Global<S> = Global::new();
fn s() -> &'static mut S {
    S_.get(|| S { th: vec![St::Ready], ids: vec![0], cur: 0, preemptions: 0, delays: None, deadlock: None, events: 0, keys: 1000 })
}

/// Allowed number of preemptive switches (switches away from a thread that could go on).
pub fn set_preemptions(n: usize) { s().preemptions = n }
/// At most `n` departures (of either kind: preempting a thread, or another choice when one blocks) from the
/// default schedule, which runs a thread until it blocks and then the next one in turn.
pub fn set_delays(n: usize) { let x = s(); x.delays = Some(n); x.preemptions = n }
/// All choices are explored when a thread blocks; no preemptions.
pub fn set_free() { let x = s(); x.delays = None; x.preemptions = 0 }
/// Called when no thread can run.
pub fn on_deadlock(f: fn()) { s().deadlock = Some(f) }
pub fn current() -> usize { s().cur }
pub fn is_done(t: usize) -> bool { s().th[t] == St::Done }
/// A fresh key to park on.
pub fn new_key() -> u64 { let x = s(); x.keys += 1; x.keys }

struct Start(Option<Box<dyn FnOnce()>>);

extern "C" fn tramp(data: u64) {
    {
        let mut b: Box<Start> = unsafe { Box::from_raw(data as *mut Start) };
        (b.0.take().unwrap())();
    }
    let me = s().cur;
    s().th[me] = St::Done;
    progress(me as u64);
    pick();
    unreachable!()
}

pub fn spawn(f: Box<dyn FnOnce()>) -> usize {
    let b = Box::into_raw(Box::new(Start(Some(f))));
    let id = unsafe { __sym_thread_new(tramp, b as u64) };
    let x = s();
    x.th.push(St::Ready);
    x.ids.push(id);
    let t = x.th.len() - 1;
    preempt();
    t
}

fn go(t: usize) {
    let x = s();
    if t == x.cur { return; }
    x.cur = t;
    let id = x.ids[t];
    unsafe { __sym_switch(id) };
}

/// Chooses the next thread among those that can run.
fn pick() {
    let x = s();
    let mut can: Vec<usize> = vec![];
    for (t, st) in x.th.iter().enumerate() { if *st == St::Ready { can.push(t); } }
    if can.is_empty() {
        for (t, st) in x.th.iter().enumerate() { if *st == St::Idle { can.push(t); } }
    }
    if can.is_empty() {
        for (t, st) in x.th.iter().enumerate() { if let St::Poll(_, e) = st { if *e != x.events { can.push(t); } } }
    }
    if can.is_empty() {
        match x.deadlock { Some(f) => f(), None => crate::fail("deadlock: no thread can run") }
        crate::end();
    }
    // in turn: the next after the current one first
    if let Some(p) = can.iter().position(|t| *t > x.cur) { can.rotate_left(p); }
    let k = if can.len() == 1 || x.delays == Some(0) { 0 } else { crate::choose("sched", can.len()) };
    if k > 0 { if let Some(d) = &mut x.delays { *d -= 1; x.preemptions = *d; } }
    let t = can[k];
    x.th[t] = St::Ready;
    go(t);
}

/// A point where another thread may run first.
pub fn preempt() {
    let x = s();
    if x.preemptions == 0 { return; }
    let me = x.cur;
    let mut others: Vec<usize> = vec![];
    for (t, st) in x.th.iter().enumerate() { if t != me && *st == St::Ready { others.push(t); } }
    if others.is_empty() { return; }
    let k = crate::choose("preempt", others.len() + 1);
    if k > 0 {
        x.preemptions -= 1;
        if let Some(d) = &mut x.delays { *d -= 1; }
        go(others[k - 1]);
    }
}

/// Blocks until `progress(key)`.
pub fn park(key: u64) {
    let x = s();
    let me = x.cur;
    x.th[me] = St::Parked(key);
    pick();
}

/// Gives way in a polling loop: blocks until `progress(key)`, or until nothing else can run.
pub fn poll_wait(key: u64) {
    let x = s();
    let me = x.cur;
    x.th[me] = St::Poll(key, x.events);
    pick();
}

/// A state change that threads parked on `key` wait for.
pub fn progress(key: u64) {
    let x = s();
    x.events += 1;
    for t in x.th.iter_mut() {
        match *t { St::Parked(k) | St::Poll(k, _) if k == key => *t = St::Ready, _ => {} }
    }
}

/// Runs the others until none of them can run, or this thread is woken.
pub fn idle() {
    let x = s();
    let me = x.cur;
    x.th[me] = St::Idle;
    pick();
}
pub fn wake_idle() {
    let x = s();
    x.events += 1;
    for t in x.th.iter_mut() { if *t == St::Idle { *t = St::Ready; } }
}

pub fn events() -> u64 { s().events }

/// Lets the other threads run until none of them can.
pub fn idle_all() { while others_ready() { idle(); } }

/// Could any other thread run now?
pub fn others_ready() -> bool {
    let x = s();
    let me = x.cur;
    x.th.iter().enumerate().any(|(t, st)| t != me && *st == St::Ready)
}

pub fn join(t: usize) {
    preempt();
    while s().th[t] != St::Done { park(t as u64); }
}

pub fn thread_count() -> usize { s().th.len() }
/// Threads other than the first that have not ended.
pub fn alive() -> usize { s().th.iter().skip(1).filter(|t| **t != St::Done).count() }
