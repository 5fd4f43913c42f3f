//! The verification queue: C11, C12, C13, C14.
use libmcaptcha::errors::CaptchaError as E;
use libmcaptcha::__verif::{Manager, Runnable};
use std::rc::Rc;
use symrt::*;

#[derive(Clone, Copy, PartialEq)]
enum St { New, Accepted, Refused }
struct J { ip: usize, st: St, started: u32, finished: u32, dropped: u32, release: bool, at_start: usize, key: u64 }
struct Q {
    jobs: Vec<J>,
    /// jobs run without waiting to be released
    open: bool,
    /// (job, started?): submissions and starts in order
    log: Vec<(usize, bool)>,
    closed: bool,
    /// several workers may start in either order jobs they were handed one right after the other
    unordered: bool,
    /// the property being decided: the others' assertions are left out
    prop: u32,
}
static Q_: Global<Q> = Global::new();
fn q() -> &'static mut Q { Q_.get(|| Q { jobs: vec![], open: false, log: vec![], closed: false, unordered: false, prop: 0 }) }

fn chk(p: u32, c: bool, msg: &str) { if q().prop == p { check(c, msg) } }

struct Job(usize);
impl Runnable for Job {
    fn run(&self) {
        let j = &mut q().jobs[self.0];
        chk(14, !q().closed, "no job runs once the queue is gone");
        chk(13, j.st != St::Refused, "a refused job is never run");
        chk(11, j.started == 0, "a job is run once");
        chk(14, j.dropped == 0, "a job is run before it is released");
        j.started = 1;
        q().log.push((self.0, true));
        // jobs of one address start in the order of their submission
        for k in 0..self.0 {
            let o = &q().jobs[k];
            if !q().unordered && o.ip == q().jobs[self.0].ip && o.st == St::Accepted { chk(11, o.started == 1, "jobs of one address are run in order"); }
        }
        if q().open { sched::preempt(); }
        loop {
            let j = &q().jobs[self.0];
            if q().open || j.release { break; }
            sched::park(j.key);
        }
        q().jobs[self.0].finished = 1;
    }
}
impl Drop for Job {
    fn drop(&mut self) { q().jobs[self.0].dropped += 1; }
}
fn new_job(ip: usize) -> Box<dyn Runnable> {
    let key = sched::new_key();
    q().jobs.push(J { ip, st: St::New, started: 0, finished: 0, dropped: 0, release: false, at_start: 0, key });
    Box::new(Job(q().jobs.len() - 1))
}
fn open() { q().open = true; for j in &q().jobs { sched::progress(j.key); } }
/// Addresses that are alike.
const ALIKE: [&str; 8] = ["10.0.0.1", "10.0.0.11", "2001:db8::1", "2001:db8::2", "10.0.0.1:80", "10.0.0.1:81", "10.0.1.1", "host"];
fn name(ip: usize) -> String { if ip < ALIKE.len() { ALIKE[ip].into() } else { format!("10.1.0.{ip}") } }

fn waiting(j: &J) -> bool { j.st == St::Accepted && j.started == 0 }
fn running(j: &J) -> bool { j.started == 1 && j.finished == 0 }
fn waiting_ips() -> usize {
    let mut v: Vec<usize> = vec![];
    for j in &q().jobs { if waiting(j) && !v.contains(&j.ip) { v.push(j.ip); } }
    v.len()
}

/// No address gets two jobs started between the moment a job of another address is the oldest waiting one and
/// that job's own start.
fn fair() {
    let l = &q().log;
    let Some((last, true)) = l.last().copied() else { return };
    let ip = q().jobs[last].ip;
    // since when was it the oldest waiting job of its address
    let mut from = 0;
    for (p, (j, s)) in l.iter().enumerate() {
        if p + 1 == l.len() { break; }
        if (*j == last && !*s) || (*s && q().jobs[*j].ip == ip) { from = p + 1; }
    }
    let mut others: Vec<usize> = vec![];
    for (j, s) in &l[from..l.len() - 1] {
        if !*s { continue; }
        let o = q().jobs[*j].ip;
        chk(12, !others.contains(&o), "an address gets at most one job started before the oldest waiting job of another");
        others.push(o);
    }
}

/// Jobs that take as long as the environment likes; any sequence of submissions and completions.
pub fn environment(prop: u32, workers: usize, n: usize) {
    q().prop = prop;
    let limit = 1 + choose("queue length", 3);
    sched::set_delays(0);
    let m = Rc::new(Manager::new(workers, limit));
    task::settle();
    sched::set_free();
    explore(m, workers, limit, n, 0);
}

/// The same after one address, or two, have submitted many jobs.
pub fn backlog(prop: u32, n: usize) {
    q().prop = prop;
    let workers = 1 + choose("workers", 2);
    let limit = 3;
    sched::set_delays(0);
    let m = Rc::new(Manager::new(workers, limit));
    task::settle();
    let first = [5, 10, 18, 34, 66][choose("jobs of one", 5)];
    let second = [0, 1, first][choose("jobs of another", 3)];
    for _ in 0..first { chk(13, put(&m, 0, name(0).as_str()), "a submission is refused only while the queue is full"); }
    for _ in 0..second { chk(13, put(&m, 1, name(1).as_str()), "a submission is refused only while the queue is full"); }
    sched::set_free();
    cover("backlog");
    explore(m, workers, limit, n, if second > 0 { 2 } else { 1 });
}

fn explore(m: Rc<Manager>, workers: usize, limit: usize, n: usize, mut ips: usize) {
    for _ in 0..n {
        let run: Vec<usize> = q().jobs.iter().enumerate().filter(|(_, j)| running(j)).map(|(k, _)| k).collect();
        let subs = if ips < 4 { ips + 1 } else { ips };
        let act = choose("event", subs + run.len());
        if act < subs {
            if act == ips { ips += 1; }
            let full = waiting_ips() == limit;
            let job = new_job(act);
            let id = q().jobs.len() - 1;
            q().log.push((id, false));
            // it counts as accepted until it is refused
            q().jobs[id].st = St::Accepted;
            let m2 = m.clone();
            let r = match task::run(async move { m2.add(name(act), job).await }) { Some(r) => r, None => fail("a submission is answered at once") };
            match r {
                Ok(()) => { chk(11, q().jobs[id].started == 1 || q().jobs[id].dropped == 0, "an accepted job is kept"); cover("accepted"); }
                Err(e) => {
                    chk(13, matches!(e, E::QueueFull), "the only refusal is that the queue is full");
                    chk(13, full, "a submission is refused only while the queue is full");
                    chk(13, q().jobs[id].started == 0, "a refused job is never run");
                    q().jobs[id].st = St::Refused;
                    cover("refused");
                }
            }
        } else {
            let j = &mut q().jobs[run[act - subs]];
            j.release = true;
            sched::progress(j.key);
            task::settle();
        }
        fair();
        let w = q().jobs.iter().filter(|j| waiting(j)).count();
        let r = q().jobs.iter().filter(|j| running(j)).count();
        chk(13, waiting_ips() <= limit, "no more addresses wait than configured");
        chk(11, w == 0 || r == workers, "a job never waits while a worker is idle");
        if w > 0 { cover("waiting"); }
    }
    // the rest, one at a time
    sched::set_delays(0);
    for _ in 0..q().jobs.len() {
        let Some(k) = q().jobs.iter().position(|j| running(j)) else { break };
        q().jobs[k].release = true;
        sched::progress(q().jobs[k].key);
        task::settle();
        fair();
    }
    for j in &q().jobs { chk(11, (j.st == St::Accepted) == (j.started == 1 && j.finished == 1), "every accepted job is run, no refused one is"); }
    // all capacity is back
    for i in 0..limit + workers {
        let job = new_job(100 + i);
        let id = q().jobs.len() - 1;
        q().jobs[id].st = St::Accepted;
        let m2 = m.clone();
        match task::run(async move { m2.add(name(100 + i), job).await }) {
            Some(Ok(())) => {}
            Some(Err(_)) => { chk(13, false, "once waiting jobs have been run the capacity is available again"); q().jobs[id].st = St::Refused }
            None => fail("a submission is answered at once"),
        }
    }
    open();
    task::settle();
    for j in &q().jobs { chk(11, (j.st == St::Accepted) == (j.started == 1 && j.finished == 1), "every accepted job is run, no refused one is"); }
    drop(m);
    cover("done");
    end();
}

/// Submits a job at once; was it accepted?
fn put(m: &Rc<Manager>, ip: usize, addr: &str) -> bool {
    let job = new_job(ip);
    let id = q().jobs.len() - 1;
    q().log.push((id, false));
    q().jobs[id].st = St::Accepted;
    let (m, addr) = (m.clone(), addr.to_string());
    match task::run(async move { m.add(addr, job).await }) {
        Some(Ok(())) => true,
        Some(Err(_)) => { q().jobs[id].st = St::Refused; false }
        None => fail("a submission is answered at once"),
    }
}
/// Three addresses, two of them of any form, or alike: what makes them different is only that they differ.
pub fn addresses(prop: u32) {
    q().prop = prop;
    sched::set_delays(0);
    let m = Rc::new(Manager::new(1, 2));
    task::settle();
    let (a, b) = match choose("form", 3) {
        1 => crate::util::alike("address"),
        0 => (string("address", choose("length", 5)), string("address", choose("length", 5))),
        _ => { let i = choose("pair", ALIKE.len() / 2); let k = choose("turned", 2); (ALIKE[2 * i + k].to_string(), ALIKE[2 * i + 1 - k].to_string()) }
    };
    assume(a != b);
    for i in 0..3 { chk(13, put(&m, 0, &a), "a submission is refused only while the queue is full"); if i == 1 && choose("who comes next", 2) == 1 { chk(13, put(&m, 1, &b), "a submission is refused only while the queue is full"); } }
    chk(13, put(&m, 1, &b), "a submission is refused only while the queue is full");
    chk(13, !put(&m, 2, "a third address"), "no more addresses wait than configured");
    chk(13, put(&m, 1, &b), "an address that is already waiting is not refused");
    chk(13, put(&m, 0, &a), "an address that is already waiting is not refused");
    let n = q().jobs.len();
    for _ in 0..n {
        let Some(k) = q().jobs.iter().position(|j| running(j)) else { break };
        q().jobs[k].release = true;
        sched::progress(q().jobs[k].key);
        task::settle();
        fair();
    }
    for j in &q().jobs { chk(11, (j.st == St::Accepted) == (j.started == 1 && j.finished == 1), "every accepted job is run, no refused one is"); }
    chk(13, put(&m, 2, "a third address"), "once waiting jobs have been run the capacity is available again");
    open();
    task::settle();
    drop(m);
    cover("addresses");
    end();
}

/// Many addresses and many jobs of one address.
pub fn many(prop: u32, n: usize) {
    q().prop = prop;
    sched::set_delays(0);
    let jobs = 3 * n;
    let n = [2, n][choose("queue length", 2)];
    let w = [1, 2, 6, 20][choose("workers", 4)];
    let m = Rc::new(Manager::new(w, n));
    task::settle();
    let addr = |i: usize| format!("host {i}");
    let busy = || {
        let (r, o) = (q().jobs.iter().filter(|j| running(j)).count(), q().jobs.iter().filter(|j| waiting(j)).count());
        chk(11, o == 0 || r == w, "a job never waits while a worker is idle");
    };
    // the first keeps the workers busy, with more jobs than there are addresses
    for _ in 0..jobs { chk(13, put(&m, 0, &addr(0)), "a submission is refused only while the queue is full"); }
    busy();
    for i in 1..n { chk(13, put(&m, i, &addr(i)), "a submission is refused only while the queue is full"); }
    chk(13, waiting_ips() == n, "every address has a job waiting");
    for i in 0..3 { chk(13, !put(&m, n + i, &addr(n + i)), "no more addresses wait than configured"); }
    chk(13, put(&m, n - 1, &addr(n - 1)), "an address that is already waiting is not refused");
    // the jobs end one at a time
    let all = q().jobs.len();
    for _ in 0..all {
        let Some(k) = q().jobs.iter().position(|j| running(j)) else { break };
        q().jobs[k].release = true;
        sched::progress(q().jobs[k].key);
        task::settle();
        if prop == 12 { fair(); }
        if prop == 11 { busy(); }
    }
    for j in &q().jobs { chk(11, (j.st == St::Accepted) == (j.started == 1 && j.finished == 1), "every accepted job is run, no refused one is"); }
    for i in 0..3 { chk(13, put(&m, n + i, &addr(n + i)), "once waiting jobs have been run the capacity is available again"); }
    open();
    task::settle();
    drop(m);
    cover("many");
    end();
}

/// The queue, and what must be so once dropping it has returned.
struct Owned(Option<Manager>, std::cell::Cell<Option<usize>>);
impl Owned { fn m(&self) -> &Manager { match &self.0 { Some(m) => m, None => fail("in use") } } }
impl Drop for Owned {
    fn drop(&mut self) {
        drop(self.0.take());
        let other = match self.1.get() { Some(t) if !sched::is_done(t) => 1, _ => 0 };
        check(sched::alive() == other, "dropping the queue returns once all its threads have ended");
        for j in &q().jobs { check(j.started == j.finished, "dropping the queue returns once the jobs already started have finished"); }
        cover("dropped");
    }
}

fn ended() {
    q().closed = true;
    check(sched::alive() == 0, "all threads of the queue have ended");
    for j in &q().jobs {
        check(j.dropped == 1, "every job is released once");
        check(j.started == j.finished, "started jobs have finished");
    }
}

/// Submitters on their own threads, any interleaving with at most `p` departures from the default schedule.
pub fn threads(workers: usize, submitters: usize, each: usize, p: usize) {
    q().prop = 11;
    let m = std::sync::Arc::new(Manager::new(workers, 3));
    sched::set_delays(p);
    q().open = true;
    q().unordered = workers > 1;
    let same = choose("same address", 2) == 1;
    let mut ts = vec![];
    for s in 0..submitters {
        let m = m.clone();
        ts.push(sched::spawn(Box::new(move || {
            for _ in 0..each {
                let ip = if same { 0 } else { s };
                let job = new_job(ip);
                let id = q().jobs.len() - 1;
                // concurrent submissions to one address have no order among them
                if same { q().jobs[id].ip = s; }
                q().jobs[id].st = St::Accepted;
                match task::block_on(m.add(name(ip), job)) { Ok(()) => {}, Err(_) => fail("no submission is refused: there is room for every address") }
            }
        })));
    }
    for t in ts { sched::join(t); }
    sched::idle_all();
    for j in &q().jobs { check(j.started == 1 && j.finished == 1, "every accepted job is run"); }
    check(q().jobs.len() == submitters * each, "all jobs were submitted");
    cover("interleaved");
    end();
}

/// Dropped at any moment.
pub fn shutdown(workers: usize, n: usize, p: usize) {
    q().prop = 14;
    q().unordered = true;
    let m = Rc::new(Owned(Some(Manager::new(workers, 2)), Default::default()));
    let late = choose("jobs run on until after the drop began", 2) == 1;
    if !late { q().open = true; }
    sched::set_delays(p);
    let mut slots = vec![];
    for _ in 0..n {
        let ip = choose("address", 2);
        let job = new_job(ip);
        let id = q().jobs.len() - 1;
        q().jobs[id].st = St::Accepted;
        let m2 = m.clone();
        slots.push(task::start(async move { let r = m2.m().add(name(ip), job).await; if r.is_err() { q().jobs[id].st = St::Refused; } r }));
        match choose("wait", 3) { 0 => {}, 1 => { task::step(); } _ => task::settle() }
    }
    if late { m.1.set(Some(sched::spawn(Box::new(open)))); } else if choose("settled", 2) == 1 { task::settle(); }
    if choose("requesters", 2) == 1 { for s in &slots { s.cancel(); } }
    drop(m);
    // requests still under way own the queue: they end first
    task::settle();
    for s in slots { if !s.ready() { cover("cancelled"); } }
    ended();
    cover("ended");
    end();
}

/// Dropped with many jobs waiting, or many workers.
pub fn shutdown_many(jobs: usize) {
    q().prop = 14;
    q().unordered = true;
    let workers = [1, 3, 8][choose("workers", 3)];
    let m = Rc::new(Owned(Some(Manager::new(workers, 10)), Default::default()));
    let late = choose("jobs run on until after the drop began", 2) == 1;
    if !late { q().open = choose("jobs run at once", 2) == 1; }
    sched::set_delays(0);
    let mut slots = vec![];
    let addresses = [1, 10][choose("addresses", 2)];
    for i in 0..jobs {
        let ip = i % addresses;
        let job = new_job(ip);
        q().jobs[i].st = St::Accepted;
        let m2 = m.clone();
        slots.push(task::start(async move { m2.m().add(name(ip), job).await }));
        task::settle();
    }
    for s in &slots { check(s.ready(), "a submission is answered at once"); }
    if late { m.1.set(Some(sched::spawn(Box::new(open)))); } else if !q().open {
        // some of the jobs are done, some running
        for _ in 0..2 * workers {
            let Some(k) = q().jobs.iter().position(|j| running(j)) else { break };
            q().jobs[k].release = true;
            sched::progress(q().jobs[k].key);
            task::settle();
        }
        for j in 0..q().jobs.len() { q().jobs[j].release |= running(&q().jobs[j]); sched::progress(q().jobs[j].key); }
    }
    q().open = true;
    drop(m);
    task::settle();
    ended();
    cover("ended");
    end();
}
