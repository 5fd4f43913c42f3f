//! C07: every visitor is counted for exactly one duration.
use crate::util::*;
use actix::prelude::*;
use libmcaptcha::master::embedded::counter::{AddVisitor, Counter, GetCurrentVisitorCount};
use std::time::Duration;
use symrt::*;

/// `n` visitors at any times, then the count at any later moment.
pub fn visitors(n: usize, nanos: bool) {
    let any_gap = |name: &str, secs: u64| if nanos { any_gap(name, secs) } else { Duration::new(u16v(name) as u64, 100_000_000) };
    let l = [(1u32, 10u32), (2, 20), (9, 30)];
    let d = if nanos { u64v("duration") } else { u16v("duration") as u64 };
    assume((d > 0) & (d < 1 << 40));
    let a = Counter::from(mcaptcha(&l, d)).start();
    let mut at: Vec<Duration> = vec![];
    let mut k = 0;
    for i in 0..n {
        if i > 0 { task::advance(any_gap("gap", 1 << 40)); }
        let t = time::now();
        let a2 = a.clone();
        let r = match now_or("a visitor is answered at once", async move { a2.send(AddVisitor).await }) { Ok(r) => r, Err(_) => fail("the counter answers") };
        at.push(t);
        let v = counted(&at, t, d);
        if v > l[k].0 { if k < 2 { k += 1 } } else if k > 0 { k -= 1 }
        check(r.duration == d, "the answer carries the duration");
        check(r.difficulty_factor == l[k].1, "the answer carries the difficulty in force after counting the visitor");
        check(count(&a) == v, "the count right after a visitor");
    }
    task::advance(any_gap("wait", 1 << 41));
    check(count(&a) == counted(&at, time::now(), d), "the count at any moment is the visitors of the last d seconds");
    cover("observed");
}

fn counted(at: &[Duration], now: Duration, d: u64) -> u32 {
    let mut v = 0;
    for t in at {
        let end = *t + Duration::new(d, 0);
        assume(now != end);
        if now < end { v += 1; }
    }
    v
}

fn count(a: &Addr<Counter>) -> u32 {
    let a = a.clone();
    match now_or("the count is answered at once", async move { a.send(GetCurrentVisitorCount).await }) { Ok(r) => r, Err(_) => fail("the counter answers") }
}

/// Many visitors, half of them later than the others.
pub fn many(n: usize) {
    let d = u16v("duration") as u64;
    assume(d > 0);
    let a = Counter::from(mcaptcha(&[(n as u32, 10), (n as u32 + 1, 20)], d)).start();
    let mut at = vec![];
    for i in 0..n {
        if i == n / 2 { task::advance(Duration::new(u16v("gap") as u64, 100_000_000)); }
        let a2 = a.clone();
        match now_or("a visitor is answered at once", async move { a2.send(AddVisitor).await }) { Ok(r) => check(r.difficulty_factor == 10, "the answer carries the difficulty in force after counting the visitor"), Err(_) => fail("the counter answers") }
        at.push(time::now());
        if i + 1 == n / 2 || i + 1 == n { check(count(&a) == counted(&at, time::now(), d), "the count right after a visitor"); }
    }
    task::advance(Duration::new(u16v("wait") as u64, 200_000_000));
    check(count(&a) == counted(&at, time::now(), d), "the count at any moment is the visitors of the last d seconds");
    cover("many");
}
