//! The in-memory master: C08, C09, C10.
use crate::util::*;
use actix::prelude::*;
use libmcaptcha::master::embedded::counter::{Counter, GetCurrentVisitorCount, Stop};
use libmcaptcha::master::embedded::master::{GetSite, Master};
use libmcaptcha::master::messages::*;
use libmcaptcha::{AddVisitorResult, MCaptcha};
use std::time::Duration;
use symrt::*;

const NAMES: [&str; 3] = ["alpha", "beta", "gamma"];

/// What a site should be doing.
#[derive(Clone)]
pub struct Site { pub l: Vec<(u32, u32)>, pub d: u64, pub level: usize, pub at: Vec<Duration> }
impl Site {
    fn new(l: Vec<(u32, u32)>, d: u64) -> Self { Site { l, d, level: 0, at: vec![] } }
    fn visitors(&self) -> u32 {
        let (mut v, now) = (0, time::now());
        for t in &self.at {
            let end = *t + Duration::new(self.d, 0);
            assume(now != end);
            if now < end { v += 1; }
        }
        v
    }
    fn visit(&mut self) {
        self.at.push(time::now());
        let v = self.visitors();
        if v > self.l[self.level].0 { if self.level + 1 < self.l.len() { self.level += 1 } } else if self.level > 0 { self.level -= 1 }
    }
}

pub fn visit(m: &Addr<Master>, id: &str) -> Option<AddVisitorResult> { ask_ok(m, AddVisitor(id.into())) }
pub fn export(m: &Addr<Master>) -> vstd::collections::HashMap<String, MCaptcha> { ask_ok(m, GetInternalData) }
fn same(r: Option<AddVisitorResult>, s: Option<&mut Site>) {
    match (r, s) {
        (None, None) => {}
        (Some(r), Some(s)) => {
            s.visit();
            check(r.duration == s.d, "a visitor is answered with the duration of the site of that name");
            check(r.difficulty_factor == s.l[s.level].1, "a visitor is answered with the difficulty of the site of that name");
        }
        (None, Some(_)) => fail("a registered site answers"),
        (Some(_), None) => fail("a name without a site is answered with none"),
    }
}
fn compare(m: &Addr<Master>, sites: &[Option<Site>; 3]) {
    let e = export(m);
    let mut n = 0;
    for i in 0..3 {
        match (e.get(NAMES[i]), &sites[i]) {
            (None, None) => {}
            (Some(x), Some(s)) => {
                n += 1;
                check(x.get_visitors() == s.visitors(), "the site's visitors are its own");
                check(x.get_duration() == s.d, "the site's duration is its own");
                check(x.get_difficulty() == s.l[s.level].1, "the site's level is its own");
            }
            _ => fail("the sites are those registered"),
        }
    }
    check(e.len() == n, "the sites are those registered");
}

/// C08: `n` operations on three names.
pub fn registry(n: usize, timed: bool) {
    let m = Master::new(1_000_000_000).start();
    task::settle();
    let mut sites: [Option<Site>; 3] = [None, None, None];
    for i in 0..n {
        // the names used so far and one new one: the others are like it
        match choose("operation", if timed { 5 } else { 4 }) {
            0 => {
                let k = choose("name", 3);
                let l = if i == 0 { any_ladder(2) } else { vec![(i as u32, 10 * i as u32), (i as u32 + 1, 10 * i as u32 + 1)] };
                let d = u16v("duration") as u64;
                assume(d > 0);
                ask_ok(&m, AddSite { id: NAMES[k].into(), mcaptcha: mcaptcha(&l, d) });
                sites[k] = Some(Site::new(l, d));
            }
            1 => {
                let (a, b) = (choose("rename", 3), choose("to", 3));
                ask_ok(&m, Rename { name: NAMES[a].into(), rename_to: NAMES[b].into() });
                if let Some(s) = sites[a].take() { sites[b] = Some(s); cover("renamed"); }
            }
            2 => {
                let k = choose("remove", 3);
                ask_ok(&m, RemoveCaptcha(NAMES[k].into()));
                if sites[k].take().is_some() { cover("removed"); }
            }
            3 => {
                let k = choose("visitor of", 3);
                same(visit(&m, NAMES[k]), sites[k].as_mut());
                if sites[k].is_some() { cover("visited"); }
            }
            _ => task::advance(Duration::new(u16v("wait") as u64, 500_000_000)),
        }
    }
    compare(&m, &sites);
    for k in 0..3 { same(visit(&m, NAMES[k]), sites[k].as_mut()); }
    cover("compared");
    end();
}

/// C08: operations sent without waiting for each other are carried out in order.
pub fn burst() {
    let m = Master::new(1_000_000_000).start();
    ask_ok(&m, AddSite { id: "alpha".into(), mcaptcha: mcaptcha(&[(1, 10), (2, 11)], 100) });
    let mut s = vec![];
    let mut want = vec![];
    let mut sites: [Option<Site>; 3] = [Some(Site::new(vec![(1, 10), (2, 11)], 100)), None, None];
    for i in 0..3 {
        let m2 = m.clone();
        match choose("operation", 4) {
            0 => {
                let k = choose("name", 2);
                let l = vec![(1, 20 + i as u32), (2, 30 + i as u32)];
                let a = AddSite { id: NAMES[k].into(), mcaptcha: mcaptcha(&l, 100) };
                sites[k] = Some(Site::new(l, 100));
                s.push(task::start(async move { match m2.send(a).await { Ok(rx) => { let _ = rx.await; None } Err(_) => None } }));
                want.push(None);
            }
            1 => {
                let (a, b) = (choose("rename", 2), choose("to", 2));
                if let Some(s) = sites[a].take() { sites[b] = Some(s); }
                s.push(task::start(async move { match m2.send(Rename { name: NAMES[a].into(), rename_to: NAMES[b].into() }).await { Ok(rx) => { let _ = rx.await; None } Err(_) => None } }));
                want.push(None);
            }
            _ => {
                let k = choose("visitor of", 2);
                s.push(task::start(async move { match m2.send(AddVisitor(NAMES[k].into())).await { Ok(rx) => match rx.await { Ok(Ok(r)) => Some(r), _ => None }, Err(_) => None } }));
                want.push(Some(sites[k].as_mut().map(|s| { s.visit(); s.l[s.level].1 })));
            }
        }
    }
    task::settle();
    for (x, w) in s.into_iter().zip(want) {
        match (x.take(), w) {
            (Some(None), None) => {}
            (Some(Some(r)), Some(f)) => check(r.map(|r| r.difficulty_factor) == f, "requests are carried out in the order they were made"),
            _ => fail("every request is answered"),
        }
    }
    compare(&m, &sites);
    cover("burst");
    end();
}

fn any_name(name: &str) -> String { string(name, choose("length", 5)) }
fn answers(m: &Addr<Master>, id: &str, f: u32) -> bool { matches!(visit(m, id), Some(r) if r.difficulty_factor == f) }

/// C08: names of any form: what makes them different is only that they differ.
pub fn any_names(long: bool) {
    let m = Master::new(1_000_000_000).start();
    let (a, b, c) = if !long { (any_name("name"), any_name("other"), any_name("third")) } else {
        let (a, b) = alike("name");
        let c = if choose("third", 2) == 0 { format!("{a}{b}") } else { a.clone() };
        (a, b, c)
    };
    assume(a != b);
    assume(c != b);
    let again = a == c;
    ask_ok(&m, AddSite { id: a.clone(), mcaptcha: mcaptcha(&[(5, 10), (6, 11)], 100) });
    check(visit(&m, &b).is_none(), "a name without a site is answered with none");
    ask_ok(&m, AddSite { id: b.clone(), mcaptcha: mcaptcha(&[(5, 20), (6, 21)], 100) });
    check(answers(&m, &a, 10), "a visitor is answered by the site of that name");
    check(answers(&m, &b, 20), "a visitor is answered by the site of that name");
    if !again { check(visit(&m, &c).is_none(), "a name without a site is answered with none"); cover("three names"); }
    ask_ok(&m, Rename { name: a.clone(), rename_to: c.clone() });
    let e = export(&m);
    check(e.len() == 2, "the sites are those registered");
    match (e.get(&b), e.get(&c)) { (Some(x), Some(y)) => check(x.get_visitors() == 1 && y.get_visitors() == 1, "the sites' visitors are their own"), _ => fail("the sites are those registered") }
    if !again { check(visit(&m, &a).is_none(), "a renamed site is not found under its old name"); }
    check(answers(&m, &b, 20), "renaming a site leaves the others alone");
    check(answers(&m, &c, 10), "a renamed site is found under its new name");
    ask_ok(&m, RemoveCaptcha(c.clone()));
    check(visit(&m, &c).is_none(), "a removed site is gone");
    check(answers(&m, &b, 20), "removing a site leaves the others alone");
    cover("compared");
    end();
}

/// C09: the same for clean-ups.
pub fn any_names_cleaned(long: bool) {
    let m = Master::new(100).start();
    let (a, b) = if long { alike("name") } else { (any_name("name"), any_name("other")) };
    assume(a != b);
    ask_ok(&m, AddSite { id: a.clone(), mcaptcha: mcaptcha(&[(5, 10), (6, 11)], 30) });
    ask_ok(&m, AddSite { id: b.clone(), mcaptcha: mcaptcha(&[(5, 20), (6, 21)], 1000) });
    let used = choose("used", 2) == 1;
    visit(&m, &a);
    if used { visit(&m, &b); }
    task::advance(Duration::new(250, 0));
    check(visit(&m, &a).is_none(), "a used site that is idle is removed");
    check(answers(&m, &b, 20), "a site that was never used, or has counted visitors, keeps answering");
    cover("cleaned");
    end();
}

/// C10: the same for export and import.
pub fn any_names_restored(long: bool) {
    let m = Master::new(1_000_000_000).start();
    let (a, b) = if long { alike("name") } else { (any_name("name"), any_name("other")) };
    assume(a != b);
    ask_ok(&m, AddSite { id: a.clone(), mcaptcha: mcaptcha(&[(5, 10), (6, 11)], 30) });
    ask_ok(&m, AddSite { id: b.clone(), mcaptcha: mcaptcha(&[(5, 20), (6, 21)], 1000) });
    visit(&m, &a);
    let map = export(&m);
    check(map.len() == 2, "all sites are exported");
    let t = Master::new(1_000_000_000).start();
    ask_ok(&t, SetInternalData { mcaptcha: map });
    task::settle();
    let e = export(&t);
    check(e.len() == 2, "the same sites are there");
    match (e.get(&a), e.get(&b)) { (Some(x), Some(y)) => check((x.get_visitors(), y.get_visitors(), x.get_duration(), y.get_duration()) == (1, 0, 30, 1000), "each site has its own data under its own name"), _ => fail("the same sites are there, under the same names") }
    check(answers(&t, &a, 10) && answers(&t, &b, 20), "each answers under its own name");
    cover("restored");
    end();
}

/// C09: one operation of each kind at any point of a clean-up.
pub fn cleanup(reorder: usize) {
    let gc = 100u64;
    let m = Master::new(gc).start();
    task::settle();
    let order = choose("names", 2);
    let (idle, busy, fresh) = if order == 0 { ("a idle", "b busy", "c fresh") } else { ("z idle", "y busy", "x fresh") };
    let la = [(1u32, 10u32), (2, 11)];
    ask_ok(&m, AddSite { id: idle.into(), mcaptcha: mcaptcha(&la, 30) });
    ask_ok(&m, AddSite { id: busy.into(), mcaptcha: mcaptcha(&[(1, 20), (2, 21)], 1000) });
    ask_ok(&m, AddSite { id: fresh.into(), mcaptcha: mcaptcha(&[(1, 30), (2, 31)], 1000) });
    let idle_addr = match now_or("found", { let (m, i) = (m.clone(), idle.to_string()); async move { m.send(GetSite(i)).await } }) { Ok(Some(a)) => a, _ => fail("the site is found") };
    if choose("ever visited", 2) == 1 { visit(&m, idle); }
    visit(&m, busy);
    // the next clean-up begins
    task::settle();
    let due = Duration::new(gc, 0);
    while time::fire_next(Duration::new(gc, 0) - Duration::new(0, 1)) { task::settle(); }
    time::fire_next(due);
    task::set_reorder(reorder);
    for _ in 0..choose("steps", 20) { if !task::step() { end(); } }
    cover("in the middle");
    // something happens
    let (m2, a2) = (m.clone(), idle_addr.clone());
    let (i1, f1) = (idle.to_string(), fresh.to_string());
    let what = choose("meanwhile", 8);
    let slot = task::start(async move {
        match what {
            0 => {}
            1 => { if let Ok(rx) = m2.send(AddVisitor(i1)).await { return matches!(rx.await, Ok(Ok(Some(_)))); } }
            2 => { if let Ok(rx) = m2.send(Rename { name: i1, rename_to: "renamed".into() }).await { let _ = rx.await; } }
            3 => { if let Ok(rx) = m2.send(RemoveCaptcha(i1)).await { let _ = rx.await; } }
            4 => { if let Ok(rx) = m2.send(AddSite { id: i1, mcaptcha: mcaptcha(&[(1, 40), (2, 41)], 1000) }).await { let _ = rx.await; } }
            5 => { let _ = a2.send(Stop).await; }
            6 => { if let Ok(rx) = m2.send(Rename { name: f1, rename_to: i1 }).await { let _ = rx.await; } }
            _ => { if let Ok(r) = a2.send(libmcaptcha::master::embedded::counter::AddVisitor).await { let _ = r; return true; } }
        }
        false
    });
    task::settle();
    let counted = match slot.take() { Some(c) => c, None => fail("the request is answered") };
    // nothing but the idle site may be gone
    match visit(&m, busy) { Some(r) => check(r.difficulty_factor == 21 && r.duration == 1000, "a site with counted visitors keeps answering"), None => fail("a site with counted visitors keeps answering") }
    if what == 6 {
        check(matches!(visit(&m, idle), Some(AddVisitorResult { difficulty_factor: 30, .. })), "a site that was never used is not removed, under whatever name");
        check(visit(&m, fresh).is_none(), "the renamed site is no longer found under its old name");
    } else {
        check(matches!(visit(&m, fresh), Some(AddVisitorResult { difficulty_factor: 30, .. })), "a site that was never used keeps answering");
    }
    if what == 4 { check(matches!(visit(&m, idle), Some(AddVisitorResult { difficulty_factor: 40, .. })), "a site registered during a clean-up is not removed by it"); }
    if counted {
        let e = export(&m);
        let Some(x) = e.get(idle) else { fail("a site with a counted visitor is not removed") };
        check(x.get_visitors() == 1, "its visitor stays counted");
        cover("visited in time");
    }
    // the master goes on cleaning: after everybody has left, every used site is removed
    task::advance(Duration::new(1000 + 2 * gc, 700_000_000));
    let e = export(&m);
    check(e.is_empty(), "every used site that stays idle is eventually removed");
    ask_ok(&m, AddSite { id: "new".into(), mcaptcha: mcaptcha(&la, 30) });
    check(visit(&m, "new").is_some(), "the master keeps running");
    task::advance(Duration::new(30 + 2 * gc, 0));
    check(visit(&m, "new").is_none(), "the clean-up keeps running");
    cover("cleaned");
    end();
}

/// C09: over any times: what a clean-up removes, and what it leaves.
pub fn schedule(n: usize) {
    let gc = u16v("period") as u64;
    assume(gc > 0);
    let d = u16v("duration") as u64;
    assume((d > 0) & (d < 4 * gc));
    let m = Master::new(gc).start();
    ask_ok(&m, AddSite { id: "site".into(), mcaptcha: mcaptcha(&[(1, 10), (2, 11)], d) });
    ask_ok(&m, AddSite { id: "unused".into(), mcaptcha: mcaptcha(&[(1, 20)], d) });
    let when = choose("renamed", 3);
    let rename = || ask_ok(&m, Rename { name: "site".into(), rename_to: "other".into() });
    let mut name = "site";
    if when == 1 { rename(); name = "other"; }
    let mut last: Option<Duration> = None;
    for i in 0..n {
        let g = u16v("gap") as u64;
        assume(g < 3 * gc);
        task::advance(Duration::new(g, 500_000_000 - 1000 * i as u32));
        let now = time::now();
        match visit(&m, name) {
            Some(_) => {
                if let Some(t) = last {
                    // idle from then on; the clean-up at the first multiple of the period after that
                    let end = t + Duration::new(d, 0);
                    check(now < end + Duration::new(gc, 0), "a used site that is idle is removed by the next clean-up");
                }
                last = Some(now);
                if when == 2 && i == 0 { rename(); name = "other"; }
            }
            None => {
                let Some(t) = last else { fail("a site that was never used is not removed") };
                check(now >= t + Duration::new(d, 0), "a site with counted visitors is not removed");
                cover("removed");
                break;
            }
        }
    }
    if n > 0 { check(visit(&m, "unused").is_some(), "a site that was never used is not removed"); }
    cover("observed");
    end();
}

fn count(a: &Addr<Counter>) -> u32 {
    let a = a.clone();
    match now_or("the count is answered", async move { a.send(GetCurrentVisitorCount).await }) { Ok(v) => v, Err(_) => fail("the counter answers") }
}
fn site(m: &Addr<Master>, id: &str) -> Addr<Counter> {
    let (m, i) = (m.clone(), id.to_string());
    match now_or("the site is found", async move { m.send(GetSite(i)).await }) { Ok(Some(a)) => a, _ => fail("the site is found") }
}
pub fn recode(m: &MCaptcha) -> MCaptcha {
    let Ok(v) = serde_json::to_value(m) else { fail("exported data can be encoded") };
    match serde_json::from_value(v) { Ok(m) => m, Err(_) => fail("encoded data can be decoded") }
}
pub fn identical(a: &MCaptcha, b: &MCaptcha) -> bool { 
    let (x, y): (Vec<libmcaptcha::defense::Level>, Vec<libmcaptcha::defense::Level>) = (a.get_defense().into(), b.get_defense().into());
    let mut ok = (x.len() == y.len()) & (a.get_visitors() == b.get_visitors()) & (a.get_duration() == b.get_duration()) & (a.get_difficulty() == b.get_difficulty());
    if x.len() == y.len() { for i in 0..x.len() { ok &= (x[i].visitor_threshold == y[i].visitor_threshold) & (x[i].difficulty_factor == y[i].difficulty_factor); } }
    ok
}

/// C10: `v` visitors, export, import into a fresh or the same master (the site there or not), more visitors.
pub fn restore(v: usize, later: usize) {
    let m = Master::new(1_000_000_000).start();
    let l = any_ladder(3);
    let d = u16v("duration") as u64;
    assume(d > 0);
    let n0 = u32v("visitors");
    assume(n0 < u32::MAX - 10);
    ask_ok(&m, AddSite { id: "site".into(), mcaptcha: with_visitors(mcaptcha(&l, d), n0) });
    let l2 = [(1u32, 3u32), (2, 4)];
    ask_ok(&m, AddSite { id: "twin".into(), mcaptcha: mcaptcha(&l2, 77) });
    let mut level = 0;
    for i in 0..v {
        visit(&m, "site");
        if n0 + i as u32 + 1 > l[level].0 { if level < 2 { level += 1 } } else if level > 0 { level -= 1 }
    }
    let mut n = n0 + v as u32;
    // the level in force outlives the visitors it was raised for
    if later == 1 && choose("everybody leaves", 2) == 1 { task::advance(Duration::new(65536 * 2, 0)); n = 0; cover("empty"); }
    let e = export(&m);
    check(e.len() == 2, "all sites are exported");
    let (Some(a), Some(b)) = (e.get("site"), e.get("twin")) else { fail("all sites are exported") };
    check(a.get_visitors() == n, "the visitor count is exported");
    check(a.get_difficulty() == l[level].1, "the level is exported");
    let mut map = vstd::collections::HashMap::new();
    for (k, x) in &e {
        let y = recode(x);
        check(identical(x, &y), "encoding and decoding keeps counts, level, ladder and duration");
        map.insert(k.clone(), y);
    }
    check(b.get_visitors() == 0, "the other site's data is its own");
    let dest = choose("into", 4);
    let t = match dest {
        // a fresh master
        0 => Master::new(1_000_000_000).start(),
        // the same master, later
        1 => { task::advance(Duration::new(u16v("pause") as u64, 250_000_000)); m.clone() }
        // the same master, the site having been removed
        2 => { ask_ok(&m, RemoveCaptcha("site".into())); m.clone() }
        // a master with another site of that name
        _ => {
            let t = Master::new(1_000_000_000).start();
            ask_ok(&t, AddSite { id: "site".into(), mcaptcha: mcaptcha(&[(7, 8)], 9) });
            if choose("visited", 2) == 1 { visit(&t, "site"); }
            t
        }
    };
    ask_ok(&t, SetInternalData { mcaptcha: map });
    task::settle();
    let t0 = time::now();
    let f = export(&t);
    check(f.len() == 2, "the same sites are there");
    let (Some(x), Some(y)) = (f.get("site"), f.get("twin")) else { fail("the same sites are there") };
    check(identical(x, a), "the restored site has the exported count, level, ladder and duration");
    check(identical(y, b), "the restored site has the exported count, level, ladder and duration");
    // it behaves like one: visitors are counted, levels move from where they were, everybody leaves in time
    let mut at: Vec<Duration> = vec![];
    let a = site(&t, "site");
    let mut c = n;
    for i in 0..later {
        if i > 0 || choose("pause before the visitor", 2) == 1 { task::advance(Duration::new(u16v("gap") as u64, 100_000_000)); c = count(&a); }
        bounds(c, n, &at, t0, d);
        let Some(r) = visit(&t, "site") else { fail("a restored site answers") };
        at.push(time::now());
        c += 1;
        if c > l[level].0 { if level < 2 { level += 1 } } else if level > 0 { level -= 1 }
        check(r.duration == d, "a restored site has its duration");
        check(r.difficulty_factor == l[level].1, "a restored site's level moves from where it was");
        check(count(&a) == c, "a restored site counts its visitors");
    }
    task::advance(Duration::new(u16v("wait") as u64, 150_000_000));
    bounds(count(&a), n, &at, t0, d);
    task::advance(Duration::new(65536 * 2, 0));
    check(count(&a) == 0, "everybody is released in the end");
    cover(["fresh", "same", "removed", "other"][dest]);
    end();
}

/// Those who came after the import at `t0` are counted for exactly `d`, the `n` imported ones for at most `d`.
fn bounds(c: u32, n: u32, at: &[Duration], t0: Duration, d: u64) {
    let now = time::now();
    let mut new = 0;
    for t in at { let end = *t + Duration::new(d, 0); assume(now != end); if now < end { new += 1; } }
    let end = t0 + Duration::new(d, 0);
    assume(now != end);
    check(c >= new, "visitors who come after the import stay counted for the full duration");
    if now < end { check(c <= n + new, "nobody is counted twice"); }
    else { check(c == new, "imported visitors are released after at most one duration"); cover("released"); }
}

/// C10: sites registered with visitors already counted (as an import into a master that lacks the site does), and
/// imports one after the other.
pub fn twice() {
    let m = Master::new(1_000_000_000).start();
    let d = u16v("duration") as u64;
    assume(d > 0);
    let (n1, n2) = (u32v("visitors"), u32v("visitors"));
    let l = [(1u32, 10u32), (5, 20)];
    let mut t0 = time::now();
    for (i, n) in [n1, n2].into_iter().enumerate() {
        if i > 0 { task::advance(Duration::new(u16v("gap") as u64, 100_000_000)); }
        let mut map = vstd::collections::HashMap::new();
        map.insert("site".to_string(), with_visitors(mcaptcha(&l, d), n));
        ask_ok(&m, SetInternalData { mcaptcha: map });
        task::settle();
        t0 = time::now();
        check(count(&site(&m, "site")) == n, "the imported count is in force");
    }
    let a = site(&m, "site");
    let mut at = vec![];
    if n2 < u32::MAX { visit(&m, "site"); at.push(time::now()); }
    task::advance(Duration::new(u16v("wait") as u64, 150_000_000));
    bounds(count(&a), n2, &at, t0, d);
    task::advance(Duration::new(65536, 0));
    check(count(&a) == 0, "everybody is released in the end");
    cover("twice");
    end();
}

/// C10: imported again and again, with a visitor of before.
pub fn often() {
    let m = Master::new(1_000_000_000).start();
    let d = u16v("duration") as u64;
    assume(d > 0);
    let k = [1, 2, 3, 4, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256][choose("imports", 16)];
    let (n1, n2) = (u32v("visitors"), u32v("visitors"));
    assume((n1 < u32::MAX) & (n2 < u32::MAX));
    let l = [(1u32, 10u32), (5, 20)];
    let import = |n: u32| {
        let mut map = vstd::collections::HashMap::new();
        map.insert("site".to_string(), with_visitors(mcaptcha(&l, d), n));
        ask_ok(&m, SetInternalData { mcaptcha: map });
        task::settle();
    };
    import(n1);
    if choose("visited", 2) == 1 { visit(&m, "site"); }
    task::advance(Duration::new(u16v("gap") as u64, 100_000_000));
    for _ in 0..k { import(n2); }
    let t0 = time::now();
    let a = site(&m, "site");
    check(count(&a) == n2, "the imported count is in force");
    let mut at = vec![];
    visit(&m, "site");
    at.push(time::now());
    task::advance(Duration::new(u16v("wait") as u64, 150_000_000));
    bounds(count(&a), n2, &at, t0, d);
    task::advance(Duration::new(65536, 0));
    check(count(&a) == 0, "everybody is released in the end");
    cover("often");
    end();
}

/// C10: a site whose counter has been stopped: the others are exported all the same, and an import brings it back.
pub fn stopped() {
    let m = Master::new(1_000_000_000).start();
    let d = u16v("duration") as u64;
    assume(d > 0);
    for i in 0..3 {
        ask_ok(&m, AddSite { id: NAMES[i].into(), mcaptcha: mcaptcha(&[(5, 10 + i as u32), (6, 20)], d) });
        for _ in 0..i + 1 { visit(&m, NAMES[i]); }
    }
    let map = export(&m);
    let k = choose("stopped", 3);
    let a = site(&m, NAMES[k]);
    if let Err(_) = now_or("a counter can be stopped", async move { a.send(Stop).await }) { fail("a counter can be stopped") }
    task::settle();
    let e = export(&m);
    for i in 0..3 {
        if i == k { continue; }
        match e.get(NAMES[i]) { Some(x) => check(x.get_visitors() == i as u32 + 1 && x.get_difficulty() == 10 + i as u32, "a site's data is its own"), None => fail("a site is exported whether or not another one is stopped") }
    }
    ask_ok(&m, SetInternalData { mcaptcha: map });
    task::settle();
    restored(&m, d);
    cover("stopped");
    end();
}
/// C09: a site whose counter somebody stops at any point of a clean-up.
pub fn cleaned_stopped(reorder: usize) {
    let (gc, d) = (100, u64::from(u16v("duration")));
    assume((d > 0) & (d < 90));
    let m = Master::new(gc).start();
    task::settle();
    for i in 0..3 { ask_ok(&m, AddSite { id: NAMES[i].into(), mcaptcha: mcaptcha(&[(5, 10 + i as u32), (6, 20)], d) }); }
    for i in 0..3 { visit(&m, NAMES[i]); }
    // one of the others may be busy at the clean-up
    let busy = choose("busy", 4);
    task::settle();
    while time::fire_next(Duration::new(gc, 0) - Duration::new(0, 1)) { task::settle(); }
    if busy < 3 { visit(&m, NAMES[busy]); }
    let k = choose("stopped", 3);
    let a = site(&m, NAMES[k]);
    time::fire_next(Duration::new(gc, 0));
    task::set_reorder(reorder);
    for _ in 0..choose("steps", 16) { if !task::step() { end(); } }
    cover("in the middle");
    // (it may be gone by then)
    task::start(async move { a.send(Stop).await.is_ok() });
    task::settle();
    for i in 0..3 {
        if i == k || i != busy { continue; }
        let Some(r) = visit(&m, NAMES[i]) else { fail("a site with counted visitors keeps answering") };
        check(r.difficulty_factor == 10 + i as u32, "a site's data is its own");
    }
    task::advance(Duration::new(2 * gc, 500_000_000));
    task::advance(Duration::new(gc, 0));
    for i in 0..3 {
        match try_ask(&m, AddVisitor(NAMES[i].into())) {
            Some(Ok(None)) => {}
            Some(Ok(Some(_))) => fail("an idle site is removed"),
            _ => fail("a stopped site is removed"),
        }
    }
    cover("removed");
    end();
}

fn restored(m: &Addr<Master>, d: u64) {
    let e = export(m);
    check(e.len() == 3, "the same sites are there");
    for i in 0..3 {
        let Some(x) = e.get(NAMES[i]) else { fail("the same sites are there") };
        check(x.get_visitors() == i as u32 + 1 && x.get_difficulty() == 10 + i as u32 && x.get_duration() == d, "the restored site has the exported count, level, ladder and duration");
        match visit(m, NAMES[i]) { Some(r) => check(r.difficulty_factor == 10 + i as u32 && r.duration == d, "a restored site answers"), None => fail("a restored site answers") }
    }
}

/// C10: an import at any point of a clean-up that finds the sites idle.
pub fn restored_meanwhile(reorder: usize) {
    let (gc, d) = (100, 30);
    let m = Master::new(gc).start();
    task::settle();
    let mut map = vstd::collections::HashMap::new();
    for i in 0..3 {
        let x = mcaptcha(&[(5, 10 + i as u32), (6, 20)], d);
        ask_ok(&m, AddSite { id: NAMES[i].into(), mcaptcha: x.clone() });
        map.insert(NAMES[i].to_string(), with_visitors(x, i as u32 + 1));
    }
    // the sites have been used, or one of them has not
    let unused = choose("never used", 4);
    for i in 0..3 { if i != unused { visit(&m, NAMES[i]); } }
    task::settle();
    while time::fire_next(Duration::new(gc, 0) - Duration::new(0, 1)) { task::settle(); }
    time::fire_next(Duration::new(gc, 0));
    task::set_reorder(reorder);
    for _ in 0..choose("steps", 24) { if !task::step() { end(); } }
    cover("in the middle");
    let m2 = m.clone();
    let slot = task::start(async move { match m2.send(SetInternalData { mcaptcha: map }).await { Ok(rx) => matches!(rx.await, Ok(Ok(()))), Err(_) => false } });
    task::settle();
    check(slot.take() == Some(true), "an import is answered");
    restored(&m, d);
    task::advance(Duration::new(2 * gc + d, 500_000_000));
    check(export(&m).is_empty(), "imported visitors are released and the idle sites removed");
    cover("restored");
    end();
}

fn many_sites(m: &Addr<Master>, n: usize, d: u64) -> (Vec<String>, u32) {
    let f = u32v("difficulty");
    assume((f > 0) & (f < u32::MAX - 10_000));
    let mut v = vec![];
    for i in 0..n {
        let id = format!("site {i}");
        ask_ok(m, AddSite { id: id.clone(), mcaptcha: mcaptcha(&[(5, f + i as u32), (6, f + 10_000)], d) });
        v.push(id);
    }
    (v, f)
}
/// C08: many sites.
pub fn many(n: usize) {
    let m = Master::new(1_000_000_000).start();
    let (mut names, f) = many_sites(&m, n, 100);
    for i in (0..n).step_by(10) {
        ask_ok(&m, Rename { name: names[i].clone(), rename_to: format!("other {i}") });
        check(visit(&m, &names[i]).is_none(), "a renamed site is not found under its old name");
        names[i] = format!("other {i}");
    }
    for i in (1..n).step_by(10) { ask_ok(&m, RemoveCaptcha(names[i].clone())); }
    for i in 0..n {
        if i % 10 == 1 { check(visit(&m, &names[i]).is_none(), "a removed site is gone"); }
        else { check(answers(&m, &names[i], f + i as u32), "a visitor is answered by the site of that name"); }
    }
    let e = export(&m);
    check(e.len() == n - (n + 8) / 10, "the sites are those registered");
    for i in 0..n { if i % 10 != 1 { check(matches!(e.get(&names[i]), Some(x) if x.get_visitors() == 1), "the sites' visitors are their own"); } }
    cover("many");
    end();
}
/// C09: many sites, idle, busy and unused.
pub fn many_cleaned(n: usize) {
    let m = Master::new(100).start();
    let (names, f) = many_sites(&m, n, 150);
    for i in 0..n { if i % 10 != 3 { visit(&m, &names[i]); } }
    task::advance(Duration::new(120, 0));
    for i in 0..n { if i % 10 == 5 { check(answers(&m, &names[i], f + i as u32), "a site with counted visitors keeps answering"); } }
    // at 200 s those that were not visited again are idle
    task::advance(Duration::new(120, 0));
    let e = export(&m);
    for i in 0..n {
        let gone = !(i % 10 == 3 || i % 10 == 5);
        check(e.get(&names[i]).is_none() == gone, "a clean-up removes exactly the used sites that are idle");
    }
    cover("many");
    end();
}
/// C10: many sites.
pub fn many_restored(n: usize) {
    let m = Master::new(1_000_000_000).start();
    let (names, f) = many_sites(&m, n, 150);
    for i in 0..n { for _ in 0..i % 3 { visit(&m, &names[i]); } }
    let e = export(&m);
    check(e.len() == n, "all sites are exported");
    let t = match choose("into", 2) { 0 => Master::new(1_000_000_000).start(), _ => { for i in 0..n / 2 { ask_ok(&m, RemoveCaptcha(names[i].clone())); } m } };
    ask_ok(&t, SetInternalData { mcaptcha: e });
    task::settle();
    let g = export(&t);
    check(g.len() == n, "the same sites are there");
    for i in 0..n {
        let Some(x) = g.get(&names[i]) else { fail("the same sites are there") };
        check(x.get_visitors() == i as u32 % 3 && x.get_difficulty() == f + i as u32 && x.get_duration() == 150, "the restored site has the exported count, level, ladder and duration");
    }
    cover("many");
    end();
}
