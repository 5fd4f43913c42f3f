//! Long ladders: C03, C05, C06, C10, C16 and C21 on sites of many levels.
use crate::emb;
use crate::util::*;
use libmcaptcha::defense::Level;
use libmcaptcha::errors::CaptchaError as E;
use libmcaptcha::master::embedded::master::Master;
use libmcaptcha::master::messages::*;
use libmcaptcha::*;
use actix::prelude::*;
use symrt::*;

/// `n` levels with neighbouring thresholds and difficulties of all sizes, all different.
pub fn levels(n: usize) -> Vec<(u32, u32)> { (0..n as u32).map(|i| (3 + 7 * i + i % 3, 100 + 65_000 * i)).collect() }
/// An order in which neighbours are apart.
fn order(n: usize) -> Vec<usize> { let mut v: Vec<usize> = (0..n).step_by(2).rev().collect(); v.extend((1..n).step_by(2)); v }

/// C05: a long ladder into which any level is put, at any of several places in the order of insertion.
pub fn ladder(n: usize) {
    let l = levels(n);
    let o = order(n);
    let (t, d) = (u32v("threshold"), u32v("difficulty"));
    let at = [0, 1, n / 2, n - 1, n][choose("position", 5)];
    // equal to one of the others, or between two of them
    let (slot, dup) = (choose("slot", n + 1), choose("duplicate", 2) == 1);
    if dup { assume(slot < n && t == l[slot].0); }
    else { if slot > 0 { assume(t > l[slot - 1].0); } if slot < n { assume(t < l[slot].0); } }
    let mut b = DefenseBuilder::default();
    let mut seen: Vec<usize> = vec![];
    for i in 0..=n {
        if i == at {
            match b.add_level(Level { visitor_threshold: t, difficulty_factor: d }) {
                Ok(_) => check(!dup || !seen.contains(&slot), "a duplicate threshold is refused"),
                Err(E::DuplicateVisitorCount) => { check(dup && seen.contains(&slot), "a new threshold is accepted"); cover("duplicate"); return; }
                Err(e) => { check(e == E::DifficultyFactorZero && d == 0, "a new threshold is accepted"); return; }
            }
        }
        if i == n { break; }
        let x = l[o[i]];
        match b.add_level(Level { visitor_threshold: x.0, difficulty_factor: x.1 }) {
            Ok(_) => check(at > i || !dup || slot != o[i], "a duplicate threshold is refused"),
            Err(e) => { check(at <= i && dup && slot == o[i] && e == E::DuplicateVisitorCount, "a new threshold is accepted"); cover("duplicate"); return; }
        }
        seen.push(o[i]);
    }
    let mut bad = false;
    if slot > 0 { bad |= d < l[slot - 1].1; }
    if slot < n { bad |= d > l[slot].1; }
    match b.build() {
        Err(e) => {
            check(bad | (d == 0), "a valid ladder builds");
            check((bad && e == E::DecreaseingDifficultyFactor) || (d == 0 && e == E::DifficultyFactorZero), "decreasing difficulty is refused as such");
            cover("decreasing");
        }
        Ok(def) => {
            check(!bad, "a ladder whose difficulty decreases is refused");
            check(d != 0, "a ladder with a zero difficulty is refused");
            let low = slot == 0;
            check(def.visitor_threshold() == if low { t } else { l[0].0 }, "starts at the lowest level");
            check(def.get_difficulty() == if low { d } else { l[0].1 }, "starts at the lowest level's difficulty");
            let v: Vec<Level> = def.into();
            check(v.len() == n + 1, "all levels are kept");
            for i in 0..v.len() {
                let x = if i < slot { l[i] } else if i == slot { (t, d) } else { l[i - 1] };
                check((v[i].visitor_threshold == x.0) & (v[i].difficulty_factor == x.1), "exactly the given levels, in ascending order");
            }
            cover("built");
        }
    }
}

fn level_of(l: &[(u32, u32)], k: usize, v: u32) -> usize { if v > l[k].0 { if k + 1 < l.len() { k + 1 } else { k } } else if k > 0 { k - 1 } else { 0 } }

/// C06: one visitor, a release and another, from any level and any count.
pub fn step(n: usize) {
    let l = levels(n);
    let mut k = choose("level", n);
    let mut d = defense(&l);
    for _ in 0..k { d.tighten_up(); }
    let mut v = u32v("visitors");
    let mut m = with_visitors(mcaptcha_of(d, 30), v);
    for i in 0..2 {
        if i == 1 {
            let c = u32v("count");
            m.decrement_visitor_by(c);
            v = v.saturating_sub(c);
            check(m.get_visitors() == v, "lowered by the amount, not below zero");
            check(m.get_difficulty() == l[k].1, "releasing visitors does not change the level");
        }
        m.add_visitor();
        v = v.saturating_add(1);
        check(m.get_visitors() == v, "one visitor more, never wrapping");
        k = level_of(&l, k, v);
        let e = m.get_defense();
        let c = e.current_level();
        check(m.get_difficulty() == l[k].1, "one level up above the threshold, one down otherwise, within the ladder");
        check((c.visitor_threshold == l[k].0) & (c.difficulty_factor == l[k].1), "the level in force carries its difficulty and threshold");
    }
    cover("stepped");
}

/// C06: a crowd that comes, leaves in part, and comes again.
pub fn crowd(n: usize) {
    let l = levels(n);
    let mut m = mcaptcha(&l, 30);
    let (mut v, mut k) = (0u32, 0usize);
    let (c, left) = (u32v("count"), choose("left", 9) as u32);
    assume((c >= 22 * left) & ((c < 22 * left + 22) | (left == 8)));
    for i in 0..2 {
        for _ in 0..[176, 24][i] {
            m.add_visitor();
            v += 1;
            k = level_of(&l, k, v);
            check((m.get_visitors() == v) & (m.get_difficulty() == l[k].1), "the level follows the history");
        }
        if i == 0 { m.decrement_visitor_by(c); v = v.saturating_sub(c); check((m.get_visitors() == v) & (m.get_difficulty() == l[k].1), "releasing visitors does not change the level"); }
    }
    cover("history");
}

/// C21: a site of a long ladder.
pub fn build(n: usize) {
    let mut l = levels(n);
    let i = choose("level", n);
    let (t, f) = (u32v("threshold"), u32v("difficulty"));
    let (lo, hi) = (if i > 0 { l[i - 1] } else { (0, 1) }, if i + 1 < n { l[i + 1] } else { (u32::MAX, u32::MAX) });
    assume((t > lo.0) & (t < hi.0) & (f >= lo.1) & (f <= hi.1));
    l[i] = (t, f);
    let d = u64v("duration");
    assume(d > 0);
    let m = mcaptcha(&l, d);
    check(m.get_duration() == d, "exactly the duration given");
    let got: Vec<Level> = m.get_defense().into();
    check(got.len() == n, "exactly the levels given");
    for i in 0..n { check((got[i].visitor_threshold == l[i].0) & (got[i].difficulty_factor == l[i].1), "exactly the levels given"); }
    let c = CreateMCaptcha::from(m);
    check(c.duration == d, "the creation request carries the duration");
    check(c.levels.len() == n, "the creation request carries the levels");
    for i in 0..n { check((c.levels[i].visitor_threshold == l[i].0) & (c.levels[i].difficulty_factor == l[i].1), "the creation request carries exactly the levels"); }
    cover("built");
}

/// C10: a site of a long ladder exported at any level, imported, and visited.
pub fn restored(n: usize) {
    let l = levels(n);
    let mut k = choose("level", n);
    let mut d = defense(&l);
    for _ in 0..k { d.tighten_up(); }
    let mut v = u32v("visitors");
    assume(v < u32::MAX - 10);
    let m = Master::new(1_000_000_000).start();
    ask_ok(&m, AddSite { id: "site".into(), mcaptcha: with_visitors(mcaptcha_of(d, 300), v) });
    let e = emb::export(&m);
    let Some(x) = e.get("site") else { fail("all sites are exported") };
    check((x.get_visitors() == v) & (x.get_difficulty() == l[k].1), "count and level are exported");
    let mut map = vstd::collections::HashMap::new();
    map.insert("site".to_string(), emb::recode(x));
    let t = Master::new(1_000_000_000).start();
    if choose("there", 2) == 1 { ask_ok(&t, AddSite { id: "site".into(), mcaptcha: mcaptcha(&[(7, 8)], 9) }); }
    ask_ok(&t, SetInternalData { mcaptcha: map });
    task::settle();
    let f = emb::export(&t);
    let Some(y) = f.get("site") else { fail("the same sites are there") };
    check(emb::identical(x, y), "the restored site has the exported count, level, ladder and duration");
    for _ in 0..2 {
        let Some(r) = emb::visit(&t, "site") else { fail("a restored site answers") };
        v += 1;
        k = level_of(&l, k, v);
        check(r.difficulty_factor == l[k].1, "a restored site's level moves from where it was");
    }
    cover("restored");
    end();
}
