//! C06: difficulty moves one level at a time with the load and stays on the ladder.
use crate::util::*;
use libmcaptcha::*;
use symrt::*;

fn at_level(l: &[(u32, u32)], k: usize) -> Defense {
    let mut d = defense(l);
    for _ in 0..k { d.tighten_up(); }
    d
}

fn in_force(d: &Defense, l: &[(u32, u32)], k: usize, what: &str) {
    let mut t = 0;
    let mut f = 0;
    for i in 0..l.len() { if i == k { t = l[i].0; f = l[i].1; } }
    let c = d.current_level();
    check((c.visitor_threshold == t) & (c.difficulty_factor == f), what);
    check(d.get_difficulty() == f, "the difficulty reported is that of the level in force");
    check(d.visitor_threshold() == t, "the threshold reported is that of the level in force");
}

/// One visitor from any state of a site with `n` levels.
pub fn step(n: usize) {
    let l = any_ladder(n);
    let k = choose("level", n);
    let v = u32v("visitors");
    let mut m = with_visitors(mcaptcha_of(at_level(&l, k), 30), v);
    check(m.get_visitors() == v, "the visitor count reported is the stored one");
    in_force(&m.get_defense(), &l, k, "the stored level is in force");
    m.add_visitor();
    let v2 = v.saturating_add(1);
    check(m.get_visitors() == v2, "one visitor more, never wrapping");
    let k2 = if v2 > l[k].0 { if k + 1 < n { k + 1 } else { k } } else if k > 0 { k - 1 } else { 0 };
    in_force(&m.get_defense(), &l, k2, "one level up above the threshold, one down otherwise, within the ladder");
    check(m.get_difficulty() == l[k2].1, "the site reports the difficulty of the level in force");
    check(m.get_duration() == 30, "the duration is unchanged");
    cover(if k2 > k { "up" } else if k2 < k { "down" } else if k == 0 { "bottom" } else { "top" });
}

/// One release of any amount from any state.
pub fn release(n: usize) {
    let l = any_ladder(n);
    let k = choose("level", n);
    let v = u32v("visitors");
    let c = u32v("count");
    let mut m = with_visitors(mcaptcha_of(at_level(&l, k), 30), v);
    m.decrement_visitor_by(c);
    check(m.get_visitors() == v.saturating_sub(c), "lowered by the amount, not below zero");
    in_force(&m.get_defense(), &l, k, "releasing visitors does not change the level");
    check(m.get_difficulty() == l[k].1, "the site reports the difficulty of the level in force");
    cover("released");
}

/// The defense on its own: every operation from every level.
pub fn moves(n: usize) {
    let l = any_ladder(n);
    let k = choose("level", n);
    let mut d = at_level(&l, k);
    in_force(&d, &l, k, "tightening moves up one level");
    let k2 = match choose("op", 4) {
        0 => { d.tighten_up(); if k + 1 < n { k + 1 } else { k } }
        1 => { d.loosen_up(); if k > 0 { k - 1 } else { 0 } }
        2 => { d.max_defense(); n - 1 }
        _ => { d.min_defense(); 0 }
    };
    in_force(&d, &l, k2, "tighten, loosen, maximum and minimum stay on the ladder");
    d.tighten_up();
    in_force(&d, &l, if k2 + 1 < n { k2 + 1 } else { k2 }, "tightening works from there");
    cover("moved");
}

/// A history of visitors and releases from the start, against a reference.
pub fn history(n: usize, ops: usize) {
    let l = any_ladder(n);
    let mut m = mcaptcha(&l, 30);
    let (mut v, mut k) = (0u32, 0usize);
    for _ in 0..ops {
        if choose("op", 2) == 0 {
            m.add_visitor();
            v += 1;
            if v > l[k].0 { if k + 1 < n { k += 1 } } else if k > 0 { k -= 1 }
        } else {
            let c = u32v("count");
            m.decrement_visitor_by(c);
            v = v.saturating_sub(c);
        }
        check(m.get_visitors() == v, "the visitor count follows the history");
        check(m.get_difficulty() == l[k].1, "the level follows the history");
    }
    cover("history");
}
