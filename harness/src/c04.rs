//! C04: cached challenges and tokens live for exactly their duration.
use crate::util::*;
use actix::prelude::*;
use libmcaptcha::cache::hashcache::HashCache;
use libmcaptcha::cache::messages::*;
use std::time::Duration;
use symrt::*;

struct Entry { pow: bool, name: String, key: String, d: u32, life: u64, at: Duration, gone: bool }

fn put(c: &Addr<HashCache>, pow: bool, name: &str, key: &str, wide: bool) -> Entry {
    let life = if wide { u64v("lifetime") } else { u16v("lifetime") as u64 };
    assume((life > 0) & (life < 1 << 40));
    let d = u32v("difficulty");
    if pow {
        ask_ok(c, CachePoW { string: name.into(), difficulty_factor: d, duration: life, key: key.into() });
    } else {
        ask_ok(c, CacheResult { token: name.into(), key: key.into(), duration: life });
    }
    Entry { pow, name: name.into(), key: key.into(), d, life, at: time::now(), gone: false }
}

/// Is the entry alive? Exactly at its end either answer is right, so those moments are left out.
fn alive(e: &Entry) -> bool {
    let end = e.at + Duration::new(e.life, 0);
    assume(time::now() != end);
    !e.gone & (time::now() < end)
}

fn take(c: &Addr<HashCache>, e: &mut Entry) {
    let live = alive(e);
    if e.pow {
        let r = ask_ok(c, RetrivePoW(VerifyCaptchaResult { token: e.name.clone(), key: e.key.clone() }));
        match r {
            Some(p) => {
                check(live, "an expired or consumed challenge is not retrievable");
                check((p.difficulty_factor == e.d) & (p.duration == e.life), "the stored difficulty and duration are returned");
                check(p.key == e.key, "the stored site is returned");
                cover("challenge alive");
            }
            None => { check(!live, "a challenge is retrievable until its lifetime ends"); cover("challenge gone"); }
        }
    } else {
        let r = ask_ok(c, VerifyCaptchaResult { token: e.name.clone(), key: e.key.clone() });
        if r { check(live, "an expired or consumed token is not confirmed"); cover("token alive"); }
        else { check(!live, "a token is confirmed until its lifetime ends"); cover("token gone"); }
    }
    e.gone = true;
}

/// `n` entries stored at any times with any lifetimes; then everything is retrieved at some moment, and again later.
/// `same`: challenges and tokens have the same names.
pub fn expiry(n: usize, wide: bool) {
    let gap = |n: &str| if wide { any_gap(n, 1 << 40) } else { Duration::new(u16v(n) as u64, 300_000_000) };
    let c = HashCache::default().start();
    let mut es = vec![];
    let names = ["alpha", "beta", "gamma"];
    let kinds = choose("kinds", 1 << n);
    let keys = ["site", "other", "site"];
    for i in 0..n {
        if i > 0 { task::advance(gap("gap")); }
        let pow = kinds >> i & 1 == 0;
        // a token may carry the name of a challenge: they are kept apart
        let name = if pow { names[i] } else { names[(i + 1) % n] };
        es.push(put(&c, pow, name, keys[i], wide));
    }
    task::advance(gap("wait"));
    let first = choose("consumed first", n);
    take(&c, &mut es[first]);
    task::advance(gap("later"));
    for i in 0..n { take(&c, &mut es[i]); }
    for i in 0..n { take(&c, &mut es[i]); }
}

/// Explicit deletion removes that entry and nothing else.
pub fn deletion() {
    let c = HashCache::default().start();
    let mut es = vec![put(&c, true, "a", "site", false), put(&c, true, "b", "site", false), put(&c, false, "a", "site", false), put(&c, false, "b", "site", false)];
    let k = choose("deleted", 4);
    if es[k].pow {
        let m = DeletePoW(es[k].name.clone());
        let c2 = c.clone();
        check(matches!(now_or("deletion is answered", async move { c2.send(m).await }), Ok(Ok(()))), "deletion succeeds");
    } else {
        let m = DeleteCaptchaResult { token: es[k].name.clone() };
        let c2 = c.clone();
        check(matches!(now_or("deletion is answered", async move { c2.send(m).await }), Ok(Ok(()))), "deletion succeeds");
    }
    es[k].gone = true;
    task::advance(Duration::new(u16v("wait") as u64, 300_000_000));
    for e in es.iter_mut() { take(&c, e); }
    cover("deletion");
}

/// Strings of any form: what makes two entries different is only that their strings differ.
pub fn any_names(long: bool) {
    let c = HashCache::default().start();
    let (a, b) = if long { alike("string") } else { (string("string", choose("length", 4)), string("other", choose("length", 4))) };
    assume(a != b);
    let pow = choose("kind", 2) == 0;
    let (ka, kb) = if long { let n = 250 + a.len() % 13; ("k".repeat(n), format!("{}x", "k".repeat(n))) } else { (string("key", 1), string("key", 2)) };
    let mut es = vec![put(&c, pow, &a, &ka, false), put(&c, pow, &b, &kb, false)];
    // a token of the same string as a challenge is something else
    es.push(put(&c, !pow, &a, &kb, false));
    task::advance(Duration::new(u16v("wait") as u64, 300_000_000));
    let first = choose("consumed first", 3);
    take(&c, &mut es[first]);
    for e in es.iter_mut() { take(&c, e); }
    cover("names");
}

/// Many entries of both kinds at once.
pub fn many(n: usize) {
    let c = HashCache::default().start();
    let life = u16v("lifetime") as u64;
    assume(life > 0);
    let mut es = vec![];
    for i in 0..n {
        let (name, key) = (format!("name {i}"), format!("site {}", i % 7));
        ask_ok(&c, CachePoW { string: name.clone(), difficulty_factor: i as u32, duration: life, key: key.clone() });
        ask_ok(&c, CacheResult { token: name.clone(), key: key.clone(), duration: life });
        for pow in [true, false] { es.push(Entry { pow, name: name.clone(), key: key.clone(), d: i as u32, life, at: time::now(), gone: false }); }
    }
    task::advance(Duration::new(u16v("wait") as u64, 300_000_000));
    for e in es.iter_mut() { take(&c, e); }
    for i in [0, n, 2 * n - 1] { take(&c, &mut es[i]); }
    cover("many");
}
