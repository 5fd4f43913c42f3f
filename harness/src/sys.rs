//! The whole system over the in-memory master and cache: C01, C02, C03, C15, C19.
use crate::util::*;
use actix::prelude::*;
use libmcaptcha::cache::hashcache::HashCache;
use libmcaptcha::cache::messages::*;
use libmcaptcha::errors::{CaptchaError as E, CaptchaResult};
use libmcaptcha::master::embedded::counter::GetCurrentVisitorCount;
use libmcaptcha::master::embedded::master::{GetSite, Master};
use libmcaptcha::master::messages::*;
use libmcaptcha::pow::{ConfigBuilder, PoWConfig, Work};
use libmcaptcha::system::{System, SystemBuilder};
use std::rc::Rc;
use std::time::Duration;
use symrt::*;

pub const SALT: &str = "the salt";
pub type Sys = Rc<System<HashCache, Master>>;

pub fn system(runners: usize, queue: usize) -> (Sys, Addr<Master>, Addr<HashCache>) {
    let m = Master::new(1_000_000).start();
    let c = HashCache::default().start();
    let pow = ConfigBuilder::default().salt(SALT.into()).build().unwrap();
    let s = SystemBuilder::default().master(m.clone()).cache(c.clone()).pow(pow).runners(runners).queue_length(queue).build();
    (Rc::new(s), m, c)
}

pub fn add_site(m: &Addr<Master>, id: &str, l: &[(u32, u32)], d: u64) { ask_ok(m, AddSite { id: id.into(), mcaptcha: mcaptcha(l, d) }); }

pub fn challenge(s: &Sys, id: &str) -> PoWConfig {
    match get(s, id) { Some(p) => p, None => fail("a registered site hands out a challenge") }
}
pub fn get(s: &Sys, id: &str) -> Option<PoWConfig> {
    let (s, id) = (s.clone(), id.to_string());
    match now_or("a challenge request is answered", async move { s.get_pow(id).await }) { Ok(p) => p, Err(_) => fail("a challenge request does not fail") }
}
pub fn submit(s: &Sys, w: Work, ip: &str) -> CaptchaResult<(String, u32)> {
    let (s, ip) = (s.clone(), ip.to_string());
    now_or("a submission is answered", async move { s.verify_pow(w, ip).await })
}
pub fn validate(s: &Sys, token: &str, key: &str) -> bool {
    let s = s.clone();
    let m = VerifyCaptchaResult { token: token.into(), key: key.into() };
    match now_or("a validation is answered", async move { s.validate_verification_tokens(m).await }) { Ok(b) => b, Err(_) => fail("a validation does not fail") }
}
fn work(string: &str, key: &str, result: &str, nonce: u64) -> Work { Work { string: string.into(), result: result.into(), nonce, key: key.into() } }
fn good(string: &str, result: &str, nonce: u64) {
    mcaptcha_pow_sha256::set_score(result, u32::MAX);
    mcaptcha_pow_sha256::set_valid(SALT, string, nonce, result, true);
}

/// C03: one submission of any work for a challenge issued earlier, the load having changed since.
pub fn verdict() {
    let (s, m, _) = system(1 + choose("runners", 2), 4);
    let l = any_ladder(2);
    let d = u16v("duration") as u64;
    assume(d > 0);
    add_site(&m, "site", &l, d);
    add_site(&m, "twin", &[(1, 5)], d);
    let mut others = vec![];
    let before = choose("visitors before", 2);
    for _ in 0..before { others.push(challenge(&s, "site")); }
    let c = challenge(&s, "site");
    let after = choose("visitors after", 2);
    for _ in 0..after { others.push(challenge(&s, "site")); }
    check(c.salt == SALT, "the system's salt is handed out");
    let nonce = u64v("nonce");
    let score = u32v("score");
    let valid = boolv("valid");
    mcaptcha_pow_sha256::set_score("result", score);
    mcaptcha_pow_sha256::set_valid(SALT, &c.string, nonce, "result", valid);
    // the string issued with the key of its site, of another site, or of none; or some other string
    let (known, own, string, key) = match choose("submitted", 4) {
        0 => (true, true, c.string.clone(), "site".to_string()),
        1 => (true, false, c.string.clone(), "twin".to_string()),
        2 => {
            let k = string("key", 2 + choose("length", 5));
            assume(k != "site");
            (true, false, c.string.clone(), k)
        }
        _ => {
            let x = string("string", 31 + choose("length", 3));
            assume(x != c.string);
            for o in &others { assume(x != o.string); }
            (false, false, x, ["site", "twin"][choose("site", 2)].to_string())
        }
    };
    let r = submit(&s, work(&string, &key, "result", nonce), "1.1.1.1");
    if !known {
        check(matches!(r, Err(E::StringNotFound)), "a string that was not handed out is not found");
        cover("unknown");
        return;
    }
    if !own {
        check(matches!(r, Err(E::MCaptchaKeyValidationFail)), "work for another site is refused as such");
        cover("wrong site");
        return;
    }
    match r {
        Ok((t, f)) => {
            check(score >= c.difficulty_factor, "work below the issued difficulty is refused");
            check(valid, "an invalid proof is refused");
            check(f == c.difficulty_factor, "the difficulty reported is the one issued");
            check(validate(&s, &t, "site"), "the token validates for the submitted site");
            cover("accepted");
        }
        Err(e) => {
            let short = score < c.difficulty_factor;
            check(short | !valid, "sufficient and valid work for an outstanding challenge is accepted");
            check(matches!(e, E::InsuffiencientDifficulty | E::InvalidPoW), "the refusal names the work");
            cover("refused");
        }
    }
}

/// C03: a challenge issued at any level of a long ladder, the load having changed since.
pub fn long_ladder(n: usize) {
    let (s, m, _) = system(1, 4);
    let l = crate::long::levels(n);
    let mut d = defense(&l);
    let k = choose("level", n);
    for _ in 0..k { d.tighten_up(); }
    let v = u32v("visitors");
    assume(v < u32::MAX - 10);
    ask_ok(&m, AddSite { id: "site".into(), mcaptcha: with_visitors(mcaptcha_of(d, 300), v) });
    let c = challenge(&s, "site");
    let k = if v + 1 > l[k].0 { (k + 1).min(n - 1) } else { k.max(1) - 1 };
    check(c.difficulty_factor == l[k].1, "the challenge has the difficulty of the level in force");
    for _ in 0..2 { challenge(&s, "site"); }
    let score = u32v("score");
    mcaptcha_pow_sha256::set_score("result", score);
    mcaptcha_pow_sha256::set_valid(SALT, &c.string, 1, "result", true);
    match submit(&s, work(&c.string, "site", "result", 1), "1.1.1.1") {
        Ok((_, f)) => {
            check(score >= c.difficulty_factor, "work below the issued difficulty is refused");
            check(f == c.difficulty_factor, "the difficulty reported is the one issued");
            cover("accepted");
        }
        Err(e) => {
            check(score < c.difficulty_factor, "sufficient and valid work for an outstanding challenge is accepted");
            check(matches!(e, E::InsuffiencientDifficulty), "the refusal names the work");
            cover("refused");
        }
    }
}

/// C01, C02, C03, C19: two sites of long names that are alike.
pub fn alike_sites() {
    sched::set_delays(0);
    let (s, m, _) = system(1, 4);
    let (a, b) = alike("site");
    add_site(&m, &a, &[(1, 5)], 1000);
    add_site(&m, &b, &[(1, 9)], 1000);
    let (p, q) = (challenge(&s, &a), challenge(&s, &b));
    check((p.difficulty_factor, q.difficulty_factor) == (5, 9), "each site has its own difficulty");
    check((count(&m, &a), count(&m, &b)) == (1, 1), "exactly one visitor is counted, on that site");
    good(&p.string, "r", 1);
    good(&q.string, "r", 1);
    let wrong = choose("wrong site first", 2) == 1;
    if wrong { check(matches!(submit(&s, work(&p.string, &b, "r", 1), "ip"), Err(E::MCaptchaKeyValidationFail)), "work for another site is refused as such"); }
    let p = if wrong { challenge(&s, &a) } else { p };
    good(&p.string, "r", 1);
    let Ok((t, f)) = submit(&s, work(&p.string, &a, "r", 1), "ip") else { fail("sufficient and valid work for an outstanding challenge is accepted") };
    check(f == 5, "the difficulty reported is the one issued");
    let Ok((u, f)) = submit(&s, work(&q.string, &b, "r", 1), "ip") else { fail("sufficient and valid work for an outstanding challenge is accepted") };
    check(f == 9, "the difficulty reported is the one issued");
    check(!validate(&s, &t, &b), "a token is confirmed only for its own site");
    check(validate(&s, &u, &b), "a fresh token is confirmed for its own site");
    check(!validate(&s, &u, &b), "a token is confirmed at most once");
    check(matches!(submit(&s, work(&q.string, &b, "r", 1), "ip"), Err(E::StringNotFound)), "a redeemed challenge is not found");
    cover("alike");
}

struct Held { open: bool, key: u64, started: Vec<usize>, allowed: usize }
static HELD: Global<Held> = Global::new();
fn held() -> &'static mut Held { HELD.get(|| Held { open: false, key: sched::new_key(), started: vec![], allowed: 0 }) }
/// Judging takes until it is allowed to go on.
fn hold(result: &str) {
    let h = held();
    let Ok(k) = result.parse::<usize>() else { return };
    if h.started.contains(&k) { return; }
    h.started.push(k);
    let mine = h.started.len();
    while !held().open && held().allowed < mine { sched::park(held().key); }
}
type Verdict = Rc<std::cell::RefCell<Option<CaptchaResult<(String, u32)>>>>;

/// C11 to C13 for submissions of work, each on a thread of its own: two addresses that are alike, and a third.
pub fn served(prop: u32) {
    let chk = |p: u32, c: bool, msg: &str| if p == prop { check(c, msg) };
    sched::set_delays(0);
    let (s, m, _) = system(1, 2);
    add_site(&m, "site", &[(1, 5)], 100_000);
    mcaptcha_pow_sha256::on_judgement(hold);
    const PAIRS: [&str; 10] = ["10.0.0.1", "10.0.0.11", "2001:db8::1", "2001:db8::2", "10.0.0.1:80", "10.0.0.1:81", "::ffff:10.0.0.1", "10.0.0.1", "10.0.0.1", "10.0.1.1"];
    let (a, b) = match choose("form", 3) {
        0 => alike("address"),
        1 => { let (x, y) = (string("address", choose("length", 4)), string("address", choose("length", 4))); assume(x != y); (x, y) }
        _ => { let i = choose("pair", PAIRS.len() / 2); (PAIRS[2 * i].to_string(), PAIRS[2 * i + 1].to_string()) }
    };
    let c = "a third address".to_string();
    let mut v: Vec<(usize, Verdict)> = vec![];
    let go = |v: &mut Vec<(usize, Verdict)>, who: usize| {
        let p = challenge(&s, "site");
        let r = v.len().to_string();
        good(&p.string, &r, 1);
        let out: Verdict = Rc::new(std::cell::RefCell::new(None));
        let (s, o, w, ip) = (s.clone(), out.clone(), work(&p.string, "site", &r, 1), [&a, &b, &c][who].clone());
        sched::spawn(Box::new(move || { let x = task::block_on(s.verify_pow(w, ip)); *o.borrow_mut() = Some(x); }));
        task::settle();
        v.push((who, out));
    };
    let full = |v: &Vec<(usize, Verdict)>| matches!(*v[v.len() - 1].1.borrow(), Some(Err(E::QueueFull)));
    for who in [0, 0, 1] { go(&mut v, who); chk(13, !full(&v), "a submission is refused only while the queue is full"); }
    go(&mut v, 2);
    chk(13, full(&v), "no more addresses wait than configured");
    for who in [1, 0, 0] { go(&mut v, who); chk(13, !full(&v), "an address that is already waiting is not refused"); }
    // the third address' submission is over
    let n = v.len();
    for i in 1..n {
        held().allowed = i;
        sched::progress(held().key);
        task::settle();
    }
    let h: Vec<usize> = held().started.iter().map(|k| v[*k].0).collect();
    let order: Vec<usize> = held().started.clone();
    chk(13, !h.contains(&2), "a refused job is never run");
    chk(11, h.iter().filter(|x| **x < 2).count() == n - 1, "every accepted job is run");
    for i in 0..order.len() { for j in 0..i { chk(11, h[i] != h[j] || order[j] < order[i], "jobs of one address are run in order"); chk(11, order[i] != order[j], "a job is run once"); } }
    if h.len() >= 5 { chk(12, h[1] != h[2] && h[3] != h[4], "addresses are served in turns"); }
    for (k, (who, x)) in v.iter().enumerate() {
        if *who == 2 { continue; }
        chk(11, matches!(*x.borrow(), Some(Ok((_, 5)))), "every accepted job is run and its requester answered");
        let _ = k;
    }
    held().open = true;
    sched::progress(held().key);
    go(&mut v, 2);
    chk(13, matches!(*v[v.len() - 1].1.borrow(), Some(Ok(_))), "once waiting jobs have been run the capacity is available again");
    cover("served");
    end();
}

/// C03/C19: what the tests cannot vary: sites' lifetimes. Work handed in after the challenge's lifetime is late.
pub fn late() {
    let (s, m, _) = system(1, 4);
    let d = u16v("duration") as u64;
    assume(d > 0);
    add_site(&m, "site", &[(1, 5), (9, 7)], d);
    let c = challenge(&s, "site");
    good(&c.string, "result", 1);
    task::advance(Duration::new(u16v("wait") as u64, 300_000_000));
    let in_time = time::now() < Duration::new(d, 0);
    match submit(&s, work(&c.string, "site", "result", 1), "ip") {
        Ok((t, _)) => {
            check(in_time, "an expired challenge is not accepted");
            let t0 = time::now();
            task::advance(Duration::new(u16v("wait") as u64, 400_000_000));
            let end = t0 + Duration::new(d, 0);
            check(validate(&s, &t, "site") == (time::now() < end), "a token is good for exactly the site's duration");
            cover("in time");
        }
        Err(e) => { check(!in_time, "a challenge is good for the site's duration"); check(matches!(e, E::StringNotFound), "an expired challenge is not found"); cover("late"); }
    }
}

/// C01: several submissions of two challenges, in any order and with any outcome.
pub fn redeem(n: usize, room: usize) {
    let (s, m, _) = system(1, room);
    add_site(&m, "site", &[(1, 5), (2, 9)], 1000);
    add_site(&m, "twin", &[(1, 5)], 1000);
    let cs = [challenge(&s, "site"), challenge(&s, "site")];
    check(cs[0].string != cs[1].string, "challenges differ");
    let mut used = [false, false];
    let mut tokens: Vec<String> = vec![];
    for i in 0..n {
        let k = choose("challenge", 3);
        let own = choose("key", 2) == 0;
        let key = if own { "site" } else { "twin" };
        let r = ["r0", "r1", "r2", "r3", "r4"][i];
        if k == 2 {
            check(matches!(submit(&s, work("never handed out", key, r, 0), "ip"), Err(E::StringNotFound)), "a string never handed out is not found");
            continue;
        }
        mcaptcha_pow_sha256::set_score(r, u32v("score"));
        match submit(&s, work(&cs[k].string, key, r, i as u64), "ip") {
            Ok((t, _)) => {
                check(!used[k], "a challenge is accepted at most once, and not after any submission");
                check(own, "a challenge is not accepted for another site");
                check(room > 0, "a full queue runs nothing");
                for o in &tokens { check(*o != t, "tokens differ"); }
                tokens.push(t);
                cover("accepted");
            }
            Err(e) => {
                if used[k] { check(matches!(e, E::StringNotFound), "a submitted challenge is not found again"); cover("replayed"); }
                else {
                    check(!matches!(e, E::StringNotFound), "an outstanding challenge is found");
                    if room == 0 && own { check(matches!(e, E::QueueFull), "a full queue refuses"); cover("full"); }
                    cover("refused");
                }
            }
        }
        used[k] = true;
    }
    // a challenge never submitted is still good
    for k in 0..if room > 0 { 2 } else { 0 } {
        if !used[k] {
            good(&cs[k].string, "fresh", 77);
            check(submit(&s, work(&cs[k].string, "site", "fresh", 77), "ip").is_ok(), "submissions of one challenge do not use up another");
        }
    }
}

/// C01: submissions of the same challenge in flight at the same time.
pub fn race(n: usize) {
    let (s, m, _) = system(2, 4);
    add_site(&m, "site", &[(1, 5), (2, 9)], 1000);
    let c = challenge(&s, "site");
    let mut slots = vec![];
    task::set_reorder(3);
    for i in 0..n {
        let r = ["r0", "r1", "r2"][i];
        good(&c.string, r, i as u64);
        let (s2, w) = (s.clone(), work(&c.string, "site", r, i as u64));
        let ip = ["ip1", "ip2", "ip3"][choose("ip", 2)].to_string();
        slots.push(task::start(async move { s2.verify_pow(w, ip).await }));
        for _ in 0..choose("steps", 4) { task::step(); }
    }
    task::settle();
    let mut ok = 0;
    for x in slots {
        match x.take() {
            Some(Ok(_)) => ok += 1,
            Some(Err(e)) => check(matches!(e, E::StringNotFound), "the others are told that the string is not found"),
            None => fail("every submission is answered"),
        }
    }
    check(ok == 1, "exactly one of several concurrent submissions of good work is accepted");
    cover("raced");
}

/// C02: tokens of two sites presented in any order with any key, and strings that are no tokens.
pub fn tokens(n: usize) {
    sched::set_delays(0);
    let (s, m, _) = system(1, 4);
    add_site(&m, "site", &[(1, 5)], 1000);
    add_site(&m, "twin", &[(1, 5)], 1000);
    let keys = ["site", "twin"];
    let mut ts = vec![];
    for i in 0..2 {
        let c = challenge(&s, keys[i]);
        good(&c.string, "r", i as u64);
        match submit(&s, work(&c.string, keys[i], "r", i as u64), "ip") { Ok((t, _)) => ts.push(t), Err(_) => fail("good work is accepted") }
        // the challenge itself is no token
        if choose("challenge presented", 2) == 1 { check(!validate(&s, &c.string, keys[i]), "a challenge is not a token"); }
    }
    // nor is one that is still outstanding
    let open = challenge(&s, "site");
    let mut seen = [false, false];
    for _ in 0..n {
        match choose("present", 4) {
            3 => check(!validate(&s, &open.string, keys[choose("key", 2)]), "a challenge is not a token"),
            2 => {
                let x = string("token", 31 + choose("length", 3));
                assume((x != ts[0]) & (x != ts[1]) & (x != open.string));
                check(!validate(&s, &x, keys[choose("key", 2)]), "a string that was never minted is not confirmed");
                cover("forged");
            }
            k => {
                let key = match choose("key", 3) { 2 => { let x = string("key", 3 + choose("length", 3)); assume((x != "site") & (x != "twin")); x } j => keys[j].to_string() };
                let own = key == keys[k];
                let r = validate(&s, &ts[k], &key);
                if r { check(own, "a token is confirmed only for its own site"); check(!seen[k], "a token is confirmed at most once"); cover("confirmed"); }
                else { check(!own || seen[k], "a fresh token is confirmed for its own site"); cover("refused"); }
                seen[k] = true;
            }
        }
    }
    for k in 0..2 { if !seen[k] { check(validate(&s, &ts[k], keys[k]), "other presentations do not use up a token"); } }
    good(&open.string, "r", 7);
    check(submit(&s, work(&open.string, "site", "r", 7), "ip").is_ok(), "presenting tokens does not use up a challenge");
}

fn count(m: &Addr<Master>, id: &str) -> u32 {
    let (m, id) = (m.clone(), id.to_string());
    match now_or("the site is found", async move { m.send(GetSite(id)).await }) {
        Ok(Some(a)) => match now_or("the count is answered", async move { a.send(GetCurrentVisitorCount).await }) { Ok(v) => v, Err(_) => fail("the counter answers") },
        _ => fail("the site is found"),
    }
}

/// C19 over the real master and cache.
pub fn issue(n: usize) {
    let (s, m, c) = system(1, 4);
    let l = any_ladder(2);
    let d = [u16v("duration") as u64, 77];
    assume(d[0] > 0);
    let ids = ["site", "twin"];
    add_site(&m, "site", &l, d[0]);
    let l2 = [(1u32, 3u32), (2, 4)];
    add_site(&m, "twin", &l2, d[1]);
    let (mut v, mut k) = ([0u32; 2], [0usize; 2]);
    let mut out: Vec<(PoWConfig, usize)> = vec![];
    for _ in 0..n {
        let i = choose("request for", 3);
        if i == 2 {
            check(get(&s, "nobody").is_none(), "an unknown site hands out nothing");
            cover("unknown");
        } else {
            let p = challenge(&s, ids[i]);
            v[i] += 1;
            let t = if i == 0 { l[k[0]].0 } else { l2[k[1]].0 };
            if v[i] > t { if k[i] < 1 { k[i] = 1 } } else { k[i] = 0 }
            let f = if i == 0 { l[k[0]].1 } else { l2[k[1]].1 };
            check(p.difficulty_factor == f, "the difficulty is that in force after counting the visitor");
            check(p.salt == SALT, "the system's salt is handed out");
            for (o, _) in &out { check(o.string != p.string, "the challenge string is fresh"); }
            out.push((p, i));
        }
        for i in 0..2 { check(count(&m, ids[i]) == v[i], "exactly one visitor is counted, on that site"); }
    }
    for (p, i) in out {
        let r = ask_ok(&c, RetrivePoW(VerifyCaptchaResult { token: p.string.clone(), key: ids[i].into() }));
        let Some(r) = r else { fail("the challenge handed out is outstanding") };
        check(r.key == ids[i], "it is stored for that site");
        check(r.difficulty_factor == p.difficulty_factor, "it is stored with the difficulty handed out");
        check(r.duration == d[i], "it is stored for the site's duration");
        cover("issued");
    }
}

/// C19, C01: many challenges outstanding at once.
pub fn outstanding(n: usize) {
    sched::set_delays(0);
    let f = u32v("difficulty");
    assume((f > 0) & (f < u32::MAX));
    let (s, m, _) = system(1, 4);
    add_site(&m, "site", &[(2 * n as u32, f), (2 * n as u32 + 1, f + 1)], 1000);
    let ps: Vec<PoWConfig> = (0..n).map(|_| challenge(&s, "site")).collect();
    check(count(&m, "site") == n as u32, "exactly one visitor is counted for each challenge");
    let mut ts = vec![];
    for p in &ps {
        check(p.difficulty_factor == f, "the difficulty is that in force after counting the visitor");
        good(&p.string, "r", 1);
        match submit(&s, work(&p.string, "site", "r", 1), "ip") { Ok((t, _)) => ts.push(t), Err(_) => fail("the challenge handed out is outstanding") }
    }
    // as many again, before anything is presented a second time
    let qs: Vec<PoWConfig> = (0..n).map(|_| challenge(&s, "site")).collect();
    for p in &ps { check(matches!(submit(&s, work(&p.string, "site", "r", 1), "ip"), Err(E::StringNotFound)), "a challenge is redeemed at most once"); }
    for t in &ts { check(validate(&s, t, "site"), "a token is confirmed for its own site"); }
    for p in &qs {
        good(&p.string, "r", 1);
        match submit(&s, work(&p.string, "site", "r", 1), "ip") { Ok(_) => {}, Err(_) => fail("the challenge handed out is outstanding") }
    }
    for t in &ts { check(!validate(&s, t, "site"), "a token is confirmed at most once"); }
    cover("many");
}

// C19 against stand-ins: whatever the master and the cache answer
struct FakeMaster { asked: Rc<std::cell::RefCell<Vec<String>>>, answer: usize, d: u64, f: u32 }
impl Actor for FakeMaster { type Context = Context<Self>; }
impl libmcaptcha::master::Master for FakeMaster {}
macro_rules! unused { ($t:ty, $($m:ty),*) => { $(impl Handler<$m> for $t { type Result = MessageResult<$m>; fn handle(&mut self, _: $m, _: &mut Self::Context) -> Self::Result { fail("only a visitor is added, a challenge stored") } })* } }
unused!(FakeMaster, AddSite, Rename, RemoveCaptcha, SetInternalData, GetInternalData);
impl Handler<AddVisitor> for FakeMaster {
    type Result = MessageResult<AddVisitor>;
    fn handle(&mut self, m: AddVisitor, _: &mut Self::Context) -> Self::Result {
        self.asked.borrow_mut().push(m.0);
        let (tx, rx) = tokio::sync::oneshot::channel();
        let _ = match self.answer {
            0 => tx.send(Ok(Some(libmcaptcha::AddVisitorResult { duration: self.d, difficulty_factor: self.f }))),
            1 => tx.send(Ok(None)),
            2 => tx.send(Err(E::MailboxError)),
            _ => { drop(tx); Ok(()) }
        };
        MessageResult(rx)
    }
}
struct FakeCache { stored: Rc<std::cell::RefCell<Vec<CachePoW>>>, answer: usize }
impl Actor for FakeCache { type Context = Context<Self>; }
impl libmcaptcha::cache::Save for FakeCache {}
unused!(FakeCache, RetrivePoW, DeletePoW, CacheResult, VerifyCaptchaResult, DeleteCaptchaResult);
impl Handler<CachePoW> for FakeCache {
    type Result = MessageResult<CachePoW>;
    fn handle(&mut self, m: CachePoW, _: &mut Self::Context) -> Self::Result {
        let (tx, rx) = tokio::sync::oneshot::channel();
        let _ = match self.answer {
            0 => { self.stored.borrow_mut().push(m); tx.send(Ok(())) }
            1 => tx.send(Err(E::MailboxError)),
            _ => { drop(tx); Ok(()) }
        };
        MessageResult(rx)
    }
}
pub fn issue_any() {
    let asked = Rc::new(std::cell::RefCell::new(vec![]));
    let stored = Rc::new(std::cell::RefCell::new(vec![]));
    let (ma, ca) = (choose("master", 4), choose("cache", 3));
    let (d, f) = (u64v("duration"), u32v("difficulty"));
    let m = FakeMaster { asked: asked.clone(), answer: ma, d, f }.start();
    let c = FakeCache { stored: stored.clone(), answer: ca }.start();
    let salt = string("salt", 3);
    let pow = ConfigBuilder::default().salt(salt.clone()).build().unwrap();
    let s: Rc<System<FakeCache, FakeMaster>> = Rc::new(SystemBuilder::default().master(m).cache(c).pow(pow).runners(1).queue_length(2).build());
    let id = string("id", choose("length", 5));
    let (s2, id2) = (s.clone(), id.clone());
    let r = now_or("a challenge request is answered", async move { s2.get_pow(id2).await });
    check(asked.borrow().len() == 1 && asked.borrow()[0] == id, "exactly one visitor, of that site");
    match r {
        Ok(Some(p)) => {
            check(ma == 0 && ca == 0, "a challenge is handed out only if the visitor was counted and the challenge stored");
            let st = stored.borrow();
            check(st.len() == 1, "one challenge is stored");
            check(st[0].string == p.string, "the string handed out is the one stored");
            check(st[0].key == id, "it is stored for that site");
            check((st[0].difficulty_factor == f) & (st[0].duration == d) & (p.difficulty_factor == f), "difficulty and duration are the master's");
            check(p.salt == salt, "the salt is the configured one");
            cover("issued");
        }
        Ok(None) => { check(ma != 0, "a counted visitor gets a challenge or an error"); check(stored.borrow().is_empty(), "nothing is stored"); cover("nothing"); }
        Err(_) => { check(ma != 1 && (ma != 0 || ca != 0), "an error has a cause"); check(ma == 0 || stored.borrow().is_empty(), "nothing is stored"); cover("error"); }
    }
}

/// C15: a request of any kind abandoned at any point; afterwards everything works.
pub fn abandoned() {
    let (s, m, c) = system(1, 2);
    add_site(&m, "site", &[(1, 5), (3, 9)], 1000);
    let p = challenge(&s, "site");
    good(&p.string, "r", 1);
    let s2 = s.clone();
    let w = work(&p.string, "site", "r", 1);
    let kind = choose("request", 4);
    let slot = match kind {
        0 => task::start(async move { let _ = s2.get_pow("site".into()).await; }),
        1 => task::start(async move { let _ = s2.verify_pow(w, "ip".into()).await; }),
        2 => task::start(async move { let _ = s2.validate_verification_tokens(VerifyCaptchaResult { token: "t".into(), key: "site".into() }).await; }),
        _ => { let m2 = m.clone(); task::start(async move { if let Ok(rx) = m2.send(RemoveCaptcha("other".into())).await { let _ = rx.await; } }) }
    };
    let k = choose("abandoned after", 7);
    for _ in 0..k { task::step(); }
    if slot.ready() { cover("completed") } else { cover("abandoned") }
    slot.cancel();
    // and a second one right behind
    if choose("again", 2) == 1 {
        let s2 = s.clone();
        let x = task::start(async move { let _ = s2.get_pow("site".into()).await; });
        for _ in 0..choose("abandoned after", 5) { task::step(); }
        x.cancel();
    }
    task::settle();
    let q = challenge(&s, "site");
    good(&q.string, "r2", 2);
    match submit(&s, work(&q.string, "site", "r2", 2), "ip") {
        Ok((t, _)) => check(validate(&s, &t, "site"), "later requests are served correctly"),
        Err(_) => fail("later requests are served correctly"),
    }
    let _ = c;
    task::advance(Duration::new(2000, 0));
    check(count(&m, "site") == 0, "the counters keep running");
}

/// C14: the system dropped while a verification is at any point.
pub fn dropped(p: usize) {
    let (s, m, _) = system(1, 3);
    add_site(&m, "site", &[(1, 5)], 1000);
    let n = 2;
    let mut slots = vec![];
    let ps: Vec<PoWConfig> = (0..n).map(|_| challenge(&s, "site")).collect();
    sched::set_delays(p);
    for (i, c) in ps.iter().enumerate() {
        let r = ["r0", "r1"][i];
        good(&c.string, r, 1);
        let (s2, w) = (s.clone(), work(&c.string, "site", r, 1));
        slots.push(task::start(async move { s2.verify_pow(w, "ip".into()).await }));
        for _ in 0..choose("steps", 5) { task::step(); }
    }
    let gone = choose("requesters gone", 2) == 1;
    if gone { for x in &slots { x.cancel(); } }
    // the requests that are under way own the system as well
    let last = Rc::strong_count(&s) == 1;
    drop(s);
    if last { check(sched::alive() == 0, "dropping the system returns once all threads have ended"); cover("dropped"); }
    task::settle();
    sched::idle_all();
    check(sched::alive() == 0, "all threads have ended");
    for x in slots { if !gone || x.ready() { match x.take() { Some(r) => check(r.is_ok(), "requests under way are finished first"), None => fail("every requester is notified") } } else { cover("cancelled") } }
    cover("ended");
    end();
}

/// C15: a requester that is slow to look at the verdict (its future is not polled for a while) holds up nobody else.
pub fn unread() {
    let (s, m, _) = system(1, 3);
    add_site(&m, "site", &[(1, 5)], 1000);
    let p = challenge(&s, "site");
    let (score, valid) = (u32v("score"), boolv("valid"));
    mcaptcha_pow_sha256::set_score("r", score);
    mcaptcha_pow_sha256::set_valid(SALT, &p.string, 1, "r", valid);
    let (s2, w) = (s.clone(), work(&p.string, "site", "r", 1));
    let slot = task::start(async move { s2.verify_pow(w, "slow".into()).await });
    for _ in 0..choose("polled", 8) { task::step(); }
    slot.freeze();
    sched::idle_all();
    for i in 0..2 {
        let q = challenge(&s, "site");
        let r = ["r1", "r2"][i];
        good(&q.string, r, 2);
        check(submit(&s, work(&q.string, "site", r, 2), "ip").is_ok(), "other requests are served");
    }
    slot.thaw();
    task::settle();
    match slot.take() {
        Some(r) => check(r.is_ok() == ((score >= p.difficulty_factor) & valid), "the slow requester gets its verdict"),
        None => fail("the slow requester is answered"),
    }
    cover("slow");
}

/// C15: every combination of insufficient and invalid work leaves the workers free.
pub fn bad_work(n: usize) {
    let (s, m, _) = system(1, 3);
    add_site(&m, "site", &[(1, 5)], 1000);
    for i in 0..n {
        let p = challenge(&s, "site");
        let r = ["r0", "r1", "r2"][i];
        let enough = choose("sufficient", 2) == 1;
        let valid = choose("valid", 2) == 1;
        mcaptcha_pow_sha256::set_score(r, if enough { u32::MAX } else { 0 });
        mcaptcha_pow_sha256::set_valid(SALT, &p.string, 9, r, valid);
        let x = submit(&s, work(&p.string, "site", r, 9), "ip");
        check(x.is_ok() == (enough && valid), "the verdict follows the work");
    }
    let p = challenge(&s, "site");
    good(&p.string, "r", 1);
    check(submit(&s, work(&p.string, "site", "r", 1), "ip").is_ok(), "the worker is free again");
    drop(s);
    check(sched::alive() == 0, "all threads ended");
    cover("bad work");
}

/// C02: presentations of one token, right and wrong, in flight at the same time.
pub fn present(n: usize) {
    let (s, m, _) = system(1, 4);
    add_site(&m, "site", &[(1, 5)], 1000);
    let c = challenge(&s, "site");
    good(&c.string, "r", 1);
    let Ok((t, _)) = submit(&s, work(&c.string, "site", "r", 1), "ip") else { fail("good work is accepted") };
    task::set_reorder(3);
    let mut v = vec![];
    for _ in 0..n {
        let own = choose("key", 2) == 0;
        let (s2, m) = (s.clone(), VerifyCaptchaResult { token: t.clone(), key: if own { "site".into() } else { "twin".into() } });
        v.push((own, task::start(async move { s2.validate_verification_tokens(m).await })));
        for _ in 0..choose("steps", 4) { task::step(); }
    }
    task::settle();
    let (mut yes, mut right) = (0, 0);
    for (own, x) in v {
        right += own as usize;
        match x.take() {
            Some(Ok(r)) => if r { check(own, "a token is confirmed only for its own site"); yes += 1; },
            _ => fail("every presentation is answered"),
        }
    }
    check(yes <= 1, "a token is confirmed at most once");
    if right == n { check(yes == 1, "a fresh token is confirmed"); cover("raced"); }
}
