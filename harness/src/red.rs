//! The Redis-backed cache and master over a modelled server: C15 (part), C16, C17, C18, C22, C23.
use crate::util::*;
use actix::prelude::*;
use libmcaptcha::cache::messages::*;
use libmcaptcha::cache::redis::RedisCache;
use libmcaptcha::cache::AddChallenge;
use libmcaptcha::errors::CaptchaError as E;
use libmcaptcha::master::messages::*;
use libmcaptcha::master::redis::master::Master;
use libmcaptcha::master::AddVisitorResult;
use libmcaptcha::redis::mcaptcha_redis::{MCaptchaRedis, MCaptchaRedisConnection};
use libmcaptcha::redis::RedisConfig;
use redis::{server, RedisResult, Value as V};
use std::cell::RefCell;
use std::rc::Rc;
use std::time::Duration;
use symrt::*;

const COMMANDS: [&str; 9] = [
    "MCAPTCHA_CACHE.GET", "MCAPTCHA_CACHE.ADD_VISITOR", "MCAPTCHA_CACHE.DELETE_CAPTCHA", "MCAPTCHA_CACHE.ADD_CAPTCHA",
    "MCAPTCHA_CACHE.CAPTCHA_EXISTS", "MCAPTCHA_CACHE.RENAME_CAPTCHA", "MCAPTCHA_CACHE.ADD_CHALLENGE",
    "MCAPTCHA_CACHE.GET_CHALLENGE", "MCAPTCHA_CACHE.DELETE_CHALLENGE",
];
type Reply = RedisResult<V>;
fn bulk(s: &str) -> V { V::BulkString(s.as_bytes().to_vec()) }
fn serve(f: impl FnMut(&[Vec<u8>]) -> Reply + 'static) { server().handler = Some(Box::new(f)); server().log.clear(); }
/// What a server with the module loaded answers to the probes.
fn probe(a: &[Vec<u8>]) -> Option<Reply> {
    if a[0] == b"MODULE" { return Some(Ok(V::Array(vec![V::Array(vec![bulk("name"), bulk("mcaptcha_cache"), bulk("ver"), V::Int(1)])]))); }
    if a[0] == b"COMMAND" { return Some(Ok(V::Array(vec![V::Array(vec![bulk("x"), V::Int(-1)])]))); }
    None
}
fn config(cluster: bool) -> RedisConfig {
    if cluster { RedisConfig::Cluster(vec!["redis://a".into(), "redis://b".into()]) } else { RedisConfig::Single("redis://a".into()) }
}
fn good_server() { serve(|a| match probe(a) { Some(r) => r, None => Ok(V::Okay) }) }
fn cache(cluster: bool) -> Addr<RedisCache> {
    good_server();
    match now_or("connecting returns", RedisCache::new(config(cluster))) { Ok(c) => c.start(), Err(_) => fail("a usable server is accepted") }
}
fn master(cluster: bool) -> Addr<Master> {
    good_server();
    match now_or("connecting returns", Master::new(config(cluster))) { Ok(c) => c.start(), Err(_) => fail("a usable server is accepted") }
}
fn client(cluster: bool) -> MCaptchaRedis {
    good_server();
    match now_or("connecting returns", MCaptchaRedis::new(config(cluster))) { Ok(c) => c, Err(_) => fail("a usable server is accepted") }
}

/// The arguments of the only command sent, which must be `name`.
fn only(name: &str, n: usize) -> Vec<Vec<u8>> {
    let l = &server().log;
    check(l.len() == 1, "exactly one command is sent");
    check(l[0].args[0] == name.as_bytes(), "it is the documented command");
    check(l[0].args.len() == n, "with the documented number of arguments");
    l[0].args.clone()
}
fn is(a: &[u8], s: &str, msg: &str) { same(a, s.as_bytes(), msg) }
type Raw = Box<serde_json::value::RawValue>;
/// A JSON object's fields, unparsed.
fn fields(b: &[u8]) -> Vec<(String, Raw)> {
    match serde_json::from_slice::<std::collections::BTreeMap<String, Raw>>(b) { Ok(v) => v.into_iter().collect(), Err(_) => fail("the payload is JSON with the documented fields") }
}
fn field<'a>(v: &'a [(String, Raw)], k: &str) -> &'a str {
    for (n, r) in v { if n == k { return r.get(); } }
    fail("the payload has the documented fields")
}
fn num(v: &str, n: u64, msg: &str) { decimal(v.as_bytes(), n, msg) }
fn text(v: &str, s: &str, msg: &str) {
    match serde_json::from_str::<String>(v) { Ok(x) => is(x.as_bytes(), s, msg), Err(_) => fail(msg) }
}
/// Equality, byte by byte.
fn same(a: &[u8], b: &[u8], msg: &str) {
    if a.len() != b.len() { fail(msg) }
    for i in 0..a.len() { check(a[i] == b[i], msg) }
}
/// The number in decimal. The two renderings are equal; whichever the code uses, one comparison is trivial.
fn decimal(b: &[u8], n: u64, msg: &str) {
    let (x, y) = (n.to_string(), serde_json::to_string(&n).unwrap());
    let (x, y) = (x.as_bytes(), y.as_bytes());
    if b.len() != x.len() || x.len() != y.len() { fail(msg) }
    for i in 0..b.len() { check((b[i] == x[i]) | (b[i] == y[i]), msg) }
}
/// A number of up to `digits` decimal digits, with its text.
fn digits(name: &str, max: usize) -> (u64, String) {
    let k = 1 + choose("digits", max);
    let (mut n, mut s) = (0u64, String::new());
    for i in 0..k {
        let d = u8v(name);
        assume(d < 10);
        if i == 0 && k > 1 { assume(d > 0); }
        n = n * 10 + d as u64;
        s.push((b'0' + d) as char);
    }
    (n, s)
}

/// C16: a challenge of any content stored through the cache.
pub fn store_challenge(which: usize) {
    let c = cache(choose("cluster", 2) == 1);
    serve(|_| Ok(V::Okay));
    let (f, d) = if which == 0 { (u32v("difficulty"), 7) } else { (8, u64v("duration")) };
    let s = string("string", 2);
    let key = string("key", 2);
    ask_ok(&c, CachePoW { string: s.clone(), difficulty_factor: f, duration: d, key: key.clone() });
    let a = only("MCAPTCHA_CACHE.ADD_CHALLENGE", 3);
    is(&a[1], &key, "the site's name is sent");
    let v = fields(&a[2]);
    num(field(&v, "difficulty"), f as u64, "the difficulty is sent");
    num(field(&v, "duration"), d, "the duration is sent");
    text(field(&v, "challenge"), &s, "the challenge is sent");
    cover("sent");
}

/// Any text: printable characters, a control character, or one beyond ASCII.
fn any_text(name: &str) -> String {
    match choose("text", 3) {
        0 => { let n = choose("length", 3); string(name, n) }
        1 => { let c = u8v(name); assume(c < 0x20); String::from_utf8(vec![b'a', c]).unwrap_or_default() }
        _ => {
            let (a, b) = (u8v(name), u8v(name));
            assume((a >= 0xc2) & (a <= 0xdf) & (b >= 0x80) & (b <= 0xbf));
            unsafe { String::from_utf8_unchecked(vec![a, b]) }
        }
    }
}

/// C16: the strings of a challenge.
pub fn store_text() {
    let c = cache(choose("cluster", 2) == 1);
    serve(|_| Ok(V::Okay));
    let (s, key) = match choose("which", 3) {
        0 => (any_text("string"), "site".to_string()),
        1 => ("s".to_string(), any_text("key")),
        _ => alike("string"),
    };
    ask_ok(&c, CachePoW { string: s.clone(), difficulty_factor: 3, duration: 4, key: key.clone() });
    let a = only("MCAPTCHA_CACHE.ADD_CHALLENGE", 3);
    is(&a[1], &key, "the site's name is sent");
    let v = fields(&a[2]);
    text(field(&v, "challenge"), &s, "the challenge is sent");
    cover("sent");
}

/// C16: a site of any ladder and duration registered through the master.
pub fn register(which: usize) {
    let m = master(choose("cluster", 2) == 1);
    serve(|_| Ok(V::Okay));
    let n = 1 + choose("levels", 2);
    let mut l: Vec<(u32, u32)> = vec![(1, 2), (3, 4)];
    l.truncate(n);
    let mut d = 9;
    match which {
        0 => { let t = u32v("threshold"); l[n - 1].0 = t; if n == 2 { assume(t > 1) } }
        1 => { let f = u32v("difficulty"); l[n - 1].1 = f; assume(f > 1); }
        _ => { d = u64v("duration"); assume(d > 0); }
    }
    let id = string("name", 2);
    // a site that has seen visitors registers the same
    let mut c = mcaptcha(&l, d);
    for _ in 0..choose("visitors", 2) { c.add_visitor(); }
    ask_ok(&m, AddSite { id: id.clone(), mcaptcha: c });
    let a = only("MCAPTCHA_CACHE.ADD_CAPTCHA", 3);
    is(&a[1], &id, "the site's name is sent");
    sent(&a[2], &l, d);
    cover("sent");
}
/// The payload describes a site of this ladder and duration.
fn sent(a: &[u8], l: &[(u32, u32)], d: u64) {
    let n = l.len();
    let v = fields(a);
    num(field(&v, "duration"), d, "the duration is sent");
    let Ok(ls) = serde_json::from_str::<Vec<Raw>>(field(&v, "levels")) else { fail("the ladder is sent") };
    check(ls.len() == n, "every level is sent");
    for i in 0..n {
        let x = fields(ls[i].get().as_bytes());
        num(field(&x, "visitor_threshold"), l[i].0 as u64, "the thresholds are sent in order");
        num(field(&x, "difficulty_factor"), l[i].1 as u64, "the difficulties are sent in order");
    }
}
/// C16: a site of many levels.
pub fn register_long(n: usize) {
    let m = master(choose("cluster", 2) == 1);
    serve(|_| Ok(V::Okay));
    let l = crate::long::levels(n);
    ask_ok(&m, AddSite { id: "site".into(), mcaptcha: mcaptcha(&l, 9) });
    let a = only("MCAPTCHA_CACHE.ADD_CAPTCHA", 3);
    sent(&a[2], &l, 9);
    cover("sent");
}

/// C16: requests that send names only.
pub fn names() {
    let cl = choose("cluster", 2) == 1;
    let (x, y) = match choose("which", 4) {
        3 => alike("x"),
        0 => (any_text("x"), "other".to_string()),
        1 => ("other".to_string(), any_text("y")),
        // alike, equal or not
        _ => { let n = 1 + choose("length", 2); (string("x", n), string("y", n)) }
    };
    match choose("request", 9) {
        0 => {
            let m = master(cl);
            serve(|_| Ok(V::Okay));
            ask_ok(&m, Rename { name: x.clone(), rename_to: y.clone() });
            let a = only("MCAPTCHA_CACHE.RENAME_CAPTCHA", 3);
            is(&a[1], &x, "the old name is sent first");
            is(&a[2], &y, "the new name is sent second");
        }
        1 => {
            let m = master(cl);
            serve(|_| Ok(V::Okay));
            ask_ok(&m, RemoveCaptcha(x.clone()));
            let a = only("MCAPTCHA_CACHE.DELETE_CAPTCHA", 2);
            is(&a[1], &x, "the site's name is sent");
        }
        2 => {
            let m = master(cl);
            serve(|_| Ok(bulk(r#"{"duration":5,"difficulty_factor":6}"#)));
            let r = ask_ok(&m, AddVisitor(x.clone()));
            let a = only("MCAPTCHA_CACHE.ADD_VISITOR", 2);
            is(&a[1], &x, "the site's name is sent");
            check(matches!(r, Some(AddVisitorResult { duration: 5, difficulty_factor: 6 })), "the reply is reported");
        }
        3 => {
            let c = cache(cl);
            serve(|_| Ok(bulk(r#"{"difficulty_factor":6,"duration":5}"#)));
            let r = ask_ok(&c, RetrivePoW(VerifyCaptchaResult { token: x.clone(), key: y.clone() }));
            let a = only("MCAPTCHA_CACHE.GET_CHALLENGE", 3);
            is(&a[1], &y, "the site's name is sent");
            is(&a[2], &x, "the challenge is sent");
            let Some(r) = r else { fail("the reply is reported") };
            check(r.duration == 5 && r.difficulty_factor == 6, "the reply is reported");
            is(r.key.as_bytes(), &y, "the challenge is reported for its site");
        }
        4 => {
            let c = client(cl).get_client();
            serve(|_| Ok(V::Okay));
            let m = VerifyCaptchaResult { token: x.clone(), key: y.clone() };
            check(matches!(now_or("answered", async move { c.delete_challenge(&m).await }), Ok(())), "success is reported");
            let a = only("MCAPTCHA_CACHE.DELETE_CHALLENGE", 3);
            is(&a[1], &y, "the site's name is sent");
            is(&a[2], &x, "the challenge is sent");
        }
        5 => {
            let c = client(cl).get_client();
            let n = u64v("count");
            assume(n < 1 << 63);
            serve(move |_| Ok(V::Int(n as i64)));
            let x2 = x.clone();
            match now_or("answered", async move { c.get_visitors(&x2).await }) { Ok(v) => check(v as u64 == n, "the count is reported"), Err(_) => fail("the count is reported") }
            let a = only("MCAPTCHA_CACHE.GET", 2);
            is(&a[1], &x, "the site's name is sent");
        }
        6 => {
            let c = client(cl).get_client();
            let n = u64v("reply");
            serve(move |_| Ok(V::Int(n as i64)));
            let x2 = x.clone();
            match now_or("answered", async move { c.check_captcha_exists(&x2).await }) {
                Ok(true) => { check(n == 0, "0 means present"); cover("present"); }
                Ok(false) => { check(n == 1, "1 means absent"); cover("absent"); }
                Err(_) => { check(n > 1, "any other reply is an error"); cover("error"); }
            }
            let a = only("MCAPTCHA_CACHE.CAPTCHA_EXISTS", 2);
            is(&a[1], &x, "the site's name is sent");
        }
        7 => {
            let c = client(cl).get_client();
            let k = choose("reply", 3);
            serve(move |_| match k { 0 => Ok(V::SimpleString("PONG".into())), 1 => Ok(V::SimpleString("?".into())), _ => Err(redis::io_error()) });
            check(now_or("answered", async move { c.ping().await }) == (k == 0), "a ping succeeds when answered");
            only("PING", 1);
        }
        _ => {
            let c = client(cl).get_client();
            serve(|_| Ok(V::Okay));
            let (x2, y2) = (x.clone(), y.clone());
            check(matches!(now_or("answered", async move { c.add_challenge(&x2, &AddChallenge { difficulty: 1, duration: 2, challenge: y2 }).await }), Ok(())), "success is reported");
            let a = only("MCAPTCHA_CACHE.ADD_CHALLENGE", 3);
            is(&a[1], &x, "the site's name is sent");
            text(field(&fields(&a[2]), "challenge"), &y, "the challenge is sent");
        }
    }
    cover("sent");
}

/// C16: a request whose command fails or is answered with anything has sent that command, once.
pub fn failing() {
    let b = both(choose("cluster", 2) == 1);
    let how = choose("outcome", OUTCOMES + 5);
    serve(move |a| outcome(how, a));
    let kind = choose("request", KINDS);
    let s = b.send(kind, 3);
    task::advance(Duration::new(60, 0));
    match s.take() {
        Some(Some(Ok(v))) => check(if how == 0 { v == expected(kind, 3) } else { matches!(kind, 0 | 2 | 5 | 6 | 7) && how != 1 && how != 2 }, "an unexpected reply is reported as an error"),
        Some(Some(Err(_))) => check(how != 0, "a request whose command succeeds is answered with its reply"),
        _ => fail("the request is answered"),
    }
    let l = &server().log;
    check(l.len() == 1, "exactly one command is sent");
    check(l[0].args[0] == command_of(kind), "it is the documented command");
    check(tag_of(&l[0].args) == 3, "about the site asked for");
    cover(if how == 0 { "served" } else { "failed" });
}

/// C16: tokens are stored with their lifetime and taken out by deleting them.
pub fn token_commands() {
    let c = cache(choose("cluster", 2) == 1);
    let d = u64v("duration");
    let (t, k) = (string("token", 2), string("key", 2));
    serve(|_| Ok(V::Okay));
    ask_ok(&c, CacheResult { token: t.clone(), key: k.clone(), duration: d });
    let l = &server().log;
    check(l.len() == 1, "exactly one command is sent");
    let a = l[0].args.clone();
    let key = a[1].clone();
    if a[0] == b"SETEX" { check(a.len() == 4, "SET with expiry"); decimal(&a[2], d, "the token is stored for its duration"); }
    else { check(a[0] == b"SET" && a.len() == 5 && a[3] == b"EX", "SET with expiry"); decimal(&a[4], d, "the token is stored for its duration"); }
    let n = u32v("reply");
    assume(n < 1 << 31);
    serve(move |_| Ok(V::Int(n as i64)));
    match ask(&c, VerifyCaptchaResult { token: t, key: k }) {
        Ok(true) => { check(n == 1, "a token is confirmed if it was there"); cover("there"); }
        Ok(false) => { check(n == 0, "a token is refused if it was not there"); cover("not there"); }
        Err(_) => { check(n > 1, "any other reply is an error"); cover("error"); }
    }
    let a = only("DEL", 2);
    check(a[1].len() == key.len(), "the same token is named");
    same(&a[1], &key, "the same token is named");
}

/// C16: replies of any content are reported unchanged.
pub fn replies(which: usize) {
    let (mut d, mut f) = ((5u64, "5".to_string()), (6u64, "6".to_string()));
    if which == 0 { d = digits("duration", 19) } else { f = digits("difficulty", 9); assume(f.0 > 0); }
    let j = match choose("form", 3) {
        0 => format!(r#"{{"duration":{},"difficulty_factor":{}}}"#, d.1, f.1),
        1 => format!(r#"{{"difficulty_factor":{},"duration":{}}}"#, f.1, d.1),
        _ => format!(r#"{{ "difficulty_factor" : {}, "duration" : {} }}"#, f.1, d.1),
    };
    let simple = choose("reply", 2) == 1;
    let h = move |_: &[Vec<u8>]| Ok(if simple { V::SimpleString(j.clone()) } else { bulk(&j) });
    if choose("request", 2) == 0 {
        let m = master(false);
        serve(h);
        let Some(r) = ask_ok(&m, AddVisitor("x".into())) else { fail("the reply is reported") };
        check(r.duration == d.0, "the duration is reported");
        check(r.difficulty_factor as u64 == f.0, "the difficulty is reported");
    } else {
        let c = cache(false);
        serve(h);
        let Some(r) = ask_ok(&c, RetrivePoW(VerifyCaptchaResult { token: "t".into(), key: "k".into() })) else { fail("the reply is reported") };
        check(r.duration == d.0, "the duration is reported");
        check(r.difficulty_factor as u64 == f.0, "the difficulty is reported");
        check(r.key == "k", "the challenge is reported for its site");
    }
    cover("reported");
}

// ---- requests of all kinds, for C15, C17 and C23

#[derive(Debug, PartialEq)]
enum Out { Unit, Bool(bool), Pow(u64, u32, String), Visitor(u64, u32), Nothing }
type Got = Slot2;
type Slot2 = task::Slot<Option<Result<Out, E>>>;
fn launch<A, M, T>(a: &Addr<A>, m: M, f: fn(T) -> Out) -> Got
where
    A: Actor + Handler<M>,
    A::Context: actix::dev::ToEnvelope<A, M>,
    M: Message<Result = tokio::sync::oneshot::Receiver<Result<T, E>>> + Send + 'static,
    T: Send + 'static,
{
    let r = a.send(m);
    task::start(async move {
        match r.await { Ok(rx) => match rx.await { Ok(Ok(v)) => Some(Ok(f(v))), Ok(Err(e)) => Some(Err(e)), Err(_) => None }, Err(_) => None }
    })
}
const CACHE: usize = 4;
const KINDS: usize = 8;
struct Both { c: Addr<RedisCache>, m: Addr<Master> }
fn both(cluster: bool) -> Both { Both { c: cache(cluster), m: master(cluster) } }
impl Both {
    /// Sends a request of a kind about the site and token named by `tag`.
    fn send(&self, kind: usize, tag: u32) -> Got {
        let (key, token) = (format!("k{tag}"), format!("t{tag}"));
        match kind {
            0 => launch(&self.c, CachePoW { string: token, difficulty_factor: tag, duration: 9, key }, |()| Out::Unit),
            1 => launch(&self.c, RetrivePoW(VerifyCaptchaResult { token, key }), |r| match r { Some(r) => Out::Pow(r.duration, r.difficulty_factor, r.key), None => Out::Nothing }),
            2 => launch(&self.c, CacheResult { token, key, duration: 9 }, |()| Out::Unit),
            3 => launch(&self.c, VerifyCaptchaResult { token, key }, Out::Bool),
            4 => launch(&self.m, AddVisitor(key), |r| match r { Some(r) => Out::Visitor(r.duration, r.difficulty_factor), None => Out::Nothing }),
            5 => launch(&self.m, AddSite { id: key, mcaptcha: mcaptcha(&[(1, 2)], 3) }, |()| Out::Unit),
            6 => launch(&self.m, Rename { name: key, rename_to: "z".into() }, |()| Out::Unit),
            _ => launch(&self.m, RemoveCaptcha(key), |()| Out::Unit),
        }
    }
}
/// What a request of a kind is answered with by `reply`.
fn expected(kind: usize, tag: u32) -> Out {
    match kind {
        1 => Out::Pow(tag as u64, tag + 1, format!("k{tag}")),
        3 => Out::Bool(tag % 2 == 1),
        4 => Out::Visitor(tag as u64, tag + 1),
        _ => Out::Unit,
    }
}
/// The number in the first argument that has the form of a name used here.
fn tag_of(a: &[Vec<u8>]) -> u32 {
    let mut n = 0;
    for x in &a[1..] {
        // k7, or something containing it (a token's key)
        for i in 0..x.len() { if x[i] == b'k' && i + 1 < x.len() && x[i + 1].is_ascii_digit() && (i == 0 || !x[i - 1].is_ascii_alphanumeric()) { let mut j = i + 1; while j < x.len() && x[j].is_ascii_digit() { n = n * 10 + (x[j] - b'0') as u32; j += 1; } return n; } }
    }
    n
}
fn command_of(kind: usize) -> &'static [u8] {
    match kind {
        0 => b"MCAPTCHA_CACHE.ADD_CHALLENGE", 1 => b"MCAPTCHA_CACHE.GET_CHALLENGE", 2 => b"SET", 3 => b"DEL",
        4 => b"MCAPTCHA_CACHE.ADD_VISITOR", 5 => b"MCAPTCHA_CACHE.ADD_CAPTCHA", 6 => b"MCAPTCHA_CACHE.RENAME_CAPTCHA", _ => b"MCAPTCHA_CACHE.DELETE_CAPTCHA",
    }
}
fn reply(a: &[Vec<u8>]) -> Reply {
    let t = tag_of(a);
    Ok(match a[0].as_slice() {
        b"MCAPTCHA_CACHE.ADD_VISITOR" | b"MCAPTCHA_CACHE.GET_CHALLENGE" => bulk(&format!(r#"{{"duration":{},"difficulty_factor":{}}}"#, t, t + 1)),
        b"DEL" => V::Int((t % 2) as i64),
        _ => V::Okay,
    })
}

const OUTCOMES: usize = 10;
/// The command succeeds, fails, or gets an unexpected reply.
fn outcome(how: usize, a: &[Vec<u8>]) -> Reply {
    match how {
        0 => reply(a),
        1 => Err(redis::io_error()),
        2 => Err(redis::RedisError::from((redis::ErrorKind::UnexpectedReturnType, "unexpected"))),
        3 => Ok(V::Nil),
        4 => Ok(V::SimpleString("what?".into())),
        5 => Ok(bulk(r#"{"duration":1}"#)),
        6 => Ok(V::Int(2)),
        7 => Ok(V::BulkString(vec![0xff, 0xfe])),
        8 => Ok(bulk(r#"{"duration":1,"difficulty_factor":0}"#)),
        9 => Ok(V::Array(vec![])),
        10 => Ok(bulk(r#"{"duration":1,"difficulty_factor":2}}"#)),
        11 => Ok(bulk(r#"{"duration":1,"difficulty_factor":4294967297}"#)),
        12 => Ok(bulk(r#"{"duration":-1,"difficulty_factor":2}"#)),
        13 => Ok(bulk(r#"{"duration":1.5,"difficulty_factor":2}"#)),
        _ => Ok(bulk("")),
    }
}

/// C17: a history of requests whose commands fail in any way.
pub fn faults(n: usize) {
    let cl = choose("cluster", 2) == 1;
    let b = both(cl);
    let what: Rc<RefCell<usize>> = Rc::new(RefCell::new(0));
    let w = what.clone();
    serve(move |a| outcome(*w.borrow(), a));
    for i in 0..n {
        let kind = choose("request", KINDS);
        let how = choose("outcome", OUTCOMES);
        *what.borrow_mut() = how;
        let tag = 3 + i as u32;
        let s = b.send(kind, tag);
        task::settle();
        match s.take() {
            None | Some(None) => fail("every request is answered"),
            Some(Some(Ok(v))) => {
                check(how != 1 && how != 2, "a failed command is reported as an error");
                if how == 0 { check(v == expected(kind, tag), "a request whose command succeeds is answered with its reply"); cover("served"); }
                else { check(matches!(kind, 0 | 2 | 5 | 6 | 7), "an unexpected reply is reported as an error"); }
            }
            Some(Some(Err(e))) => {
                check(how != 0, "a request whose command succeeds is answered with its reply");
                if how < 3 { check(matches!(e, E::RedisError(_)), "the Redis error is reported"); }
                cover("failed");
            }
        }
    }
    // Redis is back
    *what.borrow_mut() = 0;
    for kind in [1, 4, 3, 2] {
        let s = b.send(kind, 7);
        task::settle();
        match s.take() { Some(Some(Ok(v))) => check(v == expected(kind, 7), "later requests succeed"), _ => fail("later requests succeed") }
    }
}

/// C17: an outage of `n` requests, then Redis is back.
pub fn outage() {
    let b = both(choose("cluster", 2) == 1);
    let n = [3, 5, 6, 10, 12, 30, 70][choose("length", 7)];
    let kind = choose("request", KINDS + 1);
    let how = 1 + choose("failure", 3);
    let during = Rc::new(RefCell::new(how));
    let d = during.clone();
    serve(move |a| outcome(*d.borrow(), a));
    let pause = choose("time passes", 2) == 1;
    for i in 0..n {
        let k = if kind < KINDS { kind } else { i % KINDS };
        let s = b.send(k, 3);
        task::settle();
        match s.take() {
            Some(Some(Err(e))) => if how < 3 { check(matches!(e, E::RedisError(_)), "the Redis error is reported") },
            Some(Some(Ok(_))) => check(how == 3 && matches!(k, 0 | 2 | 5 | 6 | 7), "a failed command is reported as an error"),
            _ => fail("every request is answered"),
        }
        if pause { task::advance(Duration::new(1, 0)); }
    }
    *during.borrow_mut() = 0;
    for k in 0..KINDS {
        let s = b.send(k, 7);
        task::settle();
        match s.take() { Some(Some(Ok(v))) => check(v == expected(k, 7), "a request whose command succeeds is answered with its reply"), _ => fail("later requests succeed") }
    }
    cover("back");
}

/// C17: the whole system over Redis, which answers with any numbers: what cannot be used is refused, and no reply
/// keeps a worker from judging later work.
pub fn system_replies() {
    use libmcaptcha::pow::{ConfigBuilder, Work};
    let (c, m) = (cache(false), master(false));
    let pow = ConfigBuilder::default().salt("salt".into()).build().unwrap();
    let s: Rc<libmcaptcha::system::System<RedisCache, Master>> = Rc::new(libmcaptcha::system::SystemBuilder::default().master(m).cache(c).pow(pow).runners(1).queue_length(2).build());
    let (f1, f2) = (digits("issued", 1).0, digits("stored", 1).0);
    let now = Rc::new(RefCell::new((f1, f2)));
    let n2 = now.clone();
    serve(move |a| Ok(match a[0].as_slice() {
        b"MCAPTCHA_CACHE.ADD_VISITOR" => bulk(&format!(r#"{{"duration":3,"difficulty_factor":{}}}"#, (b'0' + n2.borrow().0 as u8) as char)),
        b"MCAPTCHA_CACHE.GET_CHALLENGE" => bulk(&format!(r#"{{"duration":3,"difficulty_factor":{}}}"#, (b'0' + n2.borrow().1 as u8) as char)),
        _ => V::Okay,
    }));
    for i in 0..2 {
        if i == 1 { *now.borrow_mut() = (5, 5); }
        let (x, y) = *now.borrow();
        let s2 = s.clone();
        match now_or("a challenge request is answered", async move { s2.get_pow("site".into()).await }) {
            Ok(Some(p)) => check((p.difficulty_factor as u64 == x) & (x > 0), "a challenge is handed out with the difficulty in the reply"),
            _ => check(x == 0, "a usable reply is used"),
        }
        let score = u32v("score");
        let r = ["r0", "r1"][i];
        mcaptcha_pow_sha256::set_score(r, score);
        mcaptcha_pow_sha256::set_valid("salt", "string", 1, r, true);
        let (s2, w) = (s.clone(), Work { string: "string".into(), result: r.into(), nonce: 1, key: "site".into() });
        match now_or("a submission is answered", async move { s2.verify_pow(w, "ip".into()).await }) {
            Ok((_, f)) => { check((y > 0) & (score as u64 >= y) & (f as u64 == y), "work is judged by the difficulty in the reply"); cover("accepted"); }
            Err(_) => { check((y == 0) | ((score as u64) < y), "work is judged by the difficulty in the reply"); cover("refused"); }
        }
    }
    drop(s);
    check(sched::alive() == 0, "no reply makes a worker fail");
    cover("judged");
}

/// C17: one of several requests in flight fails; the others do not.
pub fn faults_in_flight(n: usize) {
    let b = both(false);
    let bad = choose("failing", n + 1) as u32;
    serve(move |a| if tag_of(a) == bad + 3 { Err(redis::io_error()) } else { reply(a) });
    server().latency = Some(Duration::new(1, 0));
    let mut v = vec![];
    for i in 0..n { let k = choose("request", KINDS); v.push((k, b.send(k, 3 + i as u32))); }
    task::advance(Duration::new(60, 0));
    for (i, (k, s)) in v.into_iter().enumerate() {
        match s.take() {
            Some(Some(Ok(r))) => { check(i as u32 != bad, "a failed command is reported as an error"); check(r == expected(k, 3 + i as u32), "others are served"); }
            Some(Some(Err(_))) => { check(i as u32 == bad, "only the request that hit the failure fails"); cover("failed"); }
            _ => fail("every request is answered"),
        }
    }
    cover("in flight");
}

/// C23: several requests to one actor at once.
pub fn concurrent(n: usize) {
    let cl = choose("cluster", 2) == 1;
    let b = both(cl);
    serve(reply);
    let on_cache = choose("actor", 2) == 0;
    server().latency = if choose("slow", 2) == 0 { None } else { Some(Duration::new(1, 0)) };
    server().overlapped = false;
    let mut v = vec![];
    for i in 0..n {
        let k = choose("request", 4) + if on_cache { 0 } else { CACHE };
        v.push((k, b.send(k, 3 + i as u32), false));
        for _ in 0..choose("steps", 3) { task::step(); }
        if choose("time passes", 2) == 1 { task::advance(Duration::new(0, 700_000_000)); }
    }
    if choose("one gives up", 2) == 1 {
        let j = choose("which", n);
        for _ in 0..choose("steps", 4) { task::step(); }
        v[j].1.cancel();
        v[j].2 = true;
        cover("cancelled");
    }
    task::advance(Duration::new(60, 0));
    check(!server().overlapped, "commands never overlap on a connection");
    let l = &server().log;
    let mut p = 0;
    for (i, (k, s, gone)) in v.iter().enumerate() {
        // a request given up may or may not have been sent
        let sent = p < l.len() && l[p].args[0] == command_of(*k) && tag_of(&l[p].args) == 3 + i as u32;
        if sent { p += 1; } else { check(*gone, "commands are sent in the order the requests arrived"); }
        if *gone { continue; }
        match s.take() { Some(Some(Ok(r))) => check(r == expected(*k, 3 + i as u32), "each request gets the reply to its own command"), _ => fail("every request is served") }
    }
    check(p == l.len(), "one command is sent per request");
    cover("served");
}

/// C23: many requests to one actor.
pub fn concurrent_many(n: usize) {
    let b = both(choose("cluster", 2) == 1);
    serve(reply);
    let base = if choose("actor", 2) == 0 { 0 } else { CACHE };
    let turn = choose("request", 5);
    server().latency = Some(Duration::new(1, 0));
    server().overlapped = false;
    let apart = choose("apart", 3);
    let mut v = vec![];
    for i in 0..n {
        // all of one kind, or in turn
        let k = base + if turn < 4 { turn } else { i % 4 };
        v.push((k, b.send(k, 3 + i as u32)));
        match apart { 0 => {}, 1 => { task::step(); }, _ => task::advance(Duration::new(0, 300_000_000)) }
    }
    let gone = [n, 0, 1, n / 2, n - 1][choose("gives up", 5)];
    if gone < n { for _ in 0..choose("steps", 2) { task::step(); } v[gone].1.cancel(); cover("cancelled"); }
    task::advance(Duration::new(600, 0));
    check(!server().overlapped, "commands never overlap on a connection");
    let l = &server().log;
    let mut p = 0;
    for (i, (k, s)) in v.iter().enumerate() {
        let sent = p < l.len() && l[p].args[0] == command_of(*k) && tag_of(&l[p].args) == 3 + i as u32;
        if sent { p += 1; } else { check(i == gone, "commands are sent in the order the requests arrived"); }
        if i == gone { continue; }
        match s.take() { Some(Some(Ok(r))) => check(r == expected(*k, 3 + i as u32), "each request gets the reply to its own command"), _ => fail("every request is served") }
    }
    check(p == l.len(), "one command is sent per request");
    cover("served");
}

/// C15: a request to a Redis-backed actor given up at any point.
pub fn abandoned() {
    let cl = choose("cluster", 2) == 1;
    let b = both(cl);
    let fails = choose("fails", 2) == 1;
    let mut first = true;
    serve(move |a| { let f = first; first = false; if f && fails { Err(redis::io_error()) } else { reply(a) } });
    server().latency = if choose("slow", 2) == 0 { None } else { Some(Duration::new(1, 0)) };
    let kind = choose("request", KINDS);
    let s = b.send(kind, 3);
    for _ in 0..choose("abandoned after", 6) { task::step(); }
    if choose("time passes", 2) == 1 { task::advance(Duration::new(0, 500_000_000)); }
    if s.ready() { cover("completed") } else { cover("abandoned") }
    s.cancel();
    task::advance(Duration::new(60, 0));
    for kind in 0..KINDS {
        let s = b.send(kind, 5);
        task::advance(Duration::new(60, 0));
        match s.take() { Some(Some(Ok(r))) => check(r == expected(kind, 5), "later requests are served"), Some(Some(Err(_))) => check(fails, "later requests are served"), _ => fail("later requests are answered") }
    }
}

// ---- C18

/// What a Redis server does with keys that expire.
struct Store { keys: Vec<(Vec<u8>, Vec<u8>, Option<Duration>)> }
impl Store {
    fn find(&mut self, k: &[u8]) -> Option<usize> {
        let now = time::now();
        self.keys.retain(|x| match x.2 { Some(e) => now < e, None => true });
        for (i, x) in self.keys.iter().enumerate() { if x.0.len() == k.len() && x.0 == k { return Some(i); } }
        None
    }
    fn num(b: &[u8]) -> Option<u64> { std::str::from_utf8(b).ok()?.parse().ok().filter(|n| *n > 0) }
    fn err() -> Reply { Err(redis::RedisError::from((redis::ErrorKind::UnexpectedReturnType, "syntax error"))) }
    /// An expiry option: the moment until which the key lives.
    fn expiry(unit: &[u8], n: &[u8]) -> Option<Duration> {
        let n = Self::num(n)?;
        let epoch = 1_700_000_000;
        Some(match unit {
            b"EX" => time::now() + Duration::new(n, 0),
            b"PX" => time::now() + Duration::from_millis(n),
            b"EXAT" => Duration::new(n.checked_sub(epoch)?, 0),
            b"PXAT" => Duration::from_millis(n.checked_sub(epoch * 1000)?),
            _ => return None,
        })
    }
    fn call(&mut self, a: &[Vec<u8>]) -> Reply {
        let mut name = a[0].clone();
        name.make_ascii_uppercase();
        match (name.as_slice(), a.len()) {
            (b"SET", n) if n >= 3 => {
                let (mut end, mut i, mut must) = (None, 3, None);
                while i < n {
                    let mut o = a[i].clone();
                    o.make_ascii_uppercase();
                    match o.as_slice() {
                        b"NX" => must = Some(false),
                        b"XX" => must = Some(true),
                        _ if i + 1 < n => { i += 1; match Self::expiry(&o, &a[i]) { Some(e) => end = Some(e), None => return Self::err() } }
                        _ => return Self::err(),
                    }
                    i += 1;
                }
                if let Some(m) = must { if self.find(&a[1]).is_some() != m { return Ok(V::Nil); } }
                self.set(&a[1], &a[2], end);
                Ok(V::Okay)
            }
            (b"SETEX", 4) => match Self::expiry(b"EX", &a[2]) { Some(d) => { self.set(&a[1], &a[3], Some(d)); Ok(V::Okay) } None => Self::err() },
            (b"PSETEX", 4) => match Self::expiry(b"PX", &a[2]) { Some(d) => { self.set(&a[1], &a[3], Some(d)); Ok(V::Okay) } None => Self::err() },
            (b"SETNX", 3) => { let there = self.find(&a[1]).is_some(); if !there { self.set(&a[1], &a[2], None); } Ok(V::Int(!there as i64)) }
            (b"EXPIRE", 3) => match (self.find(&a[1]), Self::expiry(b"EX", &a[2])) { (Some(i), Some(d)) => { self.keys[i].2 = Some(d); Ok(V::Int(1)) } (None, Some(_)) => Ok(V::Int(0)), _ => Self::err() },
            (b"PEXPIRE", 3) => match (self.find(&a[1]), Self::expiry(b"PX", &a[2])) { (Some(i), Some(d)) => { self.keys[i].2 = Some(d); Ok(V::Int(1)) } (None, Some(_)) => Ok(V::Int(0)), _ => Self::err() },
            (b"DEL" | b"UNLINK", n) if n > 1 => { let mut n = 0; for k in &a[1..] { if let Some(i) = self.find(k) { self.keys.remove(i); n += 1; } } Ok(V::Int(n)) }
            (b"EXISTS", 2) => Ok(V::Int(self.find(&a[1]).is_some() as i64)),
            (b"GET", 2) => Ok(match self.find(&a[1]) { Some(i) => V::BulkString(self.keys[i].1.clone()), None => V::Nil }),
            (b"GETDEL", 2) => Ok(match self.find(&a[1]) { Some(i) => V::BulkString(self.keys.remove(i).1), None => V::Nil }),
            _ => Self::err(),
        }
    }
    fn set(&mut self, k: &[u8], v: &[u8], e: Option<Duration>) {
        match self.find(k) { Some(i) => { self.keys[i].1 = v.to_vec(); self.keys[i].2 = e; } None => self.keys.push((k.to_vec(), v.to_vec(), e)) }
    }
}
/// C18: `n` operations on two (site, token) pairs of any content with lengths up to `len`.
pub fn tokens(n: usize, len: usize) { token_history(n, len, false) }
pub fn long_tokens(n: usize) { token_history(n, 0, true) }
fn token_history(n: usize, len: usize, long: bool) {
    let con = client(false).get_client();
    let c = cache(choose("cluster", 2) == 1);
    let mut st = Store { keys: vec![] };
    serve(move |a| st.call(a));
    let mut p: Vec<(String, String)> = vec![];
    if long {
        let (a, b) = alike("name");
        p = match choose("different", 3) {
            0 => vec![(a, "token".into()), (b, "token".into())],
            1 => vec![("site".into(), a), ("site".into(), b)],
            // the same characters in all, divided elsewhere
            _ => {
                let x = "x".repeat([1, 9, 99, 255, 999][choose("divided", 5)]);
                vec![(format!("{a}:{x}"), "y".into()), (a, format!("{x}:y"))]
            }
        };
    }
    else { for _ in 0..2 { let (k, t) = (choose("key length", len + 1), choose("token length", len + 1)); p.push((string("key", k), string("token", t))); } }
    assume(p[0].0.len() != p[1].0.len() || p[0].1.len() != p[1].1.len() || (p[0].0 != p[1].0) | (p[0].1 != p[1].1));
    let mut until: [Option<Duration>; 2] = [None, None];
    let con = Rc::new(con);
    for i in 0..n {
        // the pairs are alike: start with the first
        let j = if i == 0 { 0 } else { choose("pair", 2) };
        let (key, token) = p[j].clone();
        match if i == 0 { 0 } else { choose("operation", 4) } {
            0 => {
                let d = [1u64, 10][choose("duration", 2)];
                ask_ok(&c, CacheResult { token, key, duration: d });
                until[j] = Some(time::now() + Duration::new(d, 0));
            }
            1 => {
                let r = ask_ok(&c, VerifyCaptchaResult { token, key });
                let good = match until[j] { Some(e) => time::now() < e, None => false };
                check(!r | good, "a token is confirmed only if that pair was stored, has not expired and was not presented or deleted");
                check(r | !good, "a stored token is confirmed the first time it is presented with its own key");
                if r { cover("confirmed") } else { cover("refused") }
                until[j] = None;
            }
            2 => {
                let con: Rc<MCaptchaRedisConnection> = con.clone();
                check(now_or("answered", async move { con.delete_token(&VerifyCaptchaResult { token, key }).await }).is_ok(), "deleting succeeds");
                until[j] = None;
                cover("deleted");
            }
            _ => {
                let g = u32v("wait");
                task::advance(Duration::new(0, 500_000_000) * (g % 32));
                cover("waited");
            }
        }
    }
    for j in 0..2 {
        let (key, token) = p[j].clone();
        let r = ask_ok(&c, VerifyCaptchaResult { token, key });
        let good = match until[j] { Some(e) => time::now() < e, None => false };
        check(r == good, "pairs do not stand for one another");
    }
}

/// C18: many tokens of one site, and one token for many sites, outstanding at once.
pub fn many_tokens(n: usize) {
    let c = cache(choose("cluster", 2) == 1);
    let mut st = Store { keys: vec![] };
    serve(move |a| st.call(a));
    let by_site = choose("many sites", 2) == 1;
    let pair = |i: usize| if by_site { (format!("site{i}"), "token".to_string()) } else { ("site".to_string(), format!("token{i}")) };
    for i in 0..n { let (key, token) = pair(i); ask_ok(&c, CacheResult { token, key, duration: 10 + i as u64 }); }
    // a moment at which some are gone, all or none
    let w = upto("wait", 2 * n as u64);
    task::advance(Duration::new(w, 500_000_000));
    let backwards = choose("backwards", 2) == 1;
    for i in 0..n {
        let i = if backwards { n - 1 - i } else { i };
        for again in [false, true] {
            let (key, token) = pair(i);
            let r = ask_ok(&c, VerifyCaptchaResult { token, key });
            check(r == (!again && w < 10 + i as u64), "every token is confirmed once within its lifetime");
            if r { cover("confirmed") } else { cover("refused") }
        }
    }
}

/// C18: one token presented through several caches of one server at once.
pub fn presented_at_once(n: usize) {
    let cl = choose("cluster", 2) == 1;
    let cs = [cache(cl), cache(cl), cache(cl)];
    let mut st = Store { keys: vec![] };
    serve(move |a| st.call(a));
    ask_ok(&cs[0], CacheResult { token: "t".into(), key: "k".into(), duration: 100 });
    server().latency = Some(Duration::new(1, 0));
    let mut v = vec![];
    for i in 0..n {
        v.push(launch(&cs[i], VerifyCaptchaResult { token: "t".into(), key: "k".into() }, Out::Bool));
        for _ in 0..choose("steps", 4) { task::step(); }
        match choose("time passes", 3) { 0 => {}, 1 => task::advance(Duration::new(0, 400_000_000)), _ => task::advance(Duration::new(1, 300_000_000)) }
    }
    task::advance(Duration::new(60, 0));
    let mut yes = 0;
    for x in v {
        match x.take() { Some(Some(Ok(Out::Bool(b)))) => yes += b as usize, _ => fail("every presentation is answered") }
    }
    check(yes == 1, "a token is confirmed exactly once, however many caches it is presented to");
    cover("at once");
}

// ---- C22

/// C22: probing a server with any modules and commands.
pub fn probing(n: usize, resp3: bool) {
    let names: [&str; 6] = ["mcaptcha_cache", "other", "mcaptcha_cache2", "xmcaptcha_cache", "mcaptcha_cach", "MCAPTCHA"];
    let k = choose("modules", n + 1);
    let mut list = vec![];
    let mut loaded = false;
    // one of them may be laid out unusually
    let odd = choose("odd", n);
    for i in 0..k {
        let name = names[choose("module", names.len())];
        loaded |= name == "mcaptcha_cache";
        let text = if i != odd || choose("strings", 2) == 0 { bulk } else { |s: &str| V::SimpleString(s.into()) };
        let f = match if i == odd { choose("fields", 6) } else { 0 } {
            0 => vec![("name", text(name)), ("ver", V::Int(1)), ("path", text("/lib/mcaptcha_cache.so")), ("args", V::Array(vec![text("mcaptcha_cache")]))],
            1 => vec![("args", V::Array(vec![text("name"), text("mcaptcha_cache")])), ("path", text("/lib/mcaptcha_cache.so")), ("ver", V::Int(1)), ("name", text(name))],
            // a value that reads like the name, or like the name of a field
            2 => vec![("name", text(name)), ("path", text("mcaptcha_cache")), ("args", V::Array(vec![]))],
            3 => vec![("path", text("name")), ("mcaptcha_cache", text("name")), ("name", text(name))],
            4 => vec![("name", if name == "mcaptcha_cache" { text(name) } else { V::Int(1) }), ("flags", V::Nil), ("ver", V::Int(1))],
            _ => vec![("ver", V::Int(1)), ("filename", text("mcaptcha_cache")), ("name", text(name)), ("mcaptcha_cache", V::Int(1))],
        };
        let f: Vec<(V, V)> = f.into_iter().map(|(k, v)| (text(k), v)).collect();
        list.push(if resp3 { V::Map(f) } else { V::Array(f.into_iter().flat_map(|(a, b)| [a, b]).collect()) });
    }
    probe_with(V::Array(list), loaded, false);
}
/// C22: many modules.
pub fn probing_many(n: usize) {
    let at = [n, 0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 31, 32, n - 1][choose("position", 15)];
    let resp3 = choose("format", 2) == 1;
    let list = (0..n).map(|i| {
        let name = if i == at { "mcaptcha_cache".to_string() } else { format!("module{i}") };
        let f = vec![(bulk("name"), bulk(&name)), (bulk("ver"), V::Int(i as i64)), (bulk("path"), bulk("/lib/mcaptcha_cache.so")), (bulk("args"), V::Array(vec![]))];
        if resp3 { V::Map(f) } else { V::Array(f.into_iter().flat_map(|(a, b)| [a, b]).collect()) }
    }).collect();
    probe_with(V::Array(list), at < n, false);
}
/// C22: one module, of any name.
pub fn probing_name(len: usize) {
    let name = string("module", len);
    let loaded = len == 14 && name == "mcaptcha_cache";
    let f = vec![bulk("name"), bulk(&name), bulk("ver"), V::Int(1)];
    let mut l = vec![V::Array(f)];
    if choose("others", 2) == 1 { l.insert(0, V::Array(vec![bulk("name"), bulk("other"), bulk("ver"), V::Int(2)])); }
    probe_with(V::Array(l), loaded, false);
}
/// C22: something else than a list of modules.
pub fn probing_junk() {
    let v = [V::Nil, V::Okay, V::Int(1), bulk("mcaptcha_cache"), V::SimpleString("mcaptcha_cache".into()), V::Array(vec![bulk("mcaptcha_cache")]), V::Array(vec![V::Array(vec![])])][choose("reply", 7)].clone();
    probe_with(v, false, false);
}
/// C22: commands the server lacks, and failures.
pub fn probing_faults() {
    let loaded = choose("loaded", 2) == 1;
    let name = bulk(if loaded { "mcaptcha_cache" } else { "other" });
    probe_with(V::Array(vec![V::Array(vec![bulk("name"), name, bulk("ver"), V::Int(1)])]), loaded, true);
}
fn probe_with(list: V, loaded: bool, faults: bool) {
    // which commands are unknown
    let (a, b) = match if faults { choose("unknown", 3) } else { 0 } { 0 => (99, 99), 1 => (choose("command", 9), 99), _ => { let a = choose("command", 9); (a, (a + 1 + choose("command", 2)) % 9) } };
    let fail_at = match if faults { choose("failure", 3) } else { 0 } { 0 => 99, 1 => choose("at", 10), _ => 100 };
    let mut seen = 0;
    server().connect_error = fail_at == 100;
    server().log.clear();
    server().handler = Some(Box::new(move |x| {
        seen += 1;
        if seen - 1 == fail_at { return Err(redis::io_error()); }
        if x[0] == b"MODULE" { check(x.len() == 2 && x[1] == b"LIST", "the modules are asked for"); return Ok(list.clone()); }
        check(x[0] == b"COMMAND" && x[1] == b"INFO", "the commands are asked for");
        let mut out = vec![];
        for c in &x[2..] {
            let i = COMMANDS.iter().position(|k| k.as_bytes().eq_ignore_ascii_case(c));
            out.push(match i { Some(i) if i != a && i != b => V::Array(vec![V::BulkString(c.clone()), V::Int(-2)]), _ => V::Nil });
        }
        Ok(V::Array(out))
    }));
    let cl = choose("cluster", 2) == 1;
    let r: Result<(), E> = match choose("what", 3) {
        0 => now_or("connecting returns", RedisCache::new(config(cl))).map(|_| ()),
        1 => now_or("connecting returns", Master::new(config(cl))).map(|_| ()),
        _ => now_or("connecting returns", MCaptchaRedis::new(config(cl))).map(|_| ()),
    };
    server().connect_error = false;
    // did the failing command come up at all?
    let failed = fail_at == 100 || fail_at < server().log.len();
    let missing = a < 9;
    match r {
        Ok(()) => {
            check(!failed, "a failure is reported");
            check(loaded, "a server without the module is refused");
            check(!missing, "a server lacking a command is refused");
            cover("usable");
        }
        Err(e) => {
            check(failed || !loaded || missing, "a usable server is accepted");
            match e {
                E::RedisError(_) => { check(failed, "a Redis error has a cause"); cover("error"); }
                E::MCaptchaRedisModuleIsNotLoaded => { check(!loaded, "the module is loaded"); cover("not loaded"); }
                E::MCaptchaRediSModuleCommandNotFound(c) => { check(missing && (c == COMMANDS[a] || (b < 9 && c == COMMANDS[b])), "the missing command is named"); cover("missing"); }
                _ => fail("the matching error"),
            }
        }
    }
}
