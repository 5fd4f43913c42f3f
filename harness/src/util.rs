//! Shared by the harnesses.
use libmcaptcha::defense::Level;
use libmcaptcha::*;
use serde_json::Value;
use std::future::Future;
use symrt::*;

/// A defense from (threshold, difficulty) pairs.
pub fn defense(l: &[(u32, u32)]) -> Defense {
    let mut b = DefenseBuilder::default();
    for (t, d) in l { if b.add_level(Level { visitor_threshold: *t, difficulty_factor: *d }).is_err() { fail("a valid ladder is accepted"); } }
    match b.build() { Ok(d) => d, Err(_) => fail("a valid ladder builds") }
}

/// Any valid ladder of `n` levels, ascending.
pub fn any_ladder(n: usize) -> Vec<(u32, u32)> {
    let mut v: Vec<(u32, u32)> = vec![];
    for i in 0..n {
        let t = u32v("threshold");
        let d = u32v("difficulty");
        assume(d > 0);
        if i > 0 { assume((t > v[i - 1].0) & (d >= v[i - 1].1)); }
        v.push((t, d));
    }
    v
}

pub fn mcaptcha(l: &[(u32, u32)], duration: u64) -> MCaptcha { mcaptcha_of(defense(l), duration) }
pub fn mcaptcha_of(d: Defense, duration: u64) -> MCaptcha {
    let mut b = MCaptchaBuilder::default();
    b.defense(d);
    b.duration(duration);
    match b.build() { Ok(m) => m, Err(_) => fail("a complete configuration builds") }
}

/// The path of the only leaf in which `a` and `b` differ.
fn diff(a: &Value, b: &Value, path: &mut Vec<String>) -> bool {
    match (a, b) {
        (Value::Object(x), Value::Object(y)) => {
            for (k, v) in x {
                if let Some(w) = y.get(k) {
                    path.push(k.clone());
                    if diff(v, w, path) { return true; }
                    path.pop();
                }
            }
            false
        }
        (Value::Array(x), Value::Array(y)) => {
            for i in 0..x.len().min(y.len()) {
                path.push(i.to_string());
                if diff(&x[i], &y[i], path) { return true; }
                path.pop();
            }
            false
        }
        (Value::Number(x), Value::Number(y)) => x.as_u64() != y.as_u64(),
        _ => false,
    }
}

/// `m` with its visitor count replaced: through its serialised form, in which the leaf that counts visitors
/// is the one that a first visitor changes.
pub fn with_visitors(m: MCaptcha, visitors: u32) -> MCaptcha {
    let p = mcaptcha(&[(1_000_000, 7)], 1000);
    let mut q = p.clone();
    q.add_visitor();
    let (Ok(a), Ok(b)) = (serde_json::to_value(&p), serde_json::to_value(&q)) else { fail("a configuration can be serialised") };
    let mut path = vec![];
    if !diff(&a, &b, &mut path) { fail("the visitor count is part of the serialised state"); }
    let Ok(mut v) = serde_json::to_value(&m) else { fail("a configuration can be serialised") };
    let mut at = &mut v;
    for k in &path {
        at = if at.is_array() { &mut at[k.parse::<usize>().unwrap()] } else { &mut at[k.as_str()] };
    }
    *at = Value::from(visitors);
    match serde_json::from_value(v) { Ok(m) => m, Err(_) => fail("a serialised configuration can be read back") }
}

/// Two long strings that are alike: they differ in one place, or one is the beginning of the other.
pub fn alike(name: &str) -> (String, String) {
    let base: Vec<u8> = (0..300).map(|i| b'a' + (i % 26) as u8).collect();
    let (a, b) = if choose("alike", 2) == 0 {
        let p = [0, 1, 7, 15, 16, 31, 32, 63, 64, 127, 128, 254, 255, 256, 299][choose("position", 15)];
        let (x, y) = (string(name, 1), string(name, 1));
        assume(x != y);
        let (mut a, mut b) = (base.clone(), base);
        a[p] = x.as_bytes()[0];
        b[p] = y.as_bytes()[0];
        (a, b)
    } else {
        let n = [15, 16, 31, 32, 63, 64, 127, 128, 254, 255, 256, 299][choose("shorter", 12)];
        let (a, b) = (base[..n].to_vec(), base[..n + 1].to_vec());
        if choose("turned", 2) == 0 { (a, b) } else { (b, a) }
    };
    unsafe { (String::from_utf8_unchecked(a), String::from_utf8_unchecked(b)) }
}

/// Runs `f` to completion without letting time pass.
pub fn now_or<T: 'static>(what: &str, f: impl Future<Output = T> + 'static) -> T {
    match task::run(f) { Some(v) => v, None => fail(what) }
}

/// A duration of any length up to `secs` seconds, to the nanosecond.
pub fn any_gap(name: &str, secs: u64) -> std::time::Duration {
    let s = upto(name, secs);
    let n = u32v(name);
    assume(n < 1_000_000_000);
    std::time::Duration::new(s, n)
}

use actix::prelude::*;
use libmcaptcha::errors::CaptchaError;
use tokio::sync::oneshot::Receiver;

/// Sends a message whose result is a channel, and waits for what arrives on it (no time passes).
/// `None`: no answer was, or ever will be, given.
pub fn try_ask<A, M, T>(a: &Addr<A>, m: M) -> Option<Result<T, CaptchaError>>
where
    A: Actor + Handler<M>,
    A::Context: actix::dev::ToEnvelope<A, M>,
    M: Message<Result = Receiver<Result<T, CaptchaError>>> + Send + 'static,
    T: Send + 'static,
{
    let a = a.clone();
    match task::run(async move {
        match a.send(m).await { Ok(rx) => rx.await.ok(), Err(_) => None }
    }) { Some(Some(r)) => Some(r), _ => None }
}
pub fn ask<A, M, T>(a: &Addr<A>, m: M) -> Result<T, CaptchaError>
where
    A: Actor + Handler<M>,
    A::Context: actix::dev::ToEnvelope<A, M>,
    M: Message<Result = Receiver<Result<T, CaptchaError>>> + Send + 'static,
    T: Send + 'static,
{
    match try_ask(a, m) { Some(r) => r, None => fail("every request is answered") }
}
pub fn ask_ok<A, M, T>(a: &Addr<A>, m: M) -> T
where
    A: Actor + Handler<M>,
    A::Context: actix::dev::ToEnvelope<A, M>,
    M: Message<Result = Receiver<Result<T, CaptchaError>>> + Send + 'static,
    T: Send + 'static,
{
    match ask(a, m) { Ok(v) => v, Err(_) => fail("the request succeeds") }
}
