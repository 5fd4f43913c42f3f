//! mcaptcha_pow_sha256 with its two judgements left open: every work result has an arbitrary (symbolic) score,
//! and is sufficient for the difficulties up to it; every (salt, phrase, nonce, result) is an arbitrary but fixed
//! valid or invalid proof.
use derive_builder::Builder;
use serde::{Deserialize, Serialize};
use std::marker::PhantomData;
use symrt::Global;

#[derive(Serialize, Builder, Deserialize, PartialEq, Clone, Debug)]
pub struct PoW<T> {
    pub nonce: u64,
    pub result: String,
    #[builder(default = "PhantomData", setter(skip))]
    _spook: PhantomData<T>,
}

#[derive(Serialize, Deserialize, Builder, PartialEq, Clone, Debug)]
pub struct Config {
    pub salt: String,
}

struct Table { scores: Vec<(String, u32)>, valid: Vec<((String, String, u64, String), bool)>, judged: usize, hook: Option<fn(&str)> }
static T_: Global<Table> = Global::new();
fn t() -> &'static mut Table { T_.get(|| Table { scores: vec![], valid: vec![], judged: 0, hook: None }) }

/// The largest difficulty `result` is sufficient for.
pub fn score(result: &str) -> u32 {
    for (r, s) in &t().scores { if r == result { return *s; } }
    let s = symrt::u32v("score");
    t().scores.push((result.to_string(), s));
    s
}
pub fn set_score(result: &str, s: u32) { t().scores.push((result.to_string(), s)) }
/// Is the proof valid for a phrase (given as a string)?
pub fn valid(salt: &str, phrase: &str, nonce: u64, result: &str) -> bool { valid_ser(salt, &serde_json::to_string(phrase).unwrap(), nonce, result) }
fn valid_ser(salt: &str, phrase: &str, nonce: u64, result: &str) -> bool {
    for ((s, p, n, r), v) in &t().valid { if s == salt && p == phrase && *n == nonce && r == result { return *v; } }
    let v = symrt::boolv("valid");
    t().valid.push(((salt.to_string(), phrase.to_string(), nonce, result.to_string()), v));
    v
}
pub fn set_valid(salt: &str, phrase: &str, nonce: u64, result: &str, v: bool) {
    t().valid.push(((salt.to_string(), serde_json::to_string(phrase).unwrap(), nonce, result.to_string()), v));
}
/// Called with the result about to be judged.
pub fn on_judgement(f: fn(&str)) { t().hook = Some(f) }
fn judge(result: &str) { t().judged += 1; if let Some(f) = t().hook { f(result) } }
/// Number of judgements the code under test asked for.
pub fn judged() -> usize { t().judged }

impl Config {
    pub fn is_valid_proof<T: Serialize>(&self, pow: &PoW<T>, phrase: &T) -> bool {
        judge(&pow.result);
        match serde_json::to_string(phrase) { Ok(p) => valid_ser(&self.salt, &p, pow.nonce, &pow.result), Err(_) => false }
    }
    pub fn is_sufficient_difficulty<T: Serialize>(&self, pow: &PoW<T>, target_diff: u32) -> bool {
        judge(&pow.result);
        if target_diff == 0 { panic!("attempt to divide by zero"); }
        target_diff <= score(&pow.result)
    }
}
