//! C20: challenge strings and tokens are 32 independent draws from the process's generator.
use libmcaptcha::cache::messages::{CacheResult, CachedPoWConfig};
use libmcaptcha::pow::PoWConfig;
use rand::src;
use symrt::*;

const LEN: usize = 32;
const ALNUM: &[u8; 62] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789";

fn make(kind: usize) -> String {
    if kind == 0 { PoWConfig::new(u32v("difficulty"), string("salt", 2)).string }
    else { CacheResult::from(CachedPoWConfig { key: string("key", 2), difficulty_factor: u32v("difficulty"), duration: u64v("duration") }).token }
}
static KIND: [bool; 256] = { let mut t = [false; 256]; let mut i = 0; while i < 62 { t[ALNUM[i] as usize] = true; i += 1; } t };
fn alnum(c: u8) -> bool { KIND[c as usize] }

/// Any draws; with `spare`, one of them may be one that is not used for a character.
pub fn form(spare: usize) {
    let kind = choose("kind", 2);
    src().symbolic = true;
    src().limit = LEN + spare;
    if spare > 0 { src().free = Some(choose("position", LEN)); }
    let s = make(kind);
    check(s.len() == LEN, "32 characters");
    check(src().drawn.len() >= LEN, "a draw for every character");
    for c in s.bytes() { check(alnum(c), "every character is alphanumeric"); }
    cover(if src().drawn.len() > LEN { "draws skipped" } else { "every draw used" });
}

/// Changing one draw changes no other character, and no later string.
pub fn independent() {
    let kind = choose("kind", 2);
    src().symbolic = true;
    src().limit = LEN;
    let s = make(kind);
    check(src().drawn.len() == LEN, "one draw per character");
    let first = src().drawn.clone();
    let j = choose("position", LEN);
    let mut again = first.clone();
    src().drawn.clear();
    let x = u32v("other draw") as u64;
    again[j] = x;
    src().replay = Some(again);
    let t = make(kind);
    check(t.len() == LEN, "32 characters");
    for i in 0..LEN { if i != j { check(s.as_bytes()[i] == t.as_bytes()[i], "a draw decides one character only"); } }
    if s != t { cover("differ") }
    // the next string has draws of its own
    src().limit = 2 * LEN;
    let u = make(1 - kind);
    check(src().drawn.len() == 2 * LEN, "every string has draws of its own");
    check(u.len() == LEN, "32 characters");
    cover("independent");
}
/// Every character can occur at every position.
pub fn range() {
    let kind = choose("kind", 2);
    let j = choose("position", LEN);
    let c = choose("character", 62);
    src().symbolic = true;
    src().limit = 3 * LEN;
    src().only = Some(j);
    let s = make(kind);
    let b = s.as_bytes();
    check(b.len() == LEN, "32 characters");
    // (when this draw does not decide this character, representative values of all draws are tried)
    if !possible(b[j] == ALNUM[c]) && !by_example(kind, j, ALNUM[c]) { fail("every character can occur at every position"); }
    cover(if kind == 0 { CH[0] } else { CH[1] });
}
fn by_example(kind: usize, j: usize, c: u8) -> bool {
    src().only = Some(usize::MAX);
    for v in 0..62u64 {
        src().drawn.clear();
        src().replay = Some(vec![(v << 26) | (v << 58); LEN]);
        let s = make(kind);
        if s.len() > j && s.as_bytes()[j] == c { return true; }
    }
    false
}
const CH: [&str; 2] = ["any character of a challenge", "any character of a token"];
