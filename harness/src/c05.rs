//! C05: a defense builds exactly when its levels form a valid ladder.
use libmcaptcha::errors::CaptchaError as E;
use libmcaptcha::defense::Level;
use libmcaptcha::*;
use symrt::*;

/// A level with the given threshold and difficulty, or the builder's refusal.
pub fn level(t: u32, d: u32) -> Result<Level, E> {
    let mut b = LevelBuilder::default();
    b.visitor_threshold(t);
    b.difficulty_factor(d)?;
    b.build()
}

/// `n` levels with any thresholds and difficulties, added in order.
pub fn ladder(n: usize) {
    let mut t = vec![];
    let mut d = vec![];
    for _ in 0..n {
        t.push(u32v("threshold"));
        d.push(u32v("difficulty"));
    }
    // a level is a plain pair of values: it need not come from the level builder
    let plain = n > 0 && upto("plain", 2) == 1;
    let mut zero = false;
    let mut b = DefenseBuilder::default();
    for i in 0..n {
        zero |= d[i] == 0;
        let l = match if plain { Ok(Level { visitor_threshold: t[i], difficulty_factor: d[i] }) } else { level(t[i], d[i]) } {
            Ok(l) => l,
            Err(e) => {
                check(d[i] == 0, "a level with a non-zero difficulty is accepted");
                check(e == E::DifficultyFactorZero, "zero difficulty is refused as such");
                cover("zero");
                return;
            }
        };
        if !plain { check(d[i] != 0, "a level with zero difficulty is refused"); }
        check((l.visitor_threshold == t[i]) & (l.difficulty_factor == d[i]), "level keeps its values");
        let mut dup = false;
        for j in 0..i { dup |= t[j] == t[i]; }
        match b.add_level(l) {
            Ok(_) => check(!dup, "a duplicate threshold is refused"),
            Err(e) => {
                check(dup | (d[i] == 0), "a new threshold is accepted");
                check((dup && e == E::DuplicateVisitorCount) || (d[i] == 0 && e == E::DifficultyFactorZero), "duplicate threshold is refused as such");
                cover("duplicate");
                return;
            }
        }
    }
    // the given difficulties must not decrease as the threshold grows
    let mut bad = false;
    for i in 0..n { for j in 0..n { bad |= (t[i] < t[j]) & (d[i] > d[j]); } }
    match b.build() {
        Err(e) => {
            if n == 0 {
                check(e == E::LevelEmpty, "no levels is refused as such");
                cover("empty");
            } else {
                check(bad | zero, "a valid ladder builds");
                check((bad && e == E::DecreaseingDifficultyFactor) || (zero && e == E::DifficultyFactorZero), "decreasing difficulty is refused as such");
                cover("decreasing");
            }
        }
        Ok(def) => {
            check(n > 0, "a defense without levels is refused");
            check(!bad, "a ladder whose difficulty decreases is refused");
            check(!zero, "a ladder with a zero difficulty is refused");
            let mut lo = t[0];
            for i in 1..n { lo = if t[i] < lo { t[i] } else { lo }; }
            let cur = def.current_level();
            check(cur.visitor_threshold == lo, "starts at the lowest level");
            let mut dlo = d[0];
            for i in 0..n { dlo = if t[i] == lo { d[i] } else { dlo }; }
            check(def.get_difficulty() == dlo, "starts at the lowest level's difficulty");
            check(cur.difficulty_factor == dlo, "level in force carries its difficulty");
            check(def.visitor_threshold() == lo, "threshold in force is the lowest level's");
            let v: Vec<Level> = def.into();
            check(v.len() == n, "all levels are kept");
            for i in 0..v.len() {
                let mut found = false;
                for j in 0..n { found |= (v[i].visitor_threshold == t[j]) & (v[i].difficulty_factor == d[j]); }
                check(found, "only the given levels are kept");
                if i > 0 { check(v[i - 1].visitor_threshold < v[i].visitor_threshold, "levels are in ascending order"); }
            }
            cover("built");
        }
    }
}

/// The level builder: every combination of set, unset and repeated values.
pub fn builder() {
    let mut b = LevelBuilder::default();
    let mut t = None;
    let mut d = None;
    for _ in 0..3 {
        match choose("call", 3) {
            0 => { let x = u32v("t"); b.visitor_threshold(x); t = Some(x); }
            1 => {
                let x = u32v("d");
                match b.difficulty_factor(x) {
                    Ok(_) => { check(x != 0, "zero difficulty is refused"); d = Some(x); }
                    Err(e) => { check(x == 0, "non-zero difficulty is accepted"); check(e == E::DifficultyFactorZero, "error names the zero difficulty"); }
                }
            }
            _ => {}
        }
    }
    match (b.build(), t, d) {
        (Ok(l), Some(t), Some(d)) => {
            check((l.visitor_threshold == t) & (l.difficulty_factor == d), "the level has the last values set");
            cover("built");
        }
        (Err(E::SetVisitorThreshold), None, _) => cover("no threshold"),
        (Err(E::SetDifficultyFactor), Some(_), None) | (Err(E::SetDifficultyFactor), None, None) => cover("no difficulty"),
        (Ok(_), _, _) => fail("a level missing a value is refused"),
        (Err(_), _, _) => fail("a complete level builds, an incomplete one names what is missing"),
    }
}
