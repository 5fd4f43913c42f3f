//! C21: a site configuration builds exactly when it is complete and positive.
use crate::util::*;
use libmcaptcha::errors::CaptchaError as E;
use libmcaptcha::*;
use symrt::*;

pub fn build(calls: usize) {
    let l = [any_ladder(1), any_ladder(2)];
    let ds = [defense(&l[0]), defense(&l[1])];
    let mut b = MCaptchaBuilder::default();
    let (mut dur, mut def) = (None, None);
    for _ in 0..calls {
        match choose("call", 4) {
            0 => { let d = u64v("duration"); b.duration(d); dur = Some(d); }
            1 => { b.defense(ds[0].clone()); def = Some(0); }
            2 => { b.defense(ds[1].clone()); def = Some(1); }
            _ => {}
        }
    }
    let times = 1 + choose("built twice", 2);
    for _ in 0..times {
        match b.build() {
            Ok(m) => {
                let (Some(d), Some(k)) = (dur, def) else { fail("an incomplete configuration is refused") };
                check(d > 0, "a zero duration is refused");
                check(m.get_duration() == d, "exactly the last duration given");
                let got: Vec<defense::Level> = m.get_defense().into();
                check(got.len() == l[k].len(), "exactly the last defense given");
                for i in 0..got.len().min(l[k].len()) {
                    check((got[i].visitor_threshold == l[k][i].0) & (got[i].difficulty_factor == l[k][i].1), "exactly the levels given");
                }
                check(m.get_visitors() == 0, "no visitors at first");
                check(m.get_difficulty() == l[k][0].1, "the lowest difficulty at first");
                let c = CreateMCaptcha::from(m);
                check(c.duration == d, "the creation request carries the duration");
                check(c.levels.len() == l[k].len(), "the creation request carries the levels");
                for i in 0..c.levels.len().min(l[k].len()) {
                    check((c.levels[i].visitor_threshold == l[k][i].0) & (c.levels[i].difficulty_factor == l[k][i].1), "the creation request carries exactly the levels");
                }
                cover("built");
            }
            Err(e) => {
                let zero = match dur { Some(d) => d == 0, None => false };
                match e {
                    E::PleaseSetValue(s) => {
                        if s == "duration" { check(dur.is_none(), "the duration is said to be missing only if it is"); cover("no duration"); }
                        else if s == "defense" { check(def.is_none(), "the defense is said to be missing only if it is"); cover("no defense"); }
                        else { fail("the missing value is named"); }
                    }
                    E::CaptchaDurationZero => { check(zero, "the duration is said to be zero only if it is"); cover("zero"); }
                    _ => fail("the error matches"),
                }
            }
        }
    }
}
