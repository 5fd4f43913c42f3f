//! Harnesses: one entry per property, selected by number.
#![allow(clippy::all)]
mod util;
mod c04;
mod c05;
mod c06;
mod c07;
mod c20;
mod c21;
mod emb;
mod long;
mod queue;
mod red;
mod sys;

#[no_mangle]
pub extern "C" fn harness_main(id: u64) {
    let n = (id % 10) as usize;
    match id {
        400..=409 => c04::expiry(n, false),
        410..=419 => c04::expiry(n, true),
        420 => c04::deletion(),
        500..=509 => c05::ladder(n),
        510 => c05::builder(),
        520 => long::ladder(19),
        640 => long::step(24),
        641 => long::crowd(24),
        1070 => long::restored(24),
        2120 => long::build(24),
        310 => sys::long_ladder(24),
        320 => sys::alike_sites(),
        1192 => sys::served(11),
        1292 => sys::served(12),
        1392 => sys::served(13),
        1852..=1853 => red::long_tokens(n),
        1660 => red::register_long(24),
        600..=609 => c06::step(n),
        610..=619 => c06::release(n),
        620..=629 => c06::moves(n),
        630..=639 => c06::history(3, n),
        700..=709 => c07::visitors(n, true),
        710..=719 => c07::visitors(n, false),
        2000..=2009 => c20::form(n),
        2010 => c20::independent(),
        2011 => c20::range(),
        2100..=2109 => c21::build(n),
        100..=109 => sys::redeem(n, 4),
        120..=129 => sys::redeem(n, 0),
        110..=119 => sys::race(n),
        200..=209 => sys::tokens(n),
        250..=259 => sys::present(n),
        300 => sys::verdict(),
        301 => sys::late(),
        1500 => sys::abandoned(),
        1505 => sys::unread(),
        1510..=1519 => sys::bad_work(n),
        1110..=1139 => queue::environment(11, (id as usize - 1100) / 10, n),
        1210..=1239 => queue::environment(12, (id as usize - 1200) / 10, n),
        1310..=1339 => queue::environment(13, (id as usize - 1300) / 10, n),
        1180..=1189 => queue::backlog(11, n),
        1280..=1289 => queue::backlog(12, n),
        1380..=1389 => queue::backlog(13, n),
        1190 => queue::addresses(11),
        1290 => queue::addresses(12),
        1390 => queue::addresses(13),
        1140..=1149 => queue::threads(1, 2, 1, n),
        1150..=1159 => queue::threads(2, 2, 1, n),
        1160..=1169 => queue::threads(1, 2, 2, n),
        1170..=1179 => queue::threads(2, 2, 2, n),
        1400..=1409 => queue::shutdown(1, 2, n),
        1410..=1419 => queue::shutdown(2, 2, n),
        1420..=1429 => queue::shutdown(1, 3, n),
        1430..=1439 => queue::shutdown(2, 3, n),
        1450 => queue::shutdown_many(40),
        1440..=1449 => sys::dropped(n),
        800..=809 => emb::registry(n, false),
        810..=819 => emb::registry(n, true),
        820 => emb::burst(),
        830..=831 => emb::any_names(n == 1),
        930..=931 => emb::any_names_cleaned(n == 1),
        1030..=1031 => emb::any_names_restored(n == 1),
        1040 => emb::stopped(),
        1050..=1059 => emb::restored_meanwhile(n),
        440 => c04::many(400),
        720 => c07::many(700),
        840 => emb::many(1200),
        940 => emb::many_cleaned(1200),
        950..=959 => emb::cleaned_stopped(n),
        1060 => emb::many_restored(1200),
        1191 => queue::many(11, 300),
        1291 => queue::many(12, 100),
        1391 => queue::many(13, 300),
        1920 => sys::outstanding(300),
        430..=431 => c04::any_names(n == 1),
        900..=909 => emb::cleanup(n),
        910..=919 => emb::schedule(n),
        1000..=1009 => emb::restore(n, 1),
        1010..=1019 => emb::restore(n, 2),
        1020 => emb::twice(),
        1080 => emb::often(),
        1900..=1909 => sys::issue(n),
        1910 => sys::issue_any(),
        1520 => red::abandoned(),
        1600..=1601 => red::store_challenge(n),
        1602 => red::store_text(),
        1610..=1612 => red::register(n),
        1620 => red::names(),
        1630 => red::token_commands(),
        1650 => red::failing(),
        1640..=1641 => red::replies(n),
        1700..=1709 => red::faults(n),
        1720 => red::outage(),
        1860 => red::many_tokens(40),
        2240 => red::probing_many(40),
        2320 => red::concurrent_many(14),
        1730 => red::system_replies(),
        1710..=1719 => red::faults_in_flight(n),
        1810..=1819 => red::tokens(n, 1),
        1820..=1829 => red::tokens(n, 2),
        1830..=1839 => red::tokens(n, 3),
        1840..=1849 => red::presented_at_once(n),
        2200..=2209 => red::probing(n, false),
        2210..=2219 => red::probing(n, true),
        2220..=2229 => red::probing_name(10 + n),
        2230 => red::probing_junk(),
        2231 => red::probing_faults(),
        2300..=2309 => red::concurrent(n),
        _ => symrt::fail("no such harness"),
    }
}
fn main() {
    let id = std::env::args().nth(1).unwrap_or_default().parse().unwrap_or(0);
    harness_main(id);
    println!("HARNESS-END");
}
