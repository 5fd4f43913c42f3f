//! The virtual clock.
pub use ::std::time::{Duration, SystemTimeError, TryFromFloatSecsError};
use ::std::ops::{Add, AddAssign, Sub, SubAssign};

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
pub struct Instant(Duration);
impl Instant {
    #[doc(hidden)]
    pub fn zero() -> Instant { Instant(Duration::ZERO) }
    pub fn now() -> Instant { Instant(symrt::time::now()) }
    pub fn elapsed(&self) -> Duration { symrt::time::now().saturating_sub(self.0) }
    pub fn duration_since(&self, o: Instant) -> Duration { self.0.saturating_sub(o.0) }
    pub fn saturating_duration_since(&self, o: Instant) -> Duration { self.0.saturating_sub(o.0) }
    pub fn checked_duration_since(&self, o: Instant) -> Option<Duration> { self.0.checked_sub(o.0) }
    pub fn checked_add(&self, d: Duration) -> Option<Instant> { self.0.checked_add(d).map(Instant) }
    pub fn checked_sub(&self, d: Duration) -> Option<Instant> { self.0.checked_sub(d).map(Instant) }
}
impl Add<Duration> for Instant { type Output = Instant; fn add(self, d: Duration) -> Instant { Instant(self.0 + d) } }
impl Sub<Duration> for Instant { type Output = Instant; fn sub(self, d: Duration) -> Instant { Instant(self.0 - d) } }
impl Sub<Instant> for Instant { type Output = Duration; fn sub(self, o: Instant) -> Duration { self.0.saturating_sub(o.0) } }
impl AddAssign<Duration> for Instant { fn add_assign(&mut self, d: Duration) { self.0 += d } }
impl SubAssign<Duration> for Instant { fn sub_assign(&mut self, d: Duration) { self.0 -= d } }

/// The virtual clock starts here.
const START: u64 = 1_700_000_000;
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
pub struct SystemTime(Duration);
pub const UNIX_EPOCH: SystemTime = SystemTime(Duration::ZERO);
impl SystemTime {
    pub const UNIX_EPOCH: SystemTime = UNIX_EPOCH;
    pub fn now() -> SystemTime { SystemTime(symrt::time::now() + Duration::from_secs(START)) }
    pub fn duration_since(&self, o: SystemTime) -> Result<Duration, ()> { self.0.checked_sub(o.0).ok_or(()) }
    pub fn elapsed(&self) -> Result<Duration, ()> { SystemTime::now().duration_since(*self) }
}
impl Add<Duration> for SystemTime { type Output = SystemTime; fn add(self, d: Duration) -> SystemTime { SystemTime(self.0 + d) } }
