//! Locks and channels between threads, on the cooperative scheduler.
pub use ::std::sync::{atomic, Arc, Barrier, LazyLock, LockResult, Once, OnceLock, OnceState, PoisonError, TryLockError, TryLockResult, Weak};
use ::std::cell::UnsafeCell;
use ::std::ops::{Deref, DerefMut};
use symrt::sched;

struct Flag(UnsafeCell<(bool, u64)>);
impl Flag {
    const fn new() -> Self { Flag(UnsafeCell::new((false, 0))) }
    fn key(&self) -> u64 {
        let f = unsafe { &mut *self.0.get() };
        if f.1 == 0 { f.1 = sched::new_key(); }
        f.1
    }
    fn try_take(&self) -> bool {
        let f = unsafe { &mut *self.0.get() };
        if f.0 { return false; }
        f.0 = true;
        true
    }
    fn take(&self) {
        sched::preempt();
        while !self.try_take() { sched::park(self.key()); }
    }
    fn give(&self) {
        unsafe { (*self.0.get()).0 = false; }
        sched::progress(self.key());
    }
}

pub struct Mutex<T: ?Sized> { f: Flag, v: UnsafeCell<T> }
unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}
unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}
pub struct MutexGuard<'a, T: ?Sized>(&'a Mutex<T>);
impl<T> Mutex<T> {
    pub const fn new(v: T) -> Self { Mutex { f: Flag::new(), v: UnsafeCell::new(v) } }
    pub fn into_inner(self) -> LockResult<T> { Ok(self.v.into_inner()) }
}
impl<T: ?Sized> Mutex<T> {
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> { self.f.take(); Ok(MutexGuard(self)) }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
        sched::preempt();
        if self.f.try_take() { Ok(MutexGuard(self)) } else { Err(TryLockError::WouldBlock) }
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> { Ok(self.v.get_mut()) }
    pub fn is_poisoned(&self) -> bool { false }
}
impl<T: Default> Default for Mutex<T> { fn default() -> Self { Mutex::new(T::default()) } }
impl<T: ?Sized + ::std::fmt::Debug> ::std::fmt::Debug for Mutex<T> { fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { f.write_str("Mutex") } }
impl<T: ?Sized> Deref for MutexGuard<'_, T> { type Target = T; fn deref(&self) -> &T { unsafe { &*self.0.v.get() } } }
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> { fn deref_mut(&mut self) -> &mut T { unsafe { &mut *self.0.v.get() } } }
impl<T: ?Sized> Drop for MutexGuard<'_, T> { fn drop(&mut self) { self.0.f.give() } }

/// Readers exclude each other too, which only removes schedules without a difference.
pub struct RwLock<T: ?Sized>(Mutex<T>);
pub type RwLockReadGuard<'a, T> = MutexGuard<'a, T>;
pub type RwLockWriteGuard<'a, T> = MutexGuard<'a, T>;
impl<T> RwLock<T> { pub const fn new(v: T) -> Self { RwLock(Mutex::new(v)) } }
impl<T: ?Sized> RwLock<T> {
    pub fn read(&self) -> LockResult<MutexGuard<'_, T>> { self.0.lock() }
    pub fn write(&self) -> LockResult<MutexGuard<'_, T>> { self.0.lock() }
}
impl<T: Default> Default for RwLock<T> { fn default() -> Self { RwLock::new(T::default()) } }

pub struct Condvar(Flag);
unsafe impl Sync for Condvar {}
unsafe impl Send for Condvar {}
impl Condvar {
    #[allow(clippy::new_without_default)]
    pub const fn new() -> Self { Condvar(Flag::new()) }
    pub fn wait<'a, T>(&self, g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
        let m = g.0;
        let key = self.0.key();
        drop(g);
        sched::park(key);
        m.lock()
    }
    pub fn wait_while<'a, T, F: FnMut(&mut T) -> bool>(&self, mut g: MutexGuard<'a, T>, mut c: F) -> LockResult<MutexGuard<'a, T>> {
        while c(&mut *g) { g = self.wait(g)?; }
        Ok(g)
    }
    pub fn notify_one(&self) { sched::progress(self.0.key()) }
    pub fn notify_all(&self) { sched::progress(self.0.key()) }
}

pub mod mpsc {
    pub use ::std::sync::mpsc::{RecvError, RecvTimeoutError, SendError, TryRecvError, TrySendError};
    use symrt::chan;
    pub struct Sender<T>(chan::Sender<T>);
    pub type SyncSender<T> = Sender<T>;
    pub struct Receiver<T>(chan::Receiver<T>);
    impl<T> Clone for Sender<T> { fn clone(&self) -> Self { Sender(self.0.clone()) } }
    pub fn channel<T>() -> (Sender<T>, Receiver<T>) { let (a, b) = chan::new(None); (Sender(a), Receiver(b)) }
    pub fn sync_channel<T>(n: usize) -> (SyncSender<T>, Receiver<T>) { let (a, b) = chan::new(Some(n)); (Sender(a), Receiver(b)) }
    impl<T> Sender<T> {
        pub fn send(&self, v: T) -> Result<(), SendError<T>> { self.0.send(v).map_err(SendError) }
        pub fn try_send(&self, v: T) -> Result<(), TrySendError<T>> { self.0.try_send(v).map_err(|(v, full)| if full { TrySendError::Full(v) } else { TrySendError::Disconnected(v) }) }
    }
    impl<T> Receiver<T> {
        pub fn recv(&self) -> Result<T, RecvError> { self.0.recv().ok_or(RecvError) }
        pub fn try_recv(&self) -> Result<T, TryRecvError> { self.0.try_recv().map_err(|d| if d { TryRecvError::Disconnected } else { TryRecvError::Empty }) }
        /// Thread time does not pass here: the timeout is never reached.
        pub fn recv_timeout(&self, _: ::std::time::Duration) -> Result<T, RecvTimeoutError> { self.0.recv().ok_or(RecvTimeoutError::Disconnected) }
        pub fn iter(&self) -> Iter<'_, T> { Iter(self) }
        pub fn try_iter(&self) -> TryIter<'_, T> { TryIter(self) }
    }
    pub struct Iter<'a, T>(&'a Receiver<T>);
    impl<T> Iterator for Iter<'_, T> { type Item = T; fn next(&mut self) -> Option<T> { self.0.recv().ok() } }
    pub struct TryIter<'a, T>(&'a Receiver<T>);
    impl<T> Iterator for TryIter<'_, T> { type Item = T; fn next(&mut self) -> Option<T> { self.0.try_recv().ok() } }
    pub struct IntoIter<T>(Receiver<T>);
    impl<T> Iterator for IntoIter<T> { type Item = T; fn next(&mut self) -> Option<T> { self.0.recv().ok() } }
    impl<T> IntoIterator for Receiver<T> { type Item = T; type IntoIter = IntoIter<T>; fn into_iter(self) -> IntoIter<T> { IntoIter(self) } }
    impl<'a, T> IntoIterator for &'a Receiver<T> { type Item = T; type IntoIter = Iter<'a, T>; fn into_iter(self) -> Iter<'a, T> { self.iter() } }
    impl<T> ::std::fmt::Debug for Sender<T> { fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { f.write_str("Sender") } }
    impl<T> ::std::fmt::Debug for Receiver<T> { fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { f.write_str("Receiver") } }
}
