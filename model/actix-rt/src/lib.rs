//! actix-rt's interface (as used by actix) over the harness' executor and virtual clock.
use std::cell::RefCell;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};

pub mod time {
    use super::*;
    use symrt::time::SleepUntil;
    pub use vstd::time::{Duration, Instant};

    pub struct Sleep { inner: SleepUntil, deadline: Instant }
    fn at(i: Instant) -> Duration { i.duration_since(Instant::zero()) }
    pub fn sleep(d: Duration) -> Sleep { sleep_until(Instant::now() + d) }
    pub fn sleep_until(i: Instant) -> Sleep { Sleep { inner: SleepUntil::new(at(i)), deadline: i } }
    impl Sleep {
        pub fn deadline(&self) -> Instant { self.deadline }
        pub fn is_elapsed(&self) -> bool { self.inner.fired() }
        pub fn reset(mut self: Pin<&mut Self>, i: Instant) { self.deadline = i; self.inner.reset(at(i)); }
    }
    impl std::fmt::Debug for Sleep { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("Sleep") } }
    impl Future for Sleep {
        type Output = ();
        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> { Pin::new(&mut self.inner).poll(cx) }
    }

    pub struct Interval { s: Sleep, period: Duration }
    pub fn interval(period: Duration) -> Interval { Interval { s: sleep(Duration::ZERO), period } }
    pub fn interval_at(start: Instant, period: Duration) -> Interval { Interval { s: sleep_until(start), period } }
    impl Interval {
        pub fn poll_tick(&mut self, cx: &mut Context<'_>) -> Poll<Instant> {
            match Pin::new(&mut self.s).poll(cx) {
                Poll::Pending => Poll::Pending,
                Poll::Ready(()) => { let d = self.s.deadline(); self.s = sleep_until(d + self.period); Poll::Ready(d) }
            }
        }
        pub async fn tick(&mut self) -> Instant { std::future::poll_fn(|cx| self.poll_tick(cx)).await }
        pub fn period(&self) -> Duration { self.period }
    }

    #[derive(Debug, PartialEq, Eq)]
    pub struct Elapsed(());
    impl std::fmt::Display for Elapsed { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("deadline has elapsed") } }
    impl std::error::Error for Elapsed {}
    pub mod error { pub use super::Elapsed; }
    pub struct Timeout<F> { f: Pin<Box<F>>, s: Sleep }
    pub fn timeout<F: Future>(d: Duration, f: F) -> Timeout<F> { Timeout { f: Box::pin(f), s: sleep(d) } }
    impl<F: Future> Future for Timeout<F> {
        type Output = Result<F::Output, Elapsed>;
        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
            if let Poll::Ready(v) = self.f.as_mut().poll(cx) { return Poll::Ready(Ok(v)); }
            match Pin::new(&mut self.s).poll(cx) { Poll::Ready(()) => Poll::Ready(Err(Elapsed(()))), Poll::Pending => Poll::Pending }
        }
    }
}

pub mod task {
    pub use super::{JoinError, JoinHandle};
    pub async fn yield_now() {
        let mut first = true;
        std::future::poll_fn(move |cx| if std::mem::take(&mut first) { cx.waker().wake_by_ref(); std::task::Poll::Pending } else { std::task::Poll::Ready(()) }).await
    }
}

#[derive(Debug)]
pub struct JoinError(());
impl JoinError { pub fn is_cancelled(&self) -> bool { true } pub fn is_panic(&self) -> bool { false } }
impl std::fmt::Display for JoinError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("task was cancelled") } }
impl std::error::Error for JoinError {}

struct Out<T> { v: Option<T>, w: Option<Waker>, aborted: bool }
pub struct JoinHandle<T> { o: Rc<RefCell<Out<T>>>, id: usize }
impl<T> JoinHandle<T> {
    pub fn abort(&self) {
        symrt::task::abort(self.id);
        let w = { let mut o = self.o.borrow_mut(); o.aborted = true; o.w.take() };
        if let Some(w) = w { w.wake(); }
    }
    pub fn is_finished(&self) -> bool { symrt::task::is_done(self.id) }
}
impl<T> Future for JoinHandle<T> {
    type Output = Result<T, JoinError>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let mut o = self.o.borrow_mut();
        if let Some(v) = o.v.take() { return Poll::Ready(Ok(v)); }
        if o.aborted { return Poll::Ready(Err(JoinError(()))); }
        o.w = Some(cx.waker().clone());
        Poll::Pending
    }
}

pub fn spawn<F: Future + 'static>(f: F) -> JoinHandle<F::Output> where F::Output: 'static {
    let o = Rc::new(RefCell::new(Out { v: None, w: None, aborted: false }));
    let o2 = o.clone();
    let id = symrt::task::spawn(async move {
        let v = f.await;
        let w = { let mut o = o2.borrow_mut(); o.v = Some(v); o.w.take() };
        if let Some(w) = w { w.wake(); }
    });
    JoinHandle { o, id }
}

/// Everything runs on the one executor.
#[derive(Clone, Debug)]
pub struct ArbiterHandle(());
impl ArbiterHandle {
    pub fn spawn<F: Future<Output = ()> + Send + 'static>(&self, f: F) -> bool { spawn(f); true }
    pub fn spawn_fn<F: FnOnce() + Send + 'static>(&self, f: F) -> bool { spawn(async { f() }); true }
    pub fn stop(&self) -> bool { true }
}
#[derive(Debug)]
pub struct Arbiter(());
impl Arbiter {
    #[allow(clippy::new_without_default)]
    pub fn new() -> Self { Arbiter(()) }
    pub fn current() -> ArbiterHandle { ArbiterHandle(()) }
    pub fn try_current() -> Option<ArbiterHandle> { Some(ArbiterHandle(())) }
    pub fn handle(&self) -> ArbiterHandle { ArbiterHandle(()) }
    pub fn spawn<F: Future<Output = ()> + Send + 'static>(&self, f: F) -> bool { spawn(f); true }
    pub fn spawn_fn<F: FnOnce() + Send + 'static>(&self, f: F) -> bool { spawn(async { f() }); true }
    pub fn stop(&self) -> bool { true }
    pub fn join(self) -> std::thread::Result<()> { Ok(()) }
}
#[derive(Clone, Debug)]
pub struct System(());
impl System {
    #[allow(clippy::new_ret_no_self)]
    pub fn new() -> SystemRunner { SystemRunner(()) }
    pub fn current() -> System { System(()) }
    pub fn try_current() -> Option<System> { Some(System(())) }
    pub fn set_current(_: System) {}
    pub fn is_registered() -> bool { true }
    pub fn id(&self) -> usize { 0 }
    pub fn stop(&self) {}
    pub fn stop_with_code(&self, _: i32) {}
    pub fn arbiter(&self) -> &ArbiterHandle { static A: ArbiterHandle = ArbiterHandle(()); &A }
}
pub struct SystemRunner(());
impl SystemRunner {
    pub fn run(self) -> std::io::Result<()> { symrt::task::settle(); Ok(()) }
    pub fn block_on<F: Future>(&self, _f: F) -> F::Output { unimplemented!() }
}
