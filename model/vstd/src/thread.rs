//! Threads run on the harness' cooperative scheduler.
pub use ::std::thread::{available_parallelism, current, panicking, AccessError, LocalKey, Result, Thread, ThreadId};
use ::std::cell::RefCell;
use ::std::rc::Rc;
use ::std::time::Duration;

pub struct JoinHandle<T> { id: usize, out: Rc<RefCell<Option<T>>> }
// one thread runs at a time
unsafe impl<T> Send for JoinHandle<T> {}
unsafe impl<T> Sync for JoinHandle<T> {}

impl<T> JoinHandle<T> {
    pub fn join(self) -> Result<T> {
        symrt::sched::join(self.id);
        Ok(self.out.borrow_mut().take().unwrap())
    }
    pub fn is_finished(&self) -> bool { symrt::sched::is_done(self.id) }
}

pub fn spawn<F, T>(f: F) -> JoinHandle<T>
where F: FnOnce() -> T + Send + 'static, T: Send + 'static {
    let out = Rc::new(RefCell::new(None));
    let o2 = out.clone();
    let id = symrt::sched::spawn(Box::new(move || { let v = f(); *o2.borrow_mut() = Some(v); }));
    JoinHandle { id, out }
}

pub struct Builder;
impl Builder {
    #[allow(clippy::new_without_default)]
    pub fn new() -> Self { Builder }
    pub fn name(self, _: String) -> Self { self }
    pub fn stack_size(self, _: usize) -> Self { self }
    pub fn spawn<F, T>(self, f: F) -> ::std::io::Result<JoinHandle<T>>
    where F: FnOnce() -> T + Send + 'static, T: Send + 'static { Ok(spawn(f)) }
}

pub fn yield_now() { symrt::sched::poll_wait(u64::MAX) }
pub fn sleep(_: Duration) { symrt::sched::poll_wait(u64::MAX) }
pub fn park() { symrt::sched::poll_wait(u64::MAX) }
