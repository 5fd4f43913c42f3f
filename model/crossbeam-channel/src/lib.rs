//! The part of crossbeam-channel's interface that makes sense here, over `symrt::chan`.
use std::fmt;
use std::time::Duration;
use symrt::chan;

pub struct Sender<T>(chan::Sender<T>);
pub struct Receiver<T>(chan::Receiver<T>);
impl<T> Clone for Sender<T> { fn clone(&self) -> Self { Sender(self.0.clone()) } }
impl<T> Clone for Receiver<T> { fn clone(&self) -> Self { Receiver(self.0.clone()) } }
impl<T> fmt::Debug for Sender<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("Sender") } }
impl<T> fmt::Debug for Receiver<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("Receiver") } }

pub fn unbounded<T>() -> (Sender<T>, Receiver<T>) { let (a, b) = chan::new(None); (Sender(a), Receiver(b)) }
pub fn bounded<T>(n: usize) -> (Sender<T>, Receiver<T>) { let (a, b) = chan::new(Some(n)); (Sender(a), Receiver(b)) }

#[derive(PartialEq, Eq, Clone, Copy)]
pub struct SendError<T>(pub T);
#[derive(PartialEq, Eq, Clone, Copy, Debug)]
pub struct RecvError;
#[derive(PartialEq, Eq, Clone, Copy, Debug)]
pub enum TryRecvError { Empty, Disconnected }
#[derive(PartialEq, Eq, Clone, Copy, Debug)]
pub enum RecvTimeoutError { Timeout, Disconnected }
#[derive(PartialEq, Eq, Clone, Copy)]
pub enum TrySendError<T> { Full(T), Disconnected(T) }
impl<T> SendError<T> { pub fn into_inner(self) -> T { self.0 } }
impl<T> TrySendError<T> { pub fn is_full(&self) -> bool { matches!(self, TrySendError::Full(_)) } pub fn is_disconnected(&self) -> bool { !self.is_full() } }
impl TryRecvError { pub fn is_empty(&self) -> bool { *self == TryRecvError::Empty } pub fn is_disconnected(&self) -> bool { !self.is_empty() } }
impl<T> fmt::Debug for SendError<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("SendError(..)") } }
impl<T> fmt::Display for SendError<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("sending on a disconnected channel") } }
impl<T> fmt::Debug for TrySendError<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("TrySendError(..)") } }
impl<T> fmt::Display for TrySendError<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("sending on a full or disconnected channel") } }
impl fmt::Display for RecvError { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("receiving on an empty and disconnected channel") } }
impl fmt::Display for TryRecvError { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("receiving on an empty channel") } }
impl<T> std::error::Error for SendError<T> {}
impl<T> std::error::Error for TrySendError<T> {}
impl std::error::Error for RecvError {}
impl std::error::Error for TryRecvError {}

impl<T> Sender<T> {
    pub fn send(&self, v: T) -> Result<(), SendError<T>> { self.0.send(v).map_err(SendError) }
    pub fn try_send(&self, v: T) -> Result<(), TrySendError<T>> { self.0.try_send(v).map_err(|(v, full)| if full { TrySendError::Full(v) } else { TrySendError::Disconnected(v) }) }
    pub fn len(&self) -> usize { self.0.len() }
    pub fn is_empty(&self) -> bool { self.0.len() == 0 }
}
impl<T> Receiver<T> {
    pub fn recv(&self) -> Result<T, RecvError> { self.0.recv().ok_or(RecvError) }
    pub fn try_recv(&self) -> Result<T, TryRecvError> { self.0.try_recv().map_err(|d| if d { TryRecvError::Disconnected } else { TryRecvError::Empty }) }
    /// Thread time does not pass here: the timeout is never reached.
    pub fn recv_timeout(&self, _: Duration) -> Result<T, RecvTimeoutError> { self.0.recv().ok_or(RecvTimeoutError::Disconnected) }
    pub fn len(&self) -> usize { self.0.len() }
    pub fn is_empty(&self) -> bool { self.0.len() == 0 }
    pub fn iter(&self) -> Iter<'_, T> { Iter(self) }
    pub fn try_iter(&self) -> TryIter<'_, T> { TryIter(self) }
}
pub struct Iter<'a, T>(&'a Receiver<T>);
impl<T> Iterator for Iter<'_, T> { type Item = T; fn next(&mut self) -> Option<T> { self.0.recv().ok() } }
pub struct TryIter<'a, T>(&'a Receiver<T>);
impl<T> Iterator for TryIter<'_, T> { type Item = T; fn next(&mut self) -> Option<T> { self.0.try_recv().ok() } }
impl<'a, T> IntoIterator for &'a Receiver<T> { type Item = T; type IntoIter = Iter<'a, T>; fn into_iter(self) -> Iter<'a, T> { self.iter() } }
pub struct IntoIter<T>(Receiver<T>);
impl<T> Iterator for IntoIter<T> { type Item = T; fn next(&mut self) -> Option<T> { self.0.recv().ok() } }
impl<T> IntoIterator for Receiver<T> { type Item = T; type IntoIter = IntoIter<T>; fn into_iter(self) -> IntoIter<T> { IntoIter(self) } }
impl fmt::Display for RecvTimeoutError { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("receiving on an empty or disconnected channel") } }
impl std::error::Error for RecvTimeoutError {}
