pub use std::sync::mpsc::{RecvError, RecvTimeoutError, SendError, TryRecvError, TrySendError};

use crate::sched::{controlled, point, yield_point};
use std::collections::VecDeque;
use std::fmt;
use std::sync::{Arc, Condvar, Mutex};
use std::time::Duration;

struct State<T> {
    queue: VecDeque<T>,
    senders: usize,
    receiver: bool,
    cap: Option<usize>,
}
struct Chan<T> {
    m: Mutex<State<T>>,
    cv: Condvar,
}

pub struct Sender<T>(Arc<Chan<T>>);
pub struct SyncSender<T>(Arc<Chan<T>>);
pub struct Receiver<T>(Arc<Chan<T>>);

fn make<T>(cap: Option<usize>) -> Arc<Chan<T>> {
    Arc::new(Chan {
        m: Mutex::new(State { queue: VecDeque::new(), senders: 1, receiver: true, cap }),
        cv: Condvar::new(),
    })
}
pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
    let c = make(None);
    (Sender(c.clone()), Receiver(c))
}
/// A rendezvous channel (bound 0) is modelled as one of bound 1.
pub fn sync_channel<T>(bound: usize) -> (SyncSender<T>, Receiver<T>) {
    let c = make(Some(bound.max(1)));
    (SyncSender(c.clone()), Receiver(c))
}

impl<T> Chan<T> {
    fn can_send(&self) -> bool {
        let s = self.m.lock().unwrap();
        !s.receiver || s.cap.map_or(true, |c| s.queue.len() < c)
    }
    fn can_recv(&self) -> bool {
        let s = self.m.lock().unwrap();
        !s.queue.is_empty() || s.senders == 0
    }
    fn send(&self, t: T) -> Result<(), SendError<T>> {
        point("channel send", Some(&|| self.can_send()));
        let mut s = self.m.lock().unwrap();
        if !controlled() {
            while s.receiver && s.cap.map_or(false, |c| s.queue.len() >= c) {
                s = self.cv.wait(s).unwrap();
            }
        }
        if !s.receiver {
            return Err(SendError(t));
        }
        s.queue.push_back(t);
        self.cv.notify_all();
        Ok(())
    }
    fn add(&self) {
        self.m.lock().unwrap().senders += 1;
    }
    fn remove(&self) {
        // A visible operation: the receiver observes the disconnection.
        point("channel sender dropped", None);
        self.m.lock().unwrap().senders -= 1;
        self.cv.notify_all();
    }
}

impl<T> Sender<T> {
    pub fn send(&self, t: T) -> Result<(), SendError<T>> { self.0.send(t) }
}
impl<T> Clone for Sender<T> {
    fn clone(&self) -> Self { self.0.add(); Sender(self.0.clone()) }
}
impl<T> Drop for Sender<T> {
    fn drop(&mut self) { self.0.remove() }
}
impl<T> fmt::Debug for Sender<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("Sender") } }

impl<T> SyncSender<T> {
    pub fn send(&self, t: T) -> Result<(), SendError<T>> { self.0.send(t) }
    pub fn try_send(&self, t: T) -> Result<(), TrySendError<T>> {
        point("channel try_send", None);
        let mut s = self.0.m.lock().unwrap();
        if !s.receiver {
            return Err(TrySendError::Disconnected(t));
        }
        if s.cap.map_or(false, |c| s.queue.len() >= c) {
            return Err(TrySendError::Full(t));
        }
        s.queue.push_back(t);
        self.0.cv.notify_all();
        Ok(())
    }
}
impl<T> Clone for SyncSender<T> {
    fn clone(&self) -> Self { self.0.add(); SyncSender(self.0.clone()) }
}
impl<T> Drop for SyncSender<T> {
    fn drop(&mut self) { self.0.remove() }
}

impl<T> Receiver<T> {
    pub fn recv(&self) -> Result<T, RecvError> {
        point("channel recv", Some(&|| self.0.can_recv()));
        let mut s = self.0.m.lock().unwrap();
        loop {
            if let Some(t) = s.queue.pop_front() {
                self.0.cv.notify_all();
                return Ok(t);
            }
            if s.senders == 0 || controlled() {
                return Err(RecvError);
            }
            s = self.0.cv.wait(s).unwrap();
        }
    }
    pub fn try_recv(&self) -> Result<T, TryRecvError> {
        point("channel try_recv", None);
        let mut s = self.0.m.lock().unwrap();
        match s.queue.pop_front() {
            Some(t) => { self.0.cv.notify_all(); Ok(t) }
            None if s.senders == 0 => Err(TryRecvError::Disconnected),
            None => Err(TryRecvError::Empty),
        }
    }
    pub fn recv_timeout(&self, d: Duration) -> Result<T, RecvTimeoutError> {
        if controlled() {
            yield_point("channel recv_timeout");
        }
        let mut s = self.0.m.lock().unwrap();
        let end = std::time::Instant::now() + d;
        loop {
            if let Some(t) = s.queue.pop_front() {
                self.0.cv.notify_all();
                return Ok(t);
            }
            if s.senders == 0 {
                return Err(RecvTimeoutError::Disconnected);
            }
            let now = std::time::Instant::now();
            if controlled() || now >= end {
                return Err(RecvTimeoutError::Timeout);
            }
            s = self.0.cv.wait_timeout(s, end - now).unwrap().0;
        }
    }
    pub fn iter(&self) -> Iter<'_, T> { Iter(self) }
    pub fn try_iter(&self) -> TryIter<'_, T> { TryIter(self) }
}
impl<T> Drop for Receiver<T> {
    fn drop(&mut self) {
        point("channel receiver dropped", None);
        let mut s = self.0.m.lock().unwrap();
        s.receiver = false;
        let q = std::mem::take(&mut s.queue);
        self.0.cv.notify_all();
        drop(s);
        drop(q);
    }
}
impl<T> fmt::Debug for Receiver<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("Receiver") } }

pub struct Iter<'a, T: 'a>(&'a Receiver<T>);
impl<'a, T> Iterator for Iter<'a, T> { type Item = T; fn next(&mut self) -> Option<T> { self.0.recv().ok() } }
pub struct TryIter<'a, T: 'a>(&'a Receiver<T>);
impl<'a, T> Iterator for TryIter<'a, T> { type Item = T; fn next(&mut self) -> Option<T> { self.0.try_recv().ok() } }
pub struct IntoIter<T>(Receiver<T>);
impl<T> Iterator for IntoIter<T> { type Item = T; fn next(&mut self) -> Option<T> { self.0.recv().ok() } }
impl<T> IntoIterator for Receiver<T> { type Item = T; type IntoIter = IntoIter<T>; fn into_iter(self) -> IntoIter<T> { IntoIter(self) } }
impl<'a, T> IntoIterator for &'a Receiver<T> { type Item = T; type IntoIter = Iter<'a, T>; fn into_iter(self) -> Iter<'a, T> { self.iter() } }
