//! A simple mpsc on the facade's Mutex and Condvar.
use super::{Condvar, Mutex};
pub use ::std::sync::mpsc::{RecvError, RecvTimeoutError, SendError, TryRecvError, TrySendError};
use ::std::collections::VecDeque;
use ::std::fmt;
use ::std::sync::Arc;
use ::std::time::Duration;

struct Chan<T> {
    st: Mutex<State<T>>,
    recv: Condvar,
    send: Condvar,
    cap: Option<usize>,
}
struct State<T> {
    q: VecDeque<T>,
    senders: usize,
    receiver: bool,
    /// rendezvous channels: how many items have been received
    taken: u64,
    sent: u64,
}
impl<T> Chan<T> {
    fn new(cap: Option<usize>) -> Arc<Chan<T>> {
        Arc::new(Chan {
            st: Mutex::new(State { q: VecDeque::new(), senders: 1, receiver: true, taken: 0, sent: 0 }),
            recv: Condvar::new(),
            send: Condvar::new(),
            cap,
        })
    }
    fn send(&self, t: T) -> Result<(), SendError<T>> {
        let mut s = self.st.lock().unwrap();
        if let Some(c) = self.cap {
            while s.receiver && s.q.len() >= c.max(1) {
                s = self.send.wait(s).unwrap();
            }
        }
        if !s.receiver {
            return Err(SendError(t));
        }
        s.q.push_back(t);
        s.sent += 1;
        let my = s.sent;
        self.recv.notify_one();
        if self.cap == Some(0) {
            while s.receiver && s.taken < my {
                s = self.send.wait(s).unwrap();
            }
        }
        Ok(())
    }
    fn try_send(&self, t: T) -> Result<(), TrySendError<T>> {
        let mut s = self.st.lock().unwrap();
        if !s.receiver {
            return Err(TrySendError::Disconnected(t));
        }
        if let Some(c) = self.cap {
            if s.q.len() >= c {
                return Err(TrySendError::Full(t));
            }
        }
        s.q.push_back(t);
        s.sent += 1;
        self.recv.notify_one();
        Ok(())
    }
}
fn add<T>(c: &Arc<Chan<T>>) -> Arc<Chan<T>> {
    c.st.lock().unwrap().senders += 1;
    c.clone()
}
fn sub<T>(c: &Arc<Chan<T>>) {
    let mut s = c.st.lock().unwrap_or_else(|e| e.into_inner());
    s.senders -= 1;
    if s.senders == 0 {
        c.recv.notify_all();
    }
}
pub struct Sender<T>(Arc<Chan<T>>);
pub struct SyncSender<T>(Arc<Chan<T>>);
pub struct Receiver<T>(Arc<Chan<T>>, ::std::marker::PhantomData<::std::cell::Cell<()>>);
unsafe impl<T: Send> Send for Receiver<T> {}

pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
    let c = Chan::new(None);
    (Sender(c.clone()), Receiver(c, ::std::marker::PhantomData))
}
pub fn sync_channel<T>(cap: usize) -> (SyncSender<T>, Receiver<T>) {
    let c = Chan::new(Some(cap));
    (SyncSender(c.clone()), Receiver(c, ::std::marker::PhantomData))
}
impl<T> Sender<T> {
    pub fn send(&self, t: T) -> Result<(), SendError<T>> {
        self.0.send(t)
    }
}
impl<T> SyncSender<T> {
    pub fn send(&self, t: T) -> Result<(), SendError<T>> {
        self.0.send(t)
    }
    pub fn try_send(&self, t: T) -> Result<(), TrySendError<T>> {
        self.0.try_send(t)
    }
}
macro_rules! sender {
    ($S:ident) => {
        impl<T> Clone for $S<T> {
            fn clone(&self) -> Self {
                $S(add(&self.0))
            }
        }
        impl<T> Drop for $S<T> {
            fn drop(&mut self) {
                sub(&self.0)
            }
        }
        impl<T> fmt::Debug for $S<T> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.write_str("Sender { .. }")
            }
        }
    };
}
sender!(Sender);
sender!(SyncSender);
impl<T> Receiver<T> {
    fn pop(&self, s: &mut State<T>) -> Option<T> {
        let t = s.q.pop_front();
        if t.is_some() {
            s.taken += 1;
            self.0.send.notify_all();
        }
        t
    }
    pub fn recv(&self) -> Result<T, RecvError> {
        let mut s = self.0.st.lock().unwrap();
        loop {
            if let Some(t) = self.pop(&mut s) {
                return Ok(t);
            }
            if s.senders == 0 {
                return Err(RecvError);
            }
            s = self.0.recv.wait(s).unwrap();
        }
    }
    pub fn try_recv(&self) -> Result<T, TryRecvError> {
        let mut s = self.0.st.lock().unwrap();
        match self.pop(&mut s) {
            Some(t) => Ok(t),
            None if s.senders == 0 => Err(TryRecvError::Disconnected),
            None => Err(TryRecvError::Empty),
        }
    }
    pub fn recv_timeout(&self, d: Duration) -> Result<T, RecvTimeoutError> {
        let mut s = self.0.st.lock().unwrap();
        loop {
            if let Some(t) = self.pop(&mut s) {
                return Ok(t);
            }
            if s.senders == 0 {
                return Err(RecvTimeoutError::Disconnected);
            }
            let (g, t) = self.0.recv.wait_timeout(s, d).unwrap();
            s = g;
            if t.timed_out() && s.q.is_empty() {
                return Err(RecvTimeoutError::Timeout);
            }
        }
    }
    pub fn iter(&self) -> Iter<'_, T> {
        Iter(self)
    }
    pub fn try_iter(&self) -> TryIter<'_, T> {
        TryIter(self)
    }
}
impl<T> Drop for Receiver<T> {
    fn drop(&mut self) {
        let q = {
            let mut s = self.0.st.lock().unwrap_or_else(|e| e.into_inner());
            s.receiver = false;
            self.0.send.notify_all();
            ::std::mem::take(&mut s.q)
        };
        drop(q);
    }
}
impl<T> fmt::Debug for Receiver<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Receiver { .. }")
    }
}
pub struct Iter<'a, T>(&'a Receiver<T>);
pub struct TryIter<'a, T>(&'a Receiver<T>);
pub struct IntoIter<T>(Receiver<T>);
impl<'a, T> Iterator for Iter<'a, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.recv().ok()
    }
}
impl<'a, T> Iterator for TryIter<'a, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.try_recv().ok()
    }
}
impl<T> Iterator for IntoIter<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.recv().ok()
    }
}
impl<T> IntoIterator for Receiver<T> {
    type Item = T;
    type IntoIter = IntoIter<T>;
    fn into_iter(self) -> IntoIter<T> {
        IntoIter(self)
    }
}
impl<'a, T> IntoIterator for &'a Receiver<T> {
    type Item = T;
    type IntoIter = Iter<'a, T>;
    fn into_iter(self) -> Iter<'a, T> {
        self.iter()
    }
}
