//! The part of tokio-stream the worker daemon uses, over the simulator's tokio.

pub use futures::Stream;

use std::borrow::Borrow;
use std::hash::Hash;
use std::pin::Pin;
use std::task::{Context, Poll};

pub trait StreamExt: Stream {
    fn next(&mut self) -> Next<'_, Self>
    where
        Self: Unpin,
    {
        Next(self)
    }
    fn skip_while<F>(self, f: F) -> SkipWhile<Self, F>
    where
        F: FnMut(&Self::Item) -> bool,
        Self: Sized,
    {
        SkipWhile { s: Box::pin(self), f: Some(f) }
    }
    fn filter<F>(self, f: F) -> Filter<Self, F>
    where
        F: FnMut(&Self::Item) -> bool,
        Self: Sized,
    {
        Filter { s: Box::pin(self), f }
    }
    fn map<T, F>(self, f: F) -> Map<Self, F>
    where
        F: FnMut(Self::Item) -> T,
        Self: Sized,
    {
        Map { s: Box::pin(self), f }
    }
    fn take_while<F>(self, f: F) -> TakeWhile<Self, F>
    where
        F: FnMut(&Self::Item) -> bool,
        Self: Sized,
    {
        TakeWhile { s: Box::pin(self), f, done: false }
    }
}
impl<S: Stream + ?Sized> StreamExt for S {}

pub struct Next<'a, S: ?Sized>(&'a mut S);
impl<S: Stream + Unpin + ?Sized> std::future::Future for Next<'_, S> {
    type Output = Option<S::Item>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        Pin::new(&mut *self.0).poll_next(cx)
    }
}

pub struct SkipWhile<S, F> {
    s: Pin<Box<S>>,
    f: Option<F>,
}
impl<S, F> Unpin for SkipWhile<S, F> {}
impl<S: Stream, F: FnMut(&S::Item) -> bool> Stream for SkipWhile<S, F> {
    type Item = S::Item;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<S::Item>> {
        loop {
            match self.s.as_mut().poll_next(cx) {
                Poll::Ready(Some(i)) => {
                    let skip = match &mut self.f {
                        Some(f) => f(&i),
                        None => false,
                    };
                    if skip {
                        continue;
                    }
                    self.f = None;
                    return Poll::Ready(Some(i));
                }
                x => return x,
            }
        }
    }
}

pub struct Filter<S, F> {
    s: Pin<Box<S>>,
    f: F,
}
impl<S, F> Unpin for Filter<S, F> {}
impl<S: Stream, F: FnMut(&S::Item) -> bool> Stream for Filter<S, F> {
    type Item = S::Item;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<S::Item>> {
        loop {
            match self.s.as_mut().poll_next(cx) {
                Poll::Ready(Some(i)) => {
                    if (self.f)(&i) {
                        return Poll::Ready(Some(i));
                    }
                }
                x => return x,
            }
        }
    }
}

pub struct Map<S, F> {
    s: Pin<Box<S>>,
    f: F,
}
impl<S, F> Unpin for Map<S, F> {}
impl<S: Stream, T, F: FnMut(S::Item) -> T> Stream for Map<S, F> {
    type Item = T;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<T>> {
        match self.s.as_mut().poll_next(cx) {
            Poll::Ready(Some(i)) => Poll::Ready(Some((self.f)(i))),
            Poll::Ready(None) => Poll::Ready(None),
            Poll::Pending => Poll::Pending,
        }
    }
}

pub struct TakeWhile<S, F> {
    s: Pin<Box<S>>,
    f: F,
    done: bool,
}
impl<S, F> Unpin for TakeWhile<S, F> {}
impl<S: Stream, F: FnMut(&S::Item) -> bool> Stream for TakeWhile<S, F> {
    type Item = S::Item;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<S::Item>> {
        if self.done {
            return Poll::Ready(None);
        }
        match self.s.as_mut().poll_next(cx) {
            Poll::Ready(Some(i)) => {
                if (self.f)(&i) {
                    Poll::Ready(Some(i))
                } else {
                    self.done = true;
                    Poll::Ready(None)
                }
            }
            x => x,
        }
    }
}

/// Several streams by key; which of several ready ones is taken first is up to the scheduler.
pub struct StreamMap<K, V> {
    entries: Vec<(K, V)>,
}
impl<K, V> Default for StreamMap<K, V> {
    fn default() -> Self {
        StreamMap { entries: vec![] }
    }
}
impl<K, V> StreamMap<K, V> {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn len(&self) -> usize {
        self.entries.len()
    }
    pub fn is_empty(&self) -> bool {
        self.entries.is_empty()
    }
    pub fn keys(&self) -> impl Iterator<Item = &K> {
        self.entries.iter().map(|(k, _)| k)
    }
    pub fn insert(&mut self, k: K, stream: V) -> Option<V>
    where
        K: Hash + Eq,
    {
        let old = self.remove(&k);
        self.entries.push((k, stream));
        old
    }
    pub fn remove<Q: ?Sized>(&mut self, k: &Q) -> Option<V>
    where
        K: Borrow<Q>,
        Q: Hash + Eq,
    {
        let i = self.entries.iter().position(|(x, _)| x.borrow() == k)?;
        Some(self.entries.swap_remove(i).1)
    }
    pub fn contains_key<Q: ?Sized>(&self, k: &Q) -> bool
    where
        K: Borrow<Q>,
        Q: Hash + Eq,
    {
        self.entries.iter().any(|(x, _)| x.borrow() == k)
    }
}
impl<K: Clone + Unpin, V: Stream + Unpin> Stream for StreamMap<K, V> {
    type Item = (K, V::Item);
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        let mut n = self.entries.len();
        let mut i = simnet::rt::draw(n as u64) as usize;
        for _ in 0..n {
            if i >= self.entries.len() {
                i = 0;
            }
            let (k, s) = &mut self.entries[i];
            match Pin::new(s).poll_next(cx) {
                Poll::Ready(Some(v)) => return Poll::Ready(Some((k.clone(), v))),
                Poll::Ready(None) => {
                    self.entries.swap_remove(i);
                }
                Poll::Pending => i += 1,
            }
        }
        n = self.entries.len();
        if n == 0 {
            Poll::Ready(None)
        } else {
            Poll::Pending
        }
    }
}

pub mod wrappers {
    use super::*;
    use std::future::Future;
    use tokio::sync::{broadcast, mpsc};

    pub mod errors {
        #[derive(Debug, PartialEq, Eq, Clone)]
        pub enum BroadcastStreamRecvError {
            Lagged(u64),
        }
        impl std::fmt::Display for BroadcastStreamRecvError {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                let BroadcastStreamRecvError::Lagged(n) = self;
                write!(f, "channel lagged by {n}")
            }
        }
        impl std::error::Error for BroadcastStreamRecvError {}
    }
    use errors::BroadcastStreamRecvError;

    type Got<T> = (Result<T, broadcast::error::RecvError>, broadcast::Receiver<T>);

    pub struct BroadcastStream<T> {
        fut: Pin<Box<dyn Future<Output = Got<T>> + Send>>,
        done: bool,
    }
    async fn recv<T: Clone>(mut rx: broadcast::Receiver<T>) -> Got<T> {
        let r = rx.recv().await;
        (r, rx)
    }
    impl<T: 'static + Clone + Send> BroadcastStream<T> {
        pub fn new(rx: broadcast::Receiver<T>) -> Self {
            BroadcastStream { fut: Box::pin(recv(rx)), done: false }
        }
    }
    impl<T: 'static + Clone + Send> Stream for BroadcastStream<T> {
        type Item = Result<T, BroadcastStreamRecvError>;
        fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
            if self.done {
                return Poll::Ready(None);
            }
            match self.fut.as_mut().poll(cx) {
                Poll::Pending => Poll::Pending,
                Poll::Ready((r, rx)) => {
                    self.fut = Box::pin(recv(rx));
                    Poll::Ready(match r {
                        Ok(v) => Some(Ok(v)),
                        Err(broadcast::error::RecvError::Lagged(n)) => Some(Err(BroadcastStreamRecvError::Lagged(n))),
                        Err(broadcast::error::RecvError::Closed) => {
                            self.done = true;
                            None
                        }
                    })
                }
            }
        }
    }

    pub struct ReceiverStream<T>(mpsc::Receiver<T>);
    impl<T> ReceiverStream<T> {
        pub fn new(rx: mpsc::Receiver<T>) -> Self {
            ReceiverStream(rx)
        }
        pub fn into_inner(self) -> mpsc::Receiver<T> {
            self.0
        }
        pub fn close(&mut self) {
            self.0.close()
        }
    }
    impl<T> Stream for ReceiverStream<T> {
        type Item = T;
        fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<T>> {
            self.0.poll_recv(cx)
        }
    }
}
