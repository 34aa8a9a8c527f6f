//! tokio, as the simulator provides it. `sync` is the real tokio's; `select!` is tokio's macro with
//! the branch polled first drawn from the simulation's seed.
#![allow(clippy::all)]

pub use tokio_real::sync;

mod select;

pub use task::spawn;
pub use tokio_macros_sim::main;
pub use tokio_real::pin;

#[doc(hidden)]
pub use tokio_macros_sim::{select_priv_clean_pattern, select_priv_declare_output_enum};

pub mod macros {
    #[doc(hidden)]
    pub mod support {
        pub use std::future::{poll_fn, Future};
        pub use std::pin::Pin;
        pub use std::task::Poll;

        pub fn thread_rng_n(n: u32) -> u32 {
            simnet::rt::draw(n as u64) as u32
        }
    }
}

pub mod task {
    use simnet::rt::{self, Join, Out};
    use std::any::Any;
    use std::fmt;
    use std::future::Future;
    use std::pin::Pin;
    use std::task::{Context, Poll};

    pub struct JoinError {
        payload: Option<std::sync::Mutex<Box<dyn Any + Send + 'static>>>,
        text: String,
    }
    impl JoinError {
        fn cancelled() -> Self {
            JoinError { payload: None, text: "task was cancelled".into() }
        }
        fn panic(p: Box<dyn Any + Send>) -> Self {
            let m = p
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            JoinError { payload: Some(std::sync::Mutex::new(p)), text: format!("task panicked: {m}") }
        }
        pub fn is_cancelled(&self) -> bool {
            self.payload.is_none()
        }
        pub fn is_panic(&self) -> bool {
            self.payload.is_some()
        }
        pub fn into_panic(self) -> Box<dyn Any + Send + 'static> {
            self.payload.expect("not a panic").into_inner().unwrap()
        }
        pub fn try_into_panic(self) -> Result<Box<dyn Any + Send + 'static>, JoinError> {
            if self.is_panic() { Ok(self.into_panic()) } else { Err(self) }
        }
    }
    impl fmt::Debug for JoinError {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            write!(f, "JoinError({})", self.text)
        }
    }
    impl fmt::Display for JoinError {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str(&self.text)
        }
    }
    impl std::error::Error for JoinError {}

    pub struct JoinHandle<T>(pub(crate) Join<T>);
    unsafe impl<T: Send> Send for JoinHandle<T> {}
    unsafe impl<T: Send> Sync for JoinHandle<T> {}
    impl<T> Unpin for JoinHandle<T> {}

    impl<T> JoinHandle<T> {
        pub fn abort(&self) {
            self.0.abort()
        }
        pub fn is_finished(&self) -> bool {
            self.0.finished()
        }
        pub fn abort_handle(&self) -> AbortHandle {
            AbortHandle(self.0.id)
        }
    }
    impl<T> Future for JoinHandle<T> {
        type Output = Result<T, JoinError>;
        fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
            self.0.poll_out(cx).map(|o| match o {
                Out::Done(v) => Ok(v),
                Out::Panicked(p) => Err(JoinError::panic(p)),
                Out::Cancelled => Err(JoinError::cancelled()),
            })
        }
    }

    #[derive(Clone, Debug)]
    pub struct AbortHandle(u64);
    impl AbortHandle {
        pub fn abort(&self) {
            rt::remove_task(self.0)
        }
    }

    pub fn spawn<F>(f: F) -> JoinHandle<F::Output>
    where
        F: Future + Send + 'static,
        F::Output: Send + 'static,
    {
        JoinHandle(rt::spawn(f))
    }

    pub fn spawn_blocking<F, T>(f: F) -> JoinHandle<T>
    where
        F: FnOnce() -> T + Send + 'static,
        T: Send + 'static,
    {
        JoinHandle(rt::spawn(async move { f() }))
    }

    pub async fn yield_now() {
        let mut done = false;
        std::future::poll_fn(|cx| {
            if done {
                Poll::Ready(())
            } else {
                done = true;
                cx.waker().wake_by_ref();
                Poll::Pending
            }
        })
        .await
    }

    pub struct JoinSet<T> {
        set: Vec<JoinHandle<T>>,
    }
    impl<T: 'static> Default for JoinSet<T> {
        fn default() -> Self {
            Self::new()
        }
    }
    impl<T: 'static> JoinSet<T> {
        pub fn new() -> Self {
            JoinSet { set: vec![] }
        }
        pub fn len(&self) -> usize {
            self.set.len()
        }
        pub fn is_empty(&self) -> bool {
            self.set.is_empty()
        }
        pub fn spawn<F>(&mut self, f: F) -> AbortHandle
        where
            F: Future<Output = T> + Send + 'static,
            T: Send,
        {
            let h = spawn(f);
            let a = h.abort_handle();
            self.set.push(h);
            a
        }
        pub async fn join_next(&mut self) -> Option<Result<T, JoinError>> {
            std::future::poll_fn(|cx| self.poll_join_next(cx)).await
        }
        fn poll_join_next(&mut self, cx: &mut Context<'_>) -> Poll<Option<Result<T, JoinError>>> {
            if self.set.is_empty() {
                return Poll::Ready(None);
            }
            // which of several finished tasks is seen first is up to the scheduler
            let n = self.set.len();
            let from = rt::draw(n as u64) as usize;
            for k in 0..n {
                let i = (from + k) % n;
                if let Poll::Ready(r) = Pin::new(&mut self.set[i]).poll(cx) {
                    self.set.remove(i);
                    return Poll::Ready(Some(r));
                }
            }
            Poll::Pending
        }
        pub fn abort_all(&mut self) {
            for h in &self.set {
                h.abort();
            }
        }
        pub async fn shutdown(&mut self) {
            self.abort_all();
            while self.join_next().await.is_some() {}
        }
        pub fn detach_all(&mut self) {
            self.set.clear();
        }
    }
    impl<T> Drop for JoinSet<T> {
        fn drop(&mut self) {
            for h in &self.set {
                h.abort();
            }
        }
    }
}

pub mod time {
    use simnet::rt;
    use std::future::Future;
    use std::pin::Pin;
    use std::task::{Context, Poll};

    pub use std::time::Duration;

    #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
    pub struct Instant(u64);
    impl Instant {
        pub fn now() -> Self {
            Instant(rt::now())
        }
        pub fn elapsed(&self) -> Duration {
            Duration::from_nanos(rt::now().saturating_sub(self.0))
        }
        pub fn duration_since(&self, o: Instant) -> Duration {
            Duration::from_nanos(self.0.saturating_sub(o.0))
        }
        pub fn checked_add(&self, d: Duration) -> Option<Instant> {
            self.0.checked_add(ns(d)).map(Instant)
        }
    }
    impl std::ops::Add<Duration> for Instant {
        type Output = Instant;
        fn add(self, d: Duration) -> Instant {
            Instant(self.0.saturating_add(ns(d)))
        }
    }
    impl std::ops::Sub<Instant> for Instant {
        type Output = Duration;
        fn sub(self, o: Instant) -> Duration {
            self.duration_since(o)
        }
    }

    fn ns(d: Duration) -> u64 {
        d.as_nanos().min(u64::MAX as u128 / 4) as u64
    }

    pub struct Sleep(rt::SleepUntil);
    impl Future for Sleep {
        type Output = ();
        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
            Pin::new(&mut self.0).poll(cx)
        }
    }
    impl Sleep {
        pub fn reset(mut self: Pin<&mut Self>, at: Instant) {
            self.0 = rt::SleepUntil(at.0);
        }
    }
    pub fn sleep(d: Duration) -> Sleep {
        Sleep(rt::sleep(ns(d)))
    }
    pub fn sleep_until(at: Instant) -> Sleep {
        Sleep(rt::SleepUntil(at.0))
    }

    #[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
    pub enum MissedTickBehavior {
        #[default]
        Burst,
        Delay,
        Skip,
    }

    #[derive(Debug)]
    pub struct Interval {
        next: u64,
        period: u64,
        missed: MissedTickBehavior,
    }
    impl Interval {
        pub async fn tick(&mut self) -> Instant {
            std::future::poll_fn(|cx| self.poll_tick(cx)).await
        }
        pub fn poll_tick(&mut self, cx: &mut Context<'_>) -> Poll<Instant> {
            let now = rt::now();
            if now < self.next {
                rt::wake_at(self.next, cx.waker().clone());
                return Poll::Pending;
            }
            let at = self.next;
            // tokio regards a tick as missed when it is more than 5 ms late
            self.next = if now > at + 5_000_000 {
                match self.missed {
                    MissedTickBehavior::Burst => at + self.period,
                    MissedTickBehavior::Delay => now + self.period,
                    MissedTickBehavior::Skip => now + self.period - (now - at) % self.period,
                }
            } else {
                at + self.period
            };
            Poll::Ready(Instant(at))
        }
        pub fn reset(&mut self) {
            self.next = rt::now() + self.period;
        }
        pub fn period(&self) -> Duration {
            Duration::from_nanos(self.period)
        }
        pub fn set_missed_tick_behavior(&mut self, b: MissedTickBehavior) {
            self.missed = b;
        }
        pub fn missed_tick_behavior(&self) -> MissedTickBehavior {
            self.missed
        }
    }
    pub fn interval(period: Duration) -> Interval {
        interval_at(Instant::now(), period)
    }
    pub fn interval_at(start: Instant, period: Duration) -> Interval {
        assert!(period > Duration::new(0, 0), "`period` must be non-zero.");
        Interval { next: start.0, period: ns(period), missed: MissedTickBehavior::default() }
    }

    pub mod error {
        #[derive(Debug, PartialEq, Eq)]
        pub struct Elapsed(pub(super) ());
        impl std::fmt::Display for Elapsed {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                f.write_str("deadline has elapsed")
            }
        }
        impl std::error::Error for Elapsed {}
    }

    pub async fn timeout<F: Future>(d: Duration, f: F) -> Result<F::Output, error::Elapsed> {
        let mut f = Box::pin(f);
        let mut s = sleep(d);
        std::future::poll_fn(move |cx| {
            if let Poll::Ready(v) = f.as_mut().poll(cx) {
                return Poll::Ready(Ok(v));
            }
            Pin::new(&mut s).poll(cx).map(|_| Err(error::Elapsed(())))
        })
        .await
    }
}

pub mod signal {
    use simnet::rt;
    use std::io;

    pub async fn ctrl_c() -> io::Result<()> {
        let h = rt::signal_handler(2);
        std::future::poll_fn(|cx| rt::poll_signal(&h, cx)).await;
        Ok(())
    }

    pub mod unix {
        use simnet::rt;
        use std::io;
        use std::sync::{Arc, Mutex};
        use std::task::{Context, Poll};

        #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
        pub struct SignalKind(i32);
        impl SignalKind {
            pub const fn from_raw(n: i32) -> Self {
                SignalKind(n)
            }
            pub const fn hangup() -> Self {
                SignalKind(1)
            }
            pub const fn interrupt() -> Self {
                SignalKind(2)
            }
            pub const fn quit() -> Self {
                SignalKind(3)
            }
            pub const fn terminate() -> Self {
                SignalKind(15)
            }
        }

        pub struct Signal(Arc<Mutex<rt::SigState>>);
        impl Signal {
            pub async fn recv(&mut self) -> Option<()> {
                std::future::poll_fn(|cx| self.poll_recv(cx)).await
            }
            pub fn poll_recv(&mut self, cx: &mut Context<'_>) -> Poll<Option<()>> {
                rt::poll_signal(&self.0, cx).map(Some)
            }
        }
        pub fn signal(kind: SignalKind) -> io::Result<Signal> {
            Ok(Signal(rt::signal_handler(kind.0)))
        }
    }
}
