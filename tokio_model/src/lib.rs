//! A stand-in for Tokio: its sockets and its runtime are models, the rest is the real Tokio. There
//! is one thread; tasks run when the harness says so, and the other end of every socket is the harness.
pub mod model;
pub use real::{io, pin, sync};

// the real macros
#[macro_use]
#[path = "../../tokio_real/src/macros/select.rs"]
mod select;
#[macro_use]
#[path = "../../tokio_real/src/macros/join.rs"]
mod join;
#[macro_use]
#[path = "../../tokio_real/src/macros/try_join.rs"]
mod try_join;
#[path = "../../tokio_real/src/future/maybe_done.rs"]
mod maybe_done;
#[doc(hidden)]
#[cfg(feature = "macros")]
pub use tokio_macros::{select_priv_clean_pattern, select_priv_declare_output_enum};
/// What those macros use.
#[doc(hidden)]
pub mod macros {
    pub mod support {
        pub use crate::join::{BiasedRotator, Rotator, RotatorSelect, SelectBiased, SelectNormal};
        pub use crate::maybe_done::maybe_done;
        pub use std::future::{poll_fn, Future, IntoFuture};
        pub use std::pin::Pin;
        pub use std::result::Result;
        pub use std::task::{ready, Context, Poll};
        pub fn thread_rng_n(n: u32) -> u32 {
            crate::model::first_of(n)
        }
        pub fn poll_budget_available(_: &mut Context<'_>) -> Poll<()> {
            Poll::Ready(())
        }
    }
}

/// `net`
pub mod net {
    use crate::io::{AsyncRead, AsyncWrite, ReadBuf};
    use crate::model::{self, with};
    use std::io;
    use std::path::Path;
    use std::pin::Pin;
    use std::task::{Context, Poll};

    #[derive(Debug)]
    pub struct UnixListener(());
    #[derive(Debug)]
    pub struct SocketAddr(());
    #[derive(Debug)]
    pub struct UnixStream(usize);

    impl SocketAddr {
        pub fn is_unnamed(&self) -> bool {
            true
        }
        pub fn as_pathname(&self) -> Option<&Path> {
            None
        }
    }
    impl UnixListener {
        pub fn bind<P: AsRef<Path>>(path: P) -> io::Result<UnixListener> {
            let _ = path;
            with(|n| {
                assert!(!n.listening, "bound twice");
                n.listening = true;
                n.binds += 1;
            });
            Ok(UnixListener(()))
        }
        pub fn local_addr(&self) -> io::Result<SocketAddr> {
            Ok(SocketAddr(()))
        }
        pub fn poll_accept(&self, cx: &mut Context<'_>) -> Poll<io::Result<(UnixStream, SocketAddr)>> {
            with(|n| {
                if n.accepted < n.socks.len() {
                    let i = n.accepted;
                    n.accepted += 1;
                    n.socks[i].rx_open = true;
                    n.socks[i].tx_open = true;
                    Poll::Ready(Ok((UnixStream(i), SocketAddr(()))))
                } else if let Some(e) = n.accept_error.take() {
                    Poll::Ready(Err(io::Error::from_raw_os_error(e)))
                } else {
                    n.accept_waker = Some(cx.waker().clone());
                    Poll::Pending
                }
            })
        }
        pub async fn accept(&self) -> io::Result<(UnixStream, SocketAddr)> {
            std::future::poll_fn(|cx| self.poll_accept(cx)).await
        }
    }
    impl Drop for UnixListener {
        fn drop(&mut self) {
            with(|n| n.listening = false);
        }
    }
    impl UnixStream {
        pub fn into_split(self) -> (unix::OwnedReadHalf, unix::OwnedWriteHalf) {
            let i = self.0;
            std::mem::forget(self);
            (unix::OwnedReadHalf(i), unix::OwnedWriteHalf(i))
        }
        pub fn split(&mut self) -> (unix::ReadHalf<'_>, unix::WriteHalf<'_>) {
            (unix::ReadHalf(self), unix::WriteHalf(self))
        }
        pub fn peer_addr(&self) -> io::Result<SocketAddr> {
            Ok(SocketAddr(()))
        }
        pub fn local_addr(&self) -> io::Result<SocketAddr> {
            Ok(SocketAddr(()))
        }
    }
    impl Drop for UnixStream {
        fn drop(&mut self) {
            model::closed(self.0, true, true);
        }
    }

    fn poll_read(i: usize, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        if buf.remaining() == 0 {
            return Poll::Ready(Ok(()));
        }
        match model::read(i, Some(cx), buf.remaining()) {
            Poll::Pending => Poll::Pending,
            Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
            Poll::Ready(Ok(v)) => {
                buf.put_slice(&v);
                Poll::Ready(Ok(()))
            }
        }
    }
    macro_rules! reads {
        ($t:ty, $($f:tt).+) => {
            impl AsyncRead for $t {
                fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
                    poll_read(self.$($f).+, cx, buf)
                }
            }
            impl $t {
                pub async fn readable(&self) -> io::Result<()> {
                    std::future::poll_fn(|cx| model::readable(self.$($f).+, cx)).await
                }
                pub fn try_read(&self, buf: &mut [u8]) -> io::Result<usize> {
                    match model::read(self.$($f).+, None, buf.len()) {
                        Poll::Pending => Err(io::ErrorKind::WouldBlock.into()),
                        Poll::Ready(Err(e)) => Err(e),
                        Poll::Ready(Ok(v)) => {
                            buf[..v.len()].copy_from_slice(&v);
                            Ok(v.len())
                        }
                    }
                }
                pub fn try_read_buf<B: bytes::BufMut>(&self, buf: &mut B) -> io::Result<usize> {
                    let room = buf.chunk_mut().len();
                    match model::read(self.$($f).+, None, room) {
                        Poll::Pending => Err(io::ErrorKind::WouldBlock.into()),
                        Poll::Ready(Err(e)) => Err(e),
                        Poll::Ready(Ok(v)) => {
                            buf.put_slice(&v);
                            Ok(v.len())
                        }
                    }
                }
            }
        };
    }
    macro_rules! writes {
        ($t:ty, $($f:tt).+) => {
            impl AsyncWrite for $t {
                fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, data: &[u8]) -> Poll<io::Result<usize>> {
                    model::write(self.$($f).+, Some(cx), data)
                }
                fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
                    Poll::Ready(Ok(()))
                }
                fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
                    model::closed(self.$($f).+, false, true);
                    Poll::Ready(Ok(()))
                }
            }
            impl $t {
                pub async fn writable(&self) -> io::Result<()> {
                    std::future::poll_fn(|cx| model::writable(self.$($f).+, cx)).await
                }
                pub fn try_write(&self, data: &[u8]) -> io::Result<usize> {
                    match model::write(self.$($f).+, None, data) {
                        Poll::Pending => Err(io::ErrorKind::WouldBlock.into()),
                        Poll::Ready(r) => r,
                    }
                }
            }
        };
    }
    reads!(UnixStream, 0);
    writes!(UnixStream, 0);
    reads!(unix::OwnedReadHalf, 0);
    writes!(unix::OwnedWriteHalf, 0);
    reads!(unix::ReadHalf<'_>, 0.0);
    writes!(unix::WriteHalf<'_>, 0.0);

    pub mod unix {
        pub use super::SocketAddr;
        use super::UnixStream;
        #[derive(Debug)]
        pub struct OwnedReadHalf(pub(crate) usize);
        #[derive(Debug)]
        pub struct OwnedWriteHalf(pub(crate) usize);
        #[derive(Debug)]
        pub struct ReadHalf<'a>(pub(crate) &'a UnixStream);
        #[derive(Debug)]
        pub struct WriteHalf<'a>(pub(crate) &'a UnixStream);
        #[derive(Debug)]
        pub struct ReuniteError(pub OwnedReadHalf, pub OwnedWriteHalf);
        impl OwnedReadHalf {
            pub fn reunite(self, other: OwnedWriteHalf) -> Result<UnixStream, ReuniteError> {
                if self.0 != other.0 {
                    return Err(ReuniteError(self, other));
                }
                let i = self.0;
                std::mem::forget((self, other));
                Ok(UnixStream(i))
            }
        }
        impl Drop for OwnedReadHalf {
            fn drop(&mut self) {
                crate::model::closed(self.0, true, false);
            }
        }
        impl OwnedWriteHalf {
            pub fn forget(self) {
                std::mem::forget(self)
            }
        }
        impl Drop for OwnedWriteHalf {
            fn drop(&mut self) {
                crate::model::closed(self.0, false, true);
            }
        }
    }
}

/// Locks that know about the interleavings under consideration (see `model::preempt`).
pub mod model_sync {
    use crate::model::{self, preempt};
    use std::cell::{Cell, UnsafeCell};
    use std::fmt;
    use std::ops::{Deref, DerefMut};
    pub use std::sync::*;

    /// The part that does not depend on the content.
    struct Raw {
        id: Cell<usize>,
        /// who holds the lock: the level of nesting, and whether exclusively
        held: UnsafeCell<Vec<(usize, bool)>>,
    }
    impl Raw {
        const fn new() -> Raw {
            Raw { id: Cell::new(0), held: UnsafeCell::new(Vec::new()) }
        }
        fn held(&self) -> &mut Vec<(usize, bool)> {
            unsafe { &mut *self.held.get() }
        }
        fn acquire(&self, write: bool, block: bool) -> bool {
            preempt();
            let level = model::level();
            let own = self.held().iter().any(|h| (write || h.1) && h.0 == level);
            let other = self.held().iter().any(|h| (write || h.1) && h.0 != level);
            if own || other {
                if !block {
                    return false;
                }
                assert!(!own, "deadlock: the lock is held by the same thread");
                // this thread would wait, so it is not the one that runs here
                symrt::assume(false);
            }
            if self.id.get() == 0 {
                self.id.set(model::lock_id());
            }
            model::acquired(self.id.get(), write, block);
            self.held().push((level, write));
            true
        }
        fn release(&self, write: bool) {
            let level = model::level();
            match self.held().iter().rposition(|h| *h == (level, write)) {
                Some(p) => {
                    self.held().remove(p);
                }
                None => {
                    self.held().pop();
                }
            }
            model::released(self.id.get(), write);
            preempt();
        }
    }

    pub struct Mutex<T: ?Sized> {
        raw: Raw,
        data: UnsafeCell<T>,
    }
    unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}
    unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}
    pub struct MutexGuard<'a, T: ?Sized>(&'a Mutex<T>, std::marker::PhantomData<*const ()>);

    impl<T> Mutex<T> {
        pub const fn new(t: T) -> Self {
            Mutex { raw: Raw::new(), data: UnsafeCell::new(t) }
        }
        pub fn into_inner(self) -> LockResult<T> {
            Ok(self.data.into_inner())
        }
    }
    impl<T: ?Sized> Mutex<T> {
        pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
            self.raw.acquire(true, true);
            Ok(MutexGuard(self, std::marker::PhantomData))
        }
        pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
            if self.raw.acquire(true, false) {
                Ok(MutexGuard(self, std::marker::PhantomData))
            } else {
                Err(TryLockError::WouldBlock)
            }
        }
        pub fn get_mut(&mut self) -> LockResult<&mut T> {
            Ok(self.data.get_mut())
        }
        pub fn is_poisoned(&self) -> bool {
            false
        }
    }
    impl<T: Default> Default for Mutex<T> {
        fn default() -> Self {
            Mutex::new(T::default())
        }
    }
    impl<T> From<T> for Mutex<T> {
        fn from(t: T) -> Self {
            Mutex::new(t)
        }
    }
    impl<T: ?Sized> fmt::Debug for Mutex<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str("Mutex")
        }
    }
    impl<T: ?Sized> Deref for MutexGuard<'_, T> {
        type Target = T;
        fn deref(&self) -> &T {
            unsafe { &*self.0.data.get() }
        }
    }
    impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
        fn deref_mut(&mut self) -> &mut T {
            unsafe { &mut *self.0.data.get() }
        }
    }
    impl<T: ?Sized> Drop for MutexGuard<'_, T> {
        fn drop(&mut self) {
            self.0.raw.release(true)
        }
    }

    pub struct RwLock<T: ?Sized> {
        raw: Raw,
        data: UnsafeCell<T>,
    }
    unsafe impl<T: ?Sized + Send> Send for RwLock<T> {}
    unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}
    pub struct RwLockReadGuard<'a, T: ?Sized>(&'a RwLock<T>, std::marker::PhantomData<*const ()>);
    pub struct RwLockWriteGuard<'a, T: ?Sized>(&'a RwLock<T>, std::marker::PhantomData<*const ()>);

    impl<T> RwLock<T> {
        pub const fn new(t: T) -> Self {
            RwLock { raw: Raw::new(), data: UnsafeCell::new(t) }
        }
        pub fn into_inner(self) -> LockResult<T> {
            Ok(self.data.into_inner())
        }
    }
    impl<T: ?Sized> RwLock<T> {
        pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
            self.raw.acquire(false, true);
            Ok(RwLockReadGuard(self, std::marker::PhantomData))
        }
        pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
            self.raw.acquire(true, true);
            Ok(RwLockWriteGuard(self, std::marker::PhantomData))
        }
        pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
            if self.raw.acquire(false, false) {
                Ok(RwLockReadGuard(self, std::marker::PhantomData))
            } else {
                Err(TryLockError::WouldBlock)
            }
        }
        pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
            if self.raw.acquire(true, false) {
                Ok(RwLockWriteGuard(self, std::marker::PhantomData))
            } else {
                Err(TryLockError::WouldBlock)
            }
        }
        pub fn get_mut(&mut self) -> LockResult<&mut T> {
            Ok(self.data.get_mut())
        }
        pub fn is_poisoned(&self) -> bool {
            false
        }
    }
    impl<T: Default> Default for RwLock<T> {
        fn default() -> Self {
            RwLock::new(T::default())
        }
    }
    impl<T> From<T> for RwLock<T> {
        fn from(t: T) -> Self {
            RwLock::new(t)
        }
    }
    impl<T: ?Sized> fmt::Debug for RwLock<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str("RwLock")
        }
    }
    impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
        type Target = T;
        fn deref(&self) -> &T {
            unsafe { &*self.0.data.get() }
        }
    }
    impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
        fn drop(&mut self) {
            self.0.raw.release(false)
        }
    }
    impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
        type Target = T;
        fn deref(&self) -> &T {
            unsafe { &*self.0.data.get() }
        }
    }
    impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
        fn deref_mut(&mut self) -> &mut T {
            unsafe { &mut *self.0.data.get() }
        }
    }
    impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
        fn drop(&mut self) {
            self.0.raw.release(true)
        }
    }
}

pub mod task {
    pub use crate::model::{spawn, AbortHandle, JoinError, JoinHandle};
    /// Lets others run first.
    pub async fn yield_now() {
        let mut done = false;
        std::future::poll_fn(|cx| {
            if done {
                return std::task::Poll::Ready(());
            }
            done = true;
            cx.waker().wake_by_ref();
            std::task::Poll::Pending
        })
        .await
    }
    /// Tasks that end with it.
    pub struct JoinSet<T>(Vec<JoinHandle<T>>);
    impl<T> Default for JoinSet<T> {
        fn default() -> Self {
            JoinSet(Vec::new())
        }
    }
    impl<T> JoinSet<T> {
        pub fn new() -> Self {
            JoinSet(Vec::new())
        }
        pub fn len(&self) -> usize {
            self.0.len()
        }
        pub fn is_empty(&self) -> bool {
            self.0.is_empty()
        }
        pub fn spawn<F>(&mut self, f: F) -> AbortHandle
        where
            F: std::future::Future<Output = T> + Send + 'static,
            T: Send + 'static,
        {
            let h = spawn(f);
            let a = h.abort_handle();
            self.0.push(h);
            a
        }
        pub fn poll_join_next(&mut self, cx: &mut std::task::Context<'_>) -> std::task::Poll<Option<Result<T, JoinError>>> {
            use std::future::Future;
            use std::task::Poll;
            if self.0.is_empty() {
                return Poll::Ready(None);
            }
            for i in 0..self.0.len() {
                if let Poll::Ready(v) = std::pin::Pin::new(&mut self.0[i]).poll(cx) {
                    self.0.remove(i);
                    return Poll::Ready(Some(v));
                }
            }
            Poll::Pending
        }
        pub async fn join_next(&mut self) -> Option<Result<T, JoinError>> {
            std::future::poll_fn(|cx| self.poll_join_next(cx)).await
        }
        pub fn abort_all(&mut self) {
            for h in &self.0 {
                h.abort()
            }
        }
        pub async fn shutdown(&mut self) {
            self.abort_all();
            while self.join_next().await.is_some() {}
        }
        pub fn detach_all(&mut self) {
            self.0.clear()
        }
    }
    impl<T> Drop for JoinSet<T> {
        fn drop(&mut self) {
            self.abort_all()
        }
    }
    pub fn spawn_blocking<F, R>(f: F) -> JoinHandle<R>
    where
        F: FnOnce() -> R + Send + 'static,
        R: Send + 'static,
    {
        spawn(async move { f() })
    }
}
pub use task::spawn;
#[cfg(feature = "macros")]
pub use tokio_macros::main;

/// A runtime whose tasks run when the harness says so.
pub mod runtime {
    use crate::model;
    use std::future::Future;
    pub use crate::task::JoinHandle;

    #[derive(Debug, Default)]
    pub struct Builder(());
    #[derive(Debug)]
    pub struct Runtime(());
    #[derive(Clone, Debug)]
    pub struct Handle(());

    impl Builder {
        pub fn new_multi_thread() -> Builder {
            Builder(())
        }
        pub fn new_current_thread() -> Builder {
            Builder(())
        }
        pub fn enable_all(&mut self) -> &mut Self {
            self
        }
        pub fn enable_io(&mut self) -> &mut Self {
            self
        }
        pub fn enable_time(&mut self) -> &mut Self {
            self
        }
        pub fn worker_threads(&mut self, _: usize) -> &mut Self {
            self
        }
        pub fn build(&mut self) -> std::io::Result<Runtime> {
            Ok(Runtime(()))
        }
    }
    impl Runtime {
        pub fn new() -> std::io::Result<Runtime> {
            Ok(Runtime(()))
        }
        pub fn block_on<F: Future>(&self, f: F) -> F::Output {
            model::block_on(f)
        }
        pub fn spawn<F>(&self, f: F) -> JoinHandle<F::Output>
        where
            F: Future + Send + 'static,
            F::Output: Send + 'static,
        {
            crate::spawn(f)
        }
        pub fn handle(&self) -> &Handle {
            &Handle(())
        }
    }
    impl Drop for Runtime {
        fn drop(&mut self) {
            model::drop_tasks()
        }
    }
    impl Handle {
        pub fn current() -> Handle {
            Handle(())
        }
        pub fn spawn<F>(&self, f: F) -> JoinHandle<F::Output>
        where
            F: Future + Send + 'static,
            F::Output: Send + 'static,
        {
            crate::spawn(f)
        }
    }
}

/// Time passes when the harness says so.
pub mod time {
    use crate::model;
    use std::future::Future;
    use std::pin::Pin;
    use std::task::{Context, Poll};
    pub use std::time::Duration;

    #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
    pub struct Instant(Duration);
    impl Instant {
        pub fn now() -> Instant {
            Instant(model::now())
        }
        pub fn elapsed(&self) -> Duration {
            model::now() - self.0
        }
        pub fn duration_since(&self, o: Instant) -> Duration {
            self.0.saturating_sub(o.0)
        }
        pub fn checked_add(&self, d: Duration) -> Option<Instant> {
            self.0.checked_add(d).map(Instant)
        }
    }
    impl std::ops::Add<Duration> for Instant {
        type Output = Instant;
        fn add(self, d: Duration) -> Instant {
            Instant(self.0 + d)
        }
    }
    impl std::ops::AddAssign<Duration> for Instant {
        fn add_assign(&mut self, d: Duration) {
            self.0 += d
        }
    }
    impl std::ops::Sub<Instant> for Instant {
        type Output = Duration;
        fn sub(self, o: Instant) -> Duration {
            self.duration_since(o)
        }
    }

    #[derive(Debug)]
    pub struct Sleep(Duration, std::marker::PhantomPinned);
    pub fn sleep(d: Duration) -> Sleep {
        Sleep(model::now() + d, std::marker::PhantomPinned)
    }
    pub fn sleep_until(t: Instant) -> Sleep {
        Sleep(t.0, std::marker::PhantomPinned)
    }
    impl Sleep {
        pub fn deadline(&self) -> Instant {
            Instant(self.0)
        }
        pub fn is_elapsed(&self) -> bool {
            model::now() >= self.0
        }
        pub fn reset(self: Pin<&mut Self>, t: Instant) {
            unsafe { self.get_unchecked_mut().0 = t.0 }
        }
    }
    impl Future for Sleep {
        type Output = ();
        fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
            model::until(self.0, cx)
        }
    }

    #[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
    pub enum MissedTickBehavior {
        #[default]
        Burst,
        Delay,
        Skip,
    }
    #[derive(Debug)]
    pub struct Interval(Duration, Duration, MissedTickBehavior);
    /// The first tick comes at once.
    pub fn interval(period: Duration) -> Interval {
        interval_at(Instant::now(), period)
    }
    pub fn interval_at(start: Instant, period: Duration) -> Interval {
        assert!(period > Duration::new(0, 0), "`period` must be non-zero.");
        Interval(start.0, period, MissedTickBehavior::Burst)
    }
    impl Interval {
        pub fn poll_tick(&mut self, cx: &mut Context<'_>) -> Poll<Instant> {
            let t = self.0;
            if model::until(t, cx).is_pending() {
                return Poll::Pending;
            }
            let now = model::now();
            self.0 = match self.2 {
                // not more than 5 ms late is not late
                _ if now <= t + Duration::from_millis(5) => t + self.1,
                MissedTickBehavior::Burst => t + self.1,
                MissedTickBehavior::Delay => now + self.1,
                MissedTickBehavior::Skip => {
                    let mut n = t + self.1;
                    while n <= now {
                        n += self.1
                    }
                    n
                }
            };
            Poll::Ready(Instant(t))
        }
        pub async fn tick(&mut self) -> Instant {
            std::future::poll_fn(|cx| self.poll_tick(cx)).await
        }
        pub fn reset(&mut self) {
            self.0 = model::now() + self.1
        }
        pub fn set_missed_tick_behavior(&mut self, b: MissedTickBehavior) {
            self.2 = b
        }
        pub fn period(&self) -> Duration {
            self.1
        }
    }

    pub mod error {
        #[derive(Debug, PartialEq, Eq)]
        pub struct Elapsed(pub(crate) ());
        impl std::fmt::Display for Elapsed {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                f.write_str("deadline has elapsed")
            }
        }
        impl std::error::Error for Elapsed {}
    }
    pub async fn timeout<F: std::future::IntoFuture>(d: Duration, f: F) -> Result<F::Output, error::Elapsed> {
        timeout_at(Instant::now() + d, f).await
    }
    pub async fn timeout_at<F: std::future::IntoFuture>(t: Instant, f: F) -> Result<F::Output, error::Elapsed> {
        let mut f = std::pin::pin!(f.into_future());
        std::future::poll_fn(|cx| {
            if let Poll::Ready(v) = f.as_mut().poll(cx) {
                return Poll::Ready(Ok(v));
            }
            model::until(t.0, cx).map(|_| Err(error::Elapsed(())))
        })
        .await
    }
}

/// Signals arrive when the harness says so.
pub mod signal {
    pub async fn ctrl_c() -> std::io::Result<()> {
        unix::signal(unix::SignalKind::interrupt())?.recv().await;
        Ok(())
    }
    pub mod unix {
        use crate::model;
        #[derive(Clone, Copy, Debug, PartialEq, Eq)]
        pub struct SignalKind(i32);
        macro_rules! kinds {
            ($($n:ident $k:literal)*) => { $(pub fn $n() -> SignalKind { SignalKind($k) })* };
        }
        impl SignalKind {
            kinds! { hangup 1 interrupt 2 quit 3 user_defined1 10 user_defined2 12 terminate 15 child 17 }
            pub fn from_raw(k: i32) -> SignalKind {
                SignalKind(k)
            }
            pub fn as_raw_value(&self) -> i32 {
                self.0
            }
        }
        /// How many of its kind have been seen.
        #[derive(Debug)]
        pub struct Signal(i32, usize);
        pub fn signal(k: SignalKind) -> std::io::Result<Signal> {
            Ok(Signal(k.0, model::signals(k.0)))
        }
        impl Signal {
            pub async fn recv(&mut self) -> Option<()> {
                let (k, n) = (self.0, self.1);
                std::future::poll_fn(|cx| model::signalled(k, n, cx)).await;
                self.1 = model::signals(k);
                Some(())
            }
        }
    }
}
