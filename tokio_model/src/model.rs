//! The harness's side: tasks and sockets.
use std::cell::UnsafeCell;
use std::future::Future;
use std::io;
use std::pin::Pin;
use std::time::Duration;
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};

/// A connection as the client sees it.
pub struct Sock {
    /// Bytes on their way to the server and how many of them the server has read.
    pub input: Vec<u8>,
    pub pos: usize,
    /// No read goes beyond the next of these positions.
    pub cuts: Vec<usize>,
    /// What follows the input: nothing (yet), the end of the stream, an error.
    pub eof: bool,
    pub read_error: bool,
    pub errno: i32,
    /// What the server has written, and where its transmissions began.
    pub output: Vec<u8>,
    pub begins: Vec<usize>,
    pending: usize,
    /// How many more bytes the client takes for now.
    pub credit: usize,
    /// A write accepts no more than this at once.
    pub piece: usize,
    pub write_error: bool,
    /// Does the server hold its halves?
    pub rx_open: bool,
    pub tx_open: bool,
    pub reads: usize,
    rx_waker: Option<Waker>,
    tx_waker: Option<Waker>,
}

struct Task {
    f: Option<Pin<Box<dyn Future<Output = ()>>>>,
    woken: bool,
    aborted: bool,
    done: bool,
    joined: Option<Waker>,
}

#[derive(Default)]
pub struct Net {
    pub socks: Vec<Sock>,
    pub accepted: usize,
    pub accept_error: Option<i32>,
    pub listening: bool,
    pub binds: usize,
    pub accept_waker: Option<Waker>,
    tasks: Vec<Task>,
    now: Duration,
    timers: Vec<(Duration, Waker)>,
    signals: Vec<i32>,
    signal_wakers: Vec<Waker>,
    first: Option<usize>,
}

struct Cell(UnsafeCell<Option<Net>>);
unsafe impl Sync for Cell {}

static NET: Cell = Cell(UnsafeCell::new(None));

/// The one and only network. Nothing that is passed in calls back into `with`.
pub fn with<T>(f: impl FnOnce(&mut Net) -> T) -> T {
    unsafe { f((*NET.0.get()).get_or_insert_with(Net::default)) }
}
/// Forgets everything (without running destructors of tasks that are left).
pub fn reset() {
    unsafe {
        if let Some(n) = (*NET.0.get()).take() {
            std::mem::forget(n);
        }
        let t = threads();
        (t.budget, t.level, t.used, t.task) = (0, 0, 0, HARNESS);
        t.held.clear();
        t.order.clear();
    }
}

/// A client connects.
pub fn connect() -> usize {
    let (i, w) = with(|n| {
        n.socks.push(Sock {
            input: Vec::new(),
            pos: 0,
            cuts: Vec::new(),
            eof: false,
            read_error: false,
            errno: 104,
            output: Vec::new(),
            begins: Vec::new(),
            pending: 0,
            credit: usize::MAX,
            piece: usize::MAX,
            write_error: false,
            rx_open: false,
            tx_open: false,
            reads: 0,
            rx_waker: None,
            tx_waker: None,
        });
        (n.socks.len() - 1, n.accept_waker.take())
    });
    wake(w);
    i
}
fn wake(w: Option<Waker>) {
    if let Some(w) = w {
        w.wake()
    }
}
/// Changes what the client of connection `i` does; the server is told.
pub fn client<T>(i: usize, f: impl FnOnce(&mut Sock) -> T) -> T {
    let (r, a, b) = with(|n| {
        let s = &mut n.socks[i];
        let r = f(s);
        (r, s.rx_waker.take(), s.tx_waker.take())
    });
    wake(a);
    wake(b);
    r
}
pub fn sock<T>(i: usize, f: impl FnOnce(&Sock) -> T) -> T {
    with(|n| f(&n.socks[i]))
}
/// Accepting connections fails.
pub fn fail_accept(errno: i32) {
    let w = with(|n| {
        n.accept_error = Some(errno);
        n.accept_waker.take()
    });
    wake(w)
}

pub(crate) fn read(i: usize, cx: Option<&mut Context<'_>>, limit: usize) -> Poll<io::Result<Vec<u8>>> {
    with(|n| {
        let s = &mut n.socks[i];
        assert!(s.rx_open);
        let mut k = s.input.len() - s.pos;
        if k == 0 {
            if s.read_error {
                return Poll::Ready(Err(io::Error::from_raw_os_error(s.errno)));
            }
            if s.eof {
                return Poll::Ready(Ok(Vec::new()));
            }
            if let Some(cx) = cx {
                s.rx_waker = Some(cx.waker().clone());
            }
            return Poll::Pending;
        }
        if k > limit {
            k = limit;
        }
        for c in &s.cuts {
            if *c > s.pos && *c - s.pos < k {
                k = *c - s.pos;
            }
        }
        s.reads += 1;
        let v = s.input[s.pos..s.pos + k].to_vec();
        s.pos += k;
        Poll::Ready(Ok(v))
    })
}

pub(crate) fn readable(i: usize, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
    with(|n| {
        let s = &mut n.socks[i];
        if s.input.len() > s.pos || s.eof || s.read_error {
            return Poll::Ready(Ok(()));
        }
        s.rx_waker = Some(cx.waker().clone());
        Poll::Pending
    })
}
pub(crate) fn writable(i: usize, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
    with(|n| {
        let s = &mut n.socks[i];
        if s.credit > 0 || s.write_error {
            return Poll::Ready(Ok(()));
        }
        s.tx_waker = Some(cx.waker().clone());
        Poll::Pending
    })
}

pub(crate) fn write(i: usize, cx: Option<&mut Context<'_>>, data: &[u8]) -> Poll<io::Result<usize>> {
    with(|n| {
        let s = &mut n.socks[i];
        assert!(s.tx_open);
        // a transmission begins, unless it continues one that was accepted in part
        if s.pending == 0 && !data.is_empty() {
            let p = s.output.len();
            s.begins.push(p);
            s.pending = data.len();
        }
        if s.write_error {
            return Poll::Ready(Err(io::Error::from_raw_os_error(s.errno)));
        }
        if s.credit == 0 && !data.is_empty() {
            if let Some(cx) = cx {
                s.tx_waker = Some(cx.waker().clone());
            }
            return Poll::Pending;
        }
        let mut k = data.len();
        if k > s.credit {
            k = s.credit;
        }
        if k > s.piece {
            k = s.piece;
        }
        s.output.extend_from_slice(&data[..k]);
        s.pending = s.pending.saturating_sub(k);
        if s.credit != usize::MAX {
            s.credit -= k;
        }
        Poll::Ready(Ok(k))
    })
}

pub(crate) fn closed(i: usize, rx: bool, tx: bool) {
    with(|n| {
        let s = &mut n.socks[i];
        if rx {
            s.rx_open = false;
        }
        if tx {
            s.tx_open = false;
        }
    })
}

/// What a task leaves behind.
struct Outcome<T> {
    value: Option<T>,
}
pub struct JoinHandle<T>(usize, std::sync::Arc<std::sync::Mutex<Outcome<T>>>);
#[derive(Debug)]
pub struct JoinError(());
#[derive(Clone, Debug)]
pub struct AbortHandle(usize);

impl std::fmt::Display for JoinError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("task was cancelled")
    }
}
impl std::error::Error for JoinError {}
impl JoinError {
    pub fn is_cancelled(&self) -> bool {
        true
    }
    pub fn is_panic(&self) -> bool {
        false
    }
}
impl AbortHandle {
    pub fn abort(&self) {
        with(|n| n.tasks[self.0].aborted = true);
        ring(self.0)
    }
    pub fn is_finished(&self) -> bool {
        finished(self.0)
    }
}
impl<T> JoinHandle<T> {
    pub fn abort(&self) {
        AbortHandle(self.0).abort()
    }
    pub fn abort_handle(&self) -> AbortHandle {
        AbortHandle(self.0)
    }
    pub fn is_finished(&self) -> bool {
        finished(self.0)
    }
}
impl<T> std::fmt::Debug for JoinHandle<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("JoinHandle")
    }
}
impl<T> Future for JoinHandle<T> {
    type Output = Result<T, JoinError>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let mut o = self.1.lock().unwrap();
        if let Some(v) = o.value.take() {
            return Poll::Ready(Ok(v));
        }
        if finished(self.0) {
            return Poll::Ready(Err(JoinError(())));
        }
        drop(o);
        let w = cx.waker().clone();
        with(|n| n.tasks[self.0].joined = Some(w));
        Poll::Pending
    }
}

/// Starts a task: it runs when the harness says so.
pub fn spawn<F>(f: F) -> JoinHandle<F::Output>
where
    F: Future + Send + 'static,
    F::Output: Send + 'static,
{
    let o = std::sync::Arc::new(std::sync::Mutex::new(Outcome { value: None }));
    let p = o.clone();
    let t = local(async move {
        let v = f.await;
        p.lock().unwrap().value = Some(v);
    });
    JoinHandle(t, o)
}
/// Starts a task of the harness; returns its number.
pub fn local(f: impl Future<Output = ()> + 'static) -> usize {
    let b: Pin<Box<dyn Future<Output = ()>>> = Box::pin(f);
    with(|n| {
        n.tasks.push(Task { f: Some(b), woken: true, aborted: false, done: false, joined: None });
        n.tasks.len() - 1
    })
}

static VTABLE: RawWakerVTable = RawWakerVTable::new(
    |p| RawWaker::new(p, &VTABLE),
    |p| ring(p as usize),
    |p| ring(p as usize),
    |_| {},
);
fn ring(t: usize) {
    with(|n| n.tasks[t].woken = true)
}

/// The tasks that have been woken since they last ran.
pub fn runnable() -> Vec<usize> {
    with(|n| (0..n.tasks.len()).filter(|i| n.tasks[*i].woken && n.tasks[*i].f.is_some()).collect())
}
pub fn finished(t: usize) -> bool {
    with(|n| n.tasks[t].done)
}
pub fn tasks() -> usize {
    with(|n| n.tasks.len())
}
/// Interleavings of several threads: while a task or the harness is at work, another task that is
/// ready may run, as if on a thread of its own, until it waits: wherever a lock is about to be
/// taken or has been released, as often as the budget allows, nested up to three deep. (Whoever
/// would have to wait for a lock held further out does not run there.)
struct Threads {
    budget: usize,
    level: usize,
    used: usize,
    task: usize,
    locks: usize,
    /// what is held at each level, by lock: level, lock, exclusively
    held: Vec<(usize, usize, bool)>,
    /// who waited for which lock while holding which others
    order: Vec<(usize, (usize, bool), (usize, bool), Vec<(usize, bool)>)>,
}
const HARNESS: usize = usize::MAX;
struct TCell(UnsafeCell<Threads>);
unsafe impl Sync for TCell {}
static THREADS: TCell = TCell(UnsafeCell::new(Threads {
    budget: 0,
    level: 0,
    used: 0,
    task: HARNESS,
    locks: 0,
    held: Vec::new(),
    order: Vec::new(),
}));
fn threads() -> &'static mut Threads {
    unsafe { &mut *THREADS.0.get() }
}
/// From now on there are that many preemptions.
pub fn preemptions(n: usize) {
    threads().budget = n
}
/// How many there were.
pub fn preempted() -> usize {
    threads().used
}
pub fn level() -> usize {
    threads().level
}
pub(crate) fn lock_id() -> usize {
    threads().locks += 1;
    threads().locks
}
/// Another thread may run here.
pub fn preempt() {
    let t = threads();
    if t.budget == 0 || t.level >= 3 {
        return;
    }
    let r = runnable();
    if r.is_empty() {
        return;
    }
    let c = symrt::choice(r.len() + 1);
    if c == 0 {
        return;
    }
    t.budget -= 1;
    t.used += 1;
    t.level += 1;
    symrt::nested(true);
    run(r[c - 1]);
    threads().level -= 1;
    symrt::nested(threads().level > 0);
}
pub(crate) fn acquired(id: usize, write: bool, block: bool) {
    let t = threads();
    let held: Vec<(usize, bool)> = t.held.iter().filter(|h| h.0 == t.level).map(|h| (h.1, h.2)).collect();
    if block {
        for (k, h) in held.iter().enumerate() {
            let mut gates = held.clone();
            gates.remove(k);
            // does another task take the two the other way round, with nothing else that keeps them apart?
            for (u, a, b, g) in &t.order {
                let crossed = *u != t.task && a.0 == id && b.0 == h.0 && (a.1 || write) && (b.1 || h.1);
                let apart = g.iter().any(|x| gates.iter().any(|y| x.0 == y.0 && (x.1 || y.1)));
                assert!(!crossed || apart, "deadlock: locks are taken in different orders");
            }
            let e = (t.task, *h, (id, write), gates);
            if !t.order.contains(&e) {
                t.order.push(e);
            }
        }
    }
    t.held.push((t.level, id, write));
}
pub(crate) fn released(id: usize, write: bool) {
    let t = threads();
    let l = t.level;
    if let Some(p) = t.held.iter().rposition(|h| *h == (l, id, write)) {
        t.held.remove(p);
    }
}

/// Lets task `t` run until it waits.
pub fn run(t: usize) {
    let before = std::mem::replace(&mut threads().task, t);
    run_(t);
    threads().task = before;
}
fn run_(t: usize) {
    let (f, aborted) = with(|n| {
        n.tasks[t].woken = false;
        (n.tasks[t].f.take(), n.tasks[t].aborted)
    });
    if let Some(mut f) = f {
        if aborted {
            drop(f);
            return end(t);
        }
        let w = unsafe { Waker::from_raw(RawWaker::new(t as *const (), &VTABLE)) };
        let mut cx = Context::from_waker(&w);
        match f.as_mut().poll(&mut cx) {
            Poll::Pending => with(|n| n.tasks[t].f = Some(f)),
            Poll::Ready(()) => {
                drop(f);
                end(t)
            }
        }
    }
}
fn end(t: usize) {
    let w = with(|n| {
        n.tasks[t].done = true;
        n.tasks[t].joined.take()
    });
    wake(w)
}
/// Runs what is runnable, at most `limit` times; true if everything waits in the end.
pub fn settle(limit: usize) -> bool {
    for _ in 0..limit {
        match runnable().first() {
            None => return true,
            Some(t) => run(*t),
        }
    }
    runnable().is_empty()
}

/// The time since the beginning.
pub fn now() -> Duration {
    with(|n| n.now)
}
/// Time passes.
pub fn advance(d: Duration) {
    let w = with(|n| {
        n.now += d;
        let now = n.now;
        let (due, rest) = std::mem::take(&mut n.timers).into_iter().partition(|t| t.0 <= now);
        n.timers = rest;
        let due: Vec<(Duration, Waker)> = due;
        due
    });
    for (_, w) in w {
        w.wake()
    }
}
pub(crate) fn until(t: Duration, cx: &mut Context<'_>) -> Poll<()> {
    with(|n| {
        if n.now >= t {
            return Poll::Ready(());
        }
        n.timers.push((t, cx.waker().clone()));
        Poll::Pending
    })
}
/// Which of its n branches a `select!` looks at first: any, but the same all the time.
pub(crate) fn first_of(n: u32) -> u32 {
    let n = n as usize;
    let f = with(|w| w.first);
    let f = match f {
        Some(f) => f,
        None => {
            let f = symrt::choice(n);
            with(|w| w.first = Some(f));
            f
        }
    };
    (f % n) as u32
}
/// A signal arrives; nothing happens if nobody waits for signals of its kind.
pub fn raise(k: i32) {
    let w = with(|n| {
        n.signals.push(k);
        std::mem::take(&mut n.signal_wakers)
    });
    for w in w {
        w.wake()
    }
}
pub(crate) fn signals(k: i32) -> usize {
    with(|n| n.signals.iter().filter(|s| **s == k).count())
}
pub(crate) fn signalled(k: i32, seen: usize, cx: &mut Context<'_>) -> Poll<()> {
    if signals(k) > seen {
        return Poll::Ready(());
    }
    with(|n| n.signal_wakers.push(cx.waker().clone()));
    Poll::Pending
}

static mut DRIVER: Option<Box<dyn FnOnce()>> = None;
/// What the harness does once the runtime runs its main task, up to the end of that task.
pub fn drive(f: impl FnOnce() + 'static) {
    unsafe { DRIVER = Some(Box::new(f)) }
}
pub(crate) fn block_on<F: Future>(f: F) -> F::Output {
    let mut out = None;
    let o = &mut out as *mut Option<F::Output>;
    let b: Pin<Box<dyn Future<Output = ()> + '_>> = Box::pin(async move {
        let v = f.await;
        unsafe { *o = Some(v) }
    });
    // it ends below or the program does
    let b: Pin<Box<dyn Future<Output = ()>>> = unsafe { std::mem::transmute(b) };
    with(|n| n.tasks.push(Task { f: Some(b), woken: true, aborted: false, done: false, joined: None }));
    let d = unsafe { (*std::ptr::addr_of_mut!(DRIVER)).take() };
    if let Some(d) = d {
        d()
    }
    out.expect("the main task has not ended")
}
/// The runtime ends, and with it all tasks.
pub(crate) fn drop_tasks() {
    for t in 0..tasks() {
        let f = with(|n| n.tasks[t].f.take());
        drop(f)
    }
}
