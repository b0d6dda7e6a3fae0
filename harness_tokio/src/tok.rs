//! The Tokio dispatch: what is queued, broadcast, read, written and torn down.
use crate::srv::*;
use crate::util::*;
use crate::world::*;
use ::tokio::model;
use vt6::common::core::msg::*;
use vt6::server::Dispatch as _;
use vt6::server::*;

pub type D = vt6::server::tokio::Dispatch<App>;
pub type TConn = Connection<App, D>;

static mut UNLINKED: usize = 0;
static mut RESULT: Option<bool> = None;

#[cfg(feature = "sym")]
#[no_mangle]
pub unsafe extern "C" fn vt6_model_unlink(_p: *const u8) -> i32 {
    UNLINKED += 1;
    0
}
#[cfg(not(feature = "sym"))]
#[no_mangle]
pub unsafe extern "C" fn unlink(_p: *const u8) -> i32 {
    UNLINKED += 1;
    0
}

/// Everything happens in this world from now on; nothing is listening yet.
fn start() -> (Box<World>, D) {
    let (w, d) = prepare();
    settle();
    (w, d)
}
/// The same without having run anything.
fn prepare() -> (Box<World>, D) {
    model::reset();
    unsafe {
        UNLINKED = 0;
        RESULT = None;
        ON_CLOSED = None;
    }
    let mut w = World::new();
    enter(&mut w);
    w.allow(1, b"s1", Ident::plain(b"in"));
    w.allow(2, b"s1", Ident::plain(b"out"));
    w.allow(0, b"s1", Ident { id: b"a1".to_vec(), screens: [Some(b"x".to_vec()), None, Some(b"y".to_vec())] });
    let d = D::new("/vt6", App).unwrap();
    let e = d.clone();
    model::local(async move {
        let r = e.run_listener().await;
        unsafe { RESULT = Some(r.is_ok()) };
    });
    (w, d)
}

/// Everything that can happen without further stimulus happens.
fn settle() {
    assert!(model::settle(1000), "never comes to rest");
}

/// A client connects and is put into the given mode.
fn connect(d: &D, m: Mode) -> usize {
    let i = model::connect();
    settle();
    let s = |b: &[u8]| ScreenIdentity::new(std::str::from_utf8(b).unwrap());
    d.enqueue_broadcast(Box::new(move |c: &mut TConn| {
        // the newest one has nothing behind it yet
        if matches!(c.state(), ConnectionState::Handshake) {
            match &m {
                Mode::Msgio(i) => c.set_state(ConnectionState::Msgio(MConn(i.make()))),
                Mode::Stdin(b) => c.set_state(ConnectionState::Stdin(s(b))),
                Mode::Stdout(b) => c.set_state(ConnectionState::Stdout(SConn(s(b)))),
                _ => {}
            }
        }
    }));
    settle();
    i
}

struct M(Vec<u8>);
impl EncodeMessage for M {
    fn encode(&self, buf: &mut [u8]) -> Result<usize, BufferTooSmallError> {
        let mut f = MessageFormatter::new(buf, "own1.m", 1);
        f.add_argument(&self.0[..]);
        f.finalize()
    }
}

/// A message of exactly `n` bytes whose first and last argument bytes are arbitrary.
fn message(n: usize) -> M {
    // {2|6:own1.m,K:...,}
    let mut k = n - 16;
    while k + 15 + dec(k).len() > n {
        k -= 1;
    }
    let mut a = vec![b'-'; k];
    if k > 0 {
        a[0] = u8_();
        a[k - 1] = u8_();
    }
    assert!(render(b"own1.m", &[&a]).len() == n);
    M(a)
}


/// What the client of connection `i` has received.
fn output(i: usize) -> Vec<u8> {
    model::sock(i, |s| s.output.clone())
}
fn send(i: usize, b: &[u8]) {
    model::client(i, |s| s.input.extend_from_slice(b));
}
/// Does the server still hold the connection?
fn open(i: usize) -> bool {
    let (a, b) = model::sock(i, |s| (s.rx_open, s.tx_open));
    assert!(a == b, "half closed");
    a
}
/// The connections that are there, in the order of their IDs.
fn states(d: &D) -> Vec<(u64, Mode)> {
    static mut OUT: Vec<(u64, Mode)> = Vec::new();
    unsafe {
        OUT = Vec::new();
        d.enqueue_broadcast(Box::new(|c: &mut TConn| OUT.push((c.id(), mode(c)))));
        let mut v = std::mem::take(&mut OUT);
        v.sort_by_key(|x| x.0);
        v
    }
}
/// One runnable task, whichever, runs until it waits.
fn step() {
    let r = model::runnable();
    assume(!r.is_empty());
    model::run(r[choice(r.len())]);
}
fn count(f: impl Fn(&Ev) -> bool) -> usize {
    world().count(f)
}
fn broadcast(d: &D, t: u8) {
    d.enqueue_broadcast(Box::new(move |c: &mut TConn| world().ev.push(Ev::Ran(t, c.id()))));
}
/// `i` is on a message connection that works.
fn works(i: usize) {
    let n = output(i).len();
    send(i, &want(b"own1"));
    settle();
    assert!(output(i)[n..] == render(b"have", &[b"own1.7"]), "another connection is disturbed");
}
/// Any error number, except those that mean nothing but "try again".
fn errno() -> i32 {
    let e = u8_() as i32;
    assume(e >= 1 && e <= 133 && e != 4 && e != 11);
    e
}
/// Another thread does this at some time.
fn thread(f: impl FnOnce() + 'static) {
    model::local(async move { f() });
}
/// Everything happens, with up to `budget` preemptions; the first `free` tasks run in any order.
fn race(budget: usize, free: usize) {
    model::preemptions(budget);
    for _ in 0..free {
        let r = model::runnable();
        if r.is_empty() {
            break;
        }
        model::run(r[choice(r.len())]);
    }
    settle();
    model::preemptions(0);
    if model::preempted() > 0 {
        cover(50);
    }
}
/// Kinds of ends; the last needs queued output.
fn finish(d: &D, i: usize, id: u64, kind: usize) {
    match kind {
        0 => model::client(i, |s| s.eof = true),
        1 => {
            let e = errno();
            model::client(i, |s| {
                s.read_error = true;
                s.errno = e;
            })
        }
        2 => send(i, &render(b"own1.leave", &[])),
        3 => d.enqueue_broadcast(Box::new(move |c: &mut TConn| {
            if c.id() == id {
                c.set_state(ConnectionState::Teardown)
            }
        })),
        _ => {
            let e = errno();
            model::client(i, |s| {
                s.write_error = true;
                s.errno = e;
                s.credit = usize::MAX;
            });
            d.enqueue_broadcast(Box::new(move |c: &mut TConn| {
                if c.id() == id && c.state().can_receive_messages() {
                    c.enqueue_message(&M(b"x".to_vec()))
                }
            }))
        }
    }
}

/// The messages `m` and their boundaries.
struct Queued {
    want: Vec<u8>,
    bounds: Vec<usize>,
}
impl Queued {
    fn new() -> Queued {
        Queued { want: vec![], bounds: vec![0] }
    }
    fn message(&mut self, d: &D, n: usize) {
        let m = message(n);
        self.want.extend(render(b"own1.m", &[&m.0]));
        self.bounds.push(self.want.len());
        d.enqueue_broadcast(Box::new(move |c: &mut TConn| {
            if c.state().can_receive_messages() {
                c.enqueue_message(&m)
            }
        }));
    }
    fn stdin(&mut self, d: &D, n: usize) {
        let mut m = vec![b'-'; n];
        if n > 0 {
            m[0] = u8_();
            m[n - 1] = u8_();
            m[n / 2] = u8_();
        }
        self.want.extend_from_slice(&m);
        d.enqueue_broadcast(Box::new(move |c: &mut TConn| c.enqueue_stdin(&m)));
    }
    fn received(&self, i: usize, split: bool) {
        model::client(i, |s| s.credit = usize::MAX);
        settle();
        model::sock(i, |s| {
            assert!(s.output.len() == self.want.len(), "bytes are missing or repeated");
            assert!(s.output == self.want, "bytes are altered or in another order");
            for b in &s.begins {
                assert!(split || self.bounds.contains(b), "a message is split across transmissions");
            }
            observe(1, &s.output);
        });
    }
}

/// What a connection with all the bytes in one read does: events without those of connections,
/// what is sent, the state in the end.
fn direct(s: &[u8]) -> (Vec<Ev>, Vec<u8>, Mode) {
    let mut a = fresh();
    a.feed(0, s);
    a.no_bad_send();
    let ev = a.ev.iter().filter(|e| !matches!(e, Ev::Sent(..))).cloned().collect::<Vec<_>>();
    (merged(&ev), a.sent(0).concat(), a.mode(0))
}
/// How the bytes end.
#[derive(Clone, Copy, PartialEq)]
enum End {
    Open,
    Eof,
    Error,
}
/// The bytes arrive in the given portions (at these positions the server comes to rest), reads are
/// cut at `cuts`, then the stream ends.
fn receive(s: &[u8], portions: &[usize], cuts: &[usize], end: End) {
    let (ev, out, m) = direct(s);
    let (w, d) = start();
    let i = model::connect();
    model::client(i, |k| k.cuts = cuts.to_vec());
    let mut from = 0;
    for p in portions {
        send(i, &s[from..*p]);
        settle();
        from = *p;
    }
    send(i, &s[from..]);
    let e = errno();
    model::client(i, |k| {
        k.eof = end == End::Eof;
        k.read_error = end == End::Error;
        k.errno = e;
    });
    settle();
    let close = m == Mode::Teardown || end != End::Open;
    assert!(open(i) == !close);
    assert!(w.ev[0] == Ev::Opened);
    assert!(count(|e| *e == Ev::Opened) == 1 && count(|e| *e == Ev::Closed) == close as usize);
    // an error of a connection that is closed already may go unnoticed
    let errors = count(|e| *e == Ev::IoError);
    assert!(errors <= (end == End::Error) as usize && (errors == 1 || end != End::Error || m == Mode::Teardown));
    if close {
        let last = w.ev.iter().rev().find(|e| m != Mode::Teardown || **e != Ev::IoError);
        assert!(last == Some(&Ev::Closed), "closed before everything was processed");
    }
    let mut got = merged(&w.ev.iter().filter(|e| !matches!(e, Ev::Opened | Ev::Closed | Ev::IoError)).cloned().collect::<Vec<_>>());
    let mut ev = ev;
    if m == Mode::Teardown {
        // of what arrives as the connection closes, how much was already read depends on the cuts
        if let (Some(Ev::Discard(p)), Some(Ev::Discard(q))) = (ev.last(), got.last()) {
            assert!(is_prefix(q, p));
            ev.pop();
            got.pop();
        }
        cover(1);
    } else {
        if end == End::Open {
            assert!(states(&d) == vec![(0, m.clone())] || m != states(&d)[0].1);
            assert!(states(&d)[0].1 == m);
            assert!(output(i) == out);
        } else {
            // what could not be transmitted before the end is lost
            assert!(is_prefix(&output(i), &out));
        }
        cover(2);
    }
    assert!(got == ev);
    observe(1, &out);
    assert!(model::sock(i, |k| k.pos == s.len() || m == Mode::Teardown), "input is left unread");
}

fn portions(n: usize, len: usize) -> Vec<usize> {
    match n {
        0 => vec![],
        1 => vec![choice(len + 1)],
        2 => {
            let c = choice(len + 1);
            vec![c, c + choice(len + 1 - c)]
        }
        // regular pieces
        k => (1..len).filter(|i| i % k == 0).collect(),
    }
}

harness! {
    // params: events, sizes of messages A and B, bytes the client takes at a time, messages A before
    fn c19_messages() {
        let (_w, d) = start();
        let i = connect(&d, Mode::Msgio(Ident::plain(b"a1")));
        model::client(i, |s| s.credit = 0);
        let mut q = Queued::new();
        for _ in 0..param(4) {
            q.message(&d, param(1));
        }
        for _ in 0..param(0) {
            match choice(4) {
                0 => q.message(&d, param(1)),
                1 => q.message(&d, param(2)),
                2 => model::client(i, |s| s.credit += param(3)),
                _ => step(),
            }
        }
        q.received(i, false);
        cover(1);
    }
    // params: mode: nothing else than what a connection's mode is for is ever transmitted to it
    fn c19_wrong() {
        let (_w, d) = start();
        let (m, messages, stdin) = match param(0) {
            0 => (Mode::Handshake, true, false),
            1 => (Mode::Msgio(Ident::plain(b"a1")), true, false),
            2 => (Mode::Stdin(b"in".to_vec()), false, true),
            3 => (Mode::Stdout(b"out".to_vec()), false, false),
            _ => (Mode::Teardown, false, false),
        };
        let i = connect(&d, m);
        let kind = bool_();
        let right = if kind { messages } else { stdin };
        let m = message(40);
        let data = bytes(2);
        let mut want = render(b"own1.m", &[&m.0]);
        if !kind {
            want = data.clone();
        }
        cover(1);
        allow_panic(!right);
        let e = d.clone();
        let turned = param(0) > 3;
        d.enqueue_broadcast(Box::new(move |c: &mut TConn| {
            if turned {
                c.set_state(ConnectionState::Teardown);
            }
            if kind {
                e.enqueue_message(c, &m);
            } else {
                e.enqueue_stdin(c, &data);
            }
        }));
        settle();
        allow_panic(false);
        if right {
            assert!(output(i) == want);
            cover(2);
        } else {
            assert!(output(i).is_empty());
        }
    }
    // params: events, sizes of data A and B, bytes the client takes at a time
    fn c19_stdin() {
        let (_w, d) = start();
        let i = connect(&d, Mode::Stdin(b"in".to_vec()));
        model::client(i, |s| s.credit = 0);
        let mut q = Queued::new();
        for _ in 0..param(0) {
            match choice(4) {
                0 => q.stdin(&d, param(1)),
                1 => q.stdin(&d, param(2)),
                2 => model::client(i, |s| s.credit += param(3)),
                _ => step(),
            }
        }
        q.received(i, true);
        cover(1);
    }
    // params: wants, bytes accepted at once: a client that sends much and reads late
    fn c19_replies() {
        let (_w, d) = start();
        let i = connect(&d, Mode::Msgio(Ident::plain(b"a1")));
        model::client(i, |s| {
            s.credit = param(1);
            s.piece = 700;
        });
        let mut out = vec![];
        let mut bounds = vec![0];
        for k in 0..param(0) {
            let mut m = vec![b'm'; 1 + (k * 131) % 800];
            m[0] = u8_();
            assume(letter(m[0]));
            m.push(b'1');
            send(i, &want(&m));
            out.extend(render(b"have", &[&m]));
            bounds.push(out.len());
            if bool_() {
                step();
            }
        }
        let q = Queued { want: out, bounds };
        q.received(i, false);
        cover(1);
    }
    // params: connections, broadcasts: many of them
    fn c20_many() {
        let (_w, d) = start();
        let n = param(0);
        let mut cs: Vec<(usize, u64)> = vec![];
        for k in 0..n {
            cs.push((connect(&d, Mode::Msgio(Ident::plain(b"a1"))), k as u64));
        }
        let ids: Vec<u64> = states(&d).iter().map(|s| s.0).collect();
        assert!(ids.len() == n && ids.windows(2).all(|p| p[0] < p[1]), "not distinct");
        for t in 0..param(1) as u8 {
            broadcast(&d, t);
        }
        // in the middle of it one of them ends, and another one arrives
        let gone = pick(&[0, n / 2, n - 1]);
        finish(&d, cs[gone].0, ids[gone], choice(5));
        settle();
        let mut seen = vec![vec![]; param(1)];
        let mut top = 0;
        for e in &world().ev {
            if let Ev::Ran(t, i) = e {
                assert!(*t >= top, "out of order");
                top = *t;
                seen[*t as usize].push(*i);
            }
        }
        for v in &mut seen {
            v.sort();
            assert!(*v == ids, "not exactly once on every connection");
        }
        let new = connect(&d, Mode::Msgio(Ident::plain(b"a1")));
        let left: Vec<u64> = states(&d).iter().map(|s| s.0).collect();
        assert!(left.len() == n && left[..n - 1].iter().all(|i| *i != ids[gone] && ids.contains(i)) && !ids.contains(&left[n - 1]), "not distinct");
        assert!(count(|e| *e == Ev::Closed) == 1 && count(|e| *e == Ev::Opened) == n + 1);
        assert!(!open(cs[gone].0));
        works(new);
        for k in [0, 1, n / 3, n / 2, n - 2, n - 1] {
            if k != gone {
                works(cs[k].0);
            }
        }
        cover(1);
    }
    // params: events: connections come and go, broadcasts reach those that are there
    fn c20_broadcasts() {
        let (_w, d) = start();
        // socket, alive
        let mut cs: Vec<(usize, bool)> = vec![];
        for _ in 0..2 {
            cs.push((connect(&d, Mode::Msgio(Ident::plain(b"a1"))), true));
        }
        let ids = |cs: &Vec<(usize, bool)>| -> Vec<u64> { (0..cs.len()).filter(|k| cs[*k].1).map(|k| k as u64).collect() };
        let mut ended = 0;
        for t in 0..param(0) as u8 {
            let n = world().ev.len();
            let ran = |t: u8| -> Vec<u64> {
                let mut v: Vec<u64> = world().ev[n..].iter().filter_map(|e| match e { Ev::Ran(x, i) if *x == t => Some(*i), _ => None }).collect();
                v.sort();
                v
            };
            match choice(5) {
                0 => {
                    broadcast(&d, t);
                    settle();
                    assert!(ran(t) == ids(&cs), "not exactly once on every connection");
                    cover(1);
                }
                1 => {
                    // a broadcast that queues another on each connection
                    let e = d.clone();
                    d.enqueue_broadcast(Box::new(move |c: &mut TConn| {
                        world().ev.push(Ev::Ran(t, c.id()));
                        broadcast(&e, 100 + t);
                    }));
                    settle();
                    let alive = ids(&cs);
                    assert!(ran(t) == alive);
                    let k = alive.len();
                    let all = ran(100 + t);
                    assert!(all.len() == k * k && alive.iter().all(|i| all.iter().filter(|j| *j == i).count() == k));
                    let first = world().ev[n..].iter().position(|e| matches!(e, Ev::Ran(x, _) if *x == 100 + t));
                    let last = world().ev[n..].iter().rposition(|e| matches!(e, Ev::Ran(x, _) if *x == t));
                    assert!(k == 0 || last < first, "out of order");
                    cover(2);
                }
                2 => {
                    // broadcasts queued while messages are handled
                    let j = choice(cs.len());
                    let (i, alive) = cs[j];
                    send(i, &[render(b"own1.cast", &[&[t], &[100 + t]]), render(b"own1.cast", &[&[200 + t]])].concat());
                    settle();
                    let k = if alive { ids(&cs).len() } else { 0 };
                    assert!(ran(t).len() == k && ran(100 + t).len() == k && ran(200 + t).len() == k);
                    let tags: Vec<u8> = world().ev[n..].iter().filter_map(|e| match e { Ev::Ran(x, _) => Some(*x), _ => None }).collect();
                    assert!(tags.windows(2).all(|p| p[0] <= p[1]), "out of order");
                    cover(3);
                }
                3 => {
                    let j = choice(cs.len());
                    let (i, alive) = cs[j];
                    finish(&d, i, j as u64, choice(5));
                    settle();
                    ended += alive as usize;
                    cs[j].1 = false;
                    assert!(!open(i), "not removed");
                    cover(4);
                }
                _ => {
                    cs.push((connect(&d, Mode::Msgio(Ident::plain(b"a1"))), true));
                    assert!(count(|e| *e == Ev::Opened) == cs.len());
                    cover(5);
                }
            }
            assert!(count(|e| *e == Ev::Closed) == ended, "not reported exactly once");
            let st: Vec<u64> = states(&d).iter().map(|s| s.0).collect();
            assert!(st == ids(&cs));
        }
        for (i, alive) in &cs {
            if *alive {
                works(*i);
            }
            assert!(open(*i) == *alive);
        }
    }
    // params: two ways in which a connection ends, steps between: whatever runs in between
    fn c20_teardown() {
        let (w, d) = start();
        let a = connect(&d, Mode::Msgio(Ident::plain(b"a1")));
        let b = connect(&d, Mode::Msgio(Ident::plain(b"b1")));
        model::client(a, |s| s.credit = 0);
        if bool_() {
            // output that is under way
            d.enqueue_broadcast(Box::new(|c: &mut TConn| if c.id() == 0 { c.enqueue_message(&M(b"early".to_vec())) }));
            if bool_() {
                settle();
                model::client(a, |s| s.credit = 3);
            }
        }
        if bool_() {
            send(a, b"{2|4:wa");
        }
        finish(&d, a, 0, param(0));
        for _ in 0..param(2) {
            if bool_() {
                step();
            }
        }
        finish(&d, a, 0, param(1));
        settle();
        assert!(!open(a), "not removed");
        assert!(count(|e| *e == Ev::Closed) == 1, "not reported exactly once");
        assert!(states(&d).len() == 1);
        // nothing is handled or transmitted any more
        let (n, o) = (count(|e| matches!(e, Ev::Handled(..))), output(a));
        send(a, &[want(b"core1"), render(b"nt,5:core1,}", &[])].concat());
        model::client(a, |s| s.credit = usize::MAX);
        broadcast(&d, 7);
        settle();
        assert!(output(a) == o && count(|e| matches!(e, Ev::Handled(..))) == n);
        assert!(w.ev.iter().filter(|e| matches!(e, Ev::Ran(..))).cloned().collect::<Vec<_>>() == [Ev::Ran(7, 1)]);
        works(b);
        cover(1);
    }
    // params: what precedes and follows the message that ends the connection: the same read
    fn c20_leave() {
        let (_w, d) = start();
        let a = connect(&d, Mode::Msgio(Ident::plain(b"a1")));
        let b = connect(&d, Mode::Msgio(Ident::plain(b"b1")));
        let x = bytes(2);
        let rest = [&b""[..], &want(b"core1"), &x, &render(b"own1.leave", &[]), &render(b"own1.cast", &[b"q"])][param(1)].to_vec();
        let first = [vec![], want(b"core1"), render(b"own1.cast", &[b"p"])][param(0)].clone();
        let k = (param(0) > 0) as usize + 1;
        send(a, &[first, render(b"own1.leave", &[]), rest].concat());
        settle();
        assert!(!open(a) && count(|e| *e == Ev::Closed) == 1);
        assert!(count(|e| matches!(e, Ev::Handled(..))) == k);
        assert!(count(|e| matches!(e, Ev::Discard(_) | Ev::BadInput(_))) == 0);
        assert!(count(|e| matches!(e, Ev::Ran(b'q', _))) == 0);
        works(b);
        cover(1);
    }
    // params: two kinds of things that happen at the same time, preemptions, free steps
    fn c20_threads() {
        let (_w, d) = start();
        let a = connect(&d, Mode::Msgio(Ident::plain(b"a1")));
        let b = connect(&d, Mode::Msgio(Ident::plain(b"b1")));
        // tag, number of runs on each connection
        let mut tags: Vec<(u8, usize)> = vec![];
        let (mut ends, mut new) = ([false, false], 0);
        for (n, k) in [param(0), param(1)].into_iter().enumerate() {
            let t = n as u8 + 1;
            let e = d.clone();
            match k {
                0 => {
                    tags.push((t, 1));
                    thread(move || broadcast(&e, t));
                }
                1 => {
                    tags.push((t, 1));
                    thread(move || {
                        let f = e.clone();
                        e.enqueue_broadcast(Box::new(move |c: &mut TConn| {
                            world().ev.push(Ev::Ran(t, c.id()));
                            if c.id() == 1 {
                                broadcast(&f, 100 + t);
                            }
                        }));
                    });
                    tags.push((100 + t, 1));
                }
                2 => send(a, &render(b"own1.cast", &[&[t]])),
                3 => {
                    ends[0] = true;
                    model::client(a, |s| s.eof = true);
                }
                4 => {
                    new += 1;
                    model::connect();
                }
                5 => {
                    ends[1] = true;
                    thread(move || e.enqueue_broadcast(Box::new(|c: &mut TConn| if c.id() == 1 { c.set_state(ConnectionState::Teardown) })));
                }
                6 => {
                    // the application broadcasts whenever a connection has ended
                    ends[0] = true;
                    model::client(a, |s| s.eof = true);
                    unsafe { ON_CLOSED = Some(Box::new(move || broadcast(&e, t))) };
                }
                7 => {
                    ends[1] = true;
                    let f = e.clone();
                    unsafe { ON_CLOSED = Some(Box::new(move || broadcast(&f, t))) };
                    thread(move || e.enqueue_broadcast(Box::new(|c: &mut TConn| if c.id() == 1 { c.set_state(ConnectionState::Teardown) })));
                }
                _ => {}
            }
        }
        race(param(2), param(3));
        for (n, k) in [param(0), param(1)].into_iter().enumerate() {
            if k == 6 || k == 7 {
                let closed = count(|e| *e == Ev::Closed);
                tags.push((n as u8 + 1, closed));
            }
        }
        let ran = |t: u8, c: u64| world().ev.iter().filter(|e| **e == Ev::Ran(t, c)).count();
        for (t, k) in &tags {
            for c in 0..2 {
                if !ends[c] {
                    assert!(ran(*t, c as u64) == *k || (*t > 100 && ends[1]), "not exactly once on every connection");
                }
                assert!(ran(*t, c as u64) <= *k);
            }
            for c in 2..2 + new {
                assert!(ran(*t, c as u64) <= *k);
            }
        }
        for (n, k) in [param(0), param(1)].into_iter().enumerate() {
            if k == 2 {
                let r = count(|e| matches!(e, Ev::Ran(t, 99) if *t == n as u8 + 1));
                let handled = count(|e| matches!(e, Ev::Handled(t, _) if t == b"own1.cast")) > 0;
                let alive = 2 + new as usize - ends[0] as usize - ends[1] as usize;
                assert!(r <= 2 + new as usize && (!handled || r >= alive - new as usize));
                assert!(handled || ends[0]);
            }
        }
        let mut rest: Vec<u64> = (0..2 + new).collect();
        rest.retain(|c| *c > 1 || !ends[*c as usize]);
        assert!(states(&d).iter().map(|s| s.0).collect::<Vec<_>>() == rest);
        assert!(open(a) == !ends[0] && open(b) == !ends[1]);
        assert!(count(|e| *e == Ev::Closed) == ends[0] as usize + ends[1] as usize, "not reported exactly once");
        unsafe { ON_CLOSED = None };
        for (i, e) in [(a, ends[0]), (b, ends[1])] {
            if !e {
                works(i);
            }
        }
        cover(1);
    }
    // params: preemptions, free steps: what is sent to a client as it arrives reaches it
    fn c20_arrival() {
        let (_w, d) = start();
        let a = model::connect();
        let e = d.clone();
        thread(move || e.enqueue_broadcast(Box::new(|c: &mut TConn| {
            c.set_state(ConnectionState::Msgio(MConn(Ident::plain(b"a1").make())));
            c.enqueue_message(&M(b"hi".to_vec()));
        })));
        race(param(0), param(1));
        match &states(&d)[..] {
            [(0, Mode::Handshake)] => {
                // the broadcast came first
                assert!(output(a).is_empty());
                cover(2);
            }
            _ => {
                assert!(output(a) == render(b"own1.m", &[b"hi"]), "a message is lost");
                works(a);
                cover(1);
            }
        }
    }
    // params: sizes of three items, kind (0 messages, 1 stdin data), bytes the client takes at a time, preemptions, free steps
    fn c19_threads() {
        let (_w, d) = start();
        let stdin = param(3) == 1;
        let i = connect(&d, if stdin { Mode::Stdin(b"in".to_vec()) } else { Mode::Msgio(Ident::plain(b"a1")) });
        model::client(i, |s| s.piece = param(4));
        let mut q: Vec<Vec<u8>> = vec![];
        let mut todo: Vec<Vec<Box<dyn FnOnce()>>> = vec![vec![], vec![]];
        for k in 0..3usize {
            let e = d.clone();
            let f: Box<dyn FnOnce()> = if stdin {
                let mut m = vec![b'0' + k as u8; param(k as u32)];
                m[0] = u8_();
                q.push(m.clone());
                Box::new(move || e.enqueue_broadcast(Box::new(move |c: &mut TConn| c.enqueue_stdin(&m))))
            } else {
                let m = message(param(k as u32));
                q.push(render(b"own1.m", &[&m.0]));
                Box::new(move || e.enqueue_broadcast(Box::new(move |c: &mut TConn| c.enqueue_message(&m))))
            };
            todo[k % 2].push(f);
        }
        // one thread queues the first and the third item, another one the second
        for t in todo {
            thread(move || t.into_iter().for_each(|f| f()));
        }
        race(param(5), param(6));
        let o = output(i);
        let orders = [[0, 1, 2], [1, 0, 2], [0, 2, 1]].map(|p| p.map(|k| &q[k][..]).concat());
        assert!(o.len() == orders[0].len(), "bytes are missing or repeated");
        assert!(orders.contains(&o), "bytes are altered or in another order");
        cover(1);
    }
    // params: stream, portions, what else happens (0 broadcast, 1 message for it, 2 new connection, 3 teardown), preemptions, free steps
    fn c21_threads() {
        let s = stream(param(0));
        let (ev, out, m) = direct(&s);
        let (w, d) = start();
        let i = model::connect();
        settle();
        let p = portions(param(1), s.len());
        let mut from = 0;
        let e = d.clone();
        match param(2) {
            0 => thread(move || broadcast(&e, 1)),
            1 => thread(move || e.enqueue_broadcast(Box::new(|c: &mut TConn| if c.state().can_receive_messages() { c.enqueue_message(&M(b"hi".to_vec())) }))),
            2 => { model::connect(); }
            _ => thread(move || e.enqueue_broadcast(Box::new(|c: &mut TConn| c.set_state(ConnectionState::Teardown)))),
        }
        model::preemptions(param(3));
        for q in p {
            send(i, &s[from..q]);
            from = q;
            if bool_() {
                step();
            }
        }
        send(i, &s[from..]);
        race(param(3), param(4));
        let got = merged(&w.ev.iter().filter(|e| !matches!(e, Ev::Opened | Ev::Closed | Ev::IoError | Ev::Ran(..))).cloned().collect::<Vec<_>>());
        if param(2) == 3 {
            assert!(!open(i) && count(|e| *e == Ev::Closed) == 1);
            assert!(got.len() <= ev.len(), "more than was sent");
            cover(3);
            return;
        }
        if m == Mode::Teardown {
            assert!(!open(i));
            cover(2);
            return;
        }
        assert!(got == ev);
        let o = output(i);
        if param(2) == 1 && o != out {
            let hi = render(b"own1.m", &[b"hi"]);
            assert!((0..out.len() + 1).any(|k| o == [&out[..k], &hi[..], &out[k..]].concat()), "replies are altered");
        } else {
            assert!(o == out);
        }
        cover(1);
    }
    // params: what else happens, preemptions, free steps: a request to shut down, from another thread
    fn c26_threads() {
        let (_w, d) = start();
        let a = connect(&d, Mode::Msgio(Ident::plain(b"a1")));
        let mut cs = vec![a];
        let e = d.clone();
        thread(move || e.shutdown());
        let e = d.clone();
        match param(0) {
            0 => cs.push(model::connect()),
            1 => {
                cs.push(model::connect());
                cs.push(model::connect());
            }
            2 => send(a, &want(b"core1")),
            3 => thread(move || broadcast(&e, 1)),
            4 => model::client(a, |s| s.eof = true),
            5 => thread(move || e.enqueue_broadcast(Box::new(|c: &mut TConn| if c.state().can_receive_messages() { c.enqueue_message(&M(b"hi".to_vec())) }))),
            _ => thread(move || e.shutdown()),
        }
        race(param(1), param(2));
        unsafe {
            assert!(RESULT == Some(true), "the event loop has not ended");
            assert!(UNLINKED == 1, "the socket is still there");
        }
        assert!(!model::with(|n| n.listening));
        for i in &cs {
            assert!(!open(*i), "a connection is still open");
        }
        cover(1);
    }
    // params: lengths of the IDs of the requester, of the ended client and of another one
    fn c20_end() {
        let (_w, d) = start();
        let me = bytes(param(0));
        let id = bytes(param(1));
        let other = bytes(param(2));
        assume(is_client_id(&me) & is_client_id(&id) & is_client_id(&other));
        assume(strictly(&me, &id));
        let a = connect(&d, Mode::Msgio(Ident::plain(&me)));
        let b = connect(&d, Mode::Msgio(Ident::plain(&other)));
        let c = connect(&d, Mode::Msgio(Ident::plain(&id)));
        let h = model::connect();
        settle();
        send(a, &render(b"core1.client-end", &[&id]));
        settle();
        assert!(open(a) && open(h) && !open(c));
        assert!(open(b) == !is_prefix(&id, &other));
        cover(1 + open(b) as u32);
        works(a);
        if open(b) {
            works(b);
        }
    }
    // params: stream, arbitrary bytes, portions, cuts, end (0 open, 1 end of stream, 2 error)
    fn c21_rx() {
        let mut s = stream(param(0));
        if param(1) > 0 {
            s = near(&s, param(1));
        }
        let p = portions(param(2), s.len());
        let c = portions(param(3), s.len());
        receive(&s, &p, &c, [End::Open, End::Eof, End::Error][param(4)]);
    }
    // params: hello before (0 none, 1 client, 2 stdin, 3 stdout), arbitrary bytes, portions, end
    fn c21_any() {
        let mut s = if param(0) > 0 { render(HELLO[[0, 0, 1, 2][param(0)]], &[b"s1"]) } else { vec![] };
        s.extend(bytes(param(1)));
        let p = portions(param(2), s.len());
        receive(&s, &p, &[], [End::Open, End::Eof, End::Error][param(3)]);
    }
    // params: what (0 a message, 1 stdout data, 2 garbage, 3 many messages), how much, read at once, end: more than buffers hold at first
    fn c21_long() {
        let n = param(1);
        let mut d = vec![b'{'; n];
        if param(0) != 2 {
            for x in d.iter_mut() {
                *x = b'd';
            }
        }
        d[0] = u8_();
        d[n / 2] = u8_();
        d[n - 1] = u8_();
        let h = |k: usize| render(HELLO[k], &[b"s1"]);
        let s = match param(0) {
            0 => [h(0), render(b"own1.ok", &[&d]), want(b"own1")].concat(),
            1 => [h(2), d].concat(),
            2 => [h(0), d, want(b"own1")].concat(),
            _ => {
                let mut s = h(0);
                for _ in 0..n / 20 {
                    s.extend(render(b"own1.ok", &[&d[..1]]));
                }
                s.extend(want(b"own1"));
                s
            }
        };
        let c = portions(param(2), s.len());
        receive(&s, &[], &c, [End::Open, End::Eof, End::Error][param(3)]);
    }
    // params: kind of reply (0 have to want, 1 have to a message nobody handles, 2 server-hello, 3 client-new), length of what makes it long
    fn c25_reply() {
        let (w, d) = start();
        let n = param(1);
        let mut long = vec![b'x'; n];
        long[0] = u8_();
        long[n - 1] = u8_();
        assume(lower(long[0]) & lower(long[n - 1]));
        let b = connect(&d, Mode::Msgio(Ident::plain(b"b1")));
        let a;
        let module = [&long[..], b"1"].concat();
        match param(0) {
            2 => {
                w_allow(&w, b"long", Ident { id: long.clone(), screens: [Some(long.clone()), None, None] });
                a = model::connect();
                settle();
                send(a, &render(HELLO[0], &[b"long"]));
            }
            _ => {
                a = connect(&d, Mode::Msgio(Ident::plain(b"a1")));
                match param(0) {
                    0 => send(a, &want(&module)),
                    _ => send(a, &render(&[&module[..], b".q"].concat(), &[])),
                }
            }
        }
        send(a, &want(b"own1"));
        settle();
        works(b);
        let reply = match param(0) {
            2 => render(b"posix1.server-hello", &[&long, &long, b"", b""]),
            _ => render(b"have", &[&module]),
        };
        let next = render(b"have", &[b"own1.7"]);
        if reply.len() <= 1024 {
            assert!(output(a) == [reply, next].concat());
            cover(1);
        } else {
            // closed or not, nothing of it is sent
            assert!(output(a).is_empty() || output(a) == next);
            cover(2);
        }
    }
    // params: connections, steps: shutdown whatever is under way
    fn c26_shutdown() {
        let (_w, d) = start();
        let mut cs = vec![];
        for k in 0..param(0) {
            let i = connect(&d, if k == 1 { Mode::Stdin(b"in".to_vec()) } else { Mode::Msgio(Ident::plain(b"a1")) });
            model::client(i, |s| s.credit = 2);
            cs.push(i);
        }
        d.enqueue_broadcast(Box::new(|c: &mut TConn| if c.state().can_receive_messages() { c.enqueue_message(&M(b"early".to_vec())) }));
        if bool_() {
            settle();
        }
        if bool_() {
            cs.push(model::connect());
            if bool_() {
                settle();
            }
        }
        for i in &cs {
            send(*i, b"{2|4:wa");
        }
        for _ in 0..param(1) {
            if bool_() {
                step();
            }
        }
        d.shutdown();
        settle();
        unsafe {
            assert!(RESULT == Some(true), "the event loop has not ended");
            assert!(UNLINKED == 1, "the socket is still there");
        }
        assert!(!model::with(|n| n.listening));
        let n = count(|e| matches!(e, Ev::Handled(..)));
        for i in &cs {
            assert!(!open(*i), "a connection is still open");
            let o = output(*i);
            model::client(*i, |s| s.credit = usize::MAX);
            send(*i, b"nt,5:core1,}");
            settle();
            assert!(output(*i) == o);
        }
        assert!(count(|e| matches!(e, Ev::Handled(..))) == n);
        cover(1);
    }
    // the shutdown is requested before the loop has started, or while it starts
    // params: whether a client connects early, preemptions, tasks in any order
    fn c26_early() {
        let (_w, d) = prepare();
        let mut cs = vec![];
        if param(0) == 1 {
            cs.push(model::connect());
        }
        let e = d.clone();
        thread(move || e.shutdown());
        if param(0) == 2 {
            let e = d.clone();
            thread(move || broadcast(&e, 1));
        }
        race(param(1), param(2));
        unsafe {
            assert!(RESULT == Some(true), "the event loop has not ended");
            assert!(UNLINKED == 1, "the socket is still there");
        }
        assert!(!model::with(|n| n.listening));
        for i in &cs {
            assert!(!open(*i), "a connection is still open");
        }
        cover(1);
    }
    // accepting connections fails
    fn c26_error() {
        let (_w, d) = start();
        let a = connect(&d, Mode::Msgio(Ident::plain(b"a1")));
        model::fail_accept(errno());
        settle();
        unsafe { assert!(RESULT == Some(false)) };
        let _ = a;
        cover(1);
    }
}

fn w_allow(_w: &World, secret: &[u8], id: Ident) {
    world().allow(0, secret, id)
}
