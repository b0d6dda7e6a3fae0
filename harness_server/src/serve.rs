//! Who is admitted, what they may do, and what the server does by itself.
use crate::util::*;
use crate::world::*;
use tokio::model;

const STDIN: &[u8] = b"Hello stdin.\n";

/// Connection `i` must have been admitted in this role, with nothing received yet.
fn works(kind: usize, i: usize) {
    assert!(open(i), "an unused credential is refused");
    let r = received(i);
    match kind {
        0 => {
            let m = parse(&r).expect("no reply to the hello");
            assert!(m.ty == b"posix1.server-hello" && m.args[0] == b"a" && m.len == r.len());
            send(i, &render(b"want", &[b"core1"]));
            assert!(received(i) == render(b"have", &[b"core1.0"]));
        }
        1 => {
            assert!(r.is_empty());
            second();
            assert!(received(i) == STDIN, "no stdin");
        }
        _ => {
            assert!(r.is_empty());
            belog::take();
            send(i, b"out");
            assert!(belog::take().iter().any(|l| l.contains("out")), "stdout is lost");
            assert!(received(i).is_empty());
        }
    }
    assert!(open(i));
}

/// A hello with this secret, once more with the right one if it is not, and then the right one again.
fn admit(a: &Announced, kind: usize, secret: &[u8]) {
    let i = hello(kind, secret);
    if secret == &a.secrets[kind][..] {
        cover(1);
        works(kind, i);
    } else {
        assert!(!open(i), "a wrong secret is accepted");
        cover(2);
        let j = hello(kind, &a.secrets[kind]);
        works(kind, j);
    }
    if bool_() {
        model::client(i, |s| s.eof = true);
        settle();
    }
    let k = hello(kind, &a.secrets[kind]);
    assert!(!open(k), "a credential is accepted twice");
    // the others are not used up
    let o = (kind + 1) % 3;
    works(o, hello(o, &a.secrets[o]));
}

fn strictly(a: &[u8], b: &[u8]) -> bool {
    is_prefix(a, b) & (a.len() != b.len())
}
/// A registered client.
struct Client {
    id: Vec<u8>,
    secret: Vec<u8>,
    used: bool,
}
struct Tree {
    clients: Vec<Client>,
    /// all secrets there ever were
    secrets: Vec<Vec<u8>>,
    /// message connections and whose they are
    conns: Vec<(usize, Vec<u8>)>,
}
impl Tree {
    fn new(a: &Announced) -> Tree {
        let s = a.secrets[0].clone();
        let mut t = Tree { clients: vec![Client { id: b"a".to_vec(), secret: s.clone(), used: false }], secrets: vec![s], conns: vec![] };
        t.redeem(0);
        t
    }
    fn redeem(&mut self, k: usize) {
        let i = hello(0, &self.secrets[k]);
        let s = self.secrets[k].clone();
        match self.clients.iter_mut().find(|c| c.secret == s && !c.used) {
            Some(c) => {
                c.used = true;
                assert!(open(i), "an unused credential is refused");
                let r = received(i);
                let m = parse(&r).expect("no reply to the hello");
                assert!(m.ty == b"posix1.server-hello" && m.args[0] == &c.id[..] && m.len == r.len());
                self.conns.push((i, c.id.clone()));
                cover(1);
            }
            None => {
                assert!(!open(i), "a used or void credential is accepted");
                cover(2);
            }
        }
    }
    fn make(&mut self, by: usize, id: &[u8]) {
        let (i, me) = self.conns[by].clone();
        let right = is_client_id(id) && strictly(&me, id);
        let mut taken = false;
        for c in &self.clients {
            taken |= is_prefix(id, &c.id);
        }
        send(i, &render(b"core1.client-make", &[id, b"", b"s", b""]));
        let r = received(i);
        assert!(open(i));
        if right && !taken {
            let m = parse(&r).expect("no reply");
            assert!(m.ty == b"core1.client-new" && m.args.len() == 1 && m.len == r.len(), "a free ID is refused");
            let s = m.args[0].to_vec();
            assert!(!self.secrets.contains(&s), "a secret is issued again");
            self.secrets.push(s.clone());
            self.clients.push(Client { id: id.to_vec(), secret: s, used: false });
            cover(3);
        } else {
            assert!(r == render(b"nope", &[b"core1.client-make"]), "an ID is given to two clients, or to one outside");
            cover(4);
        }
    }
    fn end(&mut self, by: usize, id: &[u8]) {
        let (i, me) = self.conns[by].clone();
        let right = is_client_id(id) && strictly(&me, id);
        send(i, &render(b"core1.client-end", &[id]));
        let r = received(i);
        if right {
            self.clients.retain(|c| !is_prefix(id, &c.id));
            cover(5);
        } else {
            assert!(r == render(b"nope", &[b"core1.client-end"]));
            cover(6);
        }
        let mut left = vec![];
        for (i, who) in std::mem::take(&mut self.conns) {
            let gone = right && is_prefix(id, &who);
            assert!(open(i) == !gone, "the wrong connections are closed");
            if !gone {
                left.push((i, who));
            }
        }
        self.conns = left;
    }
    fn leave(&mut self, by: usize) {
        let (i, _) = self.conns.remove(by);
        leave(i);
    }
}

harness! {
    // params: role, change of the secret
    fn c28_first() {
        let (kind, change) = (param(0), param(1));
        serve(move |a| {
            let s = &a.secrets[kind];
            let t = match change {
                0 => near(s, 1),
                1 => s[..choice(s.len())].to_vec(),
                2 => [&s[..], &bytes(1)].concat(),
                3 => [&bytes(1), &s[..]].concat(),
                4 => a.secrets[(kind + 1) % 3].clone(),
                5 => a.secrets[(kind + 2) % 3].clone(),
                _ => s.clone(),
            };
            admit(&a, kind, &t);
        });
    }
    // params: role, length of the secret
    fn c28_any() {
        let (kind, n) = (param(0), param(1));
        serve(move |a| admit(&a, kind, &bytes(n)));
    }
    // params: number of attempts
    fn c28_seq() {
        let n = param(0);
        serve(move |a| {
            let mut used = [false; 3];
            let mut stdin = None;
            for _ in 0..n {
                let (role, whose) = (choice(3), choice(3));
                let i = hello(role, &a.secrets[whose]);
                if role == whose && !used[role] {
                    used[role] = true;
                    works(role, i);
                    cover(1);
                    if role == 1 {
                        stdin = Some(i);
                    }
                    if bool_() {
                        leave(i);
                        if role == 1 {
                            stdin = None;
                        }
                    }
                } else {
                    assert!(!open(i), "a credential is accepted twice or in another role");
                    cover(2);
                }
            }
            if let Some(i) = stdin {
                received(i);
                second();
                assert!(received(i) == STDIN);
            }
        });
    }
    // params: number of events, set of IDs
    fn c28_tree() {
        let (n, set) = (param(0), param(1));
        serve(move |a| {
            let mut t = Tree::new(&a);
            let ids: &[&[u8]] = match set {
                0 => &[b"a1", b"a1b"],
                1 => &[b"a1", b"a", b"b1"],
                _ => &[b"a1b", b"a1", b"a2"],
            };
            for _ in 0..n {
                if t.conns.is_empty() {
                    break;
                }
                match choice(4) {
                    0 => t.make(choice(t.conns.len()), ids[choice(ids.len())]),
                    1 => t.end(choice(t.conns.len()), ids[choice(ids.len())]),
                    2 => t.redeem(choice(t.secrets.len())),
                    _ => t.leave(choice(t.conns.len())),
                }
            }
        });
    }
    // params: lengths of the parts of three IDs below "a": make, make and redeem, make or end
    fn c28_ids() {
        let l = [param(0), param(1), param(2)];
        serve(move |a| {
            let mut t = Tree::new(&a);
            let id = |n: usize| [&b"a"[..], &bytes(n)].concat();
            let (x, y, z) = (id(l[0]), id(l[1]), id(l[2]));
            t.make(0, &x);
            if t.secrets.len() > 1 {
                t.redeem(1);
            }
            t.make(t.conns.len() - 1, &y);
            if bool_() {
                t.make(0, &z);
            } else {
                t.end(0, &z);
                t.make(0, &x);
            }
            t.redeem(t.secrets.len() - 1);
        });
    }
    // params: what two clients want at the same time, preemptions, tasks in any order
    fn c28_race() {
        let (what, budget, free) = (param(0), param(1), param(2));
        serve(move |a| {
            let mut t = Tree::new(&a);
            t.make(0, b"a1");
            t.redeem(1);
            let (x, y) = (t.conns[0].0, t.conns[1].0);
            let put = |i: usize, b: Vec<u8>| model::client(i, |s| s.input.extend(b));
            let make = || render(b"core1.client-make", &[b"a1b", b"", b"s", b""]);
            let greet = |s: &[u8]| {
                let i = model::connect();
                model::client(i, |c| c.input.extend(render(HELLO[0], &[s])));
                i
            };
            match what {
                // the same ID
                0 => {
                    put(x, make());
                    put(y, make());
                    race(budget, free);
                    let new = |r: Vec<u8>| parse(&r).expect("no reply").ty == b"core1.client-new";
                    let (p, q) = (new(received(x)), new(received(y)));
                    assert!(p != q, "an ID is given to two clients or to none");
                }
                // the same credential
                1 => {
                    t.make(1, b"a1b");
                    let (i, j) = (greet(&t.secrets[2]), greet(&t.secrets[2]));
                    race(budget, free);
                    assert!(open(i) != open(j), "a credential is accepted twice or not at all");
                }
                // a credential is redeemed while it is revoked
                2 => {
                    t.make(1, b"a1b");
                    put(x, render(b"core1.client-end", &[b"a1b"]));
                    let i = greet(&t.secrets[2]);
                    race(budget, free);
                    assert!(!open(i), "a client that has been ended is connected");
                    assert!(open(y));
                    send(y, &make());
                    assert!(parse(&received(y)).expect("no reply").ty == b"core1.client-new", "an ID is not released");
                }
                // a client asks for another one while it is ended itself
                _ => {
                    put(y, make());
                    put(x, render(b"core1.client-end", &[b"a1"]));
                    race(budget, free);
                    assert!(!open(y), "a client that has been ended is connected");
                    received(x);
                    send(x, &make());
                    assert!(parse(&received(x)).expect("no reply").ty == b"core1.client-new", "an ID is not released");
                }
            }
            cover(1);
        });
    }
    // params: events
    fn c29_ticks() {
        let n = param(0);
        serve(move |a| {
            let c = hello(0, &a.secrets[0]);
            received(c);
            let h = model::connect();
            settle();
            let o = hello(2, &a.secrets[2]);
            let mut i = None;
            let mut lost = false;
            for _ in 0..n {
                match choice(4) {
                    0 => {
                        let j = hello(1, &a.secrets[1]);
                        assert!(open(j) == (i.is_none() && !lost));
                        if open(j) {
                            i = Some(j);
                        }
                    }
                    1 => {
                        second();
                        if let Some(i) = i {
                            assert!(received(i) == STDIN, "stdin is missing, repeated or altered");
                            cover(1);
                        }
                    }
                    2 => {
                        // not a whole second
                        model::advance(std::time::Duration::from_millis(999));
                        settle();
                        model::advance(std::time::Duration::from_millis(1));
                        settle();
                        if let Some(i) = i {
                            received(i);
                        }
                    }
                    _ => {
                        if let Some(j) = i.take() {
                            lost = true;
                            if bool_() {
                                leave(j)
                            } else {
                                // bytes on a stdin connection close it
                                send(j, &bytes(1));
                                assert!(!open(j));
                            }
                            cover(2);
                        }
                    }
                }
                for k in [c, h, o] {
                    assert!(open(k) && received(k).is_empty(), "another connection is disturbed");
                }
            }
        });
    }
    // params: lengths of three pieces of stdout data
    fn c29_stdout() {
        let l = [param(0), param(1), param(2)];
        serve(move |a| {
            let o = hello(2, &a.secrets[2]);
            for n in l.iter() {
                belog::take();
                let d = vec![b'x'; *n];
                send(o, &d);
                let got: usize = belog::take().iter().map(|l| l.bytes().filter(|c| *c == b'x').count()).sum();
                assert!(got == *n, "stdout is lost or repeated");
            }
            assert!(open(o) && received(o).is_empty());
            cover(1);
        });
    }
    // params: events before the interrupt, task steps with it
    fn c29_interrupt() {
        let (n, m) = (param(0), param(1));
        serve(move |a| {
            let mut cs = vec![];
            for _ in 0..n {
                match choice(5) {
                    0 => cs.push(hello(0, &a.secrets[0])),
                    1 => cs.push(hello(1, &a.secrets[1])),
                    2 => {
                        let o = hello(2, &a.secrets[2]);
                        model::client(o, |s| s.input.extend_from_slice(b"o"));
                        cs.push(o);
                    }
                    3 => cs.push(model::connect()),
                    _ => model::advance(std::time::Duration::from_secs(1)),
                }
            }
            // a signal that is not meant
            if bool_() {
                model::raise(28);
                settle();
                assert!(model::with(|n| n.listening));
            }
            model::raise(2);
            for _ in 0..m {
                let r = model::runnable();
                if r.is_empty() {
                    break;
                }
                model::run(r[choice(r.len())]);
            }
            settle();
            for c in &cs {
                assert!(!open(*c), "a connection is still open");
            }
            assert!(!model::with(|n| n.listening));
            cover(1);
        });
    }
}
