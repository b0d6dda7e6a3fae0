//! Connections: handshake, message handling, recovery from garbage, creation and end of clients.
use crate::util::*;
use crate::world::*;
use vt6::common::core::msg::*;

pub const HELLO: [&[u8]; 3] = [b"posix1.client-hello", b"posix1.stdin-hello", b"posix1.stdout-hello"];

/// A world in which the secret `s1` is good for everything, with a fresh connection.
pub fn fresh() -> Box<World> {
    let mut w = World::new();
    w.allow(1, b"s1", Ident::plain(b"in"));
    w.allow(2, b"s1", Ident::plain(b"out"));
    w.allow(0, b"s1", Ident { id: b"a1".to_vec(), screens: [Some(b"x".to_vec()), None, Some(b"y".to_vec())] });
    w.connect(Mode::Handshake);
    w
}

pub fn authorized(kind: usize) -> Mode {
    match kind {
        0 => Mode::Msgio(Ident { id: b"a1".to_vec(), screens: [Some(b"x".to_vec()), None, Some(b"y".to_vec())] }),
        1 => Mode::Stdin(b"in".to_vec()),
        _ => Mode::Stdout(b"out".to_vec()),
    }
}

pub fn hello_kind(ty: &[u8]) -> Option<usize> {
    HELLO.iter().position(|h| *h == ty)
}

/// `s` arrives on a fresh connection in one read.
pub fn handshake(s: &[u8]) {
    handshake_with(s, b"s1")
}
fn handshake_with(s: &[u8], secret: &[u8]) {
    let mut w = fresh();
    for c in &mut w.creds {
        c.secret = secret.to_vec();
    }
    w.feed(0, s);
    w.no_bad_send();
    let auth: Vec<Ev> = w.ev.iter().filter(|e| matches!(e, Ev::Auth(..))).cloned().collect();
    if let Some(r) = parse(s) {
        let k = hello_kind(r.ty);
        if k.is_some() && r.args.len() == 1 && utf8(r.args[0]) {
            // the application decides, about exactly this secret
            assert!(auth.len() == 1 && auth[0] == Ev::Auth(k.unwrap() as u8, r.args[0].to_vec()));
            if r.args[0] == secret {
                assert!(s.len() != r.len || w.mode(0) == authorized(k.unwrap()));
                assert!(w.mode(0) != Mode::Handshake);
                assert!(matches!(w.ev[0], Ev::Shaken(_)) && w.ev[1] == auth[0]);
                cover(k.unwrap() as u32 + 1);
                return;
            }
            cover(4);
        } else {
            assert!(auth.is_empty());
            cover(5);
        }
    } else {
        assert!(auth.is_empty());
        if s.is_empty() || Message::parse(s).err().expect("reference and parser disagree").is_incomplete() {
            assert!(w.mode(0) == Mode::Handshake && w.ev.is_empty() && w.left(0) == s);
            cover(6);
            return;
        }
        cover(7);
    }
    let closed = |w: &World| {
        assert!(w.mode(0) == Mode::Teardown);
        assert!(w.count(|e| matches!(e, Ev::Sent(..) | Ev::TooLong(_) | Ev::Handled(..) | Ev::Recv(..) | Ev::Register(_) | Ev::Unregister(..))) == 0);
        assert!(w.queue.is_empty());
    };
    closed(&w);
    let n = w.ev.len();
    // closed for good
    let again = render(HELLO[0], &[secret]);
    w.feed(0, &again);
    closed(&w);
    assert!(w.ev.len() == n);
}

pub fn want(module: &[u8]) -> Vec<u8> {
    render(b"want", &[module])
}

/// The automatic reply to a message on a message connection whose client is `a1` and which is
/// neither a valid client-make nor a valid client-end.
pub fn reply(ty: &[u8], args: &[&[u8]]) -> Option<Vec<u8>> {
    let version = |m: &[u8]| -> Option<&[u8]> {
        match m {
            b"core1" => Some(b".0"),
            b"posix1" => Some(b".0"),
            b"own1" => Some(b".7"),
            _ => None,
        }
    };
    let have = |m: &[u8]| {
        let mut x = m.to_vec();
        if let Some(v) = version(m) {
            x.extend_from_slice(v);
        }
        Some(render(b"have", &[&x]))
    };
    let nope = Some(render(b"nope", &[ty]));
    match ty {
        b"want" => {
            if args.len() == 1 && is_module(args[0]) {
                have(args[0])
            } else {
                nope
            }
        }
        b"have" | b"nope" => nope,
        b"core1.client-make" | b"core1.client-end" => nope,
        b"own1.ok" | b"own1.cast" | b"own1.leave" => None,
        b"own1.bad" => nope,
        b"own1.say" => Some(render(b"own1.said", &[])),
        _ if hello_kind(ty).is_some() => nope,
        _ => {
            let dot = ty.iter().position(|c| *c == b'.').expect("scoped");
            have(&ty[..dot])
        }
    }
}

pub fn msgio(id: &[u8]) -> Box<World> {
    let mut w = World::new();
    w.regs.push(id.to_vec());
    w.connect(Mode::Msgio(Ident::plain(id)));
    w
}

pub fn handled(ty: &[u8], args: &[&[u8]]) -> Ev {
    Ev::Handled(ty.to_vec(), args.iter().map(|a| a.to_vec()).collect())
}

/// One well-formed message that is neither a valid client-make nor a valid client-end.
fn one(ty: &[u8], args: &[&[u8]]) {
    let mut w = msgio(b"a1");
    let m = render(ty, args);
    assume(m.len() <= 1024);
    w.feed(0, &m);
    let mut want = vec![handled(ty, args)];
    if let Some(r) = reply(ty, args) {
        observe(1, &r);
        want.push(Ev::Sent(0, r));
        cover(1);
    } else {
        cover(2);
    }
    // whatever the handlers asked the application before they refused is their business
    let got: Vec<Ev> = w.ev.iter().filter(|e| !matches!(e, Ev::HasClients(..))).cloned().collect();
    assert!(got == want);
    assert!(w.mode(0) == Mode::Msgio(Ident::plain(b"a1")));
    assert!(w.left(0).is_empty());
    w.no_bad_send();
}

const TYPES: [&[u8]; 14] = [
    b"want", b"have", b"nope", b"core1.client-make", b"core1.client-end", b"posix1.client-hello", b"posix1.stdin-hello", b"posix1.stdout-hello",
    b"own1.ok", b"own1.bad", b"own1.say", b"xy23.z", b"core1.sub", b"posix1.server-hello",
];

/// The messages of a stream by construction: the bytes and what has to happen.
struct Script {
    bytes: Vec<u8>,
    want: Vec<Ev>,
}
impl Script {
    fn msg(&mut self, ty: &[u8], args: &[&[u8]]) {
        self.bytes.extend(render(ty, args));
        self.want.push(handled(ty, args));
        if let Some(r) = reply(ty, args) {
            self.want.push(Ev::Sent(0, r));
        }
    }
    /// Bytes that are no message and contain no opener.
    fn junk(&mut self, n: usize) {
        let b = bytes(n);
        for c in &b {
            assume(*c != b'{');
        }
        self.raw(&b);
    }
    fn raw(&mut self, b: &[u8]) {
        self.bytes.extend_from_slice(b);
        if let Some(Ev::Discard(d)) = self.want.last_mut() {
            d.extend_from_slice(b);
        } else if !b.is_empty() {
            self.want.push(Ev::Discard(b.to_vec()));
        }
    }
}

/// Adjacent deliveries and discards are one.
pub fn merged(ev: &[Ev]) -> Vec<Ev> {
    let mut out: Vec<Ev> = Vec::new();
    for e in ev {
        match (out.last_mut(), e) {
            (_, Ev::BadInput(_)) | (_, Ev::HasClients(..)) => {}
            (Some(Ev::Discard(a)), Ev::Discard(b)) => a.extend_from_slice(b),
            (Some(Ev::Recv(s, a)), Ev::Recv(t, b)) if s == t => a.extend_from_slice(b),
            _ => out.push(e.clone()),
        }
    }
    out
}

/// What has to happen to `s` on the message connection of `a1`, by the parser's verdicts.
pub fn by_verdict(s: &[u8]) -> (Vec<Ev>, usize) {
    let mut want = Vec::new();
    let mut i = 0;
    while i < s.len() {
        match Message::parse(&s[i..]) {
            Ok((m, n)) => {
                let ty = m.parsed_type().as_str().as_bytes().to_vec();
                let (ty, args): (&[u8], Vec<&[u8]>) = (&ty, m.arguments().collect());
                want.push(handled(ty, &args));
                if let Some(r) = reply(ty, &args) {
                    want.push(Ev::Sent(0, r));
                }
                i += n;
                cover(1);
            }
            Err(e) if e.is_incomplete() => {
                cover(2);
                break;
            }
            Err(_) => {
                let mut j = i + 1;
                while j < s.len() && s[j] != b'{' {
                    j += 1;
                }
                want.push(Ev::BadInput(false));
                want.push(Ev::Discard(s[i..j].to_vec()));
                i = j;
                cover(3);
            }
        }
    }
    (want, i)
}

fn follow(s: &[u8]) {
    let mut w = msgio(b"a1");
    w.feed(0, s);
    let (want, used) = by_verdict(s);
    assert!(w.ev == want);
    assert!(w.left(0) == &s[used..]);
    assert!(w.mode(0) == Mode::Msgio(Ident::plain(b"a1")));
}

/// Streams for the comparison of ways to split them.
pub fn stream(k: usize) -> Vec<u8> {
    let j = |v: &[&[u8]]| -> Vec<u8> { v.concat() };
    let h = |k: usize| render(HELLO[k], &[b"s1"]);
    match k {
        0 => j(&[&h(0), &want(b"own1"), b"zz"]),
        1 => j(&[&h(2), b"ab{1"]),
        2 => j(&[&h(1), b"q{"]),
        3 => j(&[&h(0), b"{{", &render(b"own1.bad", &[]), &want(b"x1")]),
        4 => j(&[&h(0), &render(b"core1.client-make", &[b"a1b", b"", b"", b""])]),
        5 => j(&[b"{", &h(0)]),
        6 => j(&[&render(b"posix1.client-hello", &[b"s2"]), &h(0)]),
        _ => j(&[&h(0), &render(b"own1.say", &[]), b"}", &render(b"xy2.q", &[b"{"])]),
    }
}

/// The same bytes in one read and cut into pieces.
fn split(s: &[u8], cuts: &[usize]) {
    let mut a = fresh();
    a.feed(0, s);
    let mut b = fresh();
    let mut from = 0;
    for c in cuts.iter().chain([&s.len()]) {
        b.feed(0, &s[from..*c]);
        from = *c;
    }
    assert!(a.mode(0) == b.mode(0));
    assert!(a.regs == b.regs);
    let (mut x, mut y) = (merged(&a.ev), merged(&b.ev));
    if a.mode(0) == Mode::Teardown {
        // of what arrives as the connection closes, how much was already read depends on the cuts
        if let (Some(Ev::Discard(p)), Some(Ev::Discard(q))) = (x.last(), y.last()) {
            assert!(is_prefix(q, p));
            x.pop();
            y.pop();
        }
        cover(1);
    } else {
        assert!(a.left(0) == b.left(0));
        cover(2);
    }
    assert!(x == y);
    if !x.is_empty() {
        observe(1, &[x.len() as u8]);
    }
    a.no_bad_send();
    b.no_bad_send();
}

pub fn cuts(n: usize, len: usize) -> Vec<usize> {
    match n {
        0 => (1..len).collect(),
        1 => vec![choice(len + 1)],
        _ => {
            let c = choice(len + 1);
            vec![c, c + choice(len + 1 - c)]
        }
    }
}

/// Is `a` strictly below `b`?
pub fn strictly(b: &[u8], a: &[u8]) -> bool {
    a.len() > b.len() && is_prefix(b, a)
}

harness! {
    // params: kind of hello, arbitrary bytes, what follows (0 nothing, 1 a message, 2 two bytes)
    fn c11_near() {
        let mut s = near(&render(HELLO[param(0)], &[b"s1"]), param(1));
        match param(2) {
            0 => {}
            1 => s.extend(want(b"core1")),
            _ => s.extend(bytes(2)),
        }
        handshake(&s);
    }
    // params: length
    fn c11_any() {
        handshake(&bytes(param(0)));
    }
    // params: kind of hello, length of the secret, what follows
    fn c11_long() {
        let mut s = render(HELLO[param(0)], &[&long(param(1), b'k')]);
        if param(2) == 1 {
            s.extend(want(b"core1"));
        }
        handshake_with(&s, &vec![b'k'; param(1)]);
    }
    // params: kind of hello, number of arguments, their length, what follows
    fn c11_hello() {
        let v: Vec<Vec<u8>> = (0..param(1)).map(|_| bytes(param(2))).collect();
        let a: Vec<&[u8]> = v.iter().map(|x| &x[..]).collect();
        let mut s = render(HELLO[param(0)], &a);
        if param(3) == 1 {
            s.extend(render(HELLO[0], &[b"s1"]));
        }
        handshake(&s);
    }
    // params: message type (14: any scoped one), its length
    fn c11_other() {
        let ty = if param(0) < TYPES.len() { TYPES[param(0)].to_vec() } else { let b = bytes(param(1)); assume(is_scoped(&b)); b };
        let s = match &ty[..] {
            b"core1.client-make" => render(&ty, &[b"a1b", b"", b"", b""]),
            b"core1.client-end" => render(&ty, &[b"a1b"]),
            _ => render(&ty, &[b"s1"]),
        };
        let mut t = s.clone();
        t.extend(render(HELLO[choice(3)], &[b"s1"]));
        handshake(&if bool_() { s } else { t });
    }
    // params: length of the client ID, lengths of the screen IDs (9: absent)
    fn c12_client() {
        // of longer ones only the first characters are arbitrary, the others are any ASCII or lowercase
        let screen = |n: usize| if n == 9 { None } else {
            let b = bytes(n);
            for c in b.iter().skip(4) {
                assume(*c < 0x80);
            }
            if n > 4 {
                assume(b[3] < 0x80);
            }
            assume(utf8(&b));
            Some(b)
        };
        let id = bytes(param(0));
        for c in id.iter().skip(4) {
            assume(*c >= b'a' && *c <= b'z');
        }
        assume(is_client_id(&id));
        let ident = Ident { id: id.clone(), screens: [screen(param(1)), screen(param(2)), screen(param(3))] };
        let mut w = World::new();
        w.allow(0, b"other", Ident::plain(b"zz"));
        w.allow(0, b"s1", ident.clone());
        w.connect(Mode::Handshake);
        w.feed(0, &render(HELLO[0], &[b"s1"]));
        assert!(w.mode(0) == Mode::Msgio(ident.clone()));
        let opt = |i: usize| -> &[u8] { ident.screens[i].as_deref().unwrap_or(b"") };
        let hello = render(b"posix1.server-hello", &[&id, opt(0), opt(1), opt(2)]);
        observe(1, &hello);
        assert!(w.sent(0) == vec![hello]);
        assert!(w.count(|e| matches!(e, Ev::Sent(..) | Ev::TooLong(_) | Ev::BadSend(_) | Ev::Discard(_) | Ev::Handled(..))) == 1);
        cover(1);
    }
    // params: kind (1 stdin, 2 stdout), length of the screen ID
    fn c12_screen() {
        let k = param(0);
        let s = bytes(param(1));
        assume(utf8(&s));
        let mut w = World::new();
        w.allow(3 - k as u8, b"s1", Ident::plain(b"wrong"));
        w.allow(k as u8, b"s1", Ident::plain(&s));
        w.connect(Mode::Handshake);
        w.feed(0, &render(HELLO[k], &[b"s1"]));
        assert!(w.mode(0) == if k == 1 { Mode::Stdin(s) } else { Mode::Stdout(s) });
        assert!(w.ev.len() == 2 && matches!(w.ev[0], Ev::Shaken(_)) && matches!(w.ev[1], Ev::Auth(..)));
        cover(1);
    }
    // params: stream, arbitrary bytes, cuts (0: everywhere)
    fn c13_split() {
        let mut s = stream(param(0));
        if param(1) > 0 {
            s = near(&s, param(1));
        }
        let c = cuts(param(2), s.len());
        split(&s, &c);
    }
    // params: mode (0 handshake, 1 msgio), length, cuts: arbitrary bytes
    fn c13_any() {
        let mut s = if param(0) == 1 { render(HELLO[0], &[b"s1"]) } else { vec![] };
        s.extend(bytes(param(1)));
        let c = cuts(param(2), s.len());
        split(&s, &c);
    }
    // params: length of the message, place of the cuts: a long message, with more behind it
    fn c13_long() {
        let x = bytes(2);
        let mut a = vec![b'y'; param(0)];
        let n = a.len();
        a[0] = x[0];
        a[n / 2] = x[0];
        a[n - 1] = x[1];
        let mut s = render(HELLO[0], &[b"s1"]);
        s.extend(render(b"own1.ok", &[&a]));
        let m = s.len();
        s.extend(want(b"own1"));
        let c = match param(1) {
            0 => vec![pick(&[m - 1, m - 2, m - 3, m - n / 2, m - n, m - n - 4, m + 1])],
            1 => vec![m - n / 2, m - 3],
            2 => vec![20, 60, m - n / 2, m - 7, m, m + 2],
            // pieces of the size of the receive buffer and smaller ones
            k => (1..).map(|i| i * k).take_while(|p| *p < s.len()).collect(),
        };
        split(&s, &c);
        cover(3);
    }
    // params: messages, distance of the cuts: many small ones at once
    fn c13_many() {
        let mut s = render(HELLO[0], &[b"s1"]);
        for k in 0..param(0) {
            match k % 7 {
                0 => s.extend(render(b"own1.ok", &[&dec(k)])),
                1 => s.extend(want(b"core1")),
                2 => s.extend(b"junk"),
                3 => s.extend(render(b"own1.bad", &[])),
                4 => s.extend(render(b"a1.b", &[&bytes(1)])),
                5 => s.extend(b"{1|4:oops,}"),
                _ => s.extend(want(b"no1")),
            }
        }
        let k = param(1);
        let c: Vec<usize> = (1..).map(|i| i * k).take_while(|p| *p < s.len()).collect();
        split(&s, &c);
        cover(3);
    }
    // params: junk bytes before, between and behind; arguments of the second message
    fn c14_script() {
        let mut s = Script { bytes: vec![], want: vec![] };
        let x = bytes(2);
        s.junk(param(0));
        s.msg(b"own1.ok", &[&x]);
        s.junk(param(1));
        // openers that begin no message
        s.raw(match choice(6) { 0 => b"", 1 => b"{{", 2 => b"{}", 3 => b"{1|{", 4 => b"{01", _ => b"{1|4:nope}" });
        let y = bytes(param(3));
        let c = choice(3);
        s.msg(&[&b"want"[..], b"own1.say", b"xy2.z"][c], &[if c == 0 { b"core1" } else { &y }]);
        s.msg(b"own1.bad", &[]);
        s.junk(param(2));
        let mut w = msgio(b"a1");
        let rest: &[u8] = if bool_() { b"{2|4:wa" } else { b"" };
        let mut b = s.bytes.clone();
        b.extend_from_slice(rest);
        w.feed(0, &b);
        assert!(merged(&w.ev) == s.want);
        assert!(w.left(0) == rest);
        assert!(w.mode(0) == Mode::Msgio(Ident::plain(b"a1")));
        if !rest.is_empty() {
            // the rest of the message
            let k = w.ev.len();
            w.feed(0, b"nt,5:core1,}");
            assert!(w.ev[k..] == [handled(b"want", &[b"core1"]), Ev::Sent(0, render(b"have", &[b"core1.0"]))]);
            assert!(w.left(0).is_empty());
            cover(1);
        }
        cover(2);
    }
    // params: length of the garbage
    fn c14_long() {
        let mut s = want(b"own1");
        let mut g = long(param(0), b'k');
        for c in &mut g {
            assume(*c != b'{');
        }
        s.extend(&g);
        s.extend(render(b"own1.ok", &[&g]));
        if bool_() {
            s.push(b'{');
        }
        s.extend(&g);
        s.extend(want(b"own1"));
        follow(&s);
    }
    // params: length
    fn c14_any() {
        follow(&bytes(param(0)));
    }
    // params: first and second message, arbitrary bytes
    fn c14_near() {
        let m = |k: usize| match k {
            0 => render(b"want", &[b"x1"]),
            1 => render(b"own1.ok", &[b"{", b""]),
            2 => render(b"nope", &[]),
            _ => render(b"core1.sub", &[b"abcdefghij"]),
        };
        let mut s = m(param(0));
        s.extend(m(param(1)));
        follow(&near(&s, param(2)));
    }
    // params: message type (14: any scoped one of 2nd param bytes; else arbitrary bytes in it), arguments, their length
    fn c15_type() {
        let ty = if param(0) < TYPES.len() { near(TYPES[param(0)], param(1)) } else { bytes(param(1)) };
        assume(is_type(&ty));
        let v: Vec<Vec<u8>> = (0..param(2)).map(|_| bytes(param(3))).collect();
        let a: Vec<&[u8]> = v.iter().map(|x| &x[..]).collect();
        one(&ty, &a);
    }
    // params: message type, arguments, their length
    fn c15_args() {
        let ty = TYPES[param(0)];
        let v: Vec<Vec<u8>> = (0..param(1)).map(|_| bytes(param(2))).collect();
        let a: Vec<&[u8]> = v.iter().map(|x| &x[..]).collect();
        match ty {
            // valid ones are the subject of C16 and C17
            b"core1.client-make" => assume(!(a.len() == 4 && strictly(b"a1", a[0]))),
            b"core1.client-end" => assume(!(a.len() == 1 && strictly(b"a1", a[0]))),
            _ => {}
        }
        one(ty, &a);
    }
    // params: kind, length: long module names, types and arguments
    fn c15_long() {
        let n = param(1);
        let l = long(n, b'k');
        match param(0) {
            0 => one(b"want", &[&[&l[..], b"12"].concat()]),
            1 => {
                let ty = [&l[..], b"12.b"].concat();
                assume(is_type(&ty));
                one(&ty, &[b"x"]);
            }
            2 => {
                let ty = [b"own1.", &l[..]].concat();
                assume(is_type(&ty));
                one(&ty, &[]);
            }
            3 => one(b"own1.say", &[&l]),
            4 => one(b"core1.client-end", &[&l]),
            5 => one(b"posix1.client-hello", &[&l]),
            _ => one(b"nope", &[&l, &l]),
        }
    }
    // params: number of messages
    fn c15_seq() {
        let mut s = Script { bytes: vec![], want: vec![] };
        for _ in 0..param(0) {
            let ty = TYPES[choice(TYPES.len())];
            let arg: &[u8] = if bool_() { b"core1" } else { b"q" };
            s.msg(ty, &[arg]);
        }
        let mut w = msgio(b"a1");
        w.feed(0, &s.bytes);
        assert!(merged(&w.ev) == s.want);
        assert!(w.left(0).is_empty());
        assert!(w.mode(0) == Mode::Msgio(Ident::plain(b"a1")));
        cover(1);
    }
    // params: length of the requester's, the requested and a registered ID, and of the screen IDs
    fn c16_make() {
        let me = bytes(param(0));
        assume(is_client_id(&me));
        let id = bytes(param(1));
        let reg = bytes(param(2));
        assume(is_client_id(&reg));
        let s: Vec<Vec<u8>> = (0..3).map(|_| bytes(param(3))).collect();
        make(&me, &id, &reg, &s);
    }
    // params: length of the requester's ID, what is behind it, of the screen IDs
    fn c16_long() {
        let me = vec![b'k'; param(0)];
        let mut id = long(param(0), b'k');
        id.extend(long(param(1), b'q'));
        let mut reg = [&me[..], &vec![b'q'; pick(&[0, param(1) / 2, param(1), param(1) + 1])]].concat();
        reg.push(u8_());
        assume(is_client_id(&reg));
        let s: Vec<Vec<u8>> = (0..3).map(|k| vec![b'a' + k; param(2)]).collect();
        make(&me, &id, &reg, &s);
    }
    // params: length of the requester's, the ended and another client's ID
    fn c17_end() {
        let me = bytes(param(0));
        let id = bytes(param(1));
        let other = bytes(param(2));
        assume(is_client_id(&me));
        assume(is_client_id(&other));
        end(&me, &id, &other);
    }
    // params: length of the requester's ID, what is behind it
    fn c17_long() {
        let me = vec![b'k'; param(0)];
        let mut id = long(param(0), b'k');
        id.extend(long(param(1), b'q'));
        let mut other = [&me[..], &vec![b'q'; pick(&[0, param(1) / 2, param(1), param(1) + 1])]].concat();
        other.push(u8_());
        assume(is_client_id(&other));
        end(&me, &id, &other);
    }
    // params: bytes with the hello, in the second and in the third read
    fn c18_stdout() {
        let parts: Vec<Vec<u8>> = (0..3).map(|i| bytes(param(i))).collect();
        let mut w = fresh();
        let mut s = render(HELLO[2], &[b"s1"]);
        s.extend_from_slice(&parts[0]);
        w.feed(0, &s);
        w.feed(0, &parts[1]);
        w.feed(0, &parts[2]);
        let all = parts.concat();
        let got: Vec<u8> = w.ev.iter().flat_map(|e| match e { Ev::Recv(s, b) if s == b"out" => b.clone(), _ => vec![] }).collect();
        assert!(got == all);
        assert!(w.ev.len() == 2 + w.count(|e| matches!(e, Ev::Recv(..))));
        assert!(w.mode(0) == Mode::Stdout(b"out".to_vec()));
        assert!(w.left(0).is_empty());
        cover(1);
    }
    // params: bytes with the hello, bytes afterwards
    fn c18_stdin() {
        let (a, b) = (bytes(param(0)), bytes(param(1)));
        let mut w = fresh();
        let mut s = render(HELLO[1], &[b"s1"]);
        s.extend_from_slice(&a);
        w.feed(0, &s);
        assert!((w.mode(0) == Mode::Teardown) == !a.is_empty());
        w.feed(0, &b);
        let first = if a.is_empty() { &b } else { &a };
        assert!((w.mode(0) == Mode::Teardown) == !first.is_empty());
        let d: Vec<Ev> = w.ev[2..].to_vec();
        if first.is_empty() {
            assert!(d.is_empty());
        } else {
            assert!(d == vec![Ev::Discard(first.clone())]);
            cover(1);
        }
    }
    // params: bytes: nothing is interpreted on a closed connection
    fn c18_closed() {
        let mut w = fresh();
        let i = w.connect(Mode::Teardown);
        let s = if bool_() { bytes(param(0)) } else { [render(HELLO[choice(3)], &[b"s1"]), want(b"core1")].concat() };
        w.feed(i, &s);
        assert!(w.ev.is_empty() && w.mode(i) == Mode::Teardown && w.mode(0) == Mode::Handshake);
        cover(1);
    }
    // params: what arrives (0 openers, 1 messages, 2 garbage lines, 3 refused messages), how much of it
    fn c25_many() {
        let n = param(1);
        let unit: Vec<u8> = match param(0) {
            0 => b"{".to_vec(),
            1 => render(b"own1.ok", &[&bytes(1)]),
            2 => { let b = u8_(); assume(b != b'{'); vec![b'{', b'x', b] }
            _ => want(b"q"),
        };
        let mut s = Vec::with_capacity(unit.len() * n + 1);
        for _ in 0..n {
            s.extend_from_slice(&unit);
        }
        let mut w = msgio(b"a1");
        w.feed(0, &s);
        w.feed(0, &s);
        assert!(w.mode(0) == Mode::Msgio(Ident::plain(b"a1")));
        let k = w.count(|e| matches!(e, Ev::Handled(..) | Ev::Discard(_)));
        assert!(k == if param(0) == 0 { 2 * n - 1 } else { 2 * n });
        cover(1);
    }
}

fn make(me: &[u8], id: &[u8], reg: &[u8], s: &[Vec<u8>]) {
    let mut w = msgio(me);
    w.regs.push(reg.to_vec());
    let regs = w.regs.clone();
    w.feed(0, &render(b"core1.client-make", &[&id, &s[0], &s[1], &s[2]]));
    let valid = is_client_id(&id) && utf8(&s[0]) && utf8(&s[1]) && utf8(&s[2]);
    let free = !is_prefix(id, me) && !is_prefix(&id, &reg);
    let sent = w.sent(0);
    assert!(sent.len() == 1);
    assert!(w.mode(0) == Mode::Msgio(Ident::plain(&me)));
    assert!(w.count(|e| matches!(e, Ev::Handled(..))) == 1);
    let did: Vec<&Ev> = w.ev.iter().filter(|e| !matches!(e, Ev::Handled(..) | Ev::HasClients(..) | Ev::Sent(..))).collect();
    if valid && strictly(&me, &id) && free {
        let opt = |b: &Vec<u8>| if b.is_empty() { None } else { Some(b.clone()) };
        let ident = Ident { id: id.to_vec(), screens: [opt(&s[0]), opt(&s[1]), opt(&s[2])] };
        assert!(did.len() == 1 && *did[0] == Ev::Register(ident));
        assert!(sent[0] == render(b"core1.client-new", &[&w.issued[0]]));
        cover(1);
        // and only once
        w.feed(0, &render(b"core1.client-make", &[&id, &s[0], &s[1], &s[2]]));
        assert!(w.issued.len() == 1);
        assert!(w.sent(0)[1] == render(b"nope", &[b"core1.client-make"]));
    } else {
        assert!(did.is_empty() && w.regs == regs);
        assert!(sent[0] == render(b"nope", &[b"core1.client-make"]));
        cover(if !valid { 2 } else if !strictly(&me, &id) { 3 } else { 4 });
    }
}

fn end(me: &[u8], id: &[u8], other: &[u8]) {
    let mut w = msgio(&me);
    // a second connection with another ID, a registration without connection below it
    let o = w.connect(Mode::Msgio(Ident::plain(&other)));
    let rest = [w.connect(Mode::Handshake), w.connect(Mode::Stdin(b"x".to_vec())), w.connect(Mode::Stdout(b"x".to_vec()))];
    w.regs.push(other.to_vec());
    let mut deep = other.to_vec();
    deep.push(b'q');
    w.regs.push(deep.clone());
    w.allow(0, b"pending", Ident::plain(&deep));
    let p = w.connect(Mode::Msgio(Ident::plain(&deep)));
    let regs = w.regs.clone();
    let modes: Vec<Mode> = (0..6).map(|i| w.mode(i)).collect();
    let again = render(b"core1.client-make", &[&id, b"", b"", b""]);
    let honoured = is_client_id(&id) && strictly(&me, &id);
    let together = honoured && bool_();
    let mut s = render(b"core1.client-end", &[&id]);
    if together {
        s.extend(&again);
    }
    w.feed(0, &s);
    w.no_bad_send();
    for i in rest {
        assert!(w.mode(i) == modes[i]);
    }
    assert!(w.mode(0) == modes[0]);
    assert!(w.count(|e| matches!(e, Ev::Register(_))) == together as usize);
    assert!(w.count(|e| matches!(e, Ev::Discard(_) | Ev::Recv(..) | Ev::Auth(..))) == 0);
    if honoured {
        assert!(w.mode(o) == if is_prefix(&id, &other) { Mode::Teardown } else { modes[o].clone() });
        assert!(w.mode(p) == if is_prefix(&id, &deep) { Mode::Teardown } else { modes[p].clone() });
        let mut keep: Vec<Vec<u8>> = regs.iter().filter(|r| !is_prefix(&id, r)).cloned().collect();
        if together {
            keep.push(id.to_vec());
        }
        assert!(w.regs == keep, "registrations at or below the ended client are released, others kept");
        assert!(w.creds.len() == !is_prefix(&id, &deep) as usize + together as usize);
        assert!(w.count(|e| matches!(e, Ev::Sent(..) | Ev::TooLong(_))) == together as usize);
        cover(if is_prefix(&id, &other) { 1 } else { 2 });
        // the ID can be used again
        if !together {
            w.feed(0, &again);
        }
        assert!(w.issued.len() == 1);
        assert!(w.sent(0) == vec![render(b"core1.client-new", &[&w.issued[0]])]);
    } else {
        assert!((0..6).all(|i| w.mode(i) == modes[i]));
        assert!(w.regs == regs && w.creds.len() == 1);
        assert!(w.sent(0) == vec![render(b"nope", &[b"core1.client-end"])]);
        assert!(w.count(|e| matches!(e, Ev::Sent(..))) == 1);
        cover(3);
    }
}
