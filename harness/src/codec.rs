//! Rendering and parsing of messages.
use crate::util::*;
use vt6::common::core::msg::*;
use vt6::common::core::*;

pub fn same_message(m: &Message, ty: &[u8], args: &[&[u8]]) {
    assert!(m.parsed_type().as_str().as_bytes() == ty);
    let mut it = m.arguments();
    assert!(it.len() == args.len());
    for a in args {
        match it.next() {
            Some(x) => assert!(x == *a),
            None => panic!("argument is missing"),
        }
    }
    assert!(it.len() == 0);
    assert!(it.next().is_none());
    assert!(it.next().is_none());
}

/// A message type: an eternal one, a fixed scoped one, or any scoped one of `l` bytes.
pub fn any_type(k: usize) -> Vec<u8> {
    match k {
        0 => b"want".to_vec(),
        1 => b"have".to_vec(),
        2 => b"nope".to_vec(),
        3 => b"core1.set".to_vec(),
        4 => b"example65535.member".to_vec(),
        l => {
            let b = bytes(l);
            assume(is_scoped(&b));
            b
        }
    }
}

fn roundtrip(ty: &[u8], args: &[&[u8]], extra: usize) {
    let want = render(ty, args);
    let t = want.len();
    assume(t <= 1024);
    let mut buf = vec![0u8; t + extra];
    let ts = std::str::from_utf8(ty).unwrap();
    let mut f = MessageFormatter::new(&mut buf, ts, args.len());
    for a in args {
        f.add_argument(*a);
    }
    let n = f.finalize().expect("fits");
    // whatever else is in the receive buffer behind the message
    fill(&mut buf[n..]);
    let (m, used) = Message::parse(&buf).ok().expect("parses");
    assert!(used == n);
    same_message(&m, ty, args);
    observe(1, &buf[..n]);
    cover(1);
    if args.len() >= 2 && args[0] != args[1] {
        cover(2);
    }
}

harness! {
    // params: type kind, list of length choices (0 small, 1 large), number of arguments, extra
    fn c01_roundtrip() {
        let ty = any_type(param(0));
        let lens: &[usize] = match param(1) {
            0 => &[0, 1, 2, 9, 10, 11],
            1 => &[0, 3, 9, 10, 99, 100, 101],
            _ => &[98, 99, 100, 101, 500, 990, 999, 1000, 1001, 1002],
        };
        let v: Vec<Vec<u8>> = (0..param(2)).map(|_| bytes(pick(lens))).collect();
        let a: Vec<&[u8]> = v.iter().map(|x| &x[..]).collect();
        roundtrip(&ty, &a, param(3));
    }
    // params: type kind, number of arguments, length of each
    fn c01_many() {
        let ty = any_type(param(0));
        let v: Vec<Vec<u8>> = (0..param(1)).map(|_| bytes(param(2))).collect();
        let a: Vec<&[u8]> = v.iter().map(|x| &x[..]).collect();
        roundtrip(&ty, &a, 2);
    }
    // params: what is rendered (0 bytes of chosen length, 1 integers, 2 other values), buffer
    // sizes (0 all, 1 around the limits), length of a byte string argument
    fn c02_sizes() {
        enum A { B(Vec<u8>), U(u64), I(i32), V(u16), F(bool), N }
        let args: Vec<A> = match param(0) {
            0 => vec![A::B(bytes(param(2)))],
            1 => vec![A::U(u64_()), A::I(u32_() as i32)],
            2 => vec![A::F(bool_()), A::N, A::V(u16_()), A::B(bytes(1))],
            _ => (0..param(2)).map(|_| A::B(vec![])).collect(),
        };
        let module = ModuleIdentifier::parse("core1").unwrap();
        let put = |f: &mut MessageFormatter| {
            for a in &args {
                match a {
                    A::B(b) => f.add_argument(&b[..]),
                    A::U(x) => f.add_argument(x),
                    A::I(x) => f.add_argument(x),
                    A::V(x) => f.add_argument(&module.with_minor_version(*x)),
                    A::F(x) => f.add_argument(x),
                    A::N => f.add_argument(&None::<&str>),
                }
            }
        };
        let digits = |mut x: u64| -> usize { let mut n = 1; while x > 9 { x /= 10; n += 1; } n };
        let lens: Vec<usize> = args.iter().map(|a| concrete(match a {
            A::B(b) => b.len(),
            A::U(x) => digits(*x),
            A::I(x) => digits(x.unsigned_abs() as u64) + (*x < 0) as usize,
            A::V(x) => 6 + digits(*x as u64),
            A::F(_) => 1,
            A::N => 0,
        })).collect();
        // the exact size of the whole message
        let mut total = 1 + dec(args.len() + 1).len() + 1 + 1 + 1 + 4 + 1 + 1;
        for l in &lens {
            total += dec(*l).len() + 1 + l + 1;
        }
        let size = match param(1) {
            0 => choice(total + 3),
            _ => pick(&[0, 1, 7, total / 2, total - 1, total, total + 1, 1022, 1023, 1024, 1025, 1026, 1500, 4072]),
        };
        let pat = u8_();
        let mut buf: Vec<u8> = (0..size).map(|i| pat ^ (i as u8)).collect();
        let mut f = MessageFormatter::new(&mut buf, "a1.b", args.len());
        put(&mut f);
        let limit = size.min(1024);
        let r = f.finalize();
        match r {
            Ok(n) => {
                assert!(n == total);
                assert!(n <= limit);
                cover(1);
            }
            Err(BufferTooSmallError(k)) => {
                assert!(total > limit);
                assert!(k == total - limit);
                cover(2);
            }
        }
        let from = if total <= limit { total } else { limit };
        for i in from..size {
            assert!(buf[i] == pat ^ (i as u8));
        }
    }
    // params: arguments announced: as many must be added as were announced, or there is no message
    fn c02_count() {
        let said = param(0);
        let put = choice(said + 3);
        let size = pick(&[1024, 10]);
        let mut buf = vec![0u8; size];
        cover(1);
        allow_panic(put != said);
        let mut f = MessageFormatter::new(&mut buf, "a1.b", said);
        for _ in 0..put {
            f.add_argument(&bytes(1)[..]);
        }
        let r = f.finalize();
        allow_panic(false);
        assert!(put == said);
        assert!(r.is_ok() == (size == 1024));
        cover(2);
    }
    // params: length
    fn c03_parse() {
        let n = param(0);
        let b = bytes(n);
        judge(&b);
    }
    // params: template, arbitrary bytes, bytes that follow
    fn c03_near() {
        let t = template(param(0));
        let mut b = near(&t, param(1));
        let l = b.len();
        b.resize(l + param(2), 0);
        fill(&mut b[l..]);
        judge(&b);
    }
    // params: length of an argument, bytes that follow: messages of more than 64 kB are messages, too
    fn c03_long() {
        let x = bytes(1);
        let mut a = vec![b'x'; param(0)];
        let n = a.len();
        a[0] = x[0];
        a[n / 2] = x[0];
        a[n - 1] = x[0];
        let mut b = render(b"a1.b", &[&a, b"tail"]);
        b.extend(bytes(param(1)));
        judge(&b);
    }
    // params: arguments, length of each: a great many
    fn c03_items() {
        let (v, b) = items(param(0), param(1));
        if b.len() < 2000 {
            judge(&b);
        }
        let (m, n) = Message::parse(&b).ok().expect("parses");
        assert!(n == b.len() - 1);
        assert!(m.arguments().len() == param(0));
        for (i, a) in m.arguments().enumerate() {
            assert!(a.len() == v[i].len() && (a.is_empty() || a[0] == v[i][0]));
        }
        cover(1);
    }
    // params: arguments, length of each: incomplete until the last byte
    fn c04_items() {
        let (_, b) = items(param(0), param(1));
        let n = b.len() - 1;
        for k in [0, 1, 3, 7, 12, n / 2, 255, 256, 257, n - 4, n - 1].iter().filter(|k| **k < n) {
            let k = *k;
            match Message::parse(&b[..k]) {
                Ok(_) => panic!("prefix is accepted"),
                Err(e) => assert!(e.is_incomplete()),
            }
        }
        if n < 2000 {
            stable(&b[..]);
        }
        cover(1);
    }
    // params: length of an argument: incomplete until the last byte
    fn c04_long() {
        let x = bytes(1);
        let mut a = vec![b'x'; param(0)];
        let n = a.len();
        a[0] = x[0];
        a[n / 2] = x[0];
        a[n - 1] = x[0];
        let b = render(b"a1.b", &[&a, b"tail"]);
        for k in [0, 1, 5, 10, n / 2, 255, 256, 257, 1023, 1024, 1025, n - 1, n, n + 5, n + 10, b.len() - 2, b.len() - 1] {
            if k < b.len() {
                match Message::parse(&b[..k]) {
                    Ok(_) => panic!("prefix is accepted"),
                    Err(e) => assert!(e.is_incomplete()),
                }
            }
        }
        let (_, l) = Message::parse(&b).ok().expect("parses");
        assert!(l == b.len());
        cover(1);
    }
    // params: length
    fn c04_stable() {
        let b = bytes(param(0));
        stable(&b);
    }
    // params: template, arbitrary bytes, appended bytes
    fn c04_near() {
        let t = template(param(0));
        let mut b = near(&t, param(1));
        let l = b.len();
        b.resize(l + param(2), 0);
        fill(&mut b[l..]);
        stable(&b);
    }
    // params: type kind, lengths of argument 1 and 2
    fn c04_prefix() {
        let ty = any_type(param(0));
        let (x, y) = (bytes(pick(&[0, 1, 9, 10, 11, 99, 100])), bytes(pick(&[0, 2, 10])));
        let b = render(&ty, &[&x, &y]);
        for k in 0..b.len() {
            match Message::parse(&b[..k]) {
                Ok(_) => panic!("prefix is accepted"),
                Err(e) => assert!(e.is_incomplete()),
            }
        }
        cover(1);
    }
    // params: type kind, lengths of the arguments (3 is none)
    fn c23_print() {
        let ty = any_type(param(0));
        let v: Vec<Vec<u8>> = (1..3).map(param).filter(|l| *l < 9).map(bytes).collect();
        printed(&ty, &v);
    }
    // params: arguments, length of each
    fn c23_items() {
        let mut v = vec![vec![b'x'; param(1)]; param(0)];
        let n = v.len();
        v[0] = bytes(1);
        v[n / 2] = bytes(1);
        v[n - 1] = bytes(1);
        printed(b"a1.b", &v);
    }
    // params: length of an argument
    fn c23_long() {
        match choice(3) {
            0 => printed(b"core1.set", &[long(param(0), b'k'), b"x".to_vec()]),
            1 => printed(b"want", &[long(param(0), b'"')]),
            _ => {
                let member = long(param(0), b'm');
                assume(is_ident(&member));
                printed(&[&b"a1."[..], &member].concat(), &[vec![], long(2, 0xff)])
            }
        }
    }
}

/// A message of `n` arguments and a byte behind it.
fn items(n: usize, l: usize) -> (Vec<Vec<u8>>, Vec<u8>) {
    let mut v = vec![vec![b'x'; l]; n];
    v[0] = bytes(1);
    v[n / 2] = bytes(1);
    v[n - 1] = bytes(1);
    let a: Vec<&[u8]> = v.iter().map(|x| &x[..]).collect();
    let mut b = render(b"a1.b", &a);
    b.push(u8_());
    (v, b)
}

fn judge(b: &[u8]) {
    match Message::parse(b) {
        Ok((m, n)) => {
            assert!(n <= b.len());
            let r = parse(b).expect("not a message");
            assert!(r.len == n);
            same_message(&m, r.ty, &r.args);
            assert!(render(r.ty, &r.args) == &b[..n]);
            observe(1, &b[..n]);
            cover(1);
        }
        Err(e) => {
            assert!(parse(b).is_none());
            assert!(e.buffer.as_ptr() == b.as_ptr() && e.buffer.len() == b.len());
            assert!(e.offset <= b.len());
            cover(if e.is_incomplete() { 2 } else { 3 });
        }
    }
}

fn stable(b: &[u8]) {
    enum V<'a> { More, Bad, Done(Message<'a>, usize) }
    let verdict = |k: usize| match Message::parse(&b[..k]) {
        Ok((m, n)) => V::Done(m, n),
        Err(e) if e.is_incomplete() => V::More,
        Err(_) => V::Bad,
    };
    let mut prev = V::More;
    for k in 0..b.len() + 1 {
        let v = verdict(k);
        match (&prev, &v) {
            (V::More, V::More) => {}
            (V::More, V::Bad) => cover(2),
            (V::More, V::Done(_, n)) => {
                assert!(*n == k, "accepted only after more than the message was there");
                cover(1);
            }
            (V::Bad, V::Bad) => {}
            (V::Done(m1, n1), V::Done(m2, n2)) => {
                assert!(n1 == n2);
                let a: Vec<&[u8]> = m1.arguments().collect();
                same_message(m2, m1.parsed_type().as_str().as_bytes(), &a);
                cover(3);
            }
            _ => panic!("verdict changed"),
        }
        prev = v;
    }
}

fn printed(ty: &[u8], v: &[Vec<u8>]) {
    let a: Vec<&[u8]> = v.iter().map(|x| &x[..]).collect();
    let b = render(ty, &a);
    let (m, _) = Message::parse(&b).ok().expect("parses");
    let s = format!("{}", m).into_bytes();
    observe(1, &s);
    let mut i = 0;
    let mut eat = |c: u8| { assert!(i < s.len() && s[i] == c, "delimiter is missing"); i += 1; i };
    eat(b'(');
    for c in ty {
        eat(*c);
    }
    for arg in v {
        eat(b' ');
        let bare = !arg.is_empty() && all(arg, |c| alnum(c) | (c == b'.') | (c == b'_') | (c == b'-'));
        if bare {
            cover(1);
            for c in arg {
                eat(*c);
            }
            continue;
        }
        cover(2);
        let mut j = eat(b'"');
        // undo the escaping: this must give back the argument, whatever it is
        for c in arg {
            assert!(j < s.len());
            let x = s[j];
            assert!(x >= 0x20 && x < 0x7f && x != b'"');
            if x != b'\\' {
                assert!(x == *c);
                eat(x);
                j += 1;
                continue;
            }
            cover(3);
            assert!(j + 1 < s.len());
            let e = s[j + 1];
            eat(x);
            eat(e);
            j += 2;
            let val = match e {
                b'n' => b'\n',
                b'r' => b'\r',
                b't' => b'\t',
                b'"' | b'\'' | b'\\' => e,
                b'x' => {
                    let hex = |d: u8| -> u8 {
                        if digit(d) { d - b'0' } else if d.wrapping_sub(b'a') < 6 { d - b'a' + 10 } else if d.wrapping_sub(b'A') < 6 { d - b'A' + 10 } else { panic!("bad escape") }
                    };
                    assert!(j + 1 < s.len());
                    let r = hex(s[j]) << 4 | hex(s[j + 1]);
                    eat(s[j]);
                    eat(s[j + 1]);
                    j += 2;
                    r
                }
                _ => panic!("unknown escape"),
            };
            assert!(val == *c);
        }
        eat(b'"');
    }
    let end = eat(b')');
    assert!(end == s.len());
}
