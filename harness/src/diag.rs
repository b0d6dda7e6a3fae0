//! What is printed about clients' bytes, errors and identifiers.
use crate::util::*;
use vt6::client::EnvironmentError;
use vt6::common::core::msg::*;
use vt6::server::Notification;

fn contains(t: &[u8], s: &[u8]) -> bool {
    let mut r = false;
    let mut i = 0;
    while i + s.len() <= t.len() {
        r |= t[i..i + s.len()] == *s;
        i += 1;
    }
    r
}
/// One line without control characters.
fn one_line(t: &[u8]) -> bool {
    let mut ok = true;
    for i in 0..t.len() {
        let at = |k: usize| if i + k < t.len() { t[i + k] } else { 0 };
        // C0, DEL, C1, U+2028 and U+2029
        ok &= (t[i] >= 0x20) & (t[i] != 0x7f);
        ok &= !((t[i] == 0xc2) & (at(1) < 0xa0));
        ok &= !((t[i] == 0xe2) & (at(1) == 0x80) & ((at(2) == 0xa8) | (at(2) == 0xa9)));
    }
    ok
}
fn discarded(b: &[u8]) -> Vec<u8> {
    let n = Notification::IncomingBytesDiscarded(b);
    assert!(!n.is_error());
    format!("{}", n).into_bytes()
}
fn kind(i: usize) -> ParseErrorKind {
    use ParseErrorKind::*;
    match i {
        0 => UnexpectedEOF,
        1 => ExpectedMessageOpener,
        2 => ExpectedMessageCloser,
        3 => ExpectedDecimalNumber,
        4 => DecimalNumberTooLarge,
        5 => DecimalNumberHasLeadingZeroes,
        6 => ExpectedListSigil,
        7 => ExpectedStringSigil,
        8 => ExpectedStringCloser,
        9 => ExpectedMessageType,
        _ => InvalidMessageType,
    }
}

harness! {
    // params: length, 0 ASCII and what is never UTF-8, 1 letters, digits and the like, else a prefix
    fn c30_discard() {
        let pre: &[u8] = match param(1) {
            0 | 1 => b"",
            2 => b"\xc2",
            3 => b"\xc3",
            4 => b"\xcc",
            5 => b"\xe2\x80",
            6 => b"\xef\xbf",
            7 => b"\xf0\x9f\x98",
            _ => b"\xff\xc2",
        };
        let mut b = pre.to_vec();
        let rest = bytes(param(0));
        let mut ok = true;
        for x in &rest {
            ok &= match param(1) {
                0 => (*x < 0xc2) | (*x >= 0xf5),
                1 => (*x >= 0x20) & (*x < 0x7f) & (*x != b'"') & (*x != b'\\') & (*x != b'\''),
                5..=7 => (*x & 0xfc) == 0xa8,
                _ => *x < 0xc0,
            };
        }
        assume(ok);
        b.extend(rest);
        let t = discarded(&b);
        observe(1, &t);
        assert!(one_line(&t));
        if param(1) == 1 {
            assert!(contains(&t, &b));
        }
        cover(1);
    }
    // params: two lengths: nothing is printed like something else
    fn c30_pair() {
        let (a, b) = (bytes(param(0)), bytes(param(1)));
        for v in [&a, &b] {
            assume(all(v, |x| x < 0x80));
        }
        assert!((discarded(&a) == discarded(&b)) == (a == b));
        cover(1);
    }
    // params: length: much of it, one byte arbitrary
    fn c30_long() {
        let b = long(param(0), b'g');
        let t = discarded(&b);
        assert!(one_line(&t));
        // nothing is left out
        assert!(t.iter().filter(|x| **x == b'g').count() >= b.len() - 1);
        cover(1);
    }
    // params: length: a lot of it
    fn c30_big() {
        let mut b = vec![b'g'; param(0)];
        let x = u8_();
        assume(lower(x));
        b.push(x);
        let t = discarded(&b);
        assert!(t.iter().filter(|x| **x == b'g').count() >= b.len() - 1);
        assert!(t.contains(&x));
        cover(1);
    }
    // params: length: errors of the parser
    fn c30_parse() {
        let b = bytes(param(0));
        if let Err(e) = Message::parse(&b) {
            assert!(e.is_incomplete() == (e.kind == ParseErrorKind::UnexpectedEOF));
            let t = format!("{}", e).into_bytes();
            assert!(one_line(&t));
            assert!(contains(&t, &dec(e.offset)));
            assert!(contains(&t, e.kind.to_str().as_bytes()));
            let n = format!("{}", EnvironmentError::CorruptParentHello(e));
            assert!(contains(n.as_bytes(), &t));
            cover(1);
        }
    }
    // errors far behind
    fn c30_offset() {
        let offset = usize_();
        assume(offset < 1 << 14);
        let k = choice(11);
        let e = ParseError { buffer: b"", offset, kind: kind(k) };
        assert!(e.is_incomplete() == (k == 0));
        let t = format!("{}", e).into_bytes();
        observe(1, &t);
        // the offset is the only number in it
        let mut v = 0usize;
        let mut n = 0;
        for x in &t {
            if digit(*x) {
                v = v * 10 + (*x - b'0') as usize;
                n += 1;
            }
        }
        assert!(n > 0 && v == offset);
        cover(1);
    }
    // no two kinds have the same name
    fn c30_kinds() {
        let (a, b) = (choice(11), choice(11));
        let (x, y) = (kind(a), kind(b));
        assert!(!x.to_str().is_empty());
        assert!((x.to_str() == y.to_str()) == (a == b));
        assert!(format!("{}", x) == x.to_str());
        cover(1);
    }
    // params: length of the error's text
    fn c30_io() {
        let b = bytes(param(0));
        assume(all(&b, |x| x < 0x80));
        let s = unsafe { String::from_utf8_unchecked(b.clone()) };
        let n = Notification::ConnectionIOError(s.into());
        assert!(n.is_error());
        assert!(contains(format!("{}", n).as_bytes(), &b));
        assert!(!Notification::ConnectionOpened.is_error() && !Notification::ConnectionClosed.is_error());
        let l = [format!("{}", Notification::ConnectionOpened), format!("{}", Notification::ConnectionClosed), format!("{}", EnvironmentError::NoVT6Terminal)];
        for i in 0..3 {
            assert!(!l[i].is_empty() && l[i] != l[(i + 1) % 3]);
            assert!(one_line(l[i].as_bytes()));
        }
        cover(1);
    }
    // whatever the error is
    fn c30_errno() {
        use std::io::ErrorKind::*;
        let k = [NotFound, PermissionDenied, ConnectionRefused, ConnectionReset, ConnectionAborted, NotConnected, BrokenPipe, WouldBlock, InvalidData, TimedOut, WriteZero, Interrupted, UnexpectedEof, OutOfMemory, Other];
        let e = match choice(3) {
            0 => std::io::Error::from(k[choice(k.len())]),
            1 => std::io::Error::from_raw_os_error(choice(134) as i32),
            _ => std::io::Error::new(k[choice(k.len())], "what went wrong"),
        };
        let n = Notification::ConnectionIOError(e.into());
        assert!(n.is_error());
        cover(1);
    }
    // params: length of an argument: a hello that is none
    fn c30_hello() {
        let b = bytes(param(0));
        let m = render(b"posix1.client-hello", &[&b]);
        let (m, _) = Message::parse(&m).unwrap();
        let p = format!("{}", m).into_bytes();
        let t = format!("{}", EnvironmentError::InvalidParentHello(m)).into_bytes();
        assert!(contains(&t, &p) && one_line(&t));
        cover(1);
    }
}
