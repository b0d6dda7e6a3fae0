//! The typed messages.
use crate::util::*;
use std::os::unix::ffi::OsStrExt;
use std::path::Path;
use vt6::common::core::msg::*;
use vt6::common::core::*;
use vt6::msg::core::*;
use vt6::msg::posix::*;
use vt6::msg::*;

const NAMES: [&[u8]; 11] = [
    b"want", b"have", b"nope", b"core1.client-make", b"core1.client-new", b"core1.client-end", b"posix1.client-hello",
    b"posix1.parent-hello", b"posix1.server-hello", b"posix1.stdin-hello", b"posix1.stdout-hello",
];

/// What an argument must be. M module, V module or module version, T message type, C client ID,
/// S string, O optional string, P path.
fn shape(k: usize) -> &'static [u8] {
    match k {
        0 => b"M",
        1 => b"V",
        2 => b"T",
        3 | 8 => b"COOO",
        5 => b"C",
        7 => b"SP",
        _ => b"S",
    }
}
fn valid(k: u8, b: &[u8]) -> bool {
    match k {
        b'M' => is_module(b),
        b'V' => is_module(b) | is_module_version(b),
        b'T' => is_type(b),
        b'C' => is_client_id(b),
        b'S' | b'O' => utf8(b),
        _ => true,
    }
}
fn text(b: &[u8]) -> &str {
    std::str::from_utf8(b).unwrap()
}
fn same_opt(x: Option<&str>, b: &[u8]) -> bool {
    match x {
        None => b.is_empty(),
        Some(s) => !b.is_empty() && s.as_bytes() == b,
    }
}

/// Decodes as message kind `k` and compares the fields with the arguments.
fn decode(k: usize, m: &Message, a: &[&[u8]]) -> bool {
    fn eq(x: &str, b: &[u8]) -> bool {
        x.as_bytes() == b
    }
    macro_rules! go {
        ($t:ident, $x:ident => $e:expr) => {
            match $t::decode_message(m) {
                None => return false,
                Some($x) => assert!($e),
            }
        };
    }
    match k {
        0 => go!(Want, x => eq(x.0.as_str(), a[0])),
        1 => match Have::decode_message(m) {
            None => return false,
            Some(Have::ThisModule(v)) => {
                assert!(is_module_version(a[0]));
                assert!(v.encode_to_vector() == a[0]);
            }
            Some(Have::NotThisModule(v)) => assert!(is_module(a[0]) && eq(v.as_str(), a[0])),
        },
        2 => go!(Nope, x => eq(x.0.as_str(), a[0])),
        3 => go!(ClientMake, x => eq(x.client_id.as_str(), a[0]) && same_opt(x.stdin_screen_id, a[1]) && same_opt(x.stdout_screen_id, a[2]) && same_opt(x.stderr_screen_id, a[3])),
        4 => go!(ClientNew, x => eq(x.secret, a[0])),
        5 => go!(ClientEnd, x => eq(x.client_id.as_str(), a[0])),
        6 => go!(ClientHello, x => eq(x.secret, a[0])),
        7 => go!(ParentHello, x => eq(x.client_secret, a[0]) && x.server_socket_path.as_os_str().as_bytes() == a[1]),
        8 => go!(ServerHello, x => eq(x.client_id.as_str(), a[0]) && same_opt(x.stdin_screen_id, a[1]) && same_opt(x.stdout_screen_id, a[2]) && same_opt(x.stderr_screen_id, a[3])),
        9 => go!(StdinHello, x => eq(x.secret, a[0])),
        _ => go!(StdoutHello, x => eq(x.secret, a[0])),
    }
    true
}

fn encode(k: usize, a: &[&[u8]], buf: &mut [u8]) -> Result<usize, BufferTooSmallError> {
    let opt = |i: usize| if a[i].is_empty() { None } else { Some(text(a[i])) };
    match k {
        0 => Want(ModuleIdentifier::parse(text(a[0])).unwrap()).encode(buf),
        1 => match ModuleVersion::parse(text(a[0])) {
            Some(v) => Have::ThisModule(v).encode(buf),
            None => Have::NotThisModule(ModuleIdentifier::parse(text(a[0])).unwrap()).encode(buf),
        },
        2 => Nope(MessageType::parse(text(a[0])).unwrap()).encode(buf),
        3 => ClientMake { client_id: ClientID::parse(text(a[0])).unwrap(), stdin_screen_id: opt(1), stdout_screen_id: opt(2), stderr_screen_id: opt(3) }.encode(buf),
        4 => ClientNew { secret: text(a[0]) }.encode(buf),
        5 => ClientEnd { client_id: ClientID::parse(text(a[0])).unwrap() }.encode(buf),
        6 => ClientHello { secret: text(a[0]) }.encode(buf),
        7 => ParentHello { client_secret: text(a[0]), server_socket_path: Path::new(std::ffi::OsStr::from_bytes(a[1])) }.encode(buf),
        8 => ServerHello { client_id: ClientID::parse(text(a[0])).unwrap(), stdin_screen_id: opt(1), stdout_screen_id: opt(2), stderr_screen_id: opt(3) }.encode(buf),
        9 => StdinHello { secret: text(a[0]) }.encode(buf),
        _ => StdoutHello { secret: text(a[0]) }.encode(buf),
    }
}

/// An argument of `n` bytes (client IDs and the like have at least one) that fits its field.
fn field(k: u8, n: usize) -> Vec<u8> {
    match k {
        // 0: only a module, 1.. with arbitrary version digits
        b'V' if n % 2 == 0 => {
            let mut b = b"a1.".to_vec();
            let t = bytes(1 + n / 2);
            assume(num16(&t).0);
            b.extend(t);
            b
        }
        b'M' | b'V' => {
            let mut b = b"core".to_vec();
            let t = bytes(1 + n / 2);
            assume(num16(&t).0 & (t[0] != b'0'));
            b.extend(t);
            b
        }
        b'T' => match n {
            0 => b"want".to_vec(),
            1 => b"have".to_vec(),
            2 => b"nope".to_vec(),
            _ => {
                let mut b = b"core1.".to_vec();
                let t = bytes(n - 2);
                assume(is_ident(&t));
                b.extend(t);
                b
            }
        },
        b'C' => {
            let b = bytes(1 + n);
            assume(is_client_id(&b));
            b
        }
        b'S' | b'O' => {
            let b = bytes(n);
            assume(utf8(&b));
            b
        }
        _ => bytes(n),
    }
}

harness! {
    // params: message kind, largest field length: encode, parse, decode
    fn c10_roundtrip() {
        let k = param(0);
        let v: Vec<Vec<u8>> = shape(k).iter().map(|s| field(*s, choice(param(1) + 1))).collect();
        let a: Vec<&[u8]> = v.iter().map(|x| &x[..]).collect();
        let mut buf = [0u8; 200];
        let n = encode(k, &a, &mut buf).expect("fits");
        observe(1, &buf[..n]);
        assert!(buf[..n] == render(NAMES[k], &a)[..]);
        let (m, used) = Message::parse(&buf[..n]).ok().expect("parses");
        assert!(used == n);
        assert!(decode(k, &m, &a));
        // and it is no other message
        for o in 0..11 {
            if o != k {
                assert!(!decode(o, &m, &a));
            }
        }
        cover(1);
    }
    // params: decode as kind, number of arguments, their length, type: decoding is strict
    fn c10_strict() {
        let k = param(0);
        let t = if param(3) == 99 { k } else { param(3) };
        let v: Vec<Vec<u8>> = (0..param(1)).map(|_| bytes(if param(2) >= 10 { choice(param(2) - 9) } else { param(2) })).collect();
        let a: Vec<&[u8]> = v.iter().map(|x| &x[..]).collect();
        let buf = render(NAMES[t], &a);
        let (m, _) = Message::parse(&buf).ok().expect("parses");
        let s = shape(k);
        let mut ok = t == k && a.len() == s.len();
        if ok {
            for i in 0..a.len() {
                if !valid(s[i], a[i]) {
                    ok = false;
                    break;
                }
            }
        }
        let got = decode(k, &m, &a);
        assert!(got == ok);
        cover(if ok { 1 } else { 2 });
    }
    // params: message kind, length of its fields
    fn c10_long() {
        let (k, n) = (param(0), param(1));
        let s = shape(k);
        let hole = choice(s.len());
        let v: Vec<Vec<u8>> = s.iter().enumerate().map(|(i, c)| {
            let l = if i == hole { long(n, b'k') } else { vec![b'k'; n] };
            match c {
                b'M' => [&l[..], b"12"].concat(),
                b'V' => if bool_() { [&l[..], b"12"].concat() } else { [&l[..], b"12.65535"].concat() },
                b'T' => if bool_() { [&l[..], b"1.b"].concat() } else { [b"a1.", &l[..]].concat() },
                _ => l,
            }
        }).collect();
        let a: Vec<&[u8]> = v.iter().map(|x| &x[..]).collect();
        let m = render(NAMES[k], &a);
        let ok = valid(s[hole], a[hole]);
        let (p, used) = Message::parse(&m).ok().expect("parses");
        assert!(used == m.len());
        assert!(decode(k, &p, &a) == ok);
        if ok && (s[hole] != b'P') {
            let mut buf = vec![0u8; 6000];
            let r = encode(k, &a, &mut buf);
            if m.len() <= 1024 {
                assert!(r == Ok(m.len()) && buf[..m.len()] == m[..]);
                cover(1);
            } else {
                assert!(r == Err(BufferTooSmallError(m.len() - 1024)));
                cover(2);
            }
        } else {
            cover(3);
        }
    }
    // params: kind, holes: a message type that is nearly right is not right
    fn c10_type() {
        let k = param(0);
        let ty = near(NAMES[k], param(1));
        let s = shape(k);
        let arg = |c: u8| -> &[u8] { match c { b'M' | b'V' => b"a1", b'T' => b"a1.b", _ => b"x" } };
        let a: Vec<&[u8]> = s.iter().map(|c| arg(*c)).collect();
        let buf = render(&ty, &a);
        match Message::parse(&buf) {
            Ok((m, _)) => {
                let got = decode(k, &m, &a);
                assert!(got == (ty == NAMES[k]));
                cover(if got { 1 } else { 2 });
            }
            Err(_) => assert!(!is_type(&ty)),
        }
    }
}
