//! Encoding and decoding of single arguments.
use crate::util::*;
use std::os::unix::ffi::OsStrExt;
use std::path::Path;
use vt6::common::core::*;

fn encoded<T: EncodeArgument + ?Sized>(v: &T) -> Vec<u8> {
    let n = concrete(v.get_size());
    let mut buf = vec![0xAAu8; n];
    v.encode(&mut buf);
    buf
}

/// Is `b` a minimal decimal number within -min ..= max (given as decimal digits)?
fn canonical(b: &[u8], min: &[u8], max: &[u8]) -> bool {
    let unsigned = |b: &[u8], lim: &[u8]| -> bool {
        if b.is_empty() || b.len() > lim.len() {
            return false;
        }
        let minimal = all(b, digit) & ((b.len() == 1) | (b[0] != b'0'));
        if b.len() < lim.len() {
            return minimal;
        }
        // lexicographic comparison of equally long digit strings
        let mut le = true;
        for i in (0..b.len()).rev() {
            le = (b[i] < lim[i]) | ((b[i] == lim[i]) & le);
        }
        minimal & le
    };
    if b.is_empty() {
        return false;
    }
    let neg = !min.is_empty() && b.len() > 1;
    unsigned(b, max) | (neg && ((b[0] == b'-') & (b[1] != b'0') & unsigned(&b[1..], min)))
}

macro_rules! ints {
    ($($k:literal $t:ident $u:ident $wide:ident $min:literal $max:literal;)*) => {
        // the value encodes to its minimal decimal digits and decodes to itself
        fn encode_int(kind: usize) {
            match kind {
                $($k => {
                    let v: $t = $wide() as $t;
                    #[allow(unused_comparisons)]
                    let neg = v < 0;
                    // one path per sign
                    let neg = if neg { true } else { false };
                    let mut mag = if neg { (v as $u).wrapping_neg() } else { v as $u };
                    let got = encoded(&v);
                    observe(1, &got);
                    let off = if neg { assert!(got[0] == b'-'); cover(2); 1 } else { 0 };
                    let n = got.len() - off;
                    assert!(n >= 1);
                    let mut same = true;
                    for i in (0..n).rev() {
                        same &= got[off + i] == b'0' + (mag % 10) as u8;
                        if i > 0 { same &= mag > 9; }
                        mag /= 10;
                    }
                    assert!(same);
                    assert!(mag == 0);
                    cover(1);
                })*
                _ => unreachable!(),
            }
        }
        fn decode_int(kind: usize, b: &[u8]) {
            match kind {
                $($k => {
                    let ok = canonical(b, $min.as_bytes(), $max.as_bytes());
                    match $t::decode_argument(b) {
                        Some(v) => {
                            assert!(ok);
                            // one path per sign
                            let neg = if b[0] == b'-' { true } else { false };
                            let mut r: $t = 0;
                            for c in &b[neg as usize..] {
                                let d = (*c as $t).wrapping_sub(48);
                                r = r.wrapping_mul(10);
                                r = if neg { r.wrapping_sub(d) } else { r.wrapping_add(d) };
                            }
                            assert!(r == v);
                            cover(1);
                        }
                        None => {
                            assert!(!ok);
                            cover(2);
                        }
                    }
                    // the same through an optional argument
                    let o = Option::<$t>::decode_argument(b);
                    if b.is_empty() {
                        assert!(o == Some(None));
                    } else {
                        assert!(o.is_some() == ok);
                    }
                })*
                _ => unreachable!(),
            }
        }
        fn limits(kind: usize) -> (&'static str, &'static str) {
            match kind {
                $($k => ($min, $max),)*
                _ => unreachable!(),
            }
        }
    };
}
fn u128_() -> u128 {
    (u64_() as u128) << 64 | u64_() as u128
}
ints! {
    0 u8 u8 u8_ "" "255";
    1 i8 u8 u8_ "128" "127";
    2 u16 u16 u16_ "" "65535";
    3 i16 u16 u16_ "32768" "32767";
    4 u32 u32 u32_ "" "4294967295";
    5 i32 u32 u32_ "2147483648" "2147483647";
    6 u64 u64 u64_ "" "18446744073709551615";
    7 i64 u64 u64_ "9223372036854775808" "9223372036854775807";
    8 usize usize u64_ "" "18446744073709551615";
    9 isize usize u64_ "9223372036854775808" "9223372036854775807";
    10 u128 u128 u128_ "" "340282366920938463463374607431768211455";
    11 i128 u128 u128_ "170141183460469231731687303715884105728" "170141183460469231731687303715884105727";
}

harness! {
    // params: type
    fn c05_encode() {
        encode_int(param(0));
    }
    // params: type, length
    fn c05_decode() {
        let b = bytes(param(1));
        decode_int(param(0), &b);
    }
    // params: type, number of arbitrary bytes at the end, at the start: strings around the limits
    fn c05_limits() {
        let (min, max) = limits(param(0));
        let base = match choice(3) {
            0 => max.as_bytes().to_vec(),
            1 => [b"-", min.as_bytes()].concat(),
            _ => [max.as_bytes(), b"0"].concat(),
        };
        let mut b = base;
        let n = b.len();
        let t = param(1).min(n);
        fill(&mut b[n - t..]);
        let h = param(2).min(n - t);
        fill(&mut b[..h]);
        decode_int(param(0), &b);
    }
    // params: type, number of arbitrary bytes anywhere in strings around the limits
    fn c05_near() {
        let (min, max) = limits(param(0));
        let base = match choice(3) {
            0 => max.as_bytes().to_vec(),
            1 => [b"-", min.as_bytes()].concat(),
            _ => [max.as_bytes(), b"0"].concat(),
        };
        decode_int(param(0), &near(&base, param(1)));
    }
    // params: type, length: digits, possibly behind a sign
    fn c05_digits() {
        let mut b = bytes(param(1));
        assume(all(&b[1..], digit));
        assume((b[0] == b'-') | digit(b[0]));
        decode_int(param(0), &b);
    }
    // params: length
    fn c05_bool() {
        let v = bool_();
        let e = encoded(&v);
        assert!(e.len() == 1 && e[0] == if v { b't' } else { b'f' });
        let b = bytes(param(0));
        let want = if b == b"t" { Some(true) } else if b == b"f" { Some(false) } else { None };
        assert!(bool::decode_argument(&b) == want);
        if want.is_some() { cover(1) } else { cover(2) }
    }
    // params: length: byte strings and paths carry anything
    fn c06_bytes() {
        raw(bytes(param(0)));
    }
    // params: length: strings are exactly valid UTF-8
    fn c06_str() {
        text(bytes(param(0)));
    }
    // params: kind, length: identifiers of all kinds
    fn c06_ident() {
        ident(param(0), bytes(param(1)));
    }
    // params: kind, length: the same for long ones
    fn c06_long() {
        match param(0) {
            6 => text(long(param(1), b'k')),
            7 => raw(long(param(1), b'k')),
            k => ident(k, long_ident(k, param(1))),
        }
    }
    // params: type, length: many digits
    fn c05_long() {
        let mut b = long(param(1), b'1');
        if bool_() {
            b[0] = b'-';
        }
        decode_int(param(0), &b);
    }
    // params: minor version digits are any 16 bit number
    fn c06_version() {
        let m = ModuleIdentifier::parse("core1").unwrap();
        let v = u16_();
        let x = m.with_minor_version(v);
        let e = encoded(&x);
        observe(1, &e);
        assert!(e.len() >= 7 && &e[..6] == b"core1.");
        let (ok, n) = num16(&e[6..]);
        assert!(ok && n == v as u32);
        assert!(x.minor_version() == v);
        assert!(x.module().as_str() == "core1");
        cover(1);
    }
}

fn ident(kind: usize, b: Vec<u8>) {
    macro_rules! go {
        ($t:ident, $ok:expr) => {{
            let ok: bool = $ok;
            let r = $t::decode_argument(&b);
            let o = Option::<$t>::decode_argument(&b);
            assert!(r.is_some() == ok);
            if b.is_empty() {
                assert!(matches!(o, Some(None)));
            } else {
                assert!(o.is_some() == ok);
            }
            if let Some(x) = r {
                assert!(encoded(&x) == b);
                assert!(encoded(&Some(&x)) == b);
                assert!(encoded(&o.unwrap().unwrap()) == b);
                cover(1);
            } else {
                cover(2);
            }
        }};
    }
    match kind {
        0 => go!(ClientID, is_client_id(&b)),
        1 => go!(Identifier, is_ident(&b)),
        2 => go!(ModuleIdentifier, is_module(&b)),
        3 => go!(ModuleVersion, is_module_version(&b)),
        4 => go!(ScopedIdentifier, is_scoped(&b)),
        _ => go!(MessageType, is_type(&b)),
    }
}

fn raw(b: Vec<u8>) {
    assert!(encoded(&b[..]) == b);
    let d = <&[u8]>::decode_argument(&b);
    assert!(d.is_some() && d.unwrap() == &b[..]);
    let p = Path::new(std::ffi::OsStr::from_bytes(&b));
    let e = encoded(p);
    assert!(e == b);
    assert!(EncodedArgument::encoded(p) == &b[..]);
    let d = <&Path>::decode_argument(&b).expect("paths accept everything");
    assert!(d.as_os_str().as_bytes() == &b[..]);
    // optional values
    let o = Option::<&[u8]>::decode_argument(&b).expect("accepts everything");
    assert!(o.is_none() == b.is_empty());
    if let Some(x) = o {
        assert!(x == &b[..]);
    }
    let op = Option::<&Path>::decode_argument(&b).expect("accepts everything");
    assert!(op.is_none() == b.is_empty());
    if let Some(x) = op {
        assert!(x.as_os_str().as_bytes() == &b[..]);
    }
    assert!(encoded(&Some(&b[..])) == b);
    assert!(encoded(&Some(p)) == b);
    assert!(encoded(&None::<&[u8]>).is_empty());
    assert!(encoded(&None::<&str>).is_empty());
    assert!(encoded(&None::<&Path>).is_empty());
    cover(1);
}

fn text(b: Vec<u8>) {
    let ok = utf8(&b);
    let r = <&str>::decode_argument(&b);
    assert!(r.is_some() == ok);
    let o = Option::<&str>::decode_argument(&b);
    assert!(o.is_some() == ok);
    if let Some(s) = r {
        assert!(s.as_bytes() == &b[..]);
        assert!(encoded(s) == b);
        assert!(encoded(&Some(s)) == b);
        let o = o.unwrap();
        assert!(o.is_none() == b.is_empty());
        if let Some(x) = o {
            assert!(x.as_bytes() == &b[..]);
        }
        cover(1);
    } else {
        cover(2);
    }
}
