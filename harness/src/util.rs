//! Reference notions the checks compare against, written from the VT6 documentation and
//! independent of the implementation.
pub use symrt::*;

#[macro_export]
macro_rules! harness {
    ($(fn $n:ident() $b:block)*) => { $(
        #[no_mangle]
        pub extern "C-unwind" fn $n() $b
    )* };
}
#[macro_export]
macro_rules! table {
    ($($m:ident: $($n:ident),* ;)*) => {
        #[cfg(not(feature = "sym"))]
        pub static TABLE: &[symrt::native::Harness] = &[$($((stringify!($n), $m::$n)),*),*];
    };
}

pub fn pick(l: &[usize]) -> usize {
    l[choice(l.len())]
}

/// Decimal representation of a concrete or symbolic number.
pub fn dec(n: usize) -> Vec<u8> {
    let mut v = Vec::new();
    let mut n = n;
    loop {
        v.insert(0, b'0' + (n % 10) as u8);
        n /= 10;
        if n == 0 {
            return v;
        }
    }
}

/// The canonical rendering of a message.
pub fn render(ty: &[u8], args: &[&[u8]]) -> Vec<u8> {
    let mut v = vec![b'{'];
    v.extend(dec(args.len() + 1));
    v.push(b'|');
    let mut item = |a: &[u8]| {
        v.extend(dec(a.len()));
        v.push(b':');
        v.extend_from_slice(a);
        v.push(b',');
    };
    item(ty);
    for a in args {
        item(a);
    }
    v.push(b'}');
    v
}

// Predicates on bytes are written without control flow, so that each is one formula.
pub fn lower(b: u8) -> bool {
    b.wrapping_sub(b'a') < 26
}
pub fn upper(b: u8) -> bool {
    b.wrapping_sub(b'A') < 26
}
pub fn digit(b: u8) -> bool {
    b.wrapping_sub(b'0') < 10
}
pub fn letter(b: u8) -> bool {
    lower(b) | upper(b)
}
pub fn alnum(b: u8) -> bool {
    letter(b) | digit(b)
}
pub fn ident_leader(b: u8) -> bool {
    letter(b) | (b == b'_')
}
pub fn ident_char(b: u8) -> bool {
    ident_leader(b) | (b == b'-')
}
pub fn all(b: &[u8], f: fn(u8) -> bool) -> bool {
    let mut r = true;
    for x in b {
        r &= f(*x);
    }
    r
}

pub fn is_ident(b: &[u8]) -> bool {
    !b.is_empty() && (ident_leader(b[0]) & all(&b[1..], ident_char))
}
/// Minimal decimal number up to 65535: (is one, value).
pub fn num16(b: &[u8]) -> (bool, u32) {
    if b.is_empty() || b.len() > 5 {
        return (false, 0);
    }
    let mut v = 0u32;
    for x in b {
        v = v * 10 + (x.wrapping_sub(b'0') & 15) as u32;
    }
    let lead = b.len() == 1 || b[0] != b'0';
    (all(b, digit) & lead & (v <= 65535), v)
}
/// Is `b[..k]` a name and `b[k..]` a major version?
pub fn module_split(b: &[u8], k: usize) -> bool {
    if k == 0 || k >= b.len() {
        return false;
    }
    let (ok, v) = num16(&b[k..]);
    is_ident(&b[..k]) & ok & (v > 0)
}
pub fn is_module(b: &[u8]) -> bool {
    let mut r = false;
    // versions have up to five digits
    for k in 1.max(b.len().saturating_sub(5))..b.len() {
        r |= module_split(b, k);
    }
    r
}
pub fn is_module_version(b: &[u8]) -> bool {
    let mut r = false;
    for d in 1.max(b.len().saturating_sub(6))..b.len() {
        r |= (b[d] == b'.') & is_module(&b[..d]) & num16(&b[d + 1..]).0;
    }
    r
}
pub fn is_scoped(b: &[u8]) -> bool {
    let mut r = false;
    for d in 1..b.len() {
        if b.len() > 20 && b[d] != b'.' {
            continue;
        }
        r |= (b[d] == b'.') & is_module(&b[..d]) & is_ident(&b[d + 1..]);
    }
    r
}
pub fn is_eternal(b: &[u8]) -> bool {
    (b == b"want") | (b == b"have") | (b == b"nope")
}
pub fn is_type(b: &[u8]) -> bool {
    is_eternal(b) | is_scoped(b)
}
pub fn is_client_id(b: &[u8]) -> bool {
    !b.is_empty() && all(b, alnum)
}
pub fn is_prefix(a: &[u8], b: &[u8]) -> bool {
    a.len() <= b.len() && a == &b[..a.len()]
}
pub fn utf8(b: &[u8]) -> bool {
    // table 3-7 of the Unicode standard
    let cont = |i: usize| i < b.len() && b[i] & 0xc0 == 0x80;
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        if c < 0x80 {
            i += 1;
        } else if c < 0xc2 {
            return false;
        } else if c < 0xe0 {
            if !cont(i + 1) {
                return false;
            }
            i += 2;
        } else if c < 0xf0 {
            if !(cont(i + 1) && cont(i + 2)) {
                return false;
            }
            if (c == 0xe0 && b[i + 1] < 0xa0) || (c == 0xed && b[i + 1] >= 0xa0) {
                return false;
            }
            i += 3;
        } else if c < 0xf5 {
            if !(cont(i + 1) && cont(i + 2) && cont(i + 3)) {
                return false;
            }
            if (c == 0xf0 && b[i + 1] < 0x90) || (c == 0xf4 && b[i + 1] >= 0x90) {
                return false;
            }
            i += 4;
        } else {
            return false;
        }
    }
    true
}

/// A complete message found at the start of the input.
pub struct Parsed<'a> {
    pub ty: &'a [u8],
    pub args: Vec<&'a [u8]>,
    pub len: usize,
}

/// The message at the start of `b`, if `b` starts with a complete one.
pub fn parse(b: &[u8]) -> Option<Parsed<'_>> {
    let mut i = 0;
    let one = |i: &mut usize, c: u8| -> Option<()> {
        if *b.get(*i)? == c {
            *i += 1;
            Some(())
        } else {
            None
        }
    };
    // a number of more than six digits counts more bytes than any input here has
    assert!(b.len() < 1_000_000);
    let num = |i: &mut usize| -> Option<u32> {
        let s = *i;
        let mut v = 0u32;
        while *i < b.len() && digit(b[*i]) {
            if *i - s == 6 {
                return None;
            }
            v = v * 10 + (b[*i] & 15) as u32;
            *i += 1;
        }
        if *i == s || (*i > s + 1 && b[s] == b'0') {
            return None;
        }
        Some(v)
    };
    one(&mut i, b'{')?;
    let n = num(&mut i)?;
    one(&mut i, b'|')?;
    let mut items = Vec::new();
    // an item takes three bytes at least
    if n == 0 || n > b.len() as u32 {
        return None;
    }
    for _ in 0..n {
        let l = num(&mut i)?;
        one(&mut i, b':')?;
        if l > (b.len() - i) as u32 {
            return None;
        }
        let l = concrete(l as usize);
        items.push(&b[i..i + l]);
        i += l;
        one(&mut i, b',')?;
    }
    one(&mut i, b'}')?;
    if !is_type(items[0]) {
        return None;
    }
    Some(Parsed { ty: items[0], args: items[1..].to_vec(), len: i })
}

/// Some valid messages with parts of every kind, for looking at what is near them.
pub fn template(i: usize) -> Vec<u8> {
    let long = [b'x'; 105];
    match i {
        0 => render(b"want", &[b"core1"]),
        1 => render(b"core1.set", &[b"example.title", b"hello world"]),
        2 => render(b"nope", &[]),
        3 => render(b"a1.b", &[b"", b"{", b"0123456789", b"}"]),
        4 => render(b"have", &[b"a1.0", b"", b"", b"", b"", b"", b"", b"", b"", b""]),
        5 => render(b"posix1.client-hello", &[b"secret"]),
        6 => render(b"a65535.b", &[&long[..99], &long[..100]]),
        7 => render(b"core1.client-make", &[b"a1", b"", b"s", b""]),
        // numbers around the limits of the machine's integers, where a size or a count belongs
        8 => b"{2|4:want,18446744073709551615:x,}".to_vec(),
        9 => b"{18446744073709551615|4:want,}".to_vec(),
        10 => b"{2|4:want,4294967295:x,}".to_vec(),
        11 => b"{4294967297|4:want,}".to_vec(),
        12 => b"{2|4:want,9223372036854775807:x,}".to_vec(),
        13 => b"{9223372036854775808|4:want,}".to_vec(),
        14 => b"{65537|4:want,}".to_vec(),
        15 => b"{2|4:want,65537:x,}".to_vec(),
        16 => b"{257|4:want,}".to_vec(),
        _ => b"{2|4:want,257:x,}".to_vec(),
    }
}

/// `n` times `c`, but for one byte somewhere, which is arbitrary.
pub fn long(n: usize, c: u8) -> Vec<u8> {
    let mut v = vec![c; n];
    if n > 0 {
        v[pick(&[0, 1, n / 2, n - 1]).min(n - 1)] = u8_();
    }
    v
}
/// A long identifier: 0 client ID, 1 identifier, 2 module, 3 module version, 4 scoped identifier
/// with a long module, else a message type with a long member.
pub fn long_ident(kind: usize, n: usize) -> Vec<u8> {
    let l = long(n, b'k');
    match kind {
        0 | 1 => l,
        2 => [&l[..], b"12"].concat(),
        3 => [&l[..], b"12.65535"].concat(),
        4 => [&l[..], b"1.b"].concat(),
        _ => [b"a1.", &l[..]].concat(),
    }
}

/// A copy of `t` in which one or two bytes are arbitrary.
pub fn near(t: &[u8], holes: usize) -> Vec<u8> {
    let mut v = t.to_vec();
    let p = choice(t.len());
    v[p] = u8_();
    if holes > 1 && p + 1 < t.len() {
        let q = p + 1 + choice(t.len() - p - 1);
        v[q] = u8_();
    }
    v
}
