//! Identifiers, client IDs, selectors, derived client IDs, secrets.
use crate::util::*;
use vt6::client::core::ClientIDSuffix;
use vt6::common::core::*;
use vt6::server::{ClientCredentials, ClientSelector, ScreenCredentials};

/// Splits a module identifier into name length and version.
fn split_module(b: &[u8]) -> (usize, u32) {
    let mut k = b.len();
    while k > 0 && digit(b[k - 1]) {
        k -= 1;
    }
    (k, num16(&b[k..]).1)
}
fn first_dot(b: &[u8]) -> usize {
    let mut i = 0;
    while b[i] != b'.' {
        i += 1;
    }
    i
}
fn check_module(m: &ModuleIdentifier, b: &[u8]) {
    let (k, v) = split_module(b);
    assert!(m.as_str().as_bytes() == b);
    assert!(m.name().as_str().as_bytes() == &b[..k]);
    assert!(m.major_version() as u32 == v);
}

fn check(kind: usize, b: &[u8]) {
    let Ok(s) = std::str::from_utf8(b) else { return };
    let ok;
    match kind {
        0 => {
            let r = Identifier::parse(s);
            ok = r.is_some();
            assert!(ok == is_ident(b));
            if let Some(x) = r {
                assert!(x.as_str() == s);
            }
        }
        1 => {
            let r = ModuleIdentifier::parse(s);
            ok = r.is_some();
            assert!(ok == is_module(b));
            if let Some(x) = r {
                check_module(&x, b);
            }
        }
        2 => {
            let r = ModuleVersion::parse(s);
            ok = r.is_some();
            assert!(ok == is_module_version(b));
            if let Some(x) = r {
                let d = first_dot(b);
                check_module(&x.module(), &b[..d]);
                assert!(x.minor_version() as u32 == num16(&b[d + 1..]).1);
            }
        }
        3 => {
            let r = ScopedIdentifier::parse(s);
            ok = r.is_some();
            assert!(ok == is_scoped(b));
            if let Some(x) = r {
                let d = first_dot(b);
                assert!(x.as_str() == s);
                check_module(&x.module(), &b[..d]);
                assert!(x.member().as_str().as_bytes() == &b[d + 1..]);
            }
        }
        4 => {
            let r = MessageType::parse(s);
            ok = r.is_some();
            assert!(ok == is_type(b));
            if let Some(x) = r {
                assert!(x.as_str() == s);
                match x {
                    MessageType::Want => assert!(b == b"want"),
                    MessageType::Have => assert!(b == b"have"),
                    MessageType::Nope => assert!(b == b"nope"),
                    MessageType::Scoped(x) => {
                        let d = first_dot(b);
                        assert!(x.as_str() == s);
                        check_module(&x.module(), &b[..d]);
                        assert!(x.member().as_str().as_bytes() == &b[d + 1..]);
                    }
                }
            }
        }
        _ => {
            let r = ClientID::parse(s);
            ok = r.is_some();
            assert!(ok == is_client_id(b));
            if let Some(x) = r {
                assert!(x.as_str() == s);
            }
        }
    }
    cover(if ok { 1 } else { 2 });
}

fn client_id(n: usize) -> Vec<u8> {
    let b = bytes(n);
    assume(is_client_id(&b));
    b
}
fn id(b: &[u8]) -> ClientID<'_> {
    // harness inputs are ASCII here
    ClientID::parse(unsafe { std::str::from_utf8_unchecked(b) }).expect("valid client ID")
}

/// A derivation: 0 own, 1 local, 2 job, 3 child.
fn derivation(k: usize) -> (ClientIDSuffix, u32, u32) {
    match k {
        0 => (ClientIDSuffix::Own, 0, 0),
        1 => { let i = u32_(); (ClientIDSuffix::Local(i), i, 0) }
        2 => { let i = u32_(); (ClientIDSuffix::Job(i), i, 0) }
        _ => { let (i, j) = (u32_(), u32_()); (ClientIDSuffix::Child(i, j), i, j) }
    }
}
/// The full ID, for derivations whose announced size is at most `max` bytes.
fn derive(s: ClientIDSuffix, base: &[u8], max: usize) -> Vec<u8> {
    let r = s.below(id(base));
    assert!(r.base().as_str().as_bytes() == base);
    let n = r.get_size();
    assume(n <= max);
    let n = concrete(n);
    let mut buf = vec![0xAA; n];
    r.encode(&mut buf);
    buf
}

harness! {
    // params: kind, length: any string
    fn c07_any() {
        let b = bytes(param(1));
        check(param(0), &b);
    }
    // params: kind, number of bytes, prefix: digits behind a fixed prefix
    fn c07_digits() {
        let pre: &[u8] = match param(2) {
            0 => b"a",
            1 => b"a-",
            2 => b"a1.",
            3 => b"a65535.",
            4 => b"a6553",
            _ => b"a1.b.",
        };
        let mut b = pre.to_vec();
        let t = bytes(param(1));
        let mut ok = true;
        for x in &t {
            ok &= digit(*x) | (*x == b'.') | (*x == b'+') | (*x == b'-');
        }
        assume(ok);
        b.extend(t);
        check(param(0), &b);
    }
    // params: kind, index, holes: strings near valid ones
    fn c07_near() {
        let l: [&[u8]; 8] = [b"core1.client-make", b"want", b"a65535.65535", b"a_-b10.c_-", b"term2", b"_", b"nope", b"example9.0"];
        check(param(0), &near(l[param(1)], param(2)));
    }
    // params: kind, two lengths: they print as they are, and are the same if their strings are
    fn c07_same() {
        let k = param(0);
        let (a, b) = (bytes(param(1)), bytes(param(2)));
        let valid = |b: &[u8]| match k {
            0 => is_ident(b),
            1 => is_module(b),
            2 => is_module_version(b),
            3 => is_scoped(b),
            4 => is_type(b),
            _ => is_client_id(b),
        };
        assume(valid(&a));
        assume(valid(&b));
        let (s, t) = unsafe { (std::str::from_utf8_unchecked(&a), std::str::from_utf8_unchecked(&b)) };
        let same = a == b;
        macro_rules! go {
            ($t:ident) => {{
                let (x, y) = ($t::parse(s).unwrap(), $t::parse(t).unwrap());
                assert!((x == y) == same);
                assert!((x != y) == !same);
                assert!(x.clone() == x);
                assert!(x.to_string() == s);
                (x, y)
            }};
        }
        macro_rules! ord {
            ($t:ident) => {{
                let (x, y) = go!($t);
                assert!((x.cmp(&y) == std::cmp::Ordering::Equal) == same);
                assert!(y.cmp(&x) == x.cmp(&y).reverse());
                assert!(x.partial_cmp(&y) == Some(x.cmp(&y)));
            }};
        }
        match k {
            0 => ord!(Identifier),
            1 => ord!(ModuleIdentifier),
            2 => ord!(ModuleVersion),
            3 => ord!(ScopedIdentifier),
            4 => {
                go!(MessageType);
            }
            _ => {
                ord!(ClientID);
                let x = vt6::server::ClientIdentity::new(&id(&a));
                assert!(x.client_id() == id(&a));
                assert!((x.clone().client_id() == id(&b)) == same);
            }
        }
        cover(if same { 1 } else { 2 });
    }
    // params: kind, length: long ones
    fn c07_long() {
        check(param(0), &long_ident(param(0), param(1)));
    }
    // params: lengths of a base and of what is behind it: long IDs
    fn c08_long() {
        let a = long(param(0), b'k');
        assume(is_client_id(&a));
        let mut b = vec![b'k'; param(0)];
        b.extend(long(param(1), b'q'));
        assume(is_client_id(&b));
        check(5, &b);
        let (x, y) = (id(&a), id(&b));
        let pre = is_prefix(&a, &b);
        assert!(ClientSelector::AtOrBelow(x).contains(y) == pre);
        assert!(ClientSelector::StrictlyBelow(x).contains(y) == (pre & (a != b)));
        assert!(ClientSelector::AtOrBelow(y).contains(x) == (a == b));
        assert!(!ClientSelector::StrictlyBelow(y).contains(x));
        cover(if pre { 1 } else { 2 });
    }
    // params: derivation kind, length of the base: a long base
    fn c09_base() {
        let base = long(param(1), b'k');
        assume(is_client_id(&base));
        let (s, i, j) = derivation(param(0));
        assume(i < 300 && j < 2);
        let e = derive(s, &base, 1_000_000);
        assert!(is_client_id(&e));
        assert!(is_prefix(&base, &e));
        assert!((e.len() == base.len()) == (param(0) == 0));
        // what is behind the base does not depend on it
        assert!(e[base.len()..] == derive(s, b"x1", 1_000_000)[2..]);
        cover(1);
    }
    // params: length: with more or less than ASCII
    fn c08_parse() {
        check(5, &bytes(param(0)));
    }
    // params: lengths of base, of other: selectors are prefix relations
    fn c08_select() {
        let (a, b) = (client_id(param(0)), client_id(param(1)));
        let (x, y) = (id(&a), id(&b));
        let pre = is_prefix(&a, &b);
        assert!(ClientSelector::AtOrBelow(x).contains(y) == pre);
        assert!(ClientSelector::StrictlyBelow(x).contains(y) == (pre & (a != b)));
        cover(if pre { 1 } else { 2 });
    }
    // params: lengths of three IDs: what is below something at or below the base is below the base
    fn c08_chain() {
        let (a, b, c) = (client_id(param(0)), client_id(param(1)), client_id(param(2)));
        let (x, y, z) = (id(&a), id(&b), id(&c));
        let upper = ClientSelector::AtOrBelow(x);
        if upper.contains(y) {
            if ClientSelector::AtOrBelow(y).contains(z) {
                assert!(upper.contains(z));
                cover(1);
            }
            if ClientSelector::StrictlyBelow(y).contains(z) {
                assert!(upper.contains(z));
                assert!(ClientSelector::StrictlyBelow(x).contains(z));
                cover(2);
            }
        }
    }
    // params: derivation kind, suffix bytes at most
    fn c09_valid() {
        let base = client_id(2);
        let (s, i, _) = derivation(param(0));
        let r = s.below(id(&base));
        assert!(r.suffix() == s);
        let e = derive(s, &base, 2 + param(1));
        observe(1, &e);
        assert!(is_client_id(&e));
        assert!(is_prefix(&base, &e));
        assert!((e.len() == 2) == (param(0) == 0));
        cover(1);
        if i > 60 {
            cover(2);
        }
    }
    // params: derivation kind: the announced size exists for every index
    fn c09_size() {
        let base = b"x1";
        let (s, ..) = derivation(param(0));
        let n = s.below(id(base)).get_size();
        assert!(n >= 2 && (n == 2) == (param(0) == 0));
        cover(1);
    }
    // params: two derivation kinds, suffix bytes at most: related only as in the process tree
    fn c09_tree() {
        let base = b"x1";
        let (k, l) = (param(0), param(1));
        let (s, i, j) = derivation(k);
        let (t, u, v) = derivation(l);
        let a = derive(s, base, 2 + param(2));
        let b = derive(t, base, 2 + param(2));
        let same = k == l && ((i == u) & (j == v));
        assert!((a == b) == same);
        // is t at or below s?
        let below = same | (k == 0) | (k == 2 && l == 3 && i == u);
        assert!(is_prefix(&a, &b) == below);
        assert!(ClientSelector::AtOrBelow(id(&a)).contains(id(&b)) == below);
        cover(if below { 1 } else { 2 });
    }
    // params: two derivation kinds, first index, number of indexes: like c09_tree, further out
    fn c09_wide() {
        let base = b"x1";
        let (k, l, from, n) = (param(0), param(1), param(2) as u32, param(3) as u32);
        let d = |k: usize| {
            let (s, i, j) = derivation(k);
            if k > 0 {
                assume(i >= from && i < from + n);
            }
            if k == 3 {
                assume(j < 2 || (from < 1000 && j >= from && j < from + n));
            }
            (derive(s, base, 1_000_000), i, j)
        };
        let ((a, i, j), (b, u, v)) = (d(k), d(l));
        assert!(is_client_id(&a) && is_client_id(&b));
        assert!(is_prefix(base, &a) && is_prefix(base, &b));
        let same = k == l && ((i == u) & (j == v));
        assert!((a == b) == same);
        let below = same | (k == 0) | (k == 2 && l == 3 && i == u);
        assert!(is_prefix(&a, &b) == below);
        assert!(ClientSelector::AtOrBelow(id(&a)).contains(id(&b)) == below);
        cover(if below { 1 } else { 2 });
    }
    // params: two derivation kinds, two first indexes, number of indexes: a short and a long suffix
    fn c09_far() {
        let base = b"x1";
        let (k, l, n) = (param(0), param(1), param(4) as u32);
        let d = |k: usize, from: u32| {
            let (s, i, j) = derivation(k);
            if k > 0 {
                assume(i >= from && i - from < n);
            }
            if k == 3 {
                assume(j < 2);
            }
            (derive(s, base, 1_000_000), i)
        };
        let ((a, i), (b, u)) = (d(k, param(2) as u32), d(l, param(3) as u32));
        assert!(is_client_id(&b) && is_prefix(base, &b));
        assert!(i != u && a != b);
        assert!(!is_prefix(&a, &b) && !is_prefix(&b, &a));
        assert!(!ClientSelector::AtOrBelow(id(&a)).contains(id(&b)));
        assert!(!ClientSelector::AtOrBelow(id(&b)).contains(id(&a)));
        cover(1);
    }
    // params: 0 client, 1 screen: shape and stability of secrets
    fn c22_secret() {
        random_start();
        let v: Vec<Vec<u8>> = if param(0) == 0 {
            let c = ClientCredentials::generate();
            let drawn = random_stop();
            assert!(drawn.len() >= 24);
            random_start();
            let a = c.secret().as_bytes().to_vec();
            let d = c.clone();
            assert!(c.secret().as_bytes() == &a[..]);
            assert!(d.secret().as_bytes() == &a[..]);
            vec![a]
        } else {
            let c = ScreenCredentials::generate();
            let drawn = random_stop();
            assert!(drawn.len() >= 48);
            random_start();
            let a = c.stdin_secret().as_bytes().to_vec();
            let b = c.stdout_secret().as_bytes().to_vec();
            let d = c.clone();
            assert!(c.stdin_secret().as_bytes() == &a[..]);
            assert!(c.stdout_secret().as_bytes() == &b[..]);
            assert!(d.stdin_secret().as_bytes() == &a[..]);
            assert!(d.stdout_secret().as_bytes() == &b[..]);
            vec![a, b]
        };
        // looking at a secret draws nothing
        assert!(random_stop().is_empty());
        for s in &v {
            observe(1, s);
            assert!(!s.is_empty());
            let mut ok = true;
            for x in s {
                ok &= alnum(*x) | (*x == b'-') | (*x == b'_') | (*x == b'=') | (*x == b'.') | (*x == b'~');
            }
            assert!(ok);
        }
        cover(1);
    }
    // params: secrets issued before: different draws give different secrets
    fn c22_client() {
        for _ in 0..param(0) {
            random_start();
            ClientCredentials::generate();
            assert!(random_stop().len() >= 24);
        }
        random_start();
        let c = ClientCredentials::generate();
        let x = random_stop();
        random_start();
        let d = ClientCredentials::generate();
        let y = random_stop();
        assert!(x.len() == y.len() && x.len() >= 24);
        if c.secret() == d.secret() {
            assert!(x == y);
            cover(1);
        } else {
            cover(2);
        }
    }
    fn c22_screen() {
        for _ in 0..param(0) {
            random_start();
            ScreenCredentials::generate();
            assert!(random_stop().len() >= 48);
        }
        random_start();
        let c = ScreenCredentials::generate();
        let x = random_stop();
        random_start();
        let d = ScreenCredentials::generate();
        let y = random_stop();
        assert!(x.len() == y.len() && x.len() >= 48);
        let h = x.len() / 2;
        let i = c.stdin_secret() == d.stdin_secret();
        let o = c.stdout_secret() == d.stdout_secret();
        let (p, q) = (x[..h] == y[..h], x[h..] == y[h..]);
        if i {
            // half of what was drawn is in it, whichever half that is
            assert!(p | q);
            cover(1);
        }
        if o {
            assert!(p | q);
            cover(2);
        }
        if i & o {
            assert!(p & q);
            cover(3);
        }
    }
}
