//! Text forms of bool and the integer types.

use crate::sym::*;
use crate::util::*;
use static_xml::de::ParseText;
use static_xml::ser::ToText;
use static_xml_derive::Deserialize;

fn ws(b: u8) -> bool {
    b == 0x20 || b == 0x09 || b == 0x0a || b == 0x0d
}

fn string(v: &[u8]) -> String {
    // SAFETY: ASCII only.
    unsafe { String::from_utf8_unchecked(v.to_vec()) }
}

/// The value a decimal lexical form stands for, if it is one and in range.
/// `min`/`max` are the type's bounds.
fn decimal(s: &[u8], min: i128, max: i128) -> Option<i128> {
    let mut a = 0;
    let mut z = s.len();
    while a < z && ws(s[a]) {
        a += 1;
    }
    while z > a && ws(s[z - 1]) {
        z -= 1;
    }
    let mut t = &s[a..z];
    let mut neg = false;
    if let Some(&c) = t.first() {
        if c == b'+' || (c == b'-' && min < 0) {
            neg = c == b'-';
            t = &t[1..];
        }
    }
    if t.is_empty() {
        return None;
    }
    // Short enough for 64-bit arithmetic, which is easier on the solver.
    // (`any` strings never have more than 9 digits.)
    let mut v: i32 = 0;
    for &c in t {
        if !(b'0'..=b'9').contains(&c) {
            return None;
        }
        v = v * 10 + (c - b'0') as i32;
    }
    let v = if neg { -v } else { v };
    let min = min.max(i32::MIN as i128) as i32;
    let max = max.min(i32::MAX as i128) as i32;
    if v < min || v > max {
        return None;
    }
    Some(v as i128)
}

/// All ASCII strings of length `n`, for one integer type.
macro_rules! lexical {
    ($t:ident, $n:expr, $gen:expr) => {{
        let mut v = Vec::with_capacity(32);
        for _ in 0..$n {
            v.push($gen);
        }
        let want = decimal(&v, $t::MIN as i128, ($t::MAX as u128).min(i64::MAX as u128) as i128);
        match <$t as ParseText>::parse(string(&v)) {
            Ok(got) => {
                cover(0);
                check(want == Some(got as i128), concat!(stringify!($t), ": wrong value or accepted a non-number"));
                emit(b"O");
            }
            Err(_) => {
                cover(1);
                check(want.is_none(), concat!(stringify!($t), ": rejected a number in range"));
                emit(b"E");
            }
        }
    }};
}

fn any() -> u8 {
    let b = byte();
    assume(b < 0x80);
    b
}

fn digitish() -> u8 {
    let b = byte();
    assume(((b >= b'0') & (b <= b'9')) | (b == b'-') | (b == b'+') | (b == b' ') | (b == b'x'));
    b
}

fn digit() -> u8 {
    let b = byte();
    assume((b >= b'0') & (b <= b'9'));
    b
}

/// The numbers next to a type's bounds: the bound's decimal digits with the
/// last `holes` of them symbolic, optionally with one more symbolic digit.
macro_rules! bounds {
    ($t:ident, $holes:expr) => {{
        let low = $t::MIN != 0 && flag();
        let s = if low { $t::MIN.to_string() } else { $t::MAX.to_string() };
        let b = s.as_bytes();
        let keep = if b.len() > $holes { b.len() - $holes } else { 0 };
        let mut v = Vec::with_capacity(64);
        v.extend_from_slice(&b[..keep]);
        // The bound's own last digits, as a number to compare with.
        let (mut have, mut bound) = (0u32, 0u32);
        for i in keep..b.len() {
            let d = digit();
            v.push(d);
            have = have * 10 + (d - b'0') as u32;
            if b[i] != b'-' {
                bound = bound * 10 + (b[i] - b'0') as u32;
            }
        }
        let extra = flag();
        if extra {
            v.push(digit());
        }
        let zeros = choice(3);
        if zeros > 0 {
            // Leading zeros never matter.
            let at = if b[0] == b'-' && keep > 0 { 1 } else { 0 };
            for _ in 0..zeros * 20 {
                v.insert(at, b'0');
            }
        }
        match <$t as ParseText>::parse(string(&v)) {
            Ok(got) => {
                check(!extra, concat!(stringify!($t), ": accepted a number ten times too large"));
                check(have <= bound, concat!(stringify!($t), ": accepted a number out of range"));
                let gap = bound - have;
                let want = if low { $t::MIN + gap as $t } else { $t::MAX - gap as $t };
                check(got == want, concat!(stringify!($t), ": wrong value near the bound"));
                cover(0);
            }
            Err(_) => {
                check(extra | (have > bound), concat!(stringify!($t), ": rejected a number in range"));
                cover(1);
            }
        }
    }};
}

/// Printing then parsing is the identity, and prints the plain decimal form.
macro_rules! roundtrip {
    ($t:ident, $v:expr) => {{
        let v: $t = $v;
        match v.to_text() {
            Ok(s) => {
                let b = s.as_bytes();
                let mut ok = !b.is_empty();
                for (i, &c) in b.iter().enumerate() {
                    ok &= (c >= b'0') & (c <= b'9') | (i == 0) & (c == b'-') & (b.len() > 1);
                }
                check(ok, concat!(stringify!($t), ": not written as a decimal number"));
                check(matches!(<$t as ParseText>::parse(s), Ok(w) if w == v), concat!(stringify!($t), ": changed by writing and reading"));
                cover(0);
            }
            Err(_) => check(false, "an integer can't be written"),
        }
    }};
}

/// A value within 256 of a bound, of zero, or of a power of two.
macro_rules! window {
    ($t:ident, $mask:expr, $shifts:expr) => {{
        let d = (byte() & $mask) as $t;
        let k = choice($shifts.len() + 3);
        let v: $t = match k {
            0 => $t::MIN.wrapping_add(d),
            1 => $t::MAX.wrapping_sub(d),
            2 => (0 as $t).wrapping_sub(d),
            k => ((1 as $t) << $shifts[k - 3]).wrapping_sub($mask / 2).wrapping_add(d),
        };
        roundtrip!($t, v)
    }};
}

/// As `window`, but for concrete values: the solver does not get through the
/// 128-bit divisions of the printing code.
macro_rules! corners {
    ($t:ident, $shifts:expr) => {{
        let k = choice($shifts.len() + 3);
        let d = choice(3) as $t;
        let v: $t = match k {
            0 => $t::MIN.wrapping_add(d),
            1 => $t::MAX.wrapping_sub(d),
            2 => (0 as $t).wrapping_sub(d),
            k => ((1 as $t) << $shifts[k - 3]).wrapping_sub(1).wrapping_add(d),
        };
        roundtrip!($t, v)
    }};
}

const PADS: [usize; 9] = [0, 1, 2, 17, 31, 33, 64, 130, 300];

/// A two-digit number, with any number of leading zeros and any amount of
/// white space around it.
macro_rules! padded {
    ($t:ident) => {{
        let (before, zeros, after) = (PADS[choice(9)], PADS[choice(9)], PADS[choice(9)]);
        let sign = choice(3);
        let w = among(b" \t\n\r");
        let mut v = vec![w; before];
        if sign > 0 {
            v.push(b" +-"[sign]);
        }
        v.resize(v.len() + zeros, b'0');
        let (a, b) = (digit(), digit());
        v.push(a);
        v.push(b);
        v.resize(v.len() + after, w);
        let n = (a - b'0') * 10 + (b - b'0');
        match <$t as ParseText>::parse(string(&v)) {
            Ok(got) => {
                if sign == 2 {
                    check(($t::MIN != 0) | (n == 0), concat!(stringify!($t), ": accepted a negative number"));
                    check(got == (0 as $t).wrapping_sub(n as $t), concat!(stringify!($t), ": wrong value of a padded number"));
                } else {
                    check(got == n as $t, concat!(stringify!($t), ": wrong value of a padded number"));
                }
                cover(0);
            }
            Err(_) => check(sign == 2 && $t::MIN == 0, concat!(stringify!($t), ": rejected a padded number in range")),
        }
    }};
}

fn boolean_padded() {
    let (before, after) = (PADS[choice(9)], PADS[choice(9)]);
    let w = among(b" \t\n\r");
    let mut v = vec![w; before];
    let k = choice(4);
    v.extend_from_slice([&b"true"[..], b"false", b"1", b"0"][k]);
    v.resize(v.len() + after, w);
    match <bool as ParseText>::parse(string(&v)) {
        Ok(b) => check(b == (k % 2 == 0), "bool: wrong value of a padded boolean"),
        Err(_) => check(false, "bool: rejected a padded boolean"),
    }
    cover(0);
}

fn boolean(n: usize) {
    let mut v = Vec::with_capacity(16);
    for _ in 0..n {
        v.push(any());
    }
    let mut a = 0;
    let mut z = n;
    while a < z && ws(v[a]) {
        a += 1;
    }
    while z > a && ws(v[z - 1]) {
        z -= 1;
    }
    let t = &v[a..z];
    let want = if t == b"true" || t == b"1" {
        Some(true)
    } else if t == b"false" || t == b"0" {
        Some(false)
    } else {
        None
    };
    match <bool as ParseText>::parse(string(&v)) {
        Ok(b) => {
            check(want == Some(b), "bool: wrong value or accepted a non-boolean");
            cover(b as usize);
        }
        Err(e) => {
            check(want.is_none(), "bool: rejected a boolean");
            drop(e);
            cover(2);
        }
    }
}

fn boolean_near() {
    // "true"/"false" with one symbolic character anywhere.
    let w: &[u8] = if flag() { b" true\t" } else { b"\nfalse " };
    let mut v = w.to_vec();
    let at = choice(v.len());
    v[at] = any();
    let changed = v[at] != w[at];
    let mut t = &v[..];
    while let [f, r @ ..] = t {
        if !ws(*f) {
            break;
        }
        t = r;
    }
    while let [r @ .., l] = t {
        if !ws(*l) {
            break;
        }
        t = r;
    }
    let want = if t == b"true" { Some(true) } else if t == b"false" { Some(false) } else { None };
    match <bool as ParseText>::parse(string(&v)) {
        Ok(b) => {
            check(want == Some(b), "bool: wrong value or accepted a non-boolean");
            cover(0);
        }
        Err(_) => {
            check(want.is_none(), "bool: rejected a boolean");
            cover(1);
        }
    }
    let _ = changed;
}

fn bool_text() {
    let b = flag();
    let s = b.to_text().unwrap_or_default();
    check(s == if b { "true" } else { "false" }, "bool: not the canonical form");
    check(matches!(<bool as ParseText>::parse(s), Ok(c) if c == b), "bool: changed by writing and reading");
    cover(b as usize);
}

// Through documents.

#[derive(Debug, PartialEq, Deserialize)]
struct Host {
    #[static_xml(attribute)]
    a: Option<i8>,
    #[static_xml(attribute)]
    b: Option<bool>,
    #[static_xml(attribute)]
    c: Option<u64>,
    x: Option<i8>,
    y: Option<bool>,
    z: Vec<u64>,
}

fn host(n: usize) {
    let mut v = Vec::with_capacity(16);
    for _ in 0..n {
        v.push(digitish());
    }
    let k = choice(6);
    let mut d = Doc::new("<r");
    match k {
        0 => d.s(" a='"),
        1 => d.s(" b='"),
        2 => d.s(" c='"),
        3 => d.s("><x>"),
        4 => d.s("><y>"),
        _ => d.s("><z>9</z><z>"),
    };
    d.b(&v);
    match k {
        0..=2 => d.s("'/>"),
        3 => d.s("</x></r>"),
        4 => d.s("</y></r>"),
        _ => d.s("</z></r>"),
    };
    let (min, max) = match k % 3 {
        0 => (-128, 127),
        1 => (0, 1),
        _ => (0, i64::MAX as i128),
    };
    // A bool's digits are the single characters 0 and 1.
    let mut want = decimal(&v, min, max);
    if k % 3 == 1 {
        let mut digits = 0;
        for &b in &v {
            digits += !ws(b) as usize;
        }
        if digits != 1 {
            want = None;
        }
    }
    match read::<Host>(&d.0) {
        Ok(h) => {
            let got = match k {
                0 => h.a.map(|v| v as i128),
                1 => h.b.map(|v| v as i128),
                2 => h.c.map(|v| v as i128),
                3 => h.x.map(|v| v as i128),
                4 => h.y.map(|v| v as i128),
                _ => {
                    check(h.z.len() == 2 && h.z[0] == 9, "repeated number lost");
                    h.z.get(1).map(|&v| v as i128)
                }
            };
            check(want.is_some() & (got == want), "field has the wrong number, or not a number was accepted");
            cover(k);
        }
        Err(_) => {
            check(want.is_none(), "field rejects a number in range");
            cover(6);
        }
    }
}

crate::harnesses! {
    h_prim_u8_any1 => lexical!(u8, 1, any());
    h_prim_u8_any2 => lexical!(u8, 2, any());
    h_prim_u8_any3 => lexical!(u8, 3, any());
    h_prim_u8_any4 => lexical!(u8, 4, any());
    h_prim_i8_any1 => lexical!(i8, 1, any());
    h_prim_i8_any2 => lexical!(i8, 2, any());
    h_prim_i8_any3 => lexical!(i8, 3, any());
    h_prim_i8_any4 => lexical!(i8, 4, any());
    h_prim_i8_any0 => lexical!(i8, 0, any());
    h_prim_u8_digits5 => lexical!(u8, 5, digitish());
    h_prim_i8_digits5 => lexical!(i8, 5, digitish());
    h_prim_u16_digits6 => lexical!(u16, 6, digitish());
    h_prim_i16_digits6 => lexical!(i16, 6, digitish());
    h_prim_u16_any3 => lexical!(u16, 3, any());
    h_prim_i16_any3 => lexical!(i16, 3, any());
    h_prim_u32_any3 => lexical!(u32, 3, any());
    h_prim_i32_any3 => lexical!(i32, 3, any());
    h_prim_u64_any3 => lexical!(u64, 3, any());
    h_prim_i64_any3 => lexical!(i64, 3, any());
    h_prim_u128_any3 => lexical!(u128, 3, any());
    h_prim_i128_any3 => lexical!(i128, 3, any());
    h_prim_u8_bounds => bounds!(u8, 2);
    h_prim_i8_bounds => bounds!(i8, 2);
    h_prim_u16_bounds => bounds!(u16, 4);
    h_prim_i16_bounds => bounds!(i16, 4);
    h_prim_u32_bounds => bounds!(u32, 3);
    h_prim_i32_bounds => bounds!(i32, 3);
    h_prim_u64_bounds => bounds!(u64, 3);
    h_prim_i64_bounds => bounds!(i64, 3);
    h_prim_u128_bounds => bounds!(u128, 2);
    h_prim_i128_bounds => bounds!(i128, 2);
    h_prim_u8_text => roundtrip!(u8, byte());
    h_prim_i8_text => roundtrip!(i8, byte() as i8);
    h_prim_u16_text => window!(u16, 0xff, [8, 12, 15]);
    h_prim_i16_text => window!(i16, 0xff, [8, 12, 14]);
    h_prim_u16_all => roundtrip!(u16, u16::from_le_bytes(bytes()));
    h_prim_i16_all => roundtrip!(i16, i16::from_le_bytes(bytes()));
    h_prim_u32_text => window!(u32, 255, [8, 16, 31]);
    h_prim_i32_text => window!(i32, 255, [8, 16, 30]);
    h_prim_u64_text => corners!(u64, [8, 31, 32, 53, 63]);
    h_prim_u64_text_deep => window!(u64, 3, [32, 53]);
    h_prim_i64_text => corners!(i64, [8, 31, 32, 53, 62]);
    h_prim_i64_text_deep => window!(i64, 3, [32, 53]);
    h_prim_u128_text => corners!(u128, [32, 63, 64, 100, 126]);
    h_prim_i128_text => corners!(i128, [32, 63, 64, 100, 126]);
    h_prim_u8_padded => padded!(u8);
    h_prim_i8_padded => padded!(i8);
    h_prim_u16_padded => padded!(u16);
    h_prim_i16_padded => padded!(i16);
    h_prim_u32_padded => padded!(u32);
    h_prim_i32_padded => padded!(i32);
    h_prim_u64_padded => padded!(u64);
    h_prim_i64_padded => padded!(i64);
    h_prim_u128_padded => padded!(u128);
    h_prim_i128_padded => padded!(i128);
    h_prim_bool_padded => boolean_padded();
    h_prim_bool1 => boolean(1);
    h_prim_bool2 => boolean(2);
    h_prim_bool3 => boolean(3);
    h_prim_bool4 => boolean(4);
    h_prim_bool5 => boolean(5);
    h_prim_bool_near => boolean_near();
    h_prim_bool_text => bool_text();
    h_prim_host2 => host(2);
    h_prim_host3 => host(3);
    h_prim_host4 => host(4);
}
