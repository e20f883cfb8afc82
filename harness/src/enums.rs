//! Derived text types: restriction, union and std modes.

use crate::sym::*;
use crate::util::*;
use static_xml::de::ParseText;
use static_xml::ser::ToText;
use static_xml_derive::{Deserialize, ParseText, ToText};

#[derive(Debug, Clone, PartialEq, ParseText, ToText)]
#[static_xml(mode = "restriction")]
enum R {
    #[static_xml(rename = "a")]
    A,
    #[static_xml(rename = "ab")]
    Ab,
    #[static_xml(rename = "")]
    Empty,
    #[static_xml(rename = "abc")]
    Abc,
    #[static_xml(rename = "A")]
    UpperA,
    #[static_xml(rename = "b a")]
    Spaced,
    Cd,
    #[static_xml(rename = "é")]
    Accent,
    #[static_xml(rename = "1")]
    One,
    #[allow(non_camel_case_types)]
    r#type,
}

const R_TEXTS: [&str; 10] = ["a", "ab", "", "abc", "A", "b a", "Cd", "é", "1", "type"];

fn r_index(r: &R) -> usize {
    match r {
        R::A => 0,
        R::Ab => 1,
        R::Empty => 2,
        R::Abc => 3,
        R::UpperA => 4,
        R::Spaced => 5,
        R::Cd => 6,
        R::Accent => 7,
        R::One => 8,
        R::r#type => 9,
    }
}

/// The same with a catch-all, declared in the middle.
#[derive(Debug, Clone, PartialEq, ParseText, ToText)]
#[static_xml(mode = "restriction")]
enum Q {
    #[static_xml(rename = "a")]
    A,
    #[static_xml(unknown)]
    Other(String),
    #[static_xml(rename = "ab")]
    Ab,
    Cd,
}

fn string(v: &[u8]) -> String {
    // SAFETY: the harnesses build valid UTF-8 only.
    unsafe { String::from_utf8_unchecked(v.to_vec()) }
}

fn text(n: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(16);
    for _ in 0..n {
        let b = byte();
        assume(b < 0x80);
        v.push(b);
    }
    v
}

fn find_text(v: &[u8]) -> Option<usize> {
    for (i, t) in R_TEXTS.iter().enumerate() {
        if v == t.as_bytes() {
            return Some(i);
        }
    }
    None
}

/// Whether `s` contains `t`.
fn contains(s: &str, t: &str) -> bool {
    let (s, t) = (s.as_bytes(), t.as_bytes());
    if t.len() > s.len() {
        return false;
    }
    for i in 0..=s.len() - t.len() {
        if &s[i..i + t.len()] == t {
            return true;
        }
    }
    false
}

fn restriction(v: &[u8]) {
    let want = find_text(v);
    match R::parse(string(v)) {
        Ok(r) => {
            check(Some(r_index(&r)) == want, "a fixed string was parsed as the wrong variant");
            check(matches!(r.to_text(), Ok(t) if t.as_bytes() == v), "a variant is not written as its string");
            cover(0);
        }
        Err(_) => {
            check(want.is_none(), "a fixed string was rejected");
            cover(1);
        }
    }
    match Q::parse(string(v)) {
        Ok(q) => {
            let want = match v {
                b"a" => Q::A,
                b"ab" => Q::Ab,
                b"Cd" => Q::Cd,
                _ => Q::Other(string(v)),
            };
            check(q == want, "known strings to their variants, all else to the unknown variant with its text");
            check(matches!(q.to_text(), Ok(t) if t.as_bytes() == v), "a variant is not written as its string");
        }
        Err(_) => check(false, "an unknown variant must accept every string"),
    }
}

fn fixed_texts() {
    let i = choice(R_TEXTS.len());
    restriction(R_TEXTS[i].as_bytes());
    // Error text names the enum and quotes the offending text.
    if i == 8 {
        let e = R::parse("zz".into()).err().map(|e| e.to_string()).unwrap_or_default();
        check(contains(&e, "R") && contains(&e, "zz"), "error for an unknown string does not say what it was");
    }
}

// Long and many.

macro_rules! many {
    ($e:ident $table:ident: $($v:ident $t:literal),*) => {
        #[derive(Debug, Clone, Copy, PartialEq, ParseText, ToText)]
        #[static_xml(mode = "restriction")]
        enum $e { $(#[static_xml(rename = $t)] $v),* }
        const $table: &[(&str, $e)] = &[$(($t, $e::$v)),*];
    };
}
many!(Many MANY: V0 "zero", V1 "one", V2 "two", V3 "three", V4 "four", V5 "five", V6 "six", V7 "seven", V8 "eight", V9 "nine",
    V10 "ten", V11 "eleven", V12 "twelve", V13 "thirteen", V14 "fourteen", V15 "fifteen", V16 "sixteen",
    V17 "a-rather-long-fixed-string-of-the-kind-generated-schemas-have", V18 "a-rather-long-fixed-string-of-the-kind-generated-schemas-had");

/// One character of one of the strings replaced by any other.
fn one_off() {
    let k = choice(MANY.len());
    let mut v = MANY[k].0.as_bytes().to_vec();
    let at = if v.len() > 12 { [0, 1, 31, v.len() - 2, v.len() - 1][choice(5)] } else { choice(v.len()) };
    let b = byte();
    assume(b < 0x80);
    v[at] = b;
    let mut want = None;
    for (t, e) in MANY {
        if t.as_bytes() == &v[..] {
            want = Some(*e);
        }
    }
    match Many::parse(string(&v)) {
        Ok(m) => {
            check(want == Some(m), "wrong variant");
            check(matches!(m.to_text(), Ok(t) if t.as_bytes() == &v[..]), "not written as its string");
            cover(0);
        }
        Err(_) => {
            check(want.is_none(), "a fixed string was rejected");
            cover(1);
        }
    }
}

// Unions.

#[derive(Debug, Clone, PartialEq, ParseText, ToText)]
#[static_xml(mode = "restriction")]
enum Few {
    #[static_xml(rename = "1")]
    One,
    #[static_xml(rename = "x")]
    X,
    #[static_xml(rename = "true")]
    T,
}

/// Members overlap, so their order matters.
#[derive(Debug, Clone, PartialEq, ParseText, ToText)]
#[static_xml(mode = "union")]
enum U1 {
    F(Few),
    I(i8),
    B(bool),
}
#[derive(Debug, Clone, PartialEq, ParseText, ToText)]
#[static_xml(mode = "union")]
enum U2 {
    B(bool),
    I(u8),
    F(Few),
}
/// Nested, and total.
#[derive(Debug, Clone, PartialEq, ParseText, ToText)]
#[static_xml(mode = "union")]
enum U3 {
    I(i8),
    U(U2),
    S(String),
    Never(Few),
}

fn union(v: &[u8]) {
    // What each member makes of the text is the members' own business.
    let few = Few::parse(string(v)).ok();
    let b = bool::parse(string(v)).ok();
    let i = i8::parse(string(v)).ok();
    let u = u8::parse(string(v)).ok();
    let u2 = match (&b, &u, &few) {
        (Some(b), _, _) => Some(U2::B(*b)),
        (_, Some(u), _) => Some(U2::I(*u)),
        (_, _, Some(f)) => Some(U2::F(f.clone())),
        _ => None,
    };
    let u1 = match (&few, &i, &b) {
        (Some(f), _, _) => Some(U1::F(f.clone())),
        (_, Some(i), _) => Some(U1::I(*i)),
        (_, _, Some(b)) => Some(U1::B(*b)),
        _ => None,
    };
    match U1::parse(string(v)) {
        Ok(g) => {
            check(Some(&g) == u1.as_ref(), "a union must take the first member that parses");
            cover(0);
        }
        Err(_) => {
            check(u1.is_none(), "a union must not fail when a member parses");
            cover(1);
        }
    }
    match U2::parse(string(v)) {
        Ok(g) => check(Some(&g) == u2.as_ref(), "a union must take the first member that parses"),
        Err(_) => check(u2.is_none(), "a union must not fail when a member parses"),
    }
    let u3 = match (i, u2) {
        (Some(i), _) => U3::I(i),
        (_, Some(u)) => U3::U(u),
        _ => U3::S(string(v)),
    };
    match U3::parse(string(v)) {
        Ok(g) => check(g == u3, "a nested union must take the first member that parses"),
        Err(_) => check(false, "a union must not fail when a member parses"),
    }
}

fn union_text() {
    let v = match choice(6) {
        0 => U3::I(-7),
        1 => U3::U(U2::B(flag())),
        2 => U3::U(U2::I(9)),
        3 => U3::U(U2::F(Few::X)),
        4 => U3::S("q<".into()),
        _ => U3::Never(Few::One),
    };
    let want = match &v {
        U3::I(_) => "-7",
        U3::U(U2::B(true)) => "true",
        U3::U(U2::B(false)) => "false",
        U3::U(U2::I(_)) => "9",
        U3::U(U2::F(_)) => "x",
        U3::S(_) => "q<",
        U3::Never(_) => "1",
    };
    check(matches!(v.to_text(), Ok(t) if t == want), "a union must be written as its member is");
    cover(0);
}

// Many members, each accepting texts of its own, in every combination.

#[derive(Debug, Clone, PartialEq)]
struct Acc<const I: usize>(String);
impl<const I: usize> ParseText for Acc<I> {
    fn parse(t: String) -> Result<Self, static_xml::BoxedStdError> {
        if t.as_bytes().get(I) == Some(&b'y') {
            Ok(Acc(t))
        } else {
            Err(Box::new(NotRev(I as u8)))
        }
    }
}
impl<const I: usize> ToText for Acc<I> {
    fn to_text(&self) -> Result<String, static_xml::ser::Error> {
        let mut t = self.0.clone();
        t.push((b'0' + I as u8) as char);
        Ok(t)
    }
}

#[derive(Debug, Clone, PartialEq, ParseText, ToText)]
#[static_xml(mode = "union", whitespace = "collapse")]
enum Wide {
    A0(Acc<0>),
    A1(Acc<1>),
    A2(Acc<2>),
    A3(Acc<3>),
    A4(Acc<4>),
    A5(Acc<5>),
    A6(Acc<6>),
}

#[derive(Debug, Clone, PartialEq, ParseText, ToText)]
#[static_xml(mode = "union")]
enum Single {
    Only(Acc<0>),
}

fn members() {
    let mut v = Vec::with_capacity(16);
    for _ in 0..7 {
        v.push(if flag() { b'y' } else { b'n' });
    }
    let first = v.iter().position(|&b| b == b'y');
    let pad = choice(2);
    let s = [string(&v), format!(" {}\n", string(&v))][pad].clone();
    match Wide::parse(s) {
        Ok(w) => {
            let (i, t) = match &w {
                Wide::A0(a) => (0, &a.0),
                Wide::A1(a) => (1, &a.0),
                Wide::A2(a) => (2, &a.0),
                Wide::A3(a) => (3, &a.0),
                Wide::A4(a) => (4, &a.0),
                Wide::A5(a) => (5, &a.0),
                Wide::A6(a) => (6, &a.0),
            };
            check(first == Some(i), "a union must take the first member that parses");
            check(t.as_bytes() == &v[..], "a member must get the normalized text");
            let mut want = v.clone();
            want.push(b'0' + i as u8);
            check(matches!(w.to_text(), Ok(t) if t.as_bytes() == &want[..]), "a union must be written as its member is");
            cover(0);
        }
        Err(_) => {
            check(first.is_none(), "a union must not fail when a member parses");
            cover(1);
        }
    }
    match Single::parse(string(&v)) {
        Ok(Single::Only(a)) => check(v[0] == b'y' && a.0.as_bytes() == &v[..], "a union of one is its member"),
        Err(_) => check(v[0] != b'y', "a union of one is its member"),
    }
}

/// Known and unknown texts of any length, blank and not, of any width.
fn lengths() {
    let n = choice(80);
    let mut s = "ab".repeat(n / 2);
    if n % 2 == 1 {
        s.push(['c', 'é', '€', '😀'][choice(4)]);
    }
    match choice(3) {
        0 => {}
        1 => s.insert(0, ' '),
        _ => s.push('\u{a0}'),
    }
    restriction(s.as_bytes());
    match Wide::parse(s) {
        Ok(_) => check(false, "a text no member accepts was accepted"),
        Err(e) => check(!e.to_string().is_empty(), "an error says nothing"),
    }
    cover(0);
}

// std mode.

#[derive(Debug, Clone, PartialEq, ParseText, ToText)]
#[static_xml(mode = "std")]
struct Rev(Vec<u8>);

#[derive(Debug, PartialEq)]
struct NotRev(u8);
impl std::fmt::Display for NotRev {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("not rev")
    }
}
impl std::error::Error for NotRev {}
impl std::str::FromStr for Rev {
    type Err = NotRev;
    fn from_str(s: &str) -> Result<Self, NotRev> {
        let mut v = s.as_bytes().to_vec();
        v.reverse();
        if v.first() == Some(&b'!') {
            return Err(NotRev(v.len() as u8));
        }
        Ok(Rev(v))
    }
}
impl std::fmt::Display for Rev {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let mut v = self.0.clone();
        v.reverse();
        f.write_str(&string(&v))
    }
}

fn std_mode(v: &[u8]) {
    use std::str::FromStr;
    let want = Rev::from_str(&string(v));
    match (<Rev as ParseText>::parse(string(v)), want) {
        (Ok(a), Ok(b)) => {
            check(a == b, "std mode must parse as FromStr does");
            check(matches!(a.to_text(), Ok(t) if t.as_bytes() == v), "std mode must write as Display does");
            cover(0);
        }
        (Err(e), Err(n)) => {
            check(matches!(e.downcast_ref::<NotRev>(), Some(m) if *m == n), "FromStr's error must be passed on");
            cover(1);
        }
        _ => check(false, "std mode must succeed exactly when FromStr does"),
    }
}

// In documents, in every kind of field.

#[derive(Debug, Clone, PartialEq, Deserialize)]
struct Host {
    #[static_xml(attribute)]
    a: Option<R>,
    #[static_xml(attribute)]
    b: Option<U1>,
    x: Option<R>,
    y: Vec<U1>,
    z: Option<Q>,
}

fn host(n: usize) {
    let mut v = Vec::with_capacity(16);
    for _ in 0..n {
        let b = byte();
        assume(((b >= b'a') & (b <= b'e')) | ((b >= b'0') & (b <= b'3')) | (b == b'x') | (b == b'C') | (b == b'A'));
        v.push(b);
    }
    let k = choice(5);
    let mut d = Doc::new("<r");
    d.s([" a='", " b='", "><x>", "><y>7</y><y>", "><z>"][k]).b(&v);
    d.s(["'/>", "'/>", "</x></r>", "</y></r>", "</z></r>"][k]);
    let got = read::<Host>(&d.0);
    let s = string(&v);
    match (k, got) {
        (0, Ok(h)) => check(h.a == R::parse(s).ok() && h.a.is_some(), "attribute has the wrong variant"),
        (1, Ok(h)) => check(h.b == U1::parse(s).ok() && h.b.is_some(), "attribute has the wrong variant"),
        (2, Ok(h)) => check(h.x == R::parse(s).ok() && h.x.is_some(), "element has the wrong variant"),
        (3, Ok(h)) => {
            check(h.y.len() == 2 && h.y[0] == U1::I(7), "repeated element lost");
            check(h.y.get(1).cloned() == U1::parse(s).ok(), "element has the wrong variant");
        }
        (4, Ok(h)) => check(h.z == Q::parse(s).ok() && h.z.is_some(), "element has the wrong variant"),
        (0, Err(_)) | (2, Err(_)) => check(R::parse(s).is_err(), "valid text rejected"),
        (1, Err(_)) | (3, Err(_)) => check(U1::parse(s).is_err(), "valid text rejected"),
        (_, Err(_)) => check(false, "valid text rejected"),
        _ => {}
    }
    cover(k);
}

crate::harnesses! {
    h_enums_restriction0 => restriction(&text(0));
    h_enums_restriction1 => restriction(&text(1));
    h_enums_restriction2 => restriction(&text(2));
    h_enums_restriction3 => restriction(&text(3));
    h_enums_restriction4 => restriction(&text(4));
    h_enums_fixed => fixed_texts();
    h_enums_one_off => one_off();
    h_enums_union0 => union(&text(0));
    h_enums_union1 => union(&text(1));
    h_enums_union2 => union(&text(2));
    h_enums_union3 => union(&text(3));
    h_enums_union4 => union(&text(4));
    h_enums_members => members();
    h_enums_lengths => lengths();
    h_enums_union_text => union_text();
    h_enums_std0 => std_mode(&text(0));
    h_enums_std2 => std_mode(&text(2));
    h_enums_std5 => std_mode(&text(5));
    h_enums_host1 => host(1);
    h_enums_host2 => host(2);
    h_enums_host3 => host(3);
}
