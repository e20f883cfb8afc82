//! Choice enums and flattened fields.

use crate::sym::*;
use crate::util::*;
use static_xml::de::{ElementReader, ElementVisitor, RawDeserialize, RawDeserializeVisitor, VisitorError};
use static_xml::{ExpandedNameRef, TextPosition};
use static_xml_derive::{Deserialize, Serialize};

#[path = "wide_types.rs"]
mod wide_types;
use wide_types::*;

#[derive(Debug, Clone, PartialEq, Deserialize)]
enum C {
    #[static_xml(rename = "a")]
    A(String),
    #[static_xml(rename = "m")]
    V(Vec<String>),
    #[static_xml(rename = "u")]
    U,
    #[static_xml(rename = "o")]
    O(Option<String>),
    #[static_xml(rename = "n")]
    N(Sub),
}

#[derive(Debug, Clone, PartialEq, Deserialize)]
struct Sub {
    x: Option<String>,
}

/// What a choice accepts: the reference model of one enum.
#[derive(Clone, PartialEq)]
enum M {
    Empty,
    A(String),
    V(Vec<String>),
    U,
    O(String),
    N(String),
}

const NAMES: [&str; 6] = ["a", "m", "u", "o", "n", "q"];

/// Feeds one element to the model: Ok(true) if consumed, Err on a violation of
/// the choice.
fn feed(m: &mut M, k: usize, t: &str) -> Result<bool, ()> {
    if k > 4 {
        return Ok(false);
    }
    match m {
        M::Empty => {
            *m = match k {
                0 => M::A(t.into()),
                1 => M::V(vec![t.into()]),
                2 => M::U,
                3 => M::O(t.into()),
                _ => M::N(t.into()),
            };
            Ok(true)
        }
        M::V(v) if k == 1 => {
            v.push(t.into());
            Ok(true)
        }
        _ => Err(()),
    }
}

fn matches(c: &C, m: &M) -> bool {
    match (c, m) {
        (C::A(s), M::A(t)) => s == t,
        (C::V(s), M::V(t)) => s == t,
        (C::U, M::U) => true,
        (C::O(Some(s)), M::O(t)) => s == t,
        (C::N(s), M::N(t)) => s.x.as_deref() == Some(t.as_str()),
        _ => false,
    }
}

fn elem(d: &mut Doc, k: usize, b: u8) {
    let n = NAMES[k];
    match k {
        2 => {
            d.s("<u/>");
        }
        4 => {
            d.s("<n><a>z</a><x>").c(b).s("</x><v/></n>");
        }
        _ => {
            d.c(b'<').s(n).c(b'>').c(b).s("</").s(n).c(b'>');
        }
    }
}

/// A choice as the root type.
fn root(max: usize) {
    let n = choice(max + 1);
    let mut d = Doc::new("<r>");
    let mut m = M::Empty;
    let mut bad = false;
    for _ in 0..n {
        let k = choice(6);
        let b = letter();
        // repetition of an empty variant's element is not specified
        assume(!(k == 2 && m == M::U));
        elem(&mut d, k, b);
        if !bad {
            bad = feed(&mut m, k, &str1(b)).is_err();
        }
    }
    d.s("</r>");
    match read::<C>(&d.0) {
        Ok(c) => {
            check(!bad, "a repeated or mixed choice was accepted");
            check(m != M::Empty, "an empty choice was accepted");
            check(matches(&c, &m), "the choice has the wrong variant or contents");
            cover(0);
            emit(b"O");
        }
        Err(_) => {
            check(bad || m == M::Empty, "a valid choice was rejected");
            cover(if bad { 1 } else { 2 });
            emit(b"E");
        }
    }
}

#[derive(Debug, Clone, PartialEq, Deserialize)]
enum D {
    #[static_xml(rename = "e")]
    E(String),
    #[static_xml(rename = "b")]
    F(Vec<String>),
    // Also accepted by `C`, which comes first.
    #[static_xml(rename = "a")]
    A(String),
}

#[derive(Debug, Clone, PartialEq, Deserialize)]
struct Two {
    i: Option<String>,
    // Own fields come before flattened ones.
    o: Vec<String>,
    #[static_xml(flatten)]
    c: C,
    #[static_xml(flatten)]
    d: D,
}

/// Two flattened choices: unknown elements are offered to each in declaration
/// order, in any interleaving.
fn two(max: usize) {
    let n = choice(max + 1);
    let mut d = Doc::new("<r>");
    let mut m = M::Empty;
    let mut e: Option<String> = None;
    let mut f: Vec<String> = Vec::new();
    let mut i: Option<String> = None;
    let mut o = Vec::new();
    let mut bad = false;
    for _ in 0..n {
        let k = choice(7);
        let b = letter();
        let s = str1(b);
        match k {
            0 => {
                elem(&mut d, 0, b);
                bad = bad || feed(&mut m, 0, &s).is_err();
            }
            1 => {
                elem(&mut d, 1, b);
                bad = bad || feed(&mut m, 1, &s).is_err();
            }
            2 => {
                d.s("<e>").c(b).s("</e>");
                bad = bad || !f.is_empty() || e.replace(s).is_some();
            }
            3 => {
                d.s("<b>").c(b).s("</b>");
                bad = bad || e.is_some();
                f.push(s);
            }
            4 => {
                d.s("<o>").c(b).s("</o>");
                o.push(s);
            }
            5 => {
                d.s("<q><e>z</e></q>");
            }
            _ => {
                d.s("<i>").c(b).s("</i>");
                bad = bad || i.replace(s).is_some();
            }
        }
    }
    d.s("</r>");
    let complete = m != M::Empty && (e.is_some() || !f.is_empty());
    match read::<Two>(&d.0) {
        Ok(t) => {
            check(!bad, "a repeated or mixed choice was accepted");
            check(complete, "an empty choice was accepted");
            check(matches(&t.c, &m), "the first flattened choice has the wrong variant or contents");
            let dd = match t.d {
                D::E(s) => Some(s) == e,
                D::F(v) => v == f && e.is_none(),
                D::A(_) => false,
            };
            check(dd, "the second flattened choice has the wrong variant or contents");
            check(t.i == i, "a plain field next to flattened ones has the wrong value");
            check(t.o == o, "a plain repeated field next to flattened ones has the wrong value");
            cover(0);
            emit(b"O");
        }
        Err(_) => {
            check(bad || !complete, "valid flattened choices were rejected");
            cover(if bad { 1 } else { 2 });
            emit(b"E");
        }
    }
}

/// A flattened type implemented by hand: takes attributes whose name starts
/// with its letter, elements named like it, and characters while it has none.
struct Taker<const L: u8> {
    attrs: Vec<String>,
    elems: usize,
    text: String,
}

struct TakerVisitor<'o, const L: u8> {
    out: &'o mut std::mem::MaybeUninit<Taker<L>>,
    cur: Taker<L>,
}

impl<'o, const L: u8> ElementVisitor for TakerVisitor<'o, L> {
    fn attribute(&mut self, name: &ExpandedNameRef<'_>, value: String) -> Result<Option<String>, VisitorError> {
        if name.local_name.as_bytes()[0] == L {
            self.cur.attrs.push(value);
            return Ok(None);
        }
        Ok(Some(value))
    }
    fn element<'a>(&mut self, child: ElementReader<'a>) -> Result<Option<ElementReader<'a>>, VisitorError> {
        if child.expanded_name().local_name.as_bytes()[0] == L {
            self.cur.elems += 1;
            if self.cur.elems == 3 {
                return Err(VisitorError::Wrap("three".into()));
            }
            return Ok(None);
        }
        Ok(Some(child))
    }
    fn characters(&mut self, s: String, _pos: TextPosition) -> Result<Option<String>, static_xml::BoxedStdError> {
        if self.cur.text.is_empty() {
            self.cur.text = s;
            return Ok(None);
        }
        Ok(Some(s))
    }
}

unsafe impl<'o, const L: u8> RawDeserializeVisitor<'o> for TakerVisitor<'o, L> {
    type Out = Taker<L>;
    fn new(out: &'o mut std::mem::MaybeUninit<Taker<L>>) -> Self {
        TakerVisitor { out, cur: Taker { attrs: Vec::new(), elems: 0, text: String::new() } }
    }
    fn finalize(self, _default: Option<fn() -> Taker<L>>) -> Result<(), VisitorError> {
        self.out.write(self.cur);
        Ok(())
    }
}

impl<'o, const L: u8> RawDeserialize<'o> for Taker<L> {
    type Visitor = TakerVisitor<'o, L>;
}

#[derive(Deserialize)]
struct Takers {
    #[static_xml(attribute)]
    m: Option<String>,
    n: Option<String>,
    #[static_xml(flatten)]
    first: Taker<b'm'>,
    #[static_xml(flatten)]
    second: Taker<b'n'>,
    #[static_xml(flatten)]
    third: Taker<b'm'>,
}

/// Delegation of attributes, elements and text to flattened fields.
fn takers() {
    let mut d = Doc::new("<r");
    let mut want: [(Vec<String>, usize, String); 3] = Default::default();
    let mut own_m = None;
    let na = choice(3);
    let mut used = [false; 4];
    for i in 0..na {
        let k = choice(4);
        assume(!used[k]);
        used[k] = true;
        let b = letter();
        d.c(b' ').s(["m", "m2", "n2", "q"][k]).s("='").c(b).s("'");
        let _ = i;
        match k {
            0 => own_m = Some(str1(b)),
            1 => want[0].0.push(str1(b)),
            2 => want[1].0.push(str1(b)),
            _ => {}
        }
    }
    d.s(">");
    let mut own_n = None;
    let mut bad = false;
    let ne = choice(4);
    let mut texts = 0;
    for _ in 0..ne {
        match choice(5) {
            0 => {
                d.s("<n>z</n>");
                if own_n.replace(()).is_some() {
                    bad = true;
                }
            }
            1 => {
                d.s("<m1/>");
                want[0].1 += 1;
            }
            2 => {
                d.s("<n1><m1/></n1>");
                want[1].1 += 1;
            }
            3 => {
                d.s("<k/>");
            }
            _ => {
                let t = match choice(6) {
                    0 => str1(letter()),
                    k => [" ", "\n\t", "\u{a0}", "\u{3000}\u{2003}", "\u{feff}"][k - 1].to_owned(),
                };
                d.s(&t).s("<?p?>");
                // XML's white space alone just separates markup
                if !matches!(t.as_str(), " " | "\n\t") {
                    if texts < 3 {
                        want[texts].2 = t;
                    }
                    texts += 1;
                }
            }
        }
    }
    d.s("</r>");
    // processing instructions separate runs of text: adjacent ones each count
    bad = bad || want[0].1 >= 3 || want[1].1 >= 3;
    match read::<Takers>(&d.0) {
        Ok(t) => {
            check(!bad, "an error of a flattened field was lost");
            check(t.m == own_m, "the struct's own attribute was not preferred to flattened fields");
            check(t.n.is_some() == own_n.is_some(), "the struct's own element was not preferred to flattened fields");
            check(t.first.attrs == want[0].0 && t.second.attrs == want[1].0 && t.third.attrs.is_empty(), "attributes were offered to flattened fields in the wrong order");
            check(t.first.elems == want[0].1 && t.second.elems == want[1].1 && t.third.elems == 0, "elements were offered to flattened fields in the wrong order");
            check(t.first.text == want[0].2, "text was not offered to the first flattened field");
            check(t.second.text == want[1].2 && t.third.text == want[2].2, "text passed on by a flattened field was not offered to the next");
            cover(0);
            emit(b"O");
        }
        Err(_) => {
            check(bad, "a valid document was rejected");
            cover(1);
            emit(b"E");
        }
    }
}

/// Two elements of a choice of hundreds of variants.
fn of_many(two: bool) {
    let at = [0, 1, 2, 3, 63, 64, 65, 66, 126, 127, 128, 129, 130, 131, 252, 253, 254, 255, 256, 257, 258, 259, 260, 267, 268, 269];
    let i = if two { at[choice(26)] } else { choice(27) * 10 + choice(10) };
    let j = at[choice(26)];
    let mut d = Doc::new("<r>");
    for (k, v) in [(i, "3"), (j, "4")] {
        let n = k.to_string();
        if two || k == i {
            d.s("<V").s(&n).s(">").s(if k % 3 == 1 { "" } else { v }).s("</V").s(&n).s(">");
        }
        if !two {
            break;
        }
    }
    d.s("</r>");
    // repetition of an empty variant's element is not specified
    assume(!(two && i == j && i % 3 == 1));
    let want = match two {
        false => Some((i, if i % 3 == 1 { 0 } else { 3 })),
        true if i == j && i % 3 == 2 => Some((i, 7)),
        true => None,
    };
    match read::<HasWide>(&d.0) {
        Ok(h) => {
            check(Some(h.e.get()) == want, "one of many variants is wrong");
            cover(0);
            emit(b"O");
        }
        Err(_) => {
            check(want.is_none(), "one of many variants was not recognised");
            cover(1);
            emit(b"E");
        }
    }
}

/// Very many elements of a repeated variant, and another in between or not.
fn repeated_often() {
    let n = [127, 128, 129, 255, 256, 257, 300][choice(7)];
    let other = choice(4);
    let mut d = Doc::new("<r>");
    for i in 0..n {
        if i == n - 1 {
            d.s(["", "<u/>", "<a>x</a>", "text"][other]);
        }
        d.s("<m>").c(b'a' + (i % 26) as u8).s("</m>");
    }
    d.s("<b/></r>");
    match read::<HasSk>(&d.0) {
        Ok(h) => {
            check(other != 2, "elements of two variants were accepted");
            let ok = match &h.sk {
                Sk::V(v) => v.len() == n && v.iter().enumerate().all(|(i, s)| s.as_bytes() == [b'a' + (i % 26) as u8]),
                _ => false,
            };
            check(ok, "a repeated variant lost elements or their order");
            cover(0);
        }
        Err(_) => check(other == 2, "a repeated variant was rejected"),
    }
}

#[derive(Debug, Clone, PartialEq, Deserialize, Serialize)]
enum Sk {
    #[static_xml(rename = "a")]
    A(String),
    #[static_xml(skip, rename = "b")]
    B(String),
    #[static_xml(skip)]
    Odd,
    #[static_xml(rename = "m")]
    V(Vec<String>),
    #[static_xml(skip, rename = "y")]
    Y(Vec<u8>),
}

#[derive(Debug, Clone, PartialEq, Deserialize, Serialize)]
#[static_xml(rename = "r")]
struct HasSk {
    p: Option<String>,
    #[static_xml(flatten)]
    sk: Sk,
    #[static_xml(flatten)]
    last: D2,
}

#[derive(Debug, Clone, PartialEq, Deserialize, Serialize)]
enum D2 {
    #[static_xml(rename = "b")]
    B(Vec<String>),
}

/// Skipped variants: their elements are ignored when reading (and so offered
/// to later fields); writing one is an error.
fn skipped_read(max: usize) {
    let n = choice(max + 1);
    let mut d = Doc::new("<r>");
    let mut a = None;
    let mut v = Vec::new();
    let mut b = Vec::new();
    let mut bad = false;
    for _ in 0..n {
        let c = letter();
        let k = choice(5);
        let name = ["a", "b", "Odd", "m", "y"][k];
        d.c(b'<').s(name).c(b'>').c(c).s("</").s(name).c(b'>');
        match k {
            0 => bad = bad || !v.is_empty() || a.replace(str1(c)).is_some(),
            1 => b.push(str1(c)),
            3 => {
                bad = bad || a.is_some();
                v.push(str1(c));
            }
            _ => {}
        }
    }
    d.s("</r>");
    let complete = (a.is_some() || !v.is_empty()) && !b.is_empty();
    match read::<HasSk>(&d.0) {
        Ok(h) => {
            check(!bad && complete, "an invalid choice was accepted");
            let want = match a {
                Some(a) => Sk::A(a),
                None => Sk::V(v),
            };
            check(h.sk == want, "a choice with skipped variants has the wrong value");
            check(h.last == D2::B(b), "an element named like a skipped variant was not passed on");
            cover(0);
            emit(b"O");
        }
        Err(_) => {
            check(bad || !complete, "a valid choice was rejected");
            cover(1);
            emit(b"E");
        }
    }
}

fn skipped_write() {
    let c = letter();
    let k = choice(5);
    let sk = match k {
        0 => Sk::A(str1(c)),
        1 => Sk::B(str1(c)),
        2 => Sk::Odd,
        3 => Sk::V(vec![str1(c), str1(c)]),
        _ => Sk::Y(vec![1]),
    };
    let h = HasSk { p: None, sk, last: D2::B(vec!["z".into()]) };
    let r = static_xml::serialize(&h).to_string();
    match r {
        Ok(s) => {
            check(k == 0 || k == 3, "serializing a skipped variant succeeded");
            check(read::<HasSk>(s.as_bytes()).ok() == Some(h), "a choice did not survive a round trip");
            cover(0);
            emit(s.as_bytes());
        }
        Err(_) => {
            check(k != 0 && k != 3, "serializing a choice failed");
            cover(1);
            emit(b"E");
        }
    }
}

crate::harnesses! {
    h_choice_skipread3 => skipped_read(3);
    h_choice_skipread4 => skipped_read(4);
    h_choice_skipwrite => skipped_write();
    h_choice_root2 => root(2);
    h_choice_root3 => root(3);
    h_choice_root4 => root(4);
    h_choice_two3 => two(3);
    h_choice_two4 => two(4);
    h_choice_two5 => two(5);
    h_choice_of_many => of_many(false);
    h_choice_two_of_many => of_many(true);
    h_choice_often => repeated_often();
    h_choice_takers => takers();
}
