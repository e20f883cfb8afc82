//! Totality: arbitrary bytes never panic, hang or touch memory wrongly.

use crate::sym::*;
use crate::util::*;
use static_xml::de::{Deserialize, ElementReader, ElementVisitor, VisitorError};
use static_xml::{ExpandedNameRef, TextPosition};
use static_xml_derive::{Deserialize, ParseText};

#[derive(Debug, PartialEq, Deserialize)]
#[static_xml(namespace = "p: urn:p")]
struct Z {
    #[static_xml(attribute)]
    a: Option<String>,
    #[static_xml(attribute, prefix = "p")]
    b: Option<u8>,
    #[static_xml(attribute, default)]
    c: bool,
    s: Option<String>,
    #[static_xml(prefix = "p", rename = "s")]
    ps: Vec<i16>,
    n: Vec<Sub>,
    #[static_xml(default)]
    e: Kind,
    #[static_xml(flatten)]
    ch: Ch,
}

#[derive(Debug, PartialEq, Deserialize)]
struct Sub {
    #[static_xml(attribute)]
    x: Option<Un>,
    y: Option<Word>,
    z: Vec<String>,
}

#[derive(Debug, PartialEq, Default, ParseText)]
#[static_xml(mode = "restriction", whitespace = "collapse")]
enum Kind {
    #[default]
    A,
    #[static_xml(rename = "b c")]
    B,
    #[static_xml(unknown)]
    Other(String),
}

#[derive(Debug, PartialEq, ParseText)]
#[static_xml(mode = "union", whitespace = "replace")]
enum Un {
    I(i8),
    B(bool),
    K(OnlyA),
}

#[derive(Debug, PartialEq, ParseText)]
#[static_xml(mode = "restriction")]
enum OnlyA {
    A,
}

#[derive(Debug, PartialEq, ParseText)]
#[static_xml(mode = "std", whitespace = "collapse")]
struct Word(String);

#[derive(Debug)]
struct NoWord;
impl std::fmt::Display for NoWord {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("not a word")
    }
}
impl std::error::Error for NoWord {}
impl std::str::FromStr for Word {
    type Err = NoWord;
    fn from_str(s: &str) -> Result<Self, NoWord> {
        if s.bytes().all(|b| b.is_ascii_lowercase()) {
            Ok(Word(s.to_owned()))
        } else {
            Err(NoWord)
        }
    }
}

#[derive(Debug, PartialEq, Deserialize)]
enum Ch {
    #[static_xml(rename = "u")]
    U,
    #[static_xml(rename = "v")]
    V(Vec<u8>),
    #[static_xml(rename = "w")]
    W(Box2),
}

#[derive(Debug, PartialEq, Deserialize)]
struct Box2 {
    w: Option<String>,
}

fn outcome<T>(r: ReadResult<T>) {
    match r {
        Ok(v) => {
            cover(0);
            drop(v);
            emit(b"O");
        }
        Err(e) => {
            let s = e.to_string();
            check(!s.is_empty(), "an error without any text");
            let _ = std::error::Error::source(&e).map(|s| s.to_string());
            cover(1);
            emit(b"E");
            emit(s.as_bytes());
        }
    }
}

fn derived(pre: &str, n: usize, post: &str) {
    let mut d = Doc::new(pre);
    for _ in 0..n {
        d.c(byte());
    }
    d.s(post);
    outcome(read::<Z>(&d.0));
}

/// As `derived`, restricted to ASCII (parsers that quote the offending text in
/// their error consult large Unicode tables for each further character).
fn ascii(pre: &str, n: usize, post: &str) {
    let mut d = Doc::new(pre);
    for _ in 0..n {
        let b = byte();
        assume(b < 0x80);
        d.c(b);
    }
    d.s(post);
    outcome(read::<Z>(&d.0));
}

fn two_holes(pre: &str, n: usize, mid: &str, m: usize, post: &str) {
    let mut d = Doc::new(pre);
    for _ in 0..n {
        d.c(byte());
    }
    d.s(mid);
    for _ in 0..m {
        d.c(byte());
    }
    d.s(post);
    outcome(read::<Z>(&d.0));
}

#[derive(Debug, PartialEq, Deserialize)]
struct Need {
    r: Vec<NeedS>,
    k: Vec<Need>,
}

#[derive(Debug, PartialEq, Deserialize)]
struct NeedS {
    s: String,
}

/// A visitor written by hand that, per child, may ignore it, pass it on, read
/// it fully, read it as a string and swallow any error, or read it with a
/// visitor that fails part-way and swallow that.
struct Careless(u8);
struct CarelessOut;

impl ElementVisitor for Careless {
    fn attribute(&mut self, _name: &ExpandedNameRef<'_>, value: String) -> Result<Option<String>, VisitorError> {
        if self.0 == 3 {
            return Err(VisitorError::Wrap(Box::new(NoWord)));
        }
        Ok(Some(value))
    }
    fn element<'a>(&mut self, child: ElementReader<'a>) -> Result<Option<ElementReader<'a>>, VisitorError> {
        let first = child.expanded_name().local_name.as_bytes()[0];
        match first {
            b'p' => Ok(Some(child)),
            b's' => {
                let _ = child.read_string();
                Ok(None)
            }
            b'z' => {
                let _ = Z::deserialize(child);
                Ok(None)
            }
            b'k' => {
                let _ = Need::deserialize(child);
                Ok(None)
            }
            b'r' => {
                let _ = child.read_to(&mut Careless(0));
                Ok(None)
            }
            b'f' => {
                let _ = child.read_to(&mut Careless(3));
                Ok(None)
            }
            b't' => {
                let _ = child.read_to(&mut Careless(2));
                Ok(None)
            }
            b'e' => Err(VisitorError::Wrap(Box::new(NoWord))),
            _ => Ok(None),
        }
    }
    fn characters(&mut self, s: String, _pos: TextPosition) -> Result<Option<String>, static_xml::BoxedStdError> {
        if self.0 == 2 {
            return Err(Box::new(NoWord));
        }
        Ok(Some(s))
    }
}

impl Deserialize for CarelessOut {
    fn deserialize(element: ElementReader<'_>) -> Result<Self, VisitorError> {
        element.read_to(&mut Careless(0))?;
        Ok(CarelessOut)
    }
}

fn careless(n: usize) {
    let mut d = Doc::new("<r><");
    for i in 0..n {
        d.c(among(b"rszktpfe"));
        d.s(["><", " k='1'><", "><"][i % 3]);
    }
    // close everything properly
    let names: Vec<u8> = d.0.iter().copied().collect();
    d.s("u/>");
    let mut pos = Vec::new();
    let mut i = 4;
    let mut k = 0;
    while k < n {
        pos.push(names[i]);
        i += 1 + ["><", " k='1'><", "><"][k % 3].len();
        k += 1;
    }
    for (j, b) in pos.iter().rev().enumerate() {
        if choice(2) == 1 {
            d.s("t");
        }
        if j == 0 && choice(2) == 1 {
            d.s("<v>300</v>");
        }
        d.s("</").c(*b).s(">");
    }
    d.s("<s>x</s></r>");
    outcome(read::<CarelessOut>(&d.0));
}

fn careless_hole(pre: &str, n: usize, post: &str) {
    let mut d = Doc::new(pre);
    for _ in 0..n {
        d.c(byte());
    }
    d.s(post);
    outcome(read::<CarelessOut>(&d.0));
}

/// Texts and names of every length up to `max`, ending in a character of any
/// width, wherever something may be made of them - above all error messages.
fn lengths(kind: usize, max: usize) {
    let n = choice(max);
    let mut t = "0123456789".repeat(n / 10 + 1);
    t.truncate(n);
    t.push_str(["", "é", "€", "😀", "é€😀"][choice(5)]);
    let mut d = Doc::new("");
    match kind {
        0 => d.s("<Z><n x='").s(&t).s("'/><u/></Z>"),
        1 => d.s("<Z><v>").s(&t).s("</v></Z>"),
        2 => d.s("<Z c='").s(&t).s("'><u/></Z>"),
        3 => d.s("<Z><e>").s(&t).s("</e><u/></Z>"),
        4 => d.s("<Z><n><y>").s(&t).s("</y></n><u/></Z>"),
        5 => d.s("<Z><s><x").s(&t).s("/></s><u/></Z>"),
        6 => d.s("<x").s(&t).s(">").s(&t).s("</x").s(&t).s(">"),
        7 => d.s("<Z xmlns:p='urn:p' p:b='").s(&t).s("'><u/></Z>"),
        8 => d.s("<Z><u/><!--").s(&t).s("--><?x").s(&t).s(" ").s(&t).s("?></Z>").s(&t),
        9 => d.s("<Z xmlns='").s(&t).s("'><u/><").s(&t),
        10 => d.s("<Z><u/></Z").s(&t).s(">"),
        _ => d.s("<Z><s>").s(&t).s("&x").s(&t).s(";</s><u/></Z>"),
    };
    outcome(read::<Z>(&d.0));
}

/// Many attributes, children or levels.
fn many(max: usize) {
    many_of(choice(max));
}

fn many_of(n: usize) {
    let mut d = Doc::new("<Z xmlns:p='urn:p'");
    match choice(5) {
        0 => {
            for i in 0..n {
                d.s(" q").s(&i.to_string()).s("='").s(&i.to_string()).s("'");
            }
            d.s("><u/></Z>");
        }
        1 => {
            d.s(">");
            for i in 0..n {
                d.s("<n x='").s(&i.to_string()).s("'><z>1</z><z/></n><p:s>").s(&i.to_string()).s("</p:s>");
            }
            d.s("<u/></Z>");
        }
        2 => {
            d.s("><u/>");
            for _ in 0..n {
                d.s("<q a='1'>t");
            }
            for _ in 0..n {
                d.s("</q>");
            }
            d.s("</Z>");
        }
        3 => {
            d.s("><n>");
            for _ in 0..n {
                d.s("<q>");
            }
            d.c(byte());
        }
        _ => {
            d.s(">");
            for i in 0..n {
                d.s("<v>").s(&i.to_string()).s("</v>");
            }
            d.s("</Z>");
        }
    }
    outcome(read::<Z>(&d.0));
}

/// As many as small integers count, and more.
fn very_many() {
    let n = [127, 128, 129, 255, 256, 257, 300][choice(7)];
    many_of(n);
}

/// A truncated or damaged document: one byte of a feature-rich document is
/// replaced by an arbitrary byte, or the document ends there.
fn mutate() {
    let base = b"<?xml version='1.0'?><!--c--><Z xmlns:p='urn:p' a='1' p:b='2'>t<s>&amp;<![CDATA[x]]></s><p:s>-3</p:s><n x='4'><y>w</y></n><v>7</v></Z><?q r?>";
    let i = choice(base.len());
    let mut v = base.to_vec();
    if choice(2) == 0 {
        v[i] = byte();
    } else {
        v.truncate(i);
    }
    outcome(read::<Z>(&v));
}

crate::harnesses! {
    h_total_raw3 => derived("", 3, "");
    h_total_raw4 => derived("", 4, "");
    h_total_raw5 => derived("", 5, "");
    h_total_prolog3 => derived("<?xml", 3, "?><Z><u/></Z>");
    h_total_prolog4 => derived("<?xml version='1.0'", 4, "?><Z><u/></Z>");
    h_total_misc3 => derived("<!", 3, "<Z><u/></Z>");
    h_total_root3 => derived("<", 3, "><u/></Z>");
    h_total_tag3 => derived("<Z a='1'", 3, "><u/></Z>");
    h_total_tag4 => derived("<Z a='1'", 4, "><u/></Z>");
    h_total_content3 => derived("<Z><u/>", 3, "</Z>");
    h_total_content4 => derived("<Z><u/>", 4, "</Z>");
    h_total_content5 => derived("<Z><u/>", 5, "</Z>");
    h_total_child2 => two_holes("<Z><", 2, "><u/></", 2, "></Z>");
    h_total_text3 => derived("<Z><s>", 3, "</s><u/></Z>");
    h_total_text4 => derived("<Z><s>", 4, "</s><u/></Z>");
    h_total_attr3 => derived("<Z a='", 3, "'><u/></Z>");
    h_total_attr4 => derived("<Z a='", 4, "'><u/></Z>");
    h_total_num3 => derived("<Z><v>", 3, "</v></Z>");
    h_total_kind3 => derived("<Z><e>", 3, "</e><u/></Z>");
    h_total_kind4 => derived("<Z><e>", 4, "</e><u/></Z>");
    h_total_union2 => derived("<Z><n x='", 2, "'/><u/></Z>");
    h_total_union3 => ascii("<Z><n x='", 3, "'/><u/></Z>");
    h_total_word3 => derived("<Z><n><y>", 3, "</y></n><u/></Z>");
    h_total_sub3 => derived("<Z><n><z>1</z>", 3, "<z/></n><u/></Z>");
    h_total_cdata4 => derived("<Z><s><![CDATA[", 4, "]]></s><u/></Z>");
    h_total_entity3 => derived("<Z><s>&#", 3, ";</s><u/></Z>");
    h_total_entity4 => derived("<Z><s>&", 4, ";</s><u/></Z>");
    h_total_ns3 => derived("<Z xmlns", 3, "'urn:p'><u/></Z>");
    h_total_after3 => derived("<Z><u/></Z>", 3, "");
    h_total_after5 => derived("<Z><u/></Z>", 5, "");
    h_total_len0 => lengths(0, 70);
    h_total_len1 => lengths(1, 70);
    h_total_len2 => lengths(2, 70);
    h_total_len3 => lengths(3, 70);
    h_total_len4 => lengths(4, 70);
    h_total_len5 => lengths(5, 70);
    h_total_len6 => lengths(6, 70);
    h_total_len7 => lengths(7, 70);
    h_total_len8 => lengths(8, 70);
    h_total_len9 => lengths(9, 70);
    h_total_len10 => lengths(10, 70);
    h_total_len11 => lengths(11, 70);
    h_total_very_many => very_many();
    h_total_many40 => many(40);
    h_total_many120 => many(120);
    h_total_mutate => mutate();
    h_total_careless3 => careless(3);
    h_total_careless4 => careless(4);
    h_total_careless5 => careless(5);
    h_total_carehole3 => careless_hole("<r><r><s>", 3, "</s></r><t>x</t></r>");
    h_total_carehole4 => careless_hole("<r><r><s>", 4, "</s></r><t>x</t></r>");
}
