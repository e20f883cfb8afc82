//! Cardinality: required / optional / repeated / defaulted fields.

use crate::sym::*;
use crate::util::*;
use static_xml_derive::{Deserialize, Serialize};

#[path = "wide_types.rs"]
mod wide_types;
use wide_types::*;

#[derive(Debug, PartialEq, Deserialize, Serialize)]
struct Card {
    one: String,
    opt: Option<String>,
    many: Vec<String>,
    #[static_xml(default)]
    def: String,
}

/// One child per step out of every field kind or an unknown element, with a
/// symbolic one-character text, checked against a model that just counts.
fn children(max: usize) {
    let n = choice(max + 1);
    let mut kinds = [0usize; 8];
    for k in kinds.iter_mut().take(n) {
        *k = choice(5);
    }
    // How the children are written: with a character, empty, or longer.
    let shape = choice(4);
    let mut d = Doc::new("<r>");
    let mut one: Option<String> = None;
    let mut opt: Option<String> = None;
    let mut def: Option<String> = None;
    let mut many = Vec::new();
    let mut dup = false;
    for &k in kinds.iter().take(n) {
        let name = ["one", "opt", "many", "def", "other"][k];
        let b = letter();
        let mut s = str1(b);
        match shape {
            0 => d.c(b'<').s(name).c(b'>').c(b).s("</").s(name).c(b'>'),
            1 => d.c(b'<').s(name).s("/>"),
            2 => d.c(b'<').s(name).s("></").s(name).c(b'>'),
            _ => d.c(b'<').s(name).s("> ").c(b).s(" 0\n</").s(name).c(b'>'),
        };
        match shape {
            0 => {}
            3 => {
                s.insert(0, ' ');
                s.push_str(" 0\n");
            }
            _ => s.clear(),
        }
        match k {
            0 => dup |= one.replace(s).is_some(),
            1 => dup |= opt.replace(s).is_some(),
            2 => many.push(s),
            3 => dup |= def.replace(s).is_some(),
            _ => {}
        }
    }
    d.s("</r>");
    let r = read::<Card>(&d.0);
    match r {
        Ok(v) => {
            check(!dup, "a repeated singleton child was accepted");
            check(one.is_some(), "a missing required child was accepted");
            check(Some(v.one) == one, "required child has the wrong value");
            check(v.opt == opt, "optional child has the wrong value");
            check(v.many == many, "repeated children differ or are out of order");
            check(v.def == def.unwrap_or_default(), "defaulted child has the wrong value");
            cover(0);
            emit(b"O");
        }
        Err(_) => {
            check(dup || one.is_none(), "a document with valid cardinalities was rejected");
            cover(if dup { 1 } else { 2 });
            emit(b"E");
        }
    }
}

#[derive(Debug, PartialEq, Deserialize)]
struct Inner {
    #[static_xml(attribute)]
    id: u8,
    v: Vec<u8>,
    o: Option<bool>,
}

#[derive(Debug, PartialEq, Deserialize)]
struct Outer {
    a: Inner,
    b: Option<Inner>,
    c: Vec<Inner>,
    #[static_xml(default)]
    d: u8,
    #[static_xml(default)]
    e: Vec<u8>,
    #[static_xml(default)]
    f: Option<u8>,
}

/// Complex-typed fields, including nested repetition and typed text.
fn complex(max: usize) {
    let n = choice(max + 1);
    let mut kinds = [0usize; 8];
    for k in kinds.iter_mut().take(n) {
        *k = choice(7);
    }
    let mut d = Doc::new("<r>");
    let (mut a, mut b, mut f) = (None, None, None);
    let mut dd: Option<u8> = None;
    let mut c = Vec::new();
    let mut e = Vec::new();
    let mut dup = false;
    for &k in kinds.iter().take(n) {
        let dig = byte();
        assume((dig >= b'0') & (dig <= b'9'));
        let val = dig - b'0';
        match k {
            0 => {
                d.s("<a id='").c(dig).s("'><v>1</v><o>0</o><v>2</v></a>");
                dup |= a.replace(Inner { id: val, v: vec![1, 2], o: Some(false) }).is_some();
            }
            1 => {
                d.s("<b id='7'><o>true</o><v>").c(dig).s("</v></b>");
                dup |= b.replace(Inner { id: 7, v: vec![val], o: Some(true) }).is_some();
            }
            2 => {
                d.s("<c id='").c(dig).s("'><v>3</v><v>4</v><v>5</v></c>");
                c.push(Inner { id: val, v: vec![3, 4, 5], o: None });
            }
            3 => {
                d.s("<c id='").c(dig).s("'/>");
                c.push(Inner { id: val, v: vec![], o: None });
            }
            4 => {
                d.s("<d>").c(dig).s("</d>");
                dup |= dd.replace(val).is_some();
            }
            5 => {
                d.s("<e>").c(dig).s("</e>");
                e.push(val);
            }
            _ => {
                d.s("<f>").c(dig).s("</f>");
                dup |= f.replace(val).is_some();
            }
        }
    }
    d.s("</r>");
    match read::<Outer>(&d.0) {
        Ok(v) => {
            check(!dup, "a repeated singleton child was accepted");
            check(a.is_some(), "a missing required child was accepted");
            check(Some(v.a) == a, "required child has the wrong value");
            check(v.b == b, "optional child has the wrong value");
            check(v.c == c, "repeated children differ or are out of order");
            check(v.d == dd.unwrap_or(0), "defaulted child has the wrong value");
            check(v.e == e, "defaulted repeated children differ or are out of order");
            check(v.f == f, "defaulted optional child has the wrong value");
            cover(0);
            emit(b"O");
        }
        Err(_) => {
            check(dup || a.is_none(), "a document with valid cardinalities was rejected");
            cover(if dup { 1 } else { 2 });
            emit(b"E");
        }
    }
}

#[derive(Debug, PartialEq, Deserialize)]
struct Attrs {
    #[static_xml(attribute)]
    req: String,
    #[static_xml(attribute)]
    opt: Option<String>,
    #[static_xml(attribute, default)]
    def: u8,
    #[static_xml(attribute, default, rename = "defopt")]
    do_: Option<u8>,
    el: Option<String>,
}

/// Any subset and order of the attributes, unknown ones mixed in.
fn attrs(max: usize) {
    let n = choice(max + 1);
    let shape = choice(3);
    let mut d = Doc::new("<r");
    let (mut req, mut opt, mut def, mut dopt) = (None, None, None, None);
    let mut used = [false; 6];
    for i in 0..n {
        let k = choice(6);
        // duplicate attributes are a well-formedness matter, decided elsewhere
        assume(!used[k]);
        used[k] = true;
        let dig = byte();
        assume((dig >= b'0') & (dig <= b'9'));
        let name = ["req", "opt", "def", "defopt", "el", "other"][k];
        d.c(b' ').s(name).s(if i % 2 == 0 { "='" } else { " = \"" });
        let mut s = str1(dig);
        if shape == 1 && (k < 2 || k == 5) {
            s.clear();
        } else if shape == 2 {
            s.insert(0, if k < 2 { ' ' } else { '0' });
            if k < 2 {
                s.push_str("  ");
            }
        }
        d.s(&s).s(if i % 2 == 0 { "'" } else { "\"" });
        match k {
            0 => req = Some(s),
            1 => opt = Some(s),
            2 => def = Some(dig - b'0'),
            3 => dopt = Some(dig - b'0'),
            _ => {}
        }
    }
    // An element named like an attribute is no substitute for it.
    d.s("><req>x</req><el>y</el></r>");
    match read::<Attrs>(&d.0) {
        Ok(v) => {
            check(req.is_some(), "a missing required attribute was accepted");
            check(Some(v.req) == req, "required attribute has the wrong value");
            check(v.opt == opt, "optional attribute has the wrong value");
            check(v.def == def.unwrap_or(0), "defaulted attribute has the wrong value");
            check(v.do_ == dopt, "defaulted optional attribute has the wrong value");
            check(v.el.as_deref() == Some("y"), "an attribute was taken for an element");
            cover(0);
            emit(b"O");
        }
        Err(_) => {
            check(req.is_none(), "a document with valid attributes was rejected");
            cover(2);
            emit(b"E");
        }
    }
}

/// Many repetitions, interleaved with others, and the defaults of the rest.
fn repeat(max: usize) {
    let n = choice(max + 1);
    let gap = choice(3);
    let mut d = Doc::new("<r>");
    let mut many = Vec::new();
    for i in 0..n {
        if i % 3 == gap {
            d.s("<other>z</other>");
        }
        if i == 7 {
            d.s("<one/>");
        }
        let b = letter();
        d.s("<many>").c(b).s("</many>");
        many.push(str1(b));
    }
    if n <= 7 {
        d.s("<one/>");
    }
    d.s("</r>");
    match read::<Card>(&d.0) {
        Ok(v) => {
            check(v.many == many, "repeated children differ or are out of order");
            check(v.one.is_empty() && v.opt.is_none() && v.def.is_empty(), "another field changed");
            cover(0);
            emit(b"O");
        }
        Err(_) => check(false, "a document with valid cardinalities was rejected"),
    }
}

/// Fields at places where small integers or machine words end: which of them
/// are there, are missing, or come twice.
fn wide(step: usize) {
    // Steps: 0 one is missing, 1 one comes twice, 2 two are missing or extra
    let at = [0, 1, 2, 3, 7, 8, 30, 31, 32, 33, 62, 63, 64, 65, 66, 126, 127, 128, 129, 130, 254, 255, 256, 257, 258, 268, 269];
    let i = at[choice(27)];
    let j = if step == 2 { at[choice(27)] } else { i };
    let all = flag();
    let mut counts: Vec<usize> = (0..ELEMS).map(|k| (all || MUST.contains(&k)) as usize).collect();
    match step {
        0 => counts[i] = 0,
        1 => counts[i] += 1,
        _ => {
            counts[i] = 0;
            counts[j] += 1;
        }
    }
    let mut d = Doc::new("<r>");
    let backwards = flag();
    for round in 0..3 {
        for k in 0..ELEMS {
            let k = if backwards { ELEMS - 1 - k } else { k };
            if counts[k] > round {
                let n = k.to_string();
                d.s("<f").s(&n).s(">").s(["1", "2", "3"][round]).s("</f").s(&n).s(">");
            }
        }
    }
    d.s("</r>");
    let missing = MUST.iter().any(|k| counts[*k] == 0);
    let twice = (0..ELEMS).any(|k| counts[k] > 1 && (MUST.contains(&k) || k % 4 != 1));
    match read::<WideElems>(&d.0) {
        Ok(w) => {
            check(!missing, "a missing required child was accepted");
            check(!twice, "a repeated singleton child was accepted");
            for (v, n) in w.all().into_iter().zip(&counts) {
                check(v == [None, Some(1), Some(3), Some(6)][*n], "a child of many has the wrong value");
            }
            cover(0);
            emit(b"O");
        }
        Err(_) => {
            check(missing || twice, "a document with valid cardinalities was rejected");
            cover(1);
            emit(b"E");
        }
    }
}

/// One field comes twice, as many other elements apart as there may be.
fn apart() {
    let n = [0, 1, 30, 63, 64, 127, 128, 255, 256, 300, 1000][choice(11)];
    let k = choice(4);
    let what = choice(3);
    let name = ["one", "opt", "many", "def"][k];
    let mut d = Doc::new("<r>");
    if k != 0 {
        d.s("<one/>");
    }
    let mut many = Vec::new();
    for half in 0..2 {
        d.s("<").s(name).s(">").s(["a", "b"][half]).s("</").s(name).s(">");
        if k == 2 {
            many.push(["a", "b"][half].to_owned());
        }
        if half == 0 {
            for _ in 0..n {
                match what {
                    0 => {
                        d.s("<many>m</many>");
                        many.push("m".to_owned());
                    }
                    1 => drop(d.s("<other>z</other>")),
                    _ => drop(d.s("z<!-- -->")),
                }
            }
        }
    }
    d.s("</r>");
    match read::<Card>(&d.0) {
        Ok(v) => {
            check(k == 2, "a repeated singleton child was accepted");
            check(v.many == many, "repeated children differ or are out of order");
            cover(0);
        }
        Err(_) => {
            check(k != 2, "a document with valid cardinalities was rejected");
            cover(1);
        }
    }
}

crate::harnesses! {
    h_card_wide0 => wide(0);
    h_card_wide1 => wide(1);
    h_card_wide2 => wide(2);
    h_card_apart => apart();
    h_card_repeat40 => repeat(40);
    h_card_children3 => children(3);
    h_card_children4 => children(4);
    h_card_children5 => children(5);
    h_card_complex3 => complex(3);
    h_card_complex4 => complex(4);
    h_card_attrs3 => attrs(3);
    h_card_attrs5 => attrs(5);
}
