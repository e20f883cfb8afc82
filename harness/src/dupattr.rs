//! No attribute is read or written twice.

use crate::sym::*;
use crate::util::*;
use static_xml::ser::{ElementBuilder, ElementWriter, Error, Serialize, SerializeAttr, SerializeField};
use static_xml::ExpandedNameRef;
use static_xml_derive::{Deserialize, Serialize};

#[path = "wide_types.rs"]
mod wide_types;
use wide_types::*;

#[derive(Debug, PartialEq, Deserialize)]
#[static_xml(namespace = "p: urn:p", namespace = "q: urn:q")]
struct R {
    #[static_xml(attribute)]
    x: Option<String>,
    #[static_xml(attribute, prefix = "p", rename = "x")]
    px: Option<String>,
    #[static_xml(attribute, prefix = "q", rename = "x")]
    qx: Option<String>,
    #[static_xml(attribute, prefix = "p")]
    y: Option<String>,
    #[static_xml(attribute, prefix = "q", default)]
    z: u8,
}

/// Every kind of attribute field.
#[derive(Debug, PartialEq, Deserialize)]
#[static_xml(namespace = "p: urn:p")]
struct Kinds {
    #[static_xml(attribute, prefix = "p")]
    must: u8,
    #[static_xml(attribute, prefix = "p")]
    may: Option<u8>,
    #[static_xml(attribute, prefix = "p", default)]
    def: u8,
}

const URIS: [&str; 4] = ["urn:p", "urn:q", "urn:r", ""];

/// Attributes as spelled, with the prefixes a, b, c or none.
struct Spelled {
    uris: [&'static str; 3],
    attrs: Vec<(usize, String, String)>,
}

impl Spelled {
    fn uri(&self, p: usize) -> &'static str {
        if p == 0 {
            ""
        } else {
            self.uris[p - 1]
        }
    }
    fn write(&self, d: &mut Doc, before: bool) {
        let decls = |d: &mut Doc| {
            for (i, u) in self.uris.iter().enumerate() {
                if !u.is_empty() {
                    d.s(" xmlns:").c(b'a' + i as u8).s("='").s(u).s("'");
                }
            }
        };
        if before {
            decls(d);
        }
        for (p, n, v) in &self.attrs {
            d.s(" ");
            if *p > 0 {
                d.c(b'a' + *p as u8 - 1).s(":");
            }
            d.s(n).s("='").s(v).s("'");
        }
        if !before {
            decls(d);
        }
    }
    /// Whether the same name is spelled twice, which no reader accepts, and
    /// whether the same expanded name is there twice out of `known`.
    fn repeats(&self, known: &[(&str, &str)]) -> (bool, bool) {
        let (mut same, mut expanded) = (false, false);
        for (i, (p, n, _)) in self.attrs.iter().enumerate() {
            for (o, m, _) in &self.attrs[..i] {
                if n == m {
                    same |= p == o;
                    expanded |= self.uri(*p) == self.uri(*o) && known.iter().any(|(u, l)| *u == self.uri(*p) && l == n);
                }
            }
        }
        (same, expanded)
    }
    fn value(&self, uri: &str, name: &str) -> Option<String> {
        self.attrs.iter().find(|(p, n, _)| self.uri(*p) == uri && n == name).map(|(_, _, v)| v.clone())
    }
}

const KNOWN: [(&str, &str); 5] = [("", "x"), ("urn:p", "x"), ("urn:q", "x"), ("urn:p", "y"), ("urn:q", "z")];

/// `n` attributes of any names under any prefixes.
fn read_any(n: usize, depth: usize) {
    let mut s = Spelled { uris: ["urn:p", URIS[choice(3)], if n > 2 { "urn:q" } else { URIS[choice(3)] }], attrs: Vec::new() };
    for i in 0..n {
        let l = ["x", "y", "w"][choice(3)];
        s.attrs.push((choice(4), l.into(), str1(if i < 2 { letter() } else { b'v' })));
    }
    let mut d = Doc::new("");
    for _ in 0..depth {
        d.s("<o>");
    }
    d.s("<r");
    s.write(&mut d, flag());
    d.s("/>");
    for _ in 0..depth {
        d.s("</o>");
    }
    let r: ReadResult<R> = match depth {
        0 => read(&d.0),
        _ => read::<Outer>(&d.0).map(|mut o| o.r.pop().unwrap()),
    };
    let (same, twice) = s.repeats(&KNOWN);
    match r {
        Ok(r) => {
            check(!same, "the same attribute twice");
            check(!twice, "an attribute read twice");
            let want = R {
                x: s.value("", "x"),
                px: s.value("urn:p", "x"),
                qx: s.value("urn:q", "x"),
                y: s.value("urn:p", "y"),
                z: 0,
            };
            check(r == want, "attributes that don't conflict are confused");
            cover(0);
            emit(b"O");
        }
        Err(e) => {
            check(same | twice, "attributes that differ conflict");
            check(twice || same, "refused");
            cover(1 + twice as usize);
            emit(e.to_string().as_bytes());
        }
    }
}

#[derive(Debug, PartialEq, Deserialize)]
struct Outer {
    r: Vec<R>,
}

/// Every field kind, given any number of times up to three, in any spelling.
fn kinds(n: usize) {
    let names = ["must", "may", "def"];
    let mut s = Spelled { uris: ["urn:p", "urn:p", "urn:p"], attrs: Vec::new() };
    for _ in 0..n {
        s.attrs.push((1 + choice(3), names[choice(3)].into(), str1(among(b"0123456789"))));
    }
    let mut d = Doc::new("<r");
    s.write(&mut d, flag());
    d.s("/>");
    let (same, twice) = s.repeats(&[("urn:p", "must"), ("urn:p", "may"), ("urn:p", "def")]);
    let num = |n: &str| s.value("urn:p", n).map(|v| v.as_bytes()[0] - b'0');
    match read::<Kinds>(&d.0) {
        Ok(k) => {
            check(!same && !twice, "an attribute read twice");
            check(Some(k.must) == num("must") && k.may == num("may") && k.def == num("def").unwrap_or(0), "attributes that don't conflict are confused");
            cover(0);
            emit(b"O");
        }
        Err(e) => {
            check(same || twice || num("must").is_none(), "attributes that differ conflict");
            cover(1);
            emit(e.to_string().as_bytes());
        }
    }
}

/// Free names and namespaces: equal or not is for the solver to say.
fn free(loc: usize, uri: usize) {
    let part = |first: &str, n: usize| {
        let mut s = String::from(first);
        for _ in 0..n {
            s.push_str(&str1(lower()));
        }
        s
    };
    let (u, v) = (part("urn:", uri), part("urn:", uri));
    let (l, m) = (part("", loc), part("", loc));
    let mut d = Doc::new("<r xmlns:a='");
    d.s(&u).s("' xmlns:b='").s(&v).s("' a:").s(&l).s("='1' b:").s(&m).s("='2'/>");
    let ours = |u: &str, l: &str| KNOWN[1..].iter().any(|(ku, kl)| ku == &u && kl == &l);
    let r = read::<R>(&d.0);
    let clash = (u == v) & (l == m);
    if clash && ours(&u, &l) {
        check(r.is_err(), "an attribute read twice");
        cover(0);
        emit(b"E");
    } else {
        check(r.is_ok(), "attributes that differ conflict");
        cover(1);
        emit(b"O");
    }
}

/// What's beside the repeated attribute doesn't matter.
fn padded() {
    let before = choice(3);
    let between = choice(3);
    let after = choice(3);
    let mut d = Doc::new("<r xmlns:a='urn:p' xmlns:b='urn:p' xmlns:c='urn:q'");
    let mut k = 0;
    let mut pad = |d: &mut Doc, n: usize| {
        for _ in 0..n {
            d.s([" m='1'", " c:m='1'", " a:m='1'", " c:x='1'", " x='1'", " b:n='1'"][k]);
            k += 1;
        }
    };
    pad(&mut d, before);
    d.s(if flag() { " a:y=''" } else { " a:y='1'" });
    pad(&mut d, between);
    let twice = flag();
    d.s(if twice { " b:y=''" } else { " b:yy=''" });
    pad(&mut d, after);
    d.s("/>");
    check(read::<R>(&d.0).is_err() == twice, "an attribute read twice, or refused");
    cover(twice as usize);
    emit(b".");
}

struct W {
    adds: Vec<(&'static str, &'static str)>,
    values: Vec<String>,
    pass: bool,
    kid: bool,
}

fn name(ns: &'static str, local: &'static str) -> ExpandedNameRef<'static> {
    ExpandedNameRef { namespace: ns, local_name: local }
}

impl W {
    fn again(&self, i: usize) -> bool {
        self.adds[..i].contains(&self.adds[i])
    }
    fn node(&self) -> Node {
        let mut n = Node::new("", "r");
        for (i, (u, l)) in self.adds.iter().enumerate() {
            if !self.again(i) {
                n.attrs.push((u.to_string(), l.to_string(), self.values[i].clone()));
            }
        }
        n
    }
}

impl Serialize for W {
    fn write_attributes(&self, b: &mut ElementBuilder) -> Result<(), Error> {
        b.namespace("p", "urn:p");
        b.namespace("q", "urn:q");
        for (i, (u, l)) in self.adds.iter().enumerate() {
            let r = if i % 2 == 0 {
                b.attribute(name(u, l), self.values[i].clone())
            } else {
                SerializeAttr::write(&Some(self.values[i].clone()), b, name(u, l))
            };
            check(r.is_err() == self.again(i), "adding an attribute twice succeeds, or another fails");
            if self.pass {
                r?;
            }
        }
        Ok(())
    }
    fn write_children(&self, w: &mut ElementWriter) -> Result<(), Error> {
        if self.kid {
            // The same attributes again, on another element.
            W { adds: self.adds.clone(), values: self.values.clone(), pass: self.pass, kid: false }.write(w, name("", "r"))?;
        }
        Ok(())
    }
}

/// Adds `n` attributes of any names.
fn write_any(n: usize) {
    let mut w = W { adds: Vec::new(), values: Vec::new(), pass: flag(), kid: flag() };
    for i in 0..n {
        w.adds.push(([URIS[3], URIS[0], URIS[1]][choice(3)], ["x", "y"][choice(2)]));
        w.values.push(str1(if i < 2 { letter() } else { b'v' }));
    }
    let again = (0..n).any(|i| w.again(i));
    match static_xml::serialize_with_name(&w, name("", "r")).to_string() {
        Ok(d) => {
            check(!(again && w.pass), "success though an attribute was added twice");
            let mut want = w.node();
            if w.kid {
                want.child(w.node());
            }
            want.sort_attrs();
            match read::<Tree>(d.as_bytes()) {
                Ok(mut t) => {
                    t.0.sort_attrs();
                    check(t.0 == want, "attributes written are not those added");
                }
                Err(_) => check(false, "document is not well-formed"),
            }
            cover(again as usize);
            emit(d.as_bytes());
        }
        Err(e) => {
            check(again && w.pass, "attributes that differ conflict");
            cover(2);
            emit(e.0.as_bytes());
        }
    }
}

/// One of many attributes comes again, under another prefix or not.
fn read_wide() {
    let at = [0, 1, 2, 7, 8, 30, 31, 32, 33, 62, 63, 64, 65, 126, 127, 128, 129, 138, 139];
    let (i, last) = (at[choice(19)], at[choice(19)]);
    let how = choice(4);
    let mut d = Doc::new("<r xmlns:p='urn:p' xmlns:q='urn:p' xmlns:s='urn:s'");
    for k in 0..ATTRS {
        d.s(" p:f").s(&k.to_string()).s("='1'");
        if k == last {
            d.s([" q:f", " s:f", " q:g", " f"][how]).s(&i.to_string()).s("='2'");
        }
    }
    d.s("/>");
    match read::<WideAttrs>(&d.0) {
        Ok(w) => {
            check(how != 0, "an attribute read twice");
            for v in w.all() {
                check(v == Some(1), "attributes that don't conflict are confused");
            }
            cover(0);
        }
        Err(_) => {
            check(how == 0, "attributes that differ conflict");
            cover(1);
        }
    }
}

/// An element with many attributes is given one of them again.
struct Lots {
    n: usize,
    names: Vec<&'static str>,
    again: usize,
    how: usize,
}
impl Serialize for Lots {
    fn write_attributes(&self, b: &mut ElementBuilder) -> Result<(), Error> {
        b.namespace("p", "urn:p");
        b.namespace("q", "urn:q");
        for i in 0..self.n {
            b.attribute(name("urn:p", &self.names[i]), "1".to_owned())?;
        }
        let l = &self.names[self.again];
        let r = match self.how {
            0 => b.attribute(name("urn:p", l), "1".to_owned()),
            1 => b.attribute(name("", l), "2".to_owned()),
            2 => b.attribute(name("urn:q", l), "3".to_owned()),
            _ => b.attribute(name("urn:p", &self.names[self.n]), "4".to_owned()),
        };
        check(r.is_err() == (self.how == 0), "adding one of many attributes again succeeds, or adding another fails");
        r
    }
}

fn write_wide() {
    let n = [10, 31, 32, 33, 64, 65, 128, 129, 256, 257][choice(10)];
    let w = Lots { n, names: (0..n + 1).map(|i| &*Box::leak(format!("f{i}").into_boxed_str())).collect(), again: [0, 1, n / 2, n - 2, n - 1][choice(5)], how: choice(4) };
    match static_xml::serialize_with_name(&w, name("", "r")).to_string() {
        Ok(d) => {
            check(w.how != 0, "success though an attribute was added twice");
            match read::<Tree>(d.as_bytes()) {
                Ok(t) => check(t.0.attrs.len() == n + 1, "attributes written are not those added"),
                Err(_) => check(false, "document is not well-formed"),
            }
            cover(0);
        }
        Err(_) => {
            check(w.how == 0, "attributes that differ conflict");
            cover(1);
        }
    }
}

/// Fields of one name.
#[derive(Serialize)]
#[static_xml(namespace = "p: urn:n", namespace = "q: urn:n")]
struct Fields {
    #[static_xml(attribute, rename = "x")]
    a: Option<String>,
    #[static_xml(attribute, rename = "x")]
    b: Option<String>,
    #[static_xml(attribute, prefix = "p", rename = "x")]
    c: Option<String>,
    #[static_xml(attribute, prefix = "q", rename = "x")]
    d: Option<String>,
    kids: Vec<Fields>,
}

fn write_derived(kids: usize) {
    fn any() -> (Fields, bool) {
        let o = || flag().then(|| str1(letter()));
        let f = Fields { a: o(), b: o(), c: o(), d: o(), kids: Vec::new() };
        let bad = f.a.is_some() && f.b.is_some() || f.c.is_some() && f.d.is_some();
        (f, bad)
    }
    let (mut f, mut bad) = any();
    for _ in 0..kids {
        let (k, b) = any();
        f.kids.push(k);
        bad |= b;
    }
    let mut v = Vec::new();
    let r = static_xml::serialize_with_name(&f, name("", "r")).to(&mut v);
    check(r.is_err() == bad, "success though an attribute is there twice, or a failure without");
    if !bad {
        check(read::<Tree>(&v).is_ok(), "document is not well-formed");
    }
    cover(bad as usize);
    emit(&v);
}

crate::harnesses! {
    h_dupattr_read2 => read_any(2, 0);
    h_dupattr_read2_inner => read_any(2, 1);
    h_dupattr_read3 => read_any(3, 0);
    h_dupattr_read4 => read_any(4, 0);
    h_dupattr_kinds2 => kinds(2);
    h_dupattr_kinds3 => kinds(3);
    h_dupattr_kinds4 => kinds(4);
    h_dupattr_free1 => free(1, 1);
    h_dupattr_padded => padded();
    h_dupattr_read_wide => read_wide();
    h_dupattr_write_wide => write_wide();
    h_dupattr_write2 => write_any(2);
    h_dupattr_write3 => write_any(3);
    h_dupattr_write4 => write_any(4);
    h_dupattr_write5 => write_any(5);
    h_dupattr_derived0 => write_derived(0);
    h_dupattr_derived1 => write_derived(1);
    h_dupattr_derived2 => write_derived(2);
}
