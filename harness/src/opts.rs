//! Serializer options.

use crate::sym::*;
use crate::util::*;
use static_xml::ser::{ElementBuilder, ElementWriter, Error, Serialize, SerializeField, SerializeRoot, Serializer};
use static_xml::ExpandedNameRef;
use static_xml_derive::{Deserialize, Serialize};

const DECL: &str = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>";

#[derive(Debug, Clone, PartialEq, Deserialize, Serialize)]
#[static_xml(rename = "doc", namespace = "p: urn:p")]
struct Doc1 {
    #[static_xml(attribute)]
    a: Option<String>,
    s: Option<String>,
    #[static_xml(prefix = "p")]
    k: Vec<Kid>,
    v: Vec<String>,
    #[static_xml(flatten)]
    c: Choice,
}

#[derive(Debug, Clone, PartialEq, Deserialize, Serialize)]
struct Kid {
    #[static_xml(attribute)]
    x: Option<u8>,
    t: Option<String>,
    k: Vec<Kid>,
}

#[derive(Debug, Clone, PartialEq, Deserialize, Serialize)]
enum Choice {
    #[static_xml(rename = "u")]
    Unit,
    #[static_xml(rename = "w")]
    Word(String),
}

/// What follows a correct declaration.
fn after_decl(s: &str) -> Option<&str> {
    let n = DECL.len();
    (s.len() >= n && s.as_bytes()[..n].eq_ignore_ascii_case(DECL.as_bytes()) && s.starts_with("<?xml version=\"")).then(|| &s[n..])
}

/// Text of every kind.
fn text(some: bool) -> String {
    match choice(if some { 4 } else { 2 }) {
        0 => {
            let b = byte();
            assume((b >= 0x20) & (b < 0x7f));
            str1(b)
        }
        1 => String::new(),
        2 => " \n\t ".into(),
        _ => " a\n b ".into(),
    }
}

fn kid(depth: usize) -> Kid {
    Kid {
        x: flag().then(|| 7),
        t: flag().then(|| text(false)),
        k: if depth > 0 { (0..choice(2)).map(|_| kid(depth - 1)).collect() } else { vec![] },
    }
}

fn doc(which: usize) -> Doc1 {
    Doc1 {
        a: if which == 0 { flag().then(|| text(true)) } else { None },
        s: if which == 0 { flag().then(|| text(true)) } else { None },
        k: if which == 1 || which == 3 { (0..choice(which.min(2) + 1)).map(|i| kid(1 - i % 2)).collect() } else { vec![] },
        v: if which == 2 { (0..choice(3)).map(|i| text(i == 0)).collect() } else { vec![] },
        c: if flag() { Choice::Unit } else { Choice::Word(text(which != 1)) },
    }
}

fn out(s: Serializer) -> String {
    let mut v = Vec::new();
    match (s.to_string(), s.to(&mut v), s.to_string()) {
        (Ok(a), Ok(()), Ok(b)) => {
            check(a == b, "a serializer used again gives something else");
            check(a.as_bytes() == &v[..], "to and to_string differ");
            a
        }
        _ => {
            check(false, "nothing wrong, but not written");
            String::new()
        }
    }
}

/// A serializer with the options set directly.
fn with(s: Serializer, indent: bool, decl: bool) -> Serializer {
    let s = if indent { s.perform_indent(true) } else { s };
    if decl {
        s
    } else {
        s.write_document_declaration(false)
    }
}

/// The declaration, and the same root with and without it.
fn declaration(which: usize) {
    let d = doc(which);
    let indent = flag();
    let s = static_xml::serialize(&d);
    let (on, off) = (out(with(s, indent, true)), out(with(s, indent, false)));
    match after_decl(&on) {
        Some(rest) => {
            let root = if indent { rest.trim_start_matches(|c| c == '\n' || c == '\r') } else { rest };
            check(root == off, "the declaration changes more than itself");
        }
        None => check(false, "no or another declaration"),
    }
    check(off.starts_with("<doc"), "something before the root");
    cover(indent as usize);
    emit(on.as_bytes());
}

/// Indented documents have the same value.
fn indented(which: usize) {
    let d = doc(which);
    let decl = flag();
    let s = static_xml::serialize(&d);
    let (flat, deep) = (out(with(s, false, decl)), out(with(s, true, decl)));
    match (read::<Doc1>(flat.as_bytes()), read::<Doc1>(deep.as_bytes())) {
        (Ok(a), Ok(b)) => {
            check(a == d, "value changed by writing");
            check(b == d, "indentation changes the value");
        }
        _ => check(false, "what was written can't be read"),
    }
    cover(0);
    emit(deep.as_bytes());
}

/// Hand-written, with mixed content.
struct Mixed<'a>(&'a [usize], &'a str);

impl Serialize for Mixed<'_> {
    fn write_attributes(&self, b: &mut ElementBuilder) -> Result<(), Error> {
        b.namespace("q", "urn:q");
        b.attribute(ExpandedNameRef { namespace: "urn:q", local_name: "y" }, self.1.to_owned())
    }
    fn write_children(&self, w: &mut ElementWriter) -> Result<(), Error> {
        for i in self.0 {
            match i {
                0 => w.text(self.1)?,
                1 => Mixed(&[], "z").write(w, ExpandedNameRef { namespace: "", local_name: "e" })?,
                2 => Mixed(&[0], self.1).write(w, ExpandedNameRef { namespace: "", local_name: "f" })?,
                _ => Mixed(&[1, 0, 1], "m").write(w, ExpandedNameRef { namespace: "urn:q", local_name: "g" })?,
            }
        }
        Ok(())
    }
}

/// Drops white space around what text there is, unless `all` there is is text.
fn bare(n: &Node) -> Node {
    let mut m = Node::new(&n.ns, &n.local);
    m.attrs = n.attrs.clone();
    let mixed = n.items.iter().any(|i| matches!(i, Item::Elem(_)));
    for i in &n.items {
        match i {
            Item::Elem(e) => m.child(bare(e)),
            Item::Text(t) if mixed => m.text(t.trim()),
            Item::Text(t) => m.text(t),
        }
    }
    m
}

fn mixed(n: usize) {
    let mut items = Vec::new();
    for _ in 0..n {
        items.push(choice(4));
    }
    let t = str1(plain());
    let m = Mixed(&items, &t);
    let s = static_xml::serialize_with_name(&m, ExpandedNameRef { namespace: "", local_name: "doc" });
    let decl = flag();
    let (flat, deep) = (out(with(s, false, decl)), out(with(s, true, decl)));
    match (read::<Tree>(flat.as_bytes()), read::<Tree>(deep.as_bytes())) {
        (Ok(a), Ok(b)) => {
            check(bare(&a.0) == bare(&b.0), "indentation changes more than white space");
            cover(0);
        }
        _ => check(false, "document is not well-formed"),
    }
    emit(deep.as_bytes());
}

/// Options set in any order and repeatedly: the last counts.
fn order(n: usize) {
    let k = Kid { x: Some(1), t: Some(str1(letter())), k: vec![] };
    let d = Doc1 { a: None, s: None, k: vec![k.clone(), k], v: vec![], c: Choice::Unit };
    let base = static_xml::serialize(&d);
    let mut s = base;
    let (mut indent, mut decl) = (false, true);
    for _ in 0..n {
        match choice(4) {
            0 => (s, indent) = (s.perform_indent(true), true),
            1 => (s, indent) = (s.perform_indent(false), false),
            2 => (s, decl) = (s.write_document_declaration(true), true),
            _ => (s, decl) = (s.write_document_declaration(false), false),
        }
    }
    let got = out(s);
    check(got == out(with(base, indent, decl)), "options depend on the order they're set in");
    check(after_decl(&got).is_some() == decl, "the declaration option has no effect");
    check(got.contains('\n') == indent, "the indentation option has no effect");
    cover(indent as usize * 2 + decl as usize);
    emit(got.as_bytes());
}

/// Root names: the value's own, or any given.
fn roots() {
    let d = doc(2);
    let own = out(static_xml::serialize(&d));
    check(own == out(static_xml::serialize_with_name(&d, d.root())), "the root's name is not the type's");
    check(d.root() == ExpandedNameRef { namespace: "", local_name: "doc" }, "another root name");
    let other = out(static_xml::serialize_with_name(&d, ExpandedNameRef { namespace: "urn:p", local_name: "other" }));
    match (read::<Tree>(own.as_bytes()), read::<Tree>(other.as_bytes())) {
        (Ok(mut a), Ok(b)) => {
            a.0.ns = "urn:p".into();
            a.0.local = "other".into();
            check(a.0 == b.0, "the root's name changes more than itself");
        }
        _ => check(false, "document is not well-formed"),
    }
    // A text as the root.
    let t = text(true);
    let s: &str = &t;
    let o = out(static_xml::serialize_with_name(&s, ExpandedNameRef { namespace: "", local_name: "t" }));
    match read::<String>(o.as_bytes()) {
        Ok(g) => check(g == t, "text as the root changed"),
        Err(_) => check(false, "document is not well-formed"),
    }
    cover(0);
    emit(other.as_bytes());
}

/// Deep and wide documents, indented.
fn big(n: usize) {
    let depth = choice(n);
    big_of(depth, choice(4) * n / 4);
}

fn far() {
    let n = [64, 127, 128, 129, 255, 256, 257][choice(7)];
    big_of(if flag() { n } else { 0 }, choice(2) * n);
}

fn big_of(depth: usize, wide: usize) {
    assume(depth < 50 || wide < 50);
    let mut k = Kid { x: None, t: Some(str1(plain())), k: vec![] };
    for i in 0..depth {
        k = Kid { x: (i % 2 == 0).then(|| i as u8), t: (i % 3 == 0).then(|| "t".into()), k: vec![k] };
    }
    let d = Doc1 { a: None, s: None, k: (0..1 + wide).map(|_| k.clone()).collect(), v: vec![], c: Choice::Unit };
    let s = out(static_xml::serialize(&d).perform_indent(true));
    match read::<Doc1>(s.as_bytes()) {
        Ok(b) => check(b == d, "indentation changes the value"),
        _ => check(false, "what was written can't be read"),
    }
    cover(0);
    emit(s.as_bytes());
}

crate::harnesses! {
    h_opts_decl0 => declaration(0);
    h_opts_decl1 => declaration(1);
    h_opts_decl2 => declaration(2);
    h_opts_indent0 => indented(0);
    h_opts_indent1 => indented(1);
    h_opts_indent2 => indented(2);
    h_opts_decl3 => declaration(3);
    h_opts_indent3 => indented(3);
    h_opts_mixed2 => mixed(2);
    h_opts_mixed3 => mixed(3);
    h_opts_mixed4 => mixed(4);
    h_opts_order3 => order(3);
    h_opts_order5 => order(5);
    h_opts_order6 => order(6);
    h_opts_roots => roots();
    h_opts_big8 => big(8);
    h_opts_far => far();
    h_opts_big20 => big(20);
}
