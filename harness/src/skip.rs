//! Whatever a visitor leaves unread is skipped, and nothing else is.

use crate::sym::*;
use crate::util::*;
use static_xml::de::{Deserialize, ElementReader, ElementVisitor, VisitorError};
use static_xml::{ExpandedNameRef, TextPosition};
use static_xml_derive::Deserialize;

/// How a visitor treats one child.
#[derive(Clone, Copy, PartialEq)]
enum Act {
    Ignore,
    Pass,
    Str,
    FailAttr,
    FailElem,
    FailText,
    Inner,
    Needy,
    Full,
}
const ACTS: [Act; 9] = [Act::Ignore, Act::Pass, Act::Str, Act::FailAttr, Act::FailElem, Act::FailText, Act::Inner, Act::Needy, Act::Full];

fn boom() -> VisitorError {
    VisitorError::Wrap("boom".into())
}

/// Fails at the first event of the given kind.
struct Failing(Act);
impl ElementVisitor for Failing {
    fn attribute(&mut self, _n: &ExpandedNameRef<'_>, v: String) -> Result<Option<String>, VisitorError> {
        if self.0 == Act::FailAttr {
            return Err(boom());
        }
        Ok(Some(v))
    }
    fn element<'a>(&mut self, c: ElementReader<'a>) -> Result<Option<ElementReader<'a>>, VisitorError> {
        if self.0 == Act::FailElem {
            return Err(boom());
        }
        Ok(Some(c))
    }
    fn characters(&mut self, s: String, _p: TextPosition) -> Result<Option<String>, static_xml::BoxedStdError> {
        if self.0 == Act::FailText {
            return Err("boom".into());
        }
        Ok(Some(s))
    }
}

/// Reads its children, each failing at its own children, and swallows that.
struct Nested(usize);
impl ElementVisitor for Nested {
    fn element<'a>(&mut self, c: ElementReader<'a>) -> Result<Option<ElementReader<'a>>, VisitorError> {
        self.0 += 1;
        if self.0 % 2 == 1 {
            let _ = c.read_to(&mut Failing(Act::FailElem));
        } else {
            let _ = c.read_string();
        }
        Ok(None)
    }
}

#[derive(Debug, PartialEq, Deserialize)]
struct Needy {
    d: Vec<NeedyD>,
    c: Vec<NeedyC>,
}
#[derive(Debug, PartialEq, Deserialize)]
struct NeedyD {
    zz: String,
}
#[derive(Debug, PartialEq, Deserialize)]
struct NeedyC {
    c: Option<String>,
}

#[derive(Clone, PartialEq)]
enum Seen {
    Elem(String, usize),
    Tree(Node),
    Text(String),
    Attr(String),
}

struct Parent {
    acts: Vec<Act>,
    next: usize,
    seen: Vec<Seen>,
}

impl ElementVisitor for Parent {
    fn attribute(&mut self, n: &ExpandedNameRef<'_>, v: String) -> Result<Option<String>, VisitorError> {
        self.seen.push(Seen::Attr(n.local_name.into()));
        Ok(Some(v))
    }
    fn element<'a>(&mut self, c: ElementReader<'a>) -> Result<Option<ElementReader<'a>>, VisitorError> {
        let act = self.acts.get(self.next).copied().unwrap_or(Act::Full);
        self.next += 1;
        if act == Act::Full {
            let t = Tree::deserialize(c)?;
            self.seen.push(Seen::Tree(t.0));
            return Ok(None);
        }
        self.seen.push(Seen::Elem(c.expanded_name().local_name.into(), c.depth()));
        match act {
            Act::Pass => return Ok(Some(c)),
            Act::Str => {
                let _ = c.read_string();
            }
            Act::FailAttr | Act::FailElem | Act::FailText => {
                let _ = c.read_to(&mut Failing(act));
            }
            Act::Inner => {
                let _ = c.read_to(&mut Nested(0));
            }
            Act::Needy => {
                let _ = Needy::deserialize(c);
            }
            _ => {}
        }
        Ok(None)
    }
    fn characters(&mut self, s: String, _p: TextPosition) -> Result<Option<String>, static_xml::BoxedStdError> {
        if let Some(Seen::Text(t)) = self.seen.last_mut() {
            t.push_str(&s);
        } else {
            self.seen.push(Seen::Text(s));
        }
        Ok(Some(String::new()))
    }
}

struct Root(Vec<Seen>);

// The acts for the next document (harnesses are single-threaded).
static ACTS_NEXT: std::sync::Mutex<Vec<Act>> = std::sync::Mutex::new(Vec::new());
fn set_acts(a: Vec<Act>) {
    *ACTS_NEXT.lock().unwrap() = a;
}
fn current() -> Vec<Act> {
    ACTS_NEXT.lock().unwrap().clone()
}

impl Deserialize for Root {
    fn deserialize(e: ElementReader<'_>) -> Result<Self, VisitorError> {
        let mut p = Parent { acts: current(), next: 0, seen: Vec::new() };
        e.read_to(&mut p)?;
        Ok(Root(p.seen))
    }
}

struct Deep(Vec<Seen>);
struct DeepV(Option<Vec<Seen>>, usize);
impl ElementVisitor for DeepV {
    fn element<'a>(&mut self, c: ElementReader<'a>) -> Result<Option<ElementReader<'a>>, VisitorError> {
        self.1 += 1;
        if c.name().local_name == "p" {
            self.0 = Some(Root::deserialize(c)?.0);
        }
        Ok(None)
    }
}
impl Deserialize for Deep {
    fn deserialize(e: ElementReader<'_>) -> Result<Self, VisitorError> {
        let mut v = DeepV(None, 0);
        e.read_to(&mut v)?;
        if v.1 != 3 {
            return Err(VisitorError::Wrap("wrong number of siblings".into()));
        }
        v.0.map(Deep).ok_or_else(boom)
    }
}

/// Appends a child of the given shape; returns it as a tree.
fn shape(d: &mut Doc, k: usize, b: u8) -> Node {
    let t = str1(b);
    let mut c = Node::new("", "c");
    match k {
        0 => {
            d.s("<c/>");
        }
        1 => {
            d.s("<c>").c(b).s("</c>");
            c.text(&t);
        }
        2 => {
            d.s("<c k='").c(b).s("'><d/>x</c>");
            c.attrs.push(("".into(), "k".into(), t));
            c.child(Node::new("", "d"));
            c.text("x");
        }
        3 => {
            d.s("<c j='1' k='2'>").c(b).s("<d>u<e/></d>w<d m='1'/></c>");
            c.attrs.push(("".into(), "j".into(), "1".into()));
            c.attrs.push(("".into(), "k".into(), "2".into()));
            c.text(&t);
            let mut x = Node::new("", "d");
            x.text("u");
            x.child(Node::new("", "e"));
            c.child(x);
            c.text("w");
            let mut x = Node::new("", "d");
            x.attrs.push(("".into(), "m".into(), "1".into()));
            c.child(x);
        }
        4 => {
            d.s("<c><d><e><f>").c(b).s("</f></e></d></c>");
            let mut f = Node::new("", "f");
            f.text(&t);
            let mut e = Node::new("", "e");
            e.child(f);
            let mut x = Node::new("", "d");
            x.child(e);
            c.child(x);
        }
        5 => {
            d.s("<c><c><c>").c(b).s("</c></c><c/></c>");
            let mut i = Node::new("", "c");
            i.text(&t);
            let mut j = Node::new("", "c");
            j.child(i);
            c.child(j);
            c.child(Node::new("", "c"));
        }
        _ => {
            d.s("<c><!-- </c> --><![CDATA[</c><r>]]><?x </c>?>").c(b).s("</c>");
            c.text("</c><r>");
            c.text(&t);
        }
    }
    c
}

fn run(n: usize, deep: bool) {
    let mut d = Doc::new(if deep { "<q><o><p/></o><p z='1'>" } else { "<r z='1'>" });
    let mut acts = Vec::new();
    let mut want = vec![Seen::Attr("z".into())];
    let base = if deep { 2 } else { 1 };
    for i in 0..n {
        let k = choice(7);
        let a = ACTS[choice(9)];
        let b = letter();
        let t = shape(&mut d, k, b);
        acts.push(a);
        want.push(if a == Act::Full { Seen::Tree(t) } else { Seen::Elem("c".into(), base + 1) });
        if i % 2 == 0 {
            let b = letter();
            d.c(b);
            want.push(Seen::Text(str1(b)));
        }
    }
    // a marker after the last child, always read in full
    d.s("<m n='1'>end<o/></m>");
    let mut m = Node::new("", "m");
    m.attrs.push(("".into(), "n".into(), "1".into()));
    m.text("end");
    m.child(Node::new("", "o"));
    want.push(Seen::Tree(m));
    d.s(if deep { "</p><o>z</o></q>" } else { "</r>" });
    set_acts(acts);
    let r = if deep { read::<Deep>(&d.0).map(|x| x.0) } else { read::<Root>(&d.0).map(|x| x.0) };
    match r {
        Ok(seen) => {
            check(seen.len() == want.len(), "the parent saw a different number of events than it has children");
            check(seen == want, "the parent's events differ from its own children");
            cover(0);
            emit(b"O");
        }
        Err(_) => check(false, "skipping a child or recovering from its error made the document unreadable"),
    }
}

const SIZES: [usize; 9] = [31, 64, 127, 128, 129, 255, 256, 257, 300];

/// A child of many levels, children, attributes or pieces of text, whatever is
/// done with it.
fn far(kind: usize, deep: bool) {
    let mut d = Doc::new(if deep { "<q><o><p/></o><p z='1'>" } else { "<r z='1'>" });
    let n = SIZES[choice(9)];
    let a = ACTS[choice(8)];
    let b = letter();
    match kind {
        0 => {
            d.s("<c>");
            for _ in 0..n {
                d.s("<e>");
            }
            d.c(b);
            for _ in 0..n {
                d.s("</e>");
            }
            d.s("</c>");
        }
        1 => {
            d.s("<c>");
            for i in 0..n {
                d.s(if i % 3 == 0 { "<c>x</c>" } else { "<e/>" });
            }
            d.c(b).s("</c>");
        }
        2 => {
            d.s("<c");
            for i in 0..n {
                d.s(" k").c(b'a' + (i % 26) as u8).c(b'a' + (i / 26) as u8).s("='x'");
            }
            d.s("><e/>").c(b).s("</c>");
        }
        _ => {
            d.s("<c>").c(b);
            for _ in 0..n {
                d.s("<?p?>x");
            }
            d.s("<e/></c>");
        }
    }
    d.s("<m n='1'>end<o/></m>");
    let mut m = Node::new("", "m");
    m.attrs.push(("".into(), "n".into(), "1".into()));
    m.text("end");
    m.child(Node::new("", "o"));
    let want = vec![Seen::Attr("z".into()), Seen::Elem("c".into(), if deep { 3 } else { 2 }), Seen::Tree(m)];
    d.s(if deep { "</p><o>z</o></q>" } else { "</r>" });
    set_acts(vec![a]);
    let r = if deep { read::<Deep>(&d.0).map(|x| x.0) } else { read::<Root>(&d.0).map(|x| x.0) };
    match r {
        Ok(seen) => {
            check(seen == want, "the parent's events differ from its own children, after a large one");
            cover(0);
            emit(b"O");
        }
        Err(_) => check(false, "skipping a large child made the document unreadable"),
    }
}

/// Derived types skip unknown elements of any shape.
#[derive(Debug, PartialEq, Deserialize)]
struct Derived {
    a: Option<String>,
    b: Vec<DB>,
}
#[derive(Debug, PartialEq, Deserialize)]
struct DB {
    x: Option<String>,
}

fn derived(n: usize) {
    let mut d = Doc::new("<r>");
    for _ in 0..n {
        let b = letter();
        shape(&mut d, choice(7), b);
        if flag() {
            d.s("t");
        }
    }
    let b = letter();
    d.s("<b><c><x>no</x></c><x>").c(b).s("</x><x2><x/></x2></b>");
    shape(&mut d, choice(7), b);
    d.s("<a>").c(b).s("</a>");
    shape(&mut d, choice(7), b);
    d.s("</r>");
    match read::<Derived>(&d.0) {
        Ok(v) => {
            check(v.a.as_deref() == Some(str1(b).as_str()), "a field after skipped elements is wrong");
            check(v.b.len() == 1 && v.b[0].x.as_deref() == Some(str1(b).as_str()), "a nested field between skipped elements is wrong");
            cover(0);
            emit(b"O");
        }
        Err(_) => check(false, "a document with unknown elements was rejected"),
    }
}

crate::harnesses! {
    h_skip_one => run(1, false);
    h_skip_two => run(2, false);
    h_skip_three => run(3, false);
    h_skip_deep1 => run(1, true);
    h_skip_deep2 => run(2, true);
    h_skip_far_levels => far(0, false);
    h_skip_far_levels_deep => far(0, true);
    h_skip_far_children => far(1, false);
    h_skip_far_children_deep => far(1, true);
    h_skip_far_attrs => far(2, false);
    h_skip_far_texts => far(3, false);
    h_skip_derived1 => derived(1);
    h_skip_derived2 => derived(2);
}
