//! What a failed read reports: cause, position and element stack.

use crate::sym::*;
use crate::util::*;
use static_xml::de::{Deserialize, ElementReader, ElementVisitor, Error, ParseText, VisitorError};
use static_xml::{BoxedStdError, ExpandedNameRef, TextPosition};
use static_xml_derive::Deserialize;

/// A user's error type, with something to recognize the instance by.
#[derive(Debug)]
struct UserErr(u8);

impl std::fmt::Display for UserErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("user error")
    }
}
impl std::error::Error for UserErr {}

/// Text that is an error carrying its first byte when that is lower case.
#[derive(Debug, PartialEq)]
struct Picky;

impl ParseText for Picky {
    fn parse(text: String) -> Result<Self, BoxedStdError> {
        match text.as_bytes().first() {
            Some(&b) if b >= b'a' => Err(Box::new(UserErr(b))),
            _ => Ok(Picky),
        }
    }
}

#[derive(Debug, Default, PartialEq, Deserialize)]
#[static_xml(namespace = "p: urn:p")]
struct N {
    #[static_xml(attribute)]
    a: Option<u8>,
    #[static_xml(attribute)]
    pa: Option<Picky>,
    v: Option<u8>,
    #[static_xml(prefix = "p")]
    k: Vec<N>,
    m: Option<M>,
    u: Option<Picky>,
    h: Option<Hand>,
}

#[derive(Debug, PartialEq, Deserialize)]
struct M {
    #[static_xml(attribute)]
    need: u8,
    must: String,
}

/// A hand-written visitor that fails where it is told to by the content.
#[derive(Debug, PartialEq)]
struct Hand;

struct HandVisitor;

impl ElementVisitor for HandVisitor {
    fn attribute(&mut self, name: &ExpandedNameRef<'_>, value: String) -> Result<Option<String>, VisitorError> {
        if name.local_name == "bad" {
            return Err(VisitorError::Wrap(Box::new(UserErr(value.as_bytes()[0]))));
        }
        Ok(Some(value))
    }
    fn element<'a>(&mut self, child: ElementReader<'a>) -> Result<Option<ElementReader<'a>>, VisitorError> {
        match child.expanded_name().local_name {
            "bad" => Err(VisitorError::Wrap(Box::new(UserErr(1)))),
            "late" => {
                // Fails once the child has been read.
                Hand::deserialize(child)?;
                Err(VisitorError::Wrap(Box::new(UserErr(2))))
            }
            "deep" => {
                Hand::deserialize(child)?;
                Ok(None)
            }
            _ => Ok(Some(child)),
        }
    }
    fn characters(&mut self, s: String, _pos: TextPosition) -> Result<Option<String>, BoxedStdError> {
        match s.as_bytes().first() {
            Some(&b) if b >= b'a' => Err(Box::new(UserErr(b))),
            _ => Ok(Some(s)),
        }
    }
}

impl Deserialize for Hand {
    fn deserialize(element: ElementReader<'_>) -> Result<Self, VisitorError> {
        element.read_to(&mut HandVisitor)?;
        Ok(Hand)
    }
}

/// A document being written, with the line and column reached (both from 0).
struct Pen {
    d: Doc,
    row: u64,
    col: u64,
    open: Vec<(&'static str, u64, u64)>,
}

impl Pen {
    fn new() -> Pen {
        Pen { d: Doc::new(""), row: 0, col: 0, open: Vec::with_capacity(16) }
    }
    fn s(&mut self, s: &str) -> &mut Pen {
        for &b in s.as_bytes() {
            if b == b'\n' {
                self.row += 1;
                self.col = 0;
            } else {
                self.col += 1;
            }
        }
        self.d.s(s);
        self
    }
    fn c(&mut self, b: u8) -> &mut Pen {
        self.col += 1;
        self.d.c(b);
        self
    }
    /// Writes `<name`.
    fn open(&mut self, name: &'static str) -> &mut Pen {
        self.open.push((name, self.row, self.col));
        self.s("<").s(name)
    }
    fn gap(&mut self, kinds: usize) {
        self.s(["", "\n", "  ", "\n \n   "][choice(kinds)]);
    }
}

fn digits(out: &mut String, n: u64) {
    if n >= 10 {
        digits(out, n / 10);
    }
    out.push((b'0' + (n % 10) as u8) as char);
}

/// What's displayed, without the numbers of the stack's lines.
fn unnumbered(shown: String) -> String {
    const HEAD: &str = "\n\nXML element stack:\n";
    let (b, h) = (shown.as_bytes(), HEAD.as_bytes());
    let mut i = b.len().saturating_sub(h.len());
    while i > 0 && &b[i..i + h.len()] != h {
        i -= 1;
    }
    if i == 0 {
        return shown;
    }
    let mut out = shown[..i + h.len()].to_owned();
    let mut number = true;
    for &c in &b[i + h.len()..] {
        number &= c != b':';
        if !number {
            out.push(c as char);
        }
        number |= c == b'\n';
    }
    out
}

fn at(out: &mut String, row: u64, col: u64) {
    out.push_str(" @ ");
    digits(out, row + 1);
    out.push(':');
    digits(out, col + 1);
}

/// Checks stack and display against the pen's open elements.
/// `pos` is where the failure itself is, if that is specified.
fn judge(e: &Error, p: &Pen, pos: Option<(u64, u64)>, msg: Option<&str>) {
    let st = e.stack();
    check(st.len() == p.open.len(), "stack does not hold exactly the open elements");
    let mut want = String::with_capacity(256);
    for (s, o) in st.iter().zip(&p.open).rev() {
        let name = s.name.borrow().repr_display().to_string();
        check(name == o.0, "stack has the wrong element name");
        check(s.pos.row == o.1 && s.pos.column == o.2, "stack has the wrong position");
        want.push_str(": <");
        want.push_str(o.0);
        want.push('>');
        at(&mut want, o.1, o.2);
        want.push('\n');
    }
    let shown = unnumbered(e.to_string());
    if p.open.is_empty() {
        return;
    }
    // "<message> @ <line>:<column>\n\nXML element stack:\n<stack>"
    let mut tail = String::with_capacity(256);
    if let Some((r, c)) = pos {
        at(&mut tail, r, c);
    }
    tail.push_str("\n\nXML element stack:\n");
    tail.push_str(&want);
    check(shown.len() > tail.len() && shown.as_bytes()[shown.len() - tail.len()..] == *tail.as_bytes(), "displayed error does not end with position and stack");
    if let Some(m) = msg {
        check(shown.len() >= m.len() && &shown.as_bytes()[..m.len()] == m.as_bytes(), "displayed error does not start with its cause");
        if pos.is_some() {
            check(shown.len() == m.len() + tail.len(), "displayed error has something besides cause, position and stack");
        }
    }
    emit(shown.as_bytes());
}

fn user(e: &Error, code: u8) {
    use std::error::Error;
    check(matches!(e.source().and_then(|s| s.downcast_ref::<UserErr>()), Some(u) if u.0 == code), "the user's error is not the error's source");
}

const KS: [&str; 2] = ["p:k", "k"];

/// A failure at the bottom of `depth` nested `k` elements.
fn nested(depth: usize, layouts: usize) {
    let mut p = Pen::new();
    if flag() {
        p.s("<?xml version='1.0'?>\n");
    }
    p.open("root").s(" xmlns:p='urn:p'>");
    for i in 0..depth {
        if layouts > 1 {
            p.gap(layouts);
        }
        match choice(4) {
            0 => {}
            1 => {
                // A sibling that has been read.
                p.s("<v>1</v>");
            }
            2 => {
                // One that has been skipped, with its content.
                p.s("<q a='1'>t<r>u</r>\n</q>");
            }
            _ => {
                p.s("<p:k><v>2</v></p:k>x");
            }
        }
        if i % 2 == 0 {
            p.open(KS[0]).s(">");
        } else {
            p.open(KS[1]).s("\n xmlns='urn:p'>");
        }
    }
    p.gap(layouts.max(2));
    // Inside an element whose default namespace is urn:p when depth is even.
    let un = " xmlns=''";
    let here = |p: &Pen| p.open.last().map(|o| (o.1, o.2));
    match choice(11) {
        0 => {
            p.open("v").s(un).s(">x</v>");
            let r = fails(&p);
            judge(&r, &p, here(&p), Some("invalid digit found in string"));
        }
        1 => {
            p.s("<v").s(un).s(">1</v>").gap(2);
            p.open("v").s(un).s(">1</v>");
            judge(&fails(&p), &p, here(&p), Some("Duplicate element v"));
        }
        2 => {
            let b = lower();
            p.open("u").s(un).s("> \n").s("</u>");
            p.open.pop();
            p.open("p:k").s(" pa='").c(b).s("'>");
            let r = fails(&p);
            user(&r, b);
            judge(&r, &p, here(&p), Some("user error"));
        }
        3 => {
            p.open("p:k").s(" a='256'/>");
            judge(&fails(&p), &p, here(&p), Some("number too large to fit in target type"));
        }
        4 => {
            p.open("m").s(un).s(" need='1'>").s("</m>");
            judge(&fails(&p), &p, here(&p), Some("Missing expected element must"));
        }
        5 => {
            p.open("m").s(un).s("><must/></m>");
            judge(&fails(&p), &p, here(&p), Some("Missing expected attribute need"));
        }
        6 => {
            let b = lower();
            p.open("u").s(un).s(">").c(b).s("</u>");
            let r = fails(&p);
            user(&r, b);
            judge(&r, &p, here(&p), Some("user error"));
        }
        7 => {
            // Child of a text element.
            p.open("v").s(un).s(">1");
            p.open("w").s("/>");
            judge(&fails(&p), &p, here(&p), Some("Unexpected element w in string"));
        }
        8 => {
            let b = lower();
            p.open("h").s(un).s(">").s("A<x/>");
            let (r, c) = (p.row, p.col);
            p.c(b).s("</h>");
            let e = fails(&p);
            user(&e, b);
            judge(&e, &p, Some((r, c)), Some("user error"));
        }
        9 => {
            p.open("h").s(un).s("><deep/><deep>A</deep>\n");
            p.open("deep").s(">");
            let which = choice(3);
            match which {
                0 => p.open("bad").s("/>"),
                1 => p.open("late").s("><x/></late>"),
                _ => p.open("deep").s(" bad='z'/>"),
            };
            let e = fails(&p);
            user(&e, [1, 2, b'z'][which]);
            judge(&e, &p, here(&p), Some("user error"));
        }
        _ => {
            // Malformed: the open elements are still known.
            p.open("h").s(un).s(">");
            p.s(["</x>", "&nope;", "<", "<a b>"][choice(4)]);
            let e = fails(&p);
            judge(&e, &p, None, None);
            use std::error::Error;
            check(e.source().is_some(), "a syntax error has a source");
        }
    }
    cover(0);
}

/// A failure far down: many levels, lines or columns, or after many siblings.
fn far() {
    let mut p = Pen::new();
    let n = [9, 10, 99, 100, 127, 128, 255, 256, 257, 300][choice(10)];
    p.open("root").s(" xmlns='urn:p' xmlns:p='urn:p'>");
    match choice(5) {
        0 => {
            for _ in 0..n {
                p.open("k").s(">");
            }
        }
        1 => {
            for _ in 0..n {
                p.s("\n");
            }
        }
        2 => {
            for _ in 0..n {
                p.s(" ");
            }
        }
        3 => {
            for i in 0..n {
                p.s(if i % 2 == 0 { "<k/>" } else { "<q>x</q>\n" });
            }
        }
        _ => {
            p.s("<q");
            for i in 0..n {
                p.s(" a").s(&i.to_string()).s("='1'");
            }
            p.s("/>");
        }
    }
    let here = |p: &Pen| p.open.last().map(|o| (o.1, o.2));
    match choice(5) {
        0 => {
            p.open("v").s(" xmlns=''>x</v>");
            judge(&fails(&p), &p, here(&p), Some("invalid digit found in string"));
        }
        1 => {
            let b = lower();
            p.open("p:k").s(" pa='").c(b).s("'>");
            let r = fails(&p);
            user(&r, b);
            judge(&r, &p, here(&p), Some("user error"));
        }
        2 => {
            p.open("m").s(" xmlns=''><must/></m>");
            judge(&fails(&p), &p, here(&p), Some("Missing expected attribute need"));
        }
        3 => {
            let b = lower();
            p.open("h").s(" xmlns=''>A<x/>");
            let (r, c) = (p.row, p.col);
            p.c(b).s("</h>");
            let e = fails(&p);
            user(&e, b);
            judge(&e, &p, Some((r, c)), Some("user error"));
        }
        _ => {
            p.open("k").s("></x>");
            let e = fails(&p);
            judge(&e, &p, None, None);
            use std::error::Error;
            check(e.source().is_some(), "a syntax error has a source");
        }
    }
    cover(0);
}

/// Positions past every small integer type's end.
fn beyond() {
    let mut p = Pen::new();
    let n = [65534, 65535, 65536, 70000][choice(4)];
    let s = [" ", "\n"][choice(2)].repeat(n);
    p.open("root").s(">").s(&s);
    p.open("h").s(">");
    let (r, c) = (p.row, p.col);
    let b = lower();
    p.c(b).s("</h>");
    let e = fails(&p);
    user(&e, b);
    judge(&e, &p, Some((r, c)), Some("user error"));
    cover(0);
}

fn fails(p: &Pen) -> Error {
    match read::<N>(&p.d.0) {
        Ok(_) => {
            check(false, "invalid document accepted");
            unreachable!()
        }
        Err(e) => e,
    }
}

/// Failures of the root element itself.
fn root() {
    let mut p = Pen::new();
    p.gap(2);
    match choice(5) {
        0 => {
            p.open("m").s(" need='x'><must/></m>");
            let e = read::<M>(&p.d.0).err();
            check(e.is_some(), "accepted");
            judge(&e.unwrap(), &p, Some((p.open[0].1, p.open[0].2)), Some("invalid digit found in string"));
        }
        1 => {
            p.open("m").s(" need='1'>\n</m>");
            let e = read::<M>(&p.d.0).err();
            check(e.is_some(), "accepted");
            judge(&e.unwrap(), &p, None, Some("Missing expected element must"));
        }
        2 => {
            let b = lower();
            p.open("u").s(">").c(b).s("</u>");
            let e = read::<Picky>(&p.d.0).err();
            check(e.is_some(), "accepted");
            let e = e.unwrap();
            user(&e, b);
            judge(&e, &p, None, Some("user error"));
        }
        3 => {
            let b = lower();
            p.open("h").s(" bad='").c(b).s("'/>");
            let e = read::<Hand>(&p.d.0).err();
            check(e.is_some(), "accepted");
            let e = e.unwrap();
            user(&e, b);
            judge(&e, &p, Some((p.open[0].1, p.open[0].2)), Some("user error"));
        }
        _ => {
            // Nothing is open before the root or after it.
            p.s(["x", "", "<h/>x", "<h/><h/>"][choice(4)]);
            let e = read::<Hand>(&p.d.0).err();
            check(e.is_some(), "accepted");
            judge(&e.unwrap(), &p, None, None);
        }
    }
    cover(0);
}

/// A truncated document leaves exactly the open elements on the stack.
fn truncated() {
    let full: &[u8] = b"<r><a><b c='1'>t</b><d/>u</a><e/>v<f><g/></f></r>";
    // (offset after which, number of open elements) for whole tags.
    let n = choice(full.len());
    let mut depth = 0usize;
    let mut i = 0;
    while i < n {
        if full[i] == b'<' {
            // The tag must be complete to count.
            let mut j = i;
            while full[j] != b'>' {
                j += 1;
            }
            if j >= n {
                break;
            }
            if full[i + 1] == b'/' {
                depth -= 1;
            } else {
                depth += 1;
                if full[j - 1] == b'/' {
                    depth -= 1;
                }
            }
            i = j;
        }
        i += 1;
    }
    match read::<Hand0>(&full[..n]) {
        Ok(_) => check(false, "truncated document accepted"),
        Err(e) => {
            check(e.stack().len() == depth, "stack is not the open elements of a truncated document");
            check(!e.to_string().is_empty(), "no message");
            cover(0);
        }
    }
}

/// Reads everything by visitor.
struct Hand0;
struct Hand0Visitor;
impl ElementVisitor for Hand0Visitor {
    fn element<'a>(&mut self, child: ElementReader<'a>) -> Result<Option<ElementReader<'a>>, VisitorError> {
        Hand0::deserialize(child)?;
        Ok(None)
    }
}
impl Deserialize for Hand0 {
    fn deserialize(element: ElementReader<'_>) -> Result<Self, VisitorError> {
        element.read_to(&mut Hand0Visitor)?;
        Ok(Hand0)
    }
}

crate::harnesses! {
    h_errors_depth0 => nested(0, 4);
    h_errors_depth1 => nested(1, 4);
    h_errors_depth2 => nested(2, 4);
    h_errors_depth3 => nested(3, 1);
    h_errors_depth4 => nested(4, 1);
    h_errors_depth6 => nested(6, 1);
    h_errors_far => far();
    h_errors_beyond => beyond();
    h_errors_root => root();
    h_errors_truncated => truncated();
}
