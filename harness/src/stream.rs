//! Reading does not depend on how the source delivers its bytes.

use crate::sym::*;
use crate::util::*;
use static_xml::de::{Deserialize, ElementReader, ElementVisitor, VisitorError};
use static_xml::TextPosition;
use static_xml_derive::{Deserialize, ParseText};
use std::error::Error as _;
use std::io::{ErrorKind, Read};

/// A source that delivers `data` as told.
struct Source {
    data: Vec<u8>,
    pos: usize,
    /// The most bytes a call gives.
    most: usize,
    /// Positions no call reads across.
    cuts: Vec<usize>,
    /// Positions at which calls are interrupted, and how often.
    stops: Vec<(usize, usize)>,
    /// Where the source fails.
    fail: Option<(usize, ErrorKind)>,
    calls: usize,
}

impl Source {
    fn new(data: &[u8]) -> Source {
        Source { data: data.to_vec(), pos: 0, most: usize::MAX, cuts: Vec::new(), stops: Vec::new(), fail: None, calls: 0 }
    }
}

impl Read for Source {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        self.calls += 1;
        for (p, n) in &mut self.stops {
            if *p == self.pos && *n > 0 {
                *n -= 1;
                return Err(ErrorKind::Interrupted.into());
            }
        }
        let mut end = self.data.len();
        if let Some((p, k)) = self.fail {
            if self.pos == p {
                return Err(k.into());
            }
            end = end.min(p);
        }
        for c in &self.cuts {
            if *c > self.pos {
                end = end.min(*c);
            }
        }
        for (p, _) in &self.stops {
            if *p > self.pos {
                end = end.min(*p);
            }
        }
        let n = buf.len().min(self.most).min(end - self.pos);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

#[derive(Debug, PartialEq, Deserialize)]
#[static_xml(namespace = "p: urn:p")]
struct Z {
    #[static_xml(attribute)]
    a: Option<String>,
    #[static_xml(attribute, default)]
    c: bool,
    s: Option<String>,
    #[static_xml(prefix = "p")]
    ps: Vec<i16>,
    n: Vec<Sub>,
    #[static_xml(default)]
    e: Kind,
    #[static_xml(flatten)]
    ch: Ch,
}

#[derive(Debug, PartialEq, Deserialize)]
struct Sub {
    #[static_xml(attribute)]
    x: Option<u8>,
    y: Option<String>,
}

#[derive(Debug, PartialEq, Default, ParseText)]
#[static_xml(mode = "restriction", whitespace = "collapse")]
enum Kind {
    #[default]
    A,
    #[static_xml(rename = "b c")]
    B,
}

#[derive(Debug, PartialEq, Deserialize)]
enum Ch {
    #[static_xml(rename = "u")]
    U,
    #[static_xml(rename = "v")]
    V(Vec<u8>),
}

/// Carries on after errors in its children.
#[derive(Debug, PartialEq)]
struct Careless(usize, String);

impl ElementVisitor for Careless {
    fn element<'a>(&mut self, child: ElementReader<'a>) -> Result<Option<ElementReader<'a>>, VisitorError> {
        self.0 += 1;
        match self.0 % 3 {
            0 => return Ok(Some(child)),
            1 => drop(Careless::deserialize(child)),
            _ => drop(child.read_string()),
        }
        Ok(None)
    }
    fn characters(&mut self, s: String, _pos: TextPosition) -> Result<Option<String>, static_xml::BoxedStdError> {
        self.1.push_str(&s);
        Ok(None)
    }
}

impl Deserialize for Careless {
    fn deserialize(element: ElementReader<'_>) -> Result<Self, VisitorError> {
        let mut v = Careless(0, String::new());
        element.read_to(&mut v)?;
        Ok(v)
    }
}

/// Takes nothing at all.
#[derive(Debug, PartialEq)]
struct Nothing;

impl Deserialize for Nothing {
    fn deserialize(_element: ElementReader<'_>) -> Result<Self, VisitorError> {
        Ok(Nothing)
    }
}

struct Tree2(Tree);
impl PartialEq for Tree2 {
    fn eq(&self, o: &Tree2) -> bool {
        self.0 .0 == o.0 .0
    }
}
impl Deserialize for Tree2 {
    fn deserialize(element: ElementReader<'_>) -> Result<Self, VisitorError> {
        Ok(Tree2(Tree::deserialize(element)?))
    }
}

const FULL: &str = "<?xml version=\"1.0\" encoding=\"utf-8\"?><!-- c --><z a='&lt;\u{e9}' c=\"true\"><?pi x?><s>a&amp;\u{20ac}&#x41;<![CDATA[<]]>\u{1f600}b</s><p:ps xmlns:p='urn:p'> 12 </p:ps><n x='1'><y/></n><skip><n>q</n></skip>\n<v>1</v><e> b  c</e></z>";
const BAD: &str = "<z a='1'><s>\u{e9}</s><n x='12'/><n x='1x'><y>t</y></n><u/></z>";
const DUP: &str = "<z><u/>\r\n<s>1</s><skip k=\"\"/><s>2</s></z>";
const TORN: &str = "<z><u/><s>1</s><skip>\u{20ac}</skap></z>";
const AFTER: &str = "<z><u/></z><!-- e --> <?pi?>\n ";
const TRASH: &str = "<z><u/></z> x";
const BYTES: &[u8] = b"<z><u/><s>\xe2\x82\xff</s></z>";
const SHORT: &[u8] = b"<z><u/><s>\xe2\x82";

const DOCS: [&[u8]; 8] =
    [FULL.as_bytes(), BAD.as_bytes(), DUP.as_bytes(), TORN.as_bytes(), AFTER.as_bytes(), TRASH.as_bytes(), BYTES, SHORT];

fn same<T: Deserialize + PartialEq>(doc: &[u8], s: Source, what: &str) {
    let whole = read::<T>(doc);
    let parts: ReadResult<T> = static_xml::read(s);
    match (whole, parts) {
        (Ok(a), Ok(b)) => {
            check(a == b, what);
            cover(0);
            emit(b"O");
        }
        (Err(a), Err(b)) => {
            let b = b.to_string();
            check(a.to_string() == b, what);
            cover(1);
            emit(b.as_bytes());
        }
        _ => check(false, what),
    }
}

fn same_as<T: Deserialize + PartialEq>(ty: usize, doc: &[u8], s: Source, what: &str) {
    let _ = std::marker::PhantomData::<T>;
    match ty {
        0 => same::<T>(doc, s, what),
        1 => same::<Tree2>(doc, s, what),
        2 => same::<Careless>(doc, s, what),
        _ => same::<Nothing>(doc, s, what),
    }
}

fn at(n: usize) -> usize {
    let p = choice(n / 16 + 1) * 16 + choice(16);
    assume(p < n);
    p
}

/// Chunks of one size.
fn chunks() {
    let doc = DOCS[choice(DOCS.len())];
    let mut s = Source::new(doc);
    s.most = 1 + choice(7);
    same_as::<Z>(choice(4), doc, s, "chunks change the result");
}

/// One or two cuts and interruptions anywhere.
fn pieces(cuts: usize, stops: usize, which: usize) {
    let doc = DOCS[which];
    let mut s = Source::new(doc);
    for _ in 0..cuts {
        s.cuts.push(at(doc.len() + 1));
    }
    for i in 0..stops {
        s.stops.push((at(doc.len() + 1), if i == 0 { 1 + choice(3) } else { 1 }));
    }
    same_as::<Z>(if cuts + stops > 1 { 0 } else { choice(4) }, doc, s, "cuts or interruptions change the result");
}

/// A failure anywhere before the end of the root.
fn failing(ty: usize) {
    let (doc, end) = match choice(3) {
        0 => (FULL.as_bytes(), FULL.len()),
        1 => (DUP.as_bytes(), 0),
        _ => (AFTER.as_bytes(), "<z><u/></z>".len()),
    };
    // The others are errors by themselves, of one or the other kind.
    let end = if end == 0 { "<z><u/>\r\n<s>1</s><skip k=\"\"/><s>".len() } else { end };
    let mut s = Source::new(doc);
    let kind = [ErrorKind::Other, ErrorKind::WouldBlock, ErrorKind::UnexpectedEof, ErrorKind::TimedOut, ErrorKind::InvalidData][choice(5)];
    s.fail = Some((at(end), kind));
    if flag() {
        s.most = 1;
    }
    failed(ty, s, Some(kind));
}

fn failed(ty: usize, s: Source, kind: Option<ErrorKind>) {
    let e = match ty {
        0 => static_xml::read::<_, Z>(s).err(),
        1 => static_xml::read::<_, Tree2>(s).err(),
        2 => static_xml::read::<_, Careless>(s).err(),
        _ => static_xml::read::<_, Nothing>(s).err(),
    };
    match e {
        None => check(false, "a value from a source that failed or ended early"),
        Some(e) => {
            cover(2);
            let t = e.to_string();
            if let Some(kind) = kind {
                match e.source().and_then(|e| e.downcast_ref::<std::io::Error>()) {
                    Some(io) => check(io.kind() == kind, "another I/O error is reported"),
                    None => check(false, "the I/O error is not the source of the error reported"),
                }
            }
            emit(t.as_bytes());
        }
    }
}

/// The end anywhere before that of the root.
fn truncated(ty: usize) {
    let (doc, end) = match choice(2) {
        0 => (FULL.as_bytes(), FULL.len()),
        _ => (AFTER.as_bytes(), "<z><u/></z>".len()),
    };
    let n = at(end);
    let mut s = Source::new(&doc[..n]);
    if flag() {
        s.most = 1;
    }
    failed(ty, s, None);
}

/// Free characters, and cuts around them.
fn free(n: usize, cuts: usize, ty: usize) {
    let mut d = Doc::new("<z a='");
    if n > 2 {
        d.c(byte());
    }
    d.s("'><u/><s>x");
    let m = d.0.len();
    for _ in 0..n.min(2) {
        d.c(byte());
    }
    d.s("</s></z>");
    let mut s = Source::new(&d.0);
    for _ in 0..cuts {
        s.cuts.push(m - 1 + choice(n + 3));
    }
    if flag() {
        s.stops.push((m + choice(n + 1), 1));
    }
    same_as::<Z>(ty, &d.0, s, "cuts or interruptions change the result");
}

/// A failure of a source at a free position.
fn free_fail(n: usize) {
    let mut d = Doc::new("<z><u/><s>");
    let m = d.0.len();
    for _ in 0..n {
        d.c(plain());
    }
    d.s("</s><n/></z>");
    let p = byte() as usize;
    assume(p < d.0.len());
    let mut s = Source::new(&d.0);
    s.most = 1;
    s.stops.push((m + choice(n + 1), 2));
    s.fail = Some((0, ErrorKind::Other));
    // Which position is decided as the source gets there.
    struct At(Source, usize);
    impl Read for At {
        fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
            self.0.fail = (self.0.pos == self.1).then_some((self.1, ErrorKind::Other));
            self.0.read(b)
        }
    }
    let r: ReadResult<Z> = static_xml::read(At(s, p));
    check(r.is_err(), "a value from a source that failed or ended early");
    cover(2);
}

/// Documents longer than any buffer.
fn long(n: usize) {
    let mut d = Doc::new("<z><u/><s>");
    for i in 0..n {
        d.c(b'a' + (i % 26) as u8);
    }
    d.s("\u{20ac}</s><p:ps xmlns:p='urn:p'>7</p:ps></z>");
    let m = d.0.len();
    let mut s = Source::new(&d.0);
    s.cuts.push(m - 1 - choice(30));
    s.stops.push((m - 1 - choice(30), 1));
    s.most = [usize::MAX, 64, 1000][choice(3)];
    same_as::<Z>(choice(4), &d.0, s, "cuts or interruptions change the result");
}

crate::harnesses! {
    h_stream_chunks => chunks();
    h_stream_full => pieces(1, 0, 0);
    h_stream_full_stop => pieces(0, 1, 0);
    h_stream_bad => pieces(1, 1, 1);
    h_stream_dup => pieces(1, 1, 2);
    h_stream_torn => pieces(1, 1, 3);
    h_stream_after => pieces(1, 1, 4);
    h_stream_trash => pieces(2, 1, 5);
    h_stream_bytes => pieces(1, 1, 6);
    h_stream_short => pieces(1, 1, 7);
    h_stream_full2 => pieces(1, 1, 0);
    h_stream_fail_derived => failing(0);
    h_stream_fail_tree => failing(1);
    h_stream_fail_careless => failing(2);
    h_stream_fail_nothing => failing(3);
    h_stream_cut_derived => truncated(0);
    h_stream_cut_tree => truncated(1);
    h_stream_cut_careless => truncated(2);
    h_stream_cut_nothing => truncated(3);
    h_stream_free1 => free(1, 1, 0);
    h_stream_free2 => free(2, 1, 0);
    h_stream_free2_tree => free(2, 1, 1);
    h_stream_free3 => free(3, 1, 0);
    h_stream_free_fail => free_fail(2);
    h_stream_long => long(300);
    h_stream_long2 => long(9000);
}
