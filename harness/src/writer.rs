//! Serializing succeeds only if the whole document was written.

use crate::sym::*;
use crate::util::*;
use static_xml::ser::{ElementBuilder, ElementWriter, Error, Serialize, SerializeField, ToText};
use static_xml::ExpandedNameRef;
use static_xml_derive::Serialize;
use std::cell::{Cell, RefCell};
use std::io::{ErrorKind, Write};

fn name(local: &'static str) -> ExpandedNameRef<'static> {
    ExpandedNameRef { namespace: "", local_name: local }
}

#[derive(Clone, Copy, PartialEq)]
enum Act {
    /// Takes all it's offered.
    All,
    /// Takes only some bytes.
    Short(usize),
    Interrupt,
    Fail(ErrorKind),
    /// Takes nothing, for good.
    Full,
}

/// A writer that acts up at chosen calls or after a chosen number of bytes.
struct Sink {
    out: Vec<u8>,
    calls: usize,
    /// What the calls with these numbers do.
    plan: Vec<(usize, Act)>,
    /// The most bytes a call takes.
    most: usize,
    /// What happens after this many bytes.
    limit: Option<(usize, Act)>,
    dead: bool,
}

impl Sink {
    fn new() -> Sink {
        Sink { out: Vec::with_capacity(512), calls: 0, plan: Vec::new(), most: usize::MAX, limit: None, dead: false }
    }
}

impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        check(!self.dead, "write after a write failed");
        if b.is_empty() {
            return Ok(0);
        }
        let k = self.calls;
        self.calls += 1;
        let mut act = Act::All;
        for (i, a) in &self.plan {
            if *i == k {
                act = *a;
            }
        }
        let mut n = b.len().min(self.most);
        if let Some((l, a)) = self.limit {
            n = n.min(l - self.out.len());
            if n == 0 {
                act = a;
            }
        }
        match act {
            Act::All => {}
            Act::Short(m) => n = n.min(m),
            Act::Interrupt => return Err(ErrorKind::Interrupted.into()),
            Act::Fail(e) => {
                self.dead = true;
                return Err(e.into());
            }
            Act::Full => {
                self.dead = true;
                return Ok(0);
            }
        }
        self.out.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// An element that carries on whatever errors it gets, if `deaf`.
struct Deaf<'a> {
    deaf: bool,
    v: &'a Sample,
}

#[derive(Debug, Clone, PartialEq, Serialize)]
struct Sample {
    #[static_xml(attribute)]
    a: String,
    x: String,
    many: Vec<Inner>,
    e: Option<String>,
}

#[derive(Debug, Clone, PartialEq, Serialize)]
#[static_xml(namespace = "i: urn:i")]
struct Inner {
    #[static_xml(attribute)]
    k: u8,
    #[static_xml(prefix = "i")]
    z: Vec<u8>,
}

fn small() -> Sample {
    Sample { a: "<".into(), x: "b".into(), many: vec![], e: None }
}

fn sample() -> Sample {
    Sample {
        a: "<'\">".into(),
        x: "a&b".into(),
        many: vec![Inner { k: 1, z: vec![3, 4] }, Inner { k: 2, z: vec![] }],
        e: Some(String::new()),
    }
}

impl Serialize for Deaf<'_> {
    fn write_attributes(&self, b: &mut ElementBuilder) -> Result<(), Error> {
        let r = b.attribute(name("d"), "x".into());
        if self.deaf {
            Ok(())
        } else {
            r
        }
    }
    fn write_children(&self, w: &mut ElementWriter) -> Result<(), Error> {
        for i in 0..if self.v.many.is_empty() { 1 } else { 2 } {
            let r = w.text("some <text>");
            if !self.deaf {
                r?;
            }
            let r = self.v.write(w, name(if i == 0 { "one" } else { "two" }));
            if !self.deaf {
                r?;
            }
        }
        Ok(())
    }
}

fn reference(e: &dyn Serialize) -> (Vec<u8>, usize) {
    let mut s = Sink::new();
    check(static_xml::serialize_with_name(e, name("root")).to(&mut s).is_ok(), "nothing wrong, but not written");
    match static_xml::serialize_with_name(e, name("root")).to_string() {
        Ok(t) => check(t.as_bytes() == &s.out[..], "to_string and to differ"),
        Err(_) => check(false, "to_string fails"),
    }
    (s.out, s.calls)
}

fn hard() -> Act {
    match choice(4) {
        0 => Act::Full,
        1 => Act::Fail(ErrorKind::BrokenPipe),
        2 => Act::Fail(ErrorKind::WouldBlock),
        _ => Act::Fail(ErrorKind::Other),
    }
}

fn soft() -> Act {
    match choice(3) {
        0 => Act::Interrupt,
        1 => Act::Short(1),
        _ => Act::Short(3),
    }
}

/// One run: `want` is what has to arrive, `ok` whether it all does.
fn run(e: &dyn Serialize, s: &mut Sink, want: &[u8], ok: bool) {
    let r = static_xml::serialize_with_name(e, name("root")).to(&mut *s);
    if ok {
        check(r.is_ok(), "failed though no write did");
        check(s.out == want, "other bytes written");
        cover(0);
    } else {
        check(r.is_err(), "success though a write failed");
        check(want.starts_with(&s.out) && s.out.len() < want.len(), "other bytes written before the failure");
        cover(1);
    }
    emit(&s.out);
}

/// A failure at any call, any `softs` harmless events before.
fn fault(softs: usize, deaf: bool) {
    let v = if softs > 0 { small() } else { sample() };
    let e = Deaf { deaf, v: &v };
    let (want, calls) = reference(&e);
    let mut s = Sink::new();
    let mut at = 0;
    for _ in 0..softs {
        at += choice(calls - at);
        s.plan.push((at, soft()));
        at += 1;
    }
    if at < calls {
        let fail = at + choice(calls - at + 1);
        if fail < calls {
            s.plan.push((fail, hard()));
            return run(&e, &mut s, &want, false);
        }
    }
    run(&e, &mut s, &want, true)
}

/// Any characters, and a failure at the call that a free variable gives.
fn content(n: usize) {
    let mut v = small();
    for t in [&mut v.a, &mut v.x] {
        t.clear();
        for _ in 0..n {
            let b = byte();
            assume((b >= 0x20) & (b < 0x7f));
            t.push_str(&str1(b));
        }
    }
    let e = Deaf { deaf: flag(), v: &v };
    let (want, calls) = reference(&e);
    let at = byte() as usize;
    let mut s = Sink::new();
    s.plan.push((at, Act::Fail(ErrorKind::Other)));
    run(&e, &mut s, &want, at >= calls)
}

/// Room for any number of bytes.
fn room(deaf: bool) {
    let v = sample();
    let e = Deaf { deaf, v: &v };
    let (want, _) = reference(&e);
    let mut s = Sink::new();
    let n = choice(want.len() / 16 + 1) * 16 + choice(16);
    assume(n <= want.len());
    s.limit = Some((n, if flag() { Act::Full } else { Act::Fail(ErrorKind::Other) }));
    run(&e, &mut s, &want, n == want.len());
}

/// Every call takes a few bytes only.
fn trickle(deaf: bool) {
    let v = sample();
    let e = Deaf { deaf, v: &v };
    let (want, _) = reference(&e);
    let mut s = Sink::new();
    s.most = 1 + choice(9);
    for _ in 0..2 {
        s.plan.push((choice(12) * 7, Act::Interrupt));
    }
    run(&e, &mut s, &want, true);
}

/// A program of a few steps at several depths, some of which abuse the API.
struct Program {
    steps: usize,
    /// What the program's document is, as long as nothing is abused.
    want: RefCell<Vec<u8>>,
    /// Whether it has been abused.
    bad: Cell<bool>,
    left: Cell<usize>,
    attributes: bool,
}

/// Fails to become text.
struct NoText;
impl ToText for NoText {
    fn to_text(&self) -> Result<String, Error> {
        Err(Error("no".into()))
    }
}

/// Fails among its attributes.
struct NoAttrs;
impl Serialize for NoAttrs {
    fn write_attributes(&self, b: &mut ElementBuilder) -> Result<(), Error> {
        b.attribute(name("k"), "v".into())?;
        Err(Error("no".into()))
    }
}

/// Fails among its children.
struct NoKids;
impl Serialize for NoKids {
    fn write_children(&self, w: &mut ElementWriter) -> Result<(), Error> {
        w.text("t")?;
        Err(Error("no".into()))
    }
}

impl Program {
    fn put(&self, s: &str) {
        self.want.borrow_mut().extend_from_slice(s.as_bytes());
    }
    /// Ends a start tag without content.
    fn undo(&self, s: &str) {
        let mut w = self.want.borrow_mut();
        let n = w.len() - s.len();
        w.truncate(n);
    }
    fn expect(&self, r: Result<(), Error>) {
        if self.bad.get() {
            check(r.is_err(), "step succeeds on a broken document");
        } else {
            check(r.is_ok(), "proper step fails");
        }
    }
    fn abuse(&self) {
        self.bad.set(true);
    }
    /// Runs steps inside an element, none of whose results are passed on.
    fn body(&self, w: &mut ElementWriter) {
        while self.left.get() > 0 {
            self.left.set(self.left.get() - 1);
            match choice(10) {
                0 => return,
                1 => {
                    self.put("t&lt;");
                    self.expect(w.text("t<"))
                }
                2 => {
                    // A child of any content.
                    let mut b = w.element(name("c"));
                    check(b.attribute(name("k"), "v".into()).is_ok(), "proper attribute refused");
                    self.put("<c k=\"v\">");
                    let mark = self.want.borrow().len();
                    match b.start() {
                        Ok(mut c) => {
                            check(!self.bad.get(), "element started on a broken document");
                            self.body(&mut c);
                            if self.want.borrow().len() == mark {
                                self.undo(">");
                                self.put(" />");
                            } else {
                                self.put("</c>");
                            }
                            self.expect(c.finish());
                        }
                        Err(_) => check(self.bad.get(), "proper element can't start"),
                    }
                }
                3 => {
                    // A child that's never started.
                    let mut b = w.element(name("c"));
                    let _ = b.attribute(name("k"), "v".into());
                    drop(b);
                    self.abuse();
                }
                4 => {
                    // A child that's never finished.
                    if let Ok(mut c) = w.element(name("c")).start() {
                        if flag() {
                            let _ = c.text("x");
                        }
                    }
                    self.abuse();
                }
                5 => {
                    let r = NoText.write(w, name("c"));
                    check(r.is_err(), "failed conversion written");
                    self.abuse();
                }
                6 => {
                    check(NoAttrs.write(w, name("c")).is_err(), "failed attribute written");
                    self.abuse();
                }
                7 => {
                    check(NoKids.write(w, name("c")).is_err(), "failed element written");
                    self.abuse();
                }
                8 => {
                    self.put("<c>9</c><c>8</c>");
                    self.expect(vec![9u8, 8].write(w, name("c")));
                }
                _ => {
                    // A document that fails doesn't concern this one.
                    check(static_xml::serialize_with_name(&NoKids, name("r")).to_string().is_err(), "other document written");
                    check(None::<u8>.write(w, name("c")).is_ok(), "nothing not written");
                }
            }
        }
    }
}

impl Serialize for Program {
    fn write_attributes(&self, b: &mut ElementBuilder) -> Result<(), Error> {
        if self.attributes {
            check(b.attribute(name("a"), "v".into()).is_ok(), "attribute refused");
            self.put(" a=\"v\"");
            if flag() {
                // Refused, and without effect if carried on.
                check(b.attribute(name("a"), "w".into()).is_err(), "attribute given twice");
                check(SerializeAttrs::twice(b).is_err(), "attribute given three times");
            }
            if flag() {
                self.abuse();
                return Err(Error("no".into()));
            }
        }
        Ok(())
    }
    fn write_children(&self, w: &mut ElementWriter) -> Result<(), Error> {
        check(!self.bad.get(), "children written after attributes failed");
        self.put(">");
        self.left.set(self.steps);
        self.body(w);
        if flag() {
            self.abuse();
            return Err(Error("no".into()));
        }
        Ok(())
    }
}

struct SerializeAttrs;
impl SerializeAttrs {
    fn twice(b: &mut ElementBuilder) -> Result<(), Error> {
        use static_xml::ser::SerializeAttr;
        SerializeAttr::write(&Some(5u8), b, name("a"))
    }
}

fn misuse(steps: usize, attributes: bool) {
    let p = Program {
        steps,
        want: RefCell::new(Vec::with_capacity(512)),
        bad: Cell::new(false),
        left: Cell::new(0),
        attributes,
    };
    p.put("<root");
    let r = {
        let s = static_xml::serialize_with_name(&p, name("root")).write_document_declaration(false);
        s.to_string()
    };
    match r {
        Ok(d) => {
            check(!p.bad.get(), "success for a broken document");
            if p.want.borrow().last() == Some(&b'>') && p.want.borrow().iter().filter(|b| **b == b'<').count() == 1 {
                p.undo(">");
                p.put(" />");
            } else {
                p.put("</root>");
            }
            check(d.as_bytes() == &p.want.borrow()[..], "document is not what the steps wrote");
            check(read::<Tree>(d.as_bytes()).is_ok(), "document is not well-formed");
            cover(0);
            emit(d.as_bytes());
        }
        Err(_) => {
            check(p.bad.get(), "proper document fails");
            cover(1);
            emit(b"fails");
        }
    }
}

/// A deeply nested element fails; each level either passes the error on or not.
struct Deep {
    depth: usize,
    /// How it fails at the bottom, 0 not at all.
    how: usize,
    passes: Vec<bool>,
}

impl Serialize for Deep {
    fn write_children(&self, w: &mut ElementWriter) -> Result<(), Error> {
        w.text("x")?;
        if self.depth == 0 {
            match self.how {
                0 => return Ok(()),
                1 => return Err(Error("no".into())),
                2 => drop(w.element(name("c"))),
                3 => drop(w.element(name("c")).start()),
                _ => {
                    let _ = NoText.write(w, name("c"));
                }
            }
            return Ok(());
        }
        let mut p = self.passes.clone();
        let pass = p.pop().unwrap_or(true);
        let d = Deep { depth: self.depth - 1, how: self.how, passes: p };
        let r = d.write(w, name("d"));
        check(r.is_ok() == (self.how == 0), "failure inside is not reported outside");
        if pass {
            r?;
        }
        let r = w.text("y");
        check(r.is_ok() == (self.how == 0), "text after a failure");
        if pass {
            r?;
        }
        Ok(())
    }
}

fn deep(max: usize) {
    let depth = 1 + if max < 100 { choice(max) } else { max - choice(4) };
    let how = choice(5);
    let d = Deep { depth, how, passes: (0..depth).map(|i| how == 0 || if max < 100 { flag() } else { i % 3 == 0 }).collect() };
    let r = static_xml::serialize_with_name(&d, name("root")).to_string();
    check(r.is_ok() == (how == 0), "success for a broken document");
    cover(how);
    if let Ok(d) = &r {
        check(read::<Tree>(d.as_bytes()).is_ok(), "document is not well-formed");
        emit(d.as_bytes());
    }
}

/// Derived types pass on what goes wrong in any of their fields.
#[derive(Serialize)]
struct Holder {
    #[static_xml(attribute)]
    a: Option<Maybe>,
    #[static_xml(attribute)]
    b: Maybe,
    one: Maybe,
    opt: Option<Maybe>,
    many: Vec<Maybe>,
    #[static_xml(flatten)]
    alt: Alt,
    sub: Vec<Sub>,
}

#[derive(Serialize)]
struct Sub {
    #[static_xml(attribute)]
    p: Maybe,
    q: Maybe,
}

#[derive(Serialize)]
enum Alt {
    One(Maybe),
    Many(Vec<Maybe>),
    Sub(Sub),
}

struct Maybe(bool);
impl ToText for Maybe {
    fn to_text(&self) -> Result<String, Error> {
        if self.0 {
            Err(Error("no".into()))
        } else {
            Ok("m".into())
        }
    }
}

fn derived() {
    // Which value can't be written.
    let which = choice(12);
    let mut n = 0;
    let mut m = || {
        n += 1;
        Maybe(n == which)
    };
    let h = Holder {
        a: Some(m()),
        b: m(),
        one: m(),
        opt: Some(m()),
        many: vec![m(), m(), m()],
        sub: vec![Sub { p: m(), q: m() }],
        alt: match choice(3) {
            0 => Alt::One(m()),
            1 => Alt::Many(vec![m(), m()]),
            _ => Alt::Sub(Sub { p: m(), q: m() }),
        },
    };
    let bad = which != 0 && which <= n;
    let mut s = Sink::new();
    let r = static_xml::serialize_with_name(&h, name("root")).to(&mut s);
    check(r.is_ok() == !bad, "a value that can't be written is not reported");
    check(read::<Tree>(&s.out).is_ok() == !bad, "complete document exactly on success");
    cover(bad as usize);
    emit(&s.out);
}

crate::harnesses! {
    h_writer_content1 => content(1);
    h_writer_content2 => content(2);
    h_writer_fault0 => fault(0, false);
    h_writer_fault1 => fault(1, false);
    h_writer_fault2 => fault(2, false);
    h_writer_deaf0 => fault(0, true);
    h_writer_deaf1 => fault(1, true);
    h_writer_room => room(false);
    h_writer_room_deaf => room(true);
    h_writer_trickle => trickle(flag());
    h_writer_misuse2 => misuse(2, true);
    h_writer_misuse3 => misuse(3, false);
    h_writer_misuse4 => misuse(4, false);
    h_writer_misuse5 => misuse(5, false);
    h_writer_deep3 => deep(3);
    h_writer_deep130 => deep(130);
    h_writer_deep258 => deep(258);
    h_writer_deep6 => deep(6);
    h_writer_derived => derived();
}
