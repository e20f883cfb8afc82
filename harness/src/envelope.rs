//! Only a whole, well-formed document gives a value.

use crate::sym::*;
use crate::util::*;
use static_xml::de::{Deserialize, ElementReader, ElementVisitor, VisitorError};
use static_xml::TextPosition;
use static_xml_derive::Deserialize;

#[derive(Debug, PartialEq, Deserialize)]
struct H {
    #[static_xml(attribute)]
    a: Option<String>,
    s: Option<String>,
    k: Vec<K>,
    #[static_xml(flatten)]
    ch: Ch,
}

#[derive(Debug, PartialEq, Deserialize)]
struct K {
    #[static_xml(attribute)]
    x: Option<u8>,
    t: Vec<String>,
}

#[derive(Debug, PartialEq, Deserialize)]
enum Ch {
    #[static_xml(rename = "u")]
    U,
    #[static_xml(rename = "v")]
    V(Vec<String>),
}

/// Takes nothing.
#[derive(Debug, PartialEq)]
struct Nothing;

impl Deserialize for Nothing {
    fn deserialize(_e: ElementReader<'_>) -> Result<Self, VisitorError> {
        Ok(Nothing)
    }
}

/// Ignores errors in its children.
#[derive(Debug, PartialEq)]
struct Careless(usize);

impl ElementVisitor for Careless {
    fn element<'a>(&mut self, child: ElementReader<'a>) -> Result<Option<ElementReader<'a>>, VisitorError> {
        self.0 += 1;
        match self.0 % 3 {
            0 => return Ok(Some(child)),
            1 => drop(Careless::deserialize(child)),
            _ => drop(child.read_string()),
        }
        Ok(None)
    }
    fn characters(&mut self, _s: String, _pos: TextPosition) -> Result<Option<String>, static_xml::BoxedStdError> {
        Ok(None)
    }
}

impl Deserialize for Careless {
    fn deserialize(e: ElementReader<'_>) -> Result<Self, VisitorError> {
        let mut v = Careless(0);
        e.read_to(&mut v)?;
        Ok(v)
    }
}

/// Gives up on the first child.
#[derive(Debug, PartialEq)]
struct Early;

impl ElementVisitor for Early {
    fn element<'a>(&mut self, _c: ElementReader<'a>) -> Result<Option<ElementReader<'a>>, VisitorError> {
        Err(VisitorError::Wrap("enough".into()))
    }
}

impl Deserialize for Early {
    fn deserialize(e: ElementReader<'_>) -> Result<Self, VisitorError> {
        let _ = e.read_to(&mut Early);
        Ok(Early)
    }
}

/// An independent reader of the structure of a document. It's lenient about
/// characters and names.
struct Wf<'a> {
    d: &'a [u8],
    i: usize,
}

fn space(b: u8) -> bool {
    (b == b' ') | (b == b'\t') | (b == b'\n') | (b == b'\r')
}

impl<'a> Wf<'a> {
    fn at(&self, s: &str) -> bool {
        self.d[self.i..].starts_with(s.as_bytes())
    }
    fn past(&mut self, s: &str) -> bool {
        while self.i < self.d.len() {
            if self.at(s) {
                self.i += s.len();
                return true;
            }
            self.i += 1;
        }
        false
    }
    fn spaces(&mut self) {
        while self.i < self.d.len() && space(self.d[self.i]) {
            self.i += 1;
        }
    }
    /// A comment or processing instruction: complete, broken, or not one.
    fn misc(&mut self) -> Option<bool> {
        if self.at("<!--") {
            self.i += 4;
            let a = self.i;
            let ok = self.past("-->");
            // xml-rs ends `<!-- <!--->` early.
            assume(!self.d[a..self.i].windows(4).any(|w| w == b"<!--"));
            Some(ok)
        } else if self.at("<?") {
            self.i += 2;
            Some(self.past("?>"))
        } else {
            None
        }
    }
    fn miscs(&mut self) -> bool {
        loop {
            self.spaces();
            match self.misc() {
                Some(true) => {}
                Some(false) => return false,
                None => return true,
            }
        }
    }
    fn name(&mut self) -> &'a [u8] {
        let a = self.i;
        while self.i < self.d.len() {
            let b = self.d[self.i];
            if space(b) | (b == b'/') | (b == b'>') | (b == b'=') | (b == b'<') | (b == b'"') | (b == b'\'') | (b == b'&') {
                break;
            }
            self.i += 1;
        }
        &self.d[a..self.i]
    }
    fn reference(&mut self) -> bool {
        self.i += 1;
        let a = self.i;
        while self.i < self.d.len() {
            let b = self.d[self.i];
            if b == b';' {
                self.i += 1;
                return self.i > a + 1;
            }
            if (b == b'<') | (b == b'&') | space(b) {
                return false;
            }
            self.i += 1;
        }
        false
    }
    fn document(&mut self) -> bool {
        if !self.miscs() || !self.at("<") {
            return false;
        }
        let mut open: Vec<&[u8]> = Vec::new();
        loop {
            if self.i >= self.d.len() {
                return false;
            }
            if self.at("</") {
                self.i += 2;
                let n = self.name();
                self.spaces();
                if !self.at(">") || open.pop() != Some(n) {
                    return false;
                }
                self.i += 1;
            } else if self.at("<![CDATA[") {
                self.i += 9;
                if !self.past("]]>") {
                    return false;
                }
            } else if let Some(ok) = self.misc() {
                if !ok {
                    return false;
                }
            } else if self.at("<") {
                self.i += 1;
                let n = self.name();
                if n.is_empty() {
                    return false;
                }
                let mut attrs: Vec<&[u8]> = Vec::new();
                loop {
                    self.spaces();
                    if self.at("/>") {
                        self.i += 2;
                        break;
                    }
                    if self.at(">") {
                        self.i += 1;
                        open.push(n);
                        break;
                    }
                    let a = self.name();
                    if a.is_empty() || attrs.contains(&a) {
                        return false;
                    }
                    attrs.push(a);
                    self.spaces();
                    if !self.at("=") {
                        return false;
                    }
                    self.i += 1;
                    // xml-rs puts up with anything here.
                    while self.i < self.d.len() {
                        let b = self.d[self.i];
                        if (b == b'\'') | (b == b'"') {
                            break;
                        }
                        self.i += 1;
                    }
                    let q = if self.at("'") {
                        b'\''
                    } else if self.at("\"") {
                        b'"'
                    } else {
                        return false;
                    };
                    self.i += 1;
                    loop {
                        if self.i >= self.d.len() {
                            return false;
                        }
                        let b = self.d[self.i];
                        if b == q {
                            self.i += 1;
                            break;
                        }
                        // And with '<' here.
                        if b == b'&' {
                            if !self.reference() {
                                return false;
                            }
                        } else {
                            self.i += 1;
                        }
                    }
                }
            } else if self.at("&") {
                if !self.reference() {
                    return false;
                }
            } else {
                self.i += 1;
            }
            if open.is_empty() {
                break;
            }
        }
        self.miscs() && self.i == self.d.len()
    }
}

fn well_formed(d: &[u8]) -> bool {
    Wf { d, i: 0 }.document()
}

const DOCS: [&str; 4] = [
    "<h a='1'><s>x&lt;</s><k x=\"2\"><t>y</t></k><q i='3'><z/>w</q><u/></h>",
    "<!--c--><h><u/><q><q><![CDATA[>]]></q><?p?></q></h><!--d-->",
    "<p:h xmlns:p=\"u\" a='&gt;'><v>1</v><v/></p:h>\n",
    "<?xml version='1.0'?><h b='' c=''><u></u></h>",
];

fn accepted(ty: usize, d: &[u8]) -> bool {
    match ty {
        0 => read::<H>(d).is_ok(),
        1 => read::<Tree>(d).is_ok(),
        2 => read::<Nothing>(d).is_ok(),
        3 => read::<Careless>(d).is_ok(),
        _ => read::<Early>(d).is_ok(),
    }
}

fn judge(ty: usize, d: &[u8]) {
    emit(d);
    if accepted(ty, d) {
        check(well_formed(d), "a value from what isn't one well-formed document");
        cover(0);
        emit(b"O");
    } else {
        cover(1);
        emit(b"E");
    }
}

fn at(n: usize) -> usize {
    let p = choice(n / 16 + 1) * 16 + choice(16);
    assume(p < n);
    p
}

/// References and semicolons outside the root are a matter of their own.
fn stray(b: u8) -> bool {
    (b == b'&') | (b == b';')
}

fn root_start(which: usize) -> usize {
    match which {
        1 => "<!--c-->".len(),
        3 => "<?xml version='1.0'?>".len(),
        _ => 0,
    }
}

/// Any byte of a document replaced by any other.
fn replaced(which: usize, ty: usize) {
    let mut d = DOCS[which].as_bytes().to_vec();
    let p = at(d.len());
    d[p] = byte();
    assume(d[p] != DOCS[which].as_bytes()[p]);
    assume(!stray(d[p]) || (p > root_start(which)) & (p < root_end(which)));
    judge(ty, &d);
}

fn root_end(which: usize) -> usize {
    match which {
        1 => DOCS[1].len() - "<!--d-->".len(),
        2 => DOCS[2].len() - 1,
        _ => DOCS[which].len(),
    }
}

/// Up to `n` bytes inserted anywhere.
fn inserted(which: usize, n: usize, ty: usize) {
    let t = DOCS[which].as_bytes();
    let p = at(t.len() + 1);
    let mut d = Doc::new("");
    d.b(&t[..p]);
    for _ in 0..n {
        let b = byte();
        assume(b < 0x80);
        if (p <= root_start(which)) | (p >= root_end(which)) {
            assume(!stray(b));
        }
        d.c(b);
    }
    d.b(&t[p..]);
    judge(ty, &d.0);
}

/// Any part left out.
fn cut(which: usize, ty: usize) {
    let t = DOCS[which].as_bytes();
    let p = at(t.len());
    let n = 1 + at(t.len() - p);
    let mut d = Doc::new("");
    d.b(&t[..p]).b(&t[p + n..]);
    judge(ty, &d.0);
}

/// A part repeated, up to `max` bytes long.
fn repeated(which: usize, max: usize, ty: usize) {
    let t = DOCS[which].as_bytes();
    let p = at(t.len());
    let n = 1 + choice(max);
    assume(p + n <= t.len());
    let mut d = Doc::new("");
    d.b(&t[..p + n]).b(&t[p..]);
    judge(ty, &d.0);
}

const TOKENS: [&str; 22] = [
    "<x>", "</x>", "<x/>", "</h>", "<h>", "<h/>", "text", "&lt;", "<!--", "-->", "<?p", "?>", "<![CDATA[", "]]>", " a='1'", " a=''", "'", "\"", "=", "/", "</q", "<q",
];

/// One or two tokens anywhere.
fn tokens(which: usize, n: usize, ty: usize) {
    let t = DOCS[which].as_bytes();
    let mut d = Doc::new("");
    let mut p = 0;
    for _ in 0..n {
        let q = p + at(t.len() + 1 - p);
        let s = TOKENS[choice(TOKENS.len())];
        // See `stray`.
        assume(s != "&lt;" || (q > root_start(which)) & (q < root_end(which)));
        d.b(&t[p..q]).s(s);
        p = q;
    }
    d.b(&t[p..]);
    judge(ty, &d.0);
}

/// Anything after the root.
fn after(n: usize, ty: usize) {
    let mut d = Doc::new("<h><u/></h>");
    for _ in 0..n {
        let b = byte();
        assume(!stray(b));
        d.c(b);
    }
    judge(ty, &d.0);
}

/// Known finding: xml-rs drops references and semicolons there.
fn outside() {
    let r = ["&lt;", "&gt;", "&amp;", "&quot;", "&apos;", "&#65;", ";"][choice(7)];
    let mut d = Doc::new("");
    if flag() {
        d.s("<h><u/></h>").s(r);
    } else {
        d.s(r).s("<h><u/></h>");
    }
    judge(choice(2), &d.0);
}

/// Anything before the root.
fn before(n: usize, ty: usize) {
    let mut d = Doc::new("");
    for _ in 0..n {
        let b = byte();
        assume(!stray(b));
        d.c(b);
    }
    // A byte order mark is no text.
    if n == 3 {
        assume(!((d.0[0] == 0xef) & (d.0[1] == 0xbb) & (d.0[2] == 0xbf)));
    }
    d.s("<h><u/></h>");
    judge(ty, &d.0);
}

/// A second root, or text, after any padding.
fn second() {
    let mut d = Doc::new("<h><u/></h>");
    for _ in 0..choice(4) {
        d.s([" ", "\n", "<!-- -->", "<?p q?>"][choice(4)]);
    }
    let bad = [("", false), ("<h><u/></h>", true), ("<h/>", true), ("x", true), ("<![CDATA[]]>", true), ("</h>", true), ("]]>", true)][choice(7)];
    d.s(bad.0);
    if flag() {
        d.s(" <!-- -->");
    }
    let ok = accepted(choice(5), &d.0);
    check(ok != bad.1, "trailing content misjudged");
    cover(ok as usize);
    emit(if ok { b"O" } else { b"E" });
}

/// A long way before the end, or a long way past it.
fn far() {
    let n = [64, 127, 128, 129, 256, 257, 1025][choice(7)];
    let (s, deep) = [(" ", false), ("\n", false), ("<!---->", false), ("<?p?>\n", false), ("<q>", true), ("<q/>x", true), ("", false)][choice(7)];
    assume(s != "<q>" || n < 300);
    let s = s.repeat(n);
    let mut d = Doc::new("");
    let t = choice(6);
    if !deep && t < 2 {
        // before the root
        if t == 1 {
            d.s("<?xml version='1.0'?>");
        }
        d.s(&s);
    }
    d.s("<h><u/>");
    if deep || t == 2 {
        d.s(&s);
    }
    if s.starts_with("<q>") {
        for _ in 0..n - (t == 3) as usize + (t == 4) as usize {
            d.s("</q>");
        }
    }
    d.s(["</h>", "</h>", "</h>", "</h>", "</h>", "</k>"][t]);
    if !deep && t > 2 {
        d.s(&s);
    }
    d.s(["", "", "<h/>", "x", "</h>", " <?p?>", "<!--"][choice(7)]);
    judge(choice(3), &d.0);
}

/// End tags: free names, of an element nobody reads too.
fn names(n: usize, ty: usize) {
    let mut d = Doc::new("<h><u/><");
    let mut a = Vec::new();
    let mut b = Vec::new();
    for _ in 0..n {
        a.push(lower());
        b.push(lower());
    }
    d.b(&a).s("><q></").b(if flag() { &a } else { b"q" }).s("></").b(&b).s("></h>");
    judge(ty, &d.0);
}

/// Comments, instructions and white space where they don't matter.
fn padded(places: usize, ty: usize) {
    // Places are marked by '|'.
    let t = "|<h a='1'>|<s>|x|&lt;|y|</s>|<k x=\"2\">|<t>|</t>|</k>|<q>|<z/>|</q>|<v>|1|</v>|<v/>|</h>|";
    let mut plain = Doc::new("");
    let mut d = Doc::new("");
    match choice(3) {
        0 => {}
        1 => drop(d.s("<?xml version=\"1.0\"?>")),
        _ => drop(d.s("<?xml version='1.0' encoding='utf-8' standalone='yes' ?>")),
    }
    let n = t.bytes().filter(|b| *b == b'|').count();
    let mut at = Vec::new();
    for _ in 0..places {
        at.push(choice(n));
    }
    let mut k = 0;
    for b in t.bytes() {
        if b == b'|' {
            for a in &at {
                if *a == k {
                    match choice(5) {
                        0 => drop(d.s("<!---->")),
                        1 => drop(d.s("<!-- <h> & ]]> -->")),
                        2 => drop(d.s("<?p?>")),
                        3 => {
                            // Any character in a comment.
                            d.s("<!--");
                            let b = byte();
                            assume((b >= 0x20) & (b < 0x7f) & (b != b'-'));
                            d.c(b).s("-->");
                        }
                        _ => {
                            d.s("<?q ");
                            let b = byte();
                            assume(((b | 0x20) >= b'a') & ((b | 0x20) <= b'z'));
                            d.c(b).s("?>");
                        }
                    }
                }
            }
            k += 1;
        } else {
            d.c(b);
            plain.c(b);
        }
    }
    match ty {
        0 => padded_as::<H>(&plain.0, &d.0, |a, b| a == b),
        _ => padded_as::<Tree>(&plain.0, &d.0, |a, b| a.0 == b.0),
    }
}

fn padded_as<T: Deserialize>(plain: &[u8], d: &[u8], eq: fn(&T, &T) -> bool) {
    match (read::<T>(plain), read::<T>(d)) {
        (Ok(a), Ok(b)) => {
            check(eq(&a, &b), "a comment or instruction changes the value");
            cover(0);
            emit(b"O");
        }
        _ => check(false, "a well-formed document is refused"),
    }
}

/// White space around the root and inside tags.
fn spaced() {
    let w = |d: &mut Doc| {
        if flag() {
            d.c(among(b" \t\r\n"));
        }
    };
    let mut d = Doc::new("");
    w(&mut d);
    d.s("<h");
    d.c(among(b" \t\r\n"));
    d.s("a");
    w(&mut d);
    d.s("=");
    w(&mut d);
    d.s("'1'");
    w(&mut d);
    d.s("><u");
    w(&mut d);
    d.s("/></h");
    w(&mut d);
    d.s(">");
    w(&mut d);
    match read::<H>(&d.0) {
        Ok(h) => check(h == H { a: Some("1".into()), s: None, k: vec![], ch: Ch::U }, "white space in a tag changes the value"),
        Err(_) => check(false, "a well-formed document is refused"),
    }
    cover(0);
    emit(b"O");
}

crate::harnesses! {
    h_envelope_replaced0 => replaced(0, 0);
    h_envelope_replaced0_tree => replaced(0, 1);
    h_envelope_replaced0_nothing => replaced(0, 2);
    h_envelope_replaced0_careless => replaced(0, 3);
    h_envelope_replaced0_early => replaced(0, 4);
    h_envelope_replaced1 => replaced(1, 0);
    h_envelope_replaced1_careless => replaced(1, 3);
    h_envelope_replaced2 => replaced(2, 0);
    h_envelope_replaced3 => replaced(3, 0);
    h_envelope_replaced3_nothing => replaced(3, 2);
    h_envelope_inserted0 => inserted(0, 1, 0);
    h_envelope_inserted0_careless => inserted(0, 1, 3);
    h_envelope_inserted0_2 => inserted(0, 2, 0);
    h_envelope_inserted1 => inserted(1, 1, 0);
    h_envelope_inserted1_nothing => inserted(1, 1, 2);
    h_envelope_inserted2 => inserted(2, 1, 0);
    h_envelope_inserted3 => inserted(3, 1, 0);
    h_envelope_cut0 => cut(0, 0);
    h_envelope_cut0_careless => cut(0, 3);
    h_envelope_cut0_early => cut(0, 4);
    h_envelope_cut1 => cut(1, 1);
    h_envelope_cut2 => cut(2, 2);
    h_envelope_repeated0 => repeated(0, 16, 0);
    h_envelope_repeated0_nothing => repeated(0, 16, 2);
    h_envelope_repeated1_careless => repeated(1, 16, 3);
    h_envelope_tokens0 => tokens(0, 1, 0);
    h_envelope_tokens0_tree => tokens(0, 1, 1);
    h_envelope_tokens0_nothing => tokens(0, 1, 2);
    h_envelope_tokens0_careless => tokens(0, 1, 3);
    h_envelope_tokens0_early => tokens(0, 1, 4);
    h_envelope_tokens1 => tokens(1, 1, 0);
    h_envelope_tokens1_early => tokens(1, 1, 4);
    h_envelope_tokens2 => tokens(2, 1, 0);
    h_envelope_tokens3_2 => tokens(3, 2, 0);
    h_envelope_tokens1_2 => tokens(1, 2, 3);
    h_envelope_after1 => after(1, 0);
    h_envelope_after2 => after(2, 1);
    h_envelope_after3 => after(3, 0);
    h_envelope_after4 => after(4, 0);
    h_envelope_after4_nothing => after(4, 2);
    h_envelope_after5 => after(5, 0);
    h_envelope_outside => outside();
    h_envelope_before1 => before(1, 0);
    h_envelope_before2 => before(2, 2);
    h_envelope_before3 => before(3, 0);
    h_envelope_second => second();
    h_envelope_far => far();
    h_envelope_names1 => names(1, 0);
    h_envelope_names2 => names(2, 0);
    h_envelope_names2_nothing => names(2, 2);
    h_envelope_names3_careless => names(3, 3);
    h_envelope_padded1 => padded(1, 0);
    h_envelope_padded1_tree => padded(1, 1);
    h_envelope_padded2 => padded(2, 0);
    h_envelope_padded2_tree => padded(2, 1);
    h_envelope_spaced => spaced();
}
