//! A hand-written visitor sees exactly the document's content.

use crate::sym::*;
use crate::util::*;
use static_xml::de::{Deserialize, ElementReader, ElementVisitor, VisitorError};
use static_xml::{ExpandedNameRef, TextPosition};

const XML: &str = "http://www.w3.org/XML/1998/namespace";

/// What is in scope for the prefixes none, a, b and xml.
#[derive(Clone, PartialEq)]
struct Scope([String; 4]);

fn scope_of(ns: &xml::namespace::Namespace) -> Scope {
    let get = |p: &str| ns.get(p).unwrap_or("").to_owned();
    Scope([get(""), get("a"), get("b"), get("xml")])
}

#[derive(Clone, PartialEq)]
enum Seen {
    Attr(String, String, String),
    Text(String),
    Elem(Box<El>),
    /// A child that was left alone.
    Left(String, String, usize),
    /// A child read as a string, if it could be.
    Str(Option<String>),
}

#[derive(Clone, PartialEq)]
struct El {
    prefix: Option<String>,
    ns: String,
    local: String,
    depth: usize,
    scope: Scope,
    seen: Vec<Seen>,
    end: (u64, u64),
}

/// Records everything; `acts` says what to do with the children of the root.
struct Rec {
    acts: Vec<usize>,
    seen: Vec<Seen>,
}

fn record(e: ElementReader<'_>, acts: Vec<usize>) -> Result<El, VisitorError> {
    let name = e.name().to_owned();
    let (ns, local) = {
        let x = e.expanded_name();
        (x.namespace.to_owned(), x.local_name.to_owned())
    };
    check(name.local_name == local, "name and expanded name differ");
    check(name.namespace.as_deref().unwrap_or("") == ns, "name and expanded name have different namespaces");
    let (depth, scope) = (e.depth(), scope_of(e.namespace()));
    let mut r = Rec { acts, seen: Vec::new() };
    let (end_name, end_ns, pos) = e.read_to(&mut r)?;
    check(end_name == name.to_owned(), "the end is another element's");
    check(scope_of(&end_ns) == scope, "the namespaces at the end are others");
    let prefix = name.prefix.map(|p| p.to_owned());
    Ok(El { prefix, ns, local, depth, scope, seen: r.seen, end: (pos.row, pos.column) })
}

impl ElementVisitor for Rec {
    fn attribute(&mut self, n: &ExpandedNameRef<'_>, v: String) -> Result<Option<String>, VisitorError> {
        self.seen.push(Seen::Attr(n.namespace.into(), n.local_name.into(), v));
        Ok(None)
    }
    fn element<'a>(&mut self, c: ElementReader<'a>) -> Result<Option<ElementReader<'a>>, VisitorError> {
        let act = if self.acts.is_empty() { 0 } else { self.acts.remove(0) };
        if act == 0 {
            self.seen.push(Seen::Elem(Box::new(record(c, Vec::new())?)));
            return Ok(None);
        }
        if act == 3 {
            let s = c.read_string();
            self.seen.push(Seen::Str(s.ok()));
            return Ok(None);
        }
        {
            let n = c.expanded_name();
            let s = Seen::Left(n.namespace.into(), n.local_name.into(), c.depth());
            self.seen.push(s);
        }
        Ok((act == 1).then_some(c))
    }
    fn characters(&mut self, s: String, _pos: TextPosition) -> Result<Option<String>, static_xml::BoxedStdError> {
        self.seen.push(Seen::Text(s));
        Ok(None)
    }
}

/// A document as a visitor without special wishes sees it.
struct Whole(El);

impl Deserialize for Whole {
    fn deserialize(e: ElementReader<'_>) -> Result<Self, VisitorError> {
        Ok(Whole(record(e, Vec::new())?))
    }
}

/// The same with the wish for each child of the root in its attribute `do`.
struct Wishes(El);

impl Deserialize for Wishes {
    fn deserialize(e: ElementReader<'_>) -> Result<Self, VisitorError> {
        // SAFETY: single-threaded.
        let acts = unsafe { (*std::ptr::addr_of!(ACTS)).clone() };
        Ok(Wishes(record(e, acts)?))
    }
}

static mut ACTS: Vec<usize> = Vec::new();

/// Content as written.
#[derive(Clone)]
enum Put {
    Attr(String, String, String),
    /// Text between two pieces of markup, and whether it is white space alone.
    Piece(String, bool),
    Elem(Box<Want>),
}

#[derive(Clone)]
struct Want {
    prefix: Option<String>,
    ns: String,
    local: String,
    depth: usize,
    scope: Scope,
    puts: Vec<Put>,
    end: usize,
}

/// Whether `seen` is `pieces` together, of which those of white space alone
/// may be missing.
fn pieces_match(pieces: &[(&str, bool)], seen: &str) -> bool {
    match pieces.first() {
        None => seen.is_empty(),
        Some((p, blank)) => {
            (seen.len() >= p.len() && seen.as_bytes()[..p.len()] == *p.as_bytes() && pieces_match(&pieces[1..], &seen[p.len()..]))
                || (*blank && pieces_match(&pieces[1..], seen))
        }
    }
}

fn same(want: &Want, got: &El) {
    check(got.prefix == want.prefix, "the prefix is wrong");
    check(got.ns == want.ns, "the namespace is wrong");
    check(got.local == want.local, "the local name is wrong");
    check(got.depth == want.depth, "the depth is wrong");
    check(got.scope == want.scope, "the namespaces in scope are wrong");
    same_content(want, &got.seen, &[]);
}

fn plain_string(w: &Want) -> Option<String> {
    let mut s = String::new();
    for p in &w.puts {
        match p {
            Put::Attr(..) => {}
            Put::Piece(t, _) => s.push_str(t),
            Put::Elem(_) => return None,
        }
    }
    Some(s)
}

fn same_content(want: &Want, seen: &[Seen], acts: &[usize]) {
    let mut si = 0;
    let mut pieces: Vec<(&str, bool)> = Vec::new();
    let mut child = 0;
    // Attributes first.
    for p in &want.puts {
        if let Put::Attr(n, l, v) = p {
            match seen.get(si) {
                Some(Seen::Attr(gn, gl, gv)) => check((gn == n) & (gl == l) & (gv == v), "an attribute is wrong or out of order"),
                _ => check(false, "an attribute is missing"),
            }
            si += 1;
        }
    }
    let text = |si: &mut usize, pieces: &mut Vec<(&str, bool)>| {
        let mut s = String::new();
        while let Some(Seen::Text(t)) = seen.get(*si) {
            s.push_str(t);
            *si += 1;
        }
        check(pieces_match(pieces, &s), "the text is wrong");
        pieces.clear();
    };
    for p in &want.puts {
        match p {
            Put::Attr(..) => {}
            Put::Piece(t, blank) => pieces.push((t, *blank)),
            Put::Elem(w) => {
                text(&mut si, &mut pieces);
                match (acts.get(child).copied().unwrap_or(0), seen.get(si)) {
                    (0, Some(Seen::Elem(g))) => same(w, g),
                    (1 | 2, Some(Seen::Left(n, l, d))) => {
                        check((*n == w.ns) & (*l == w.local) & (*d == w.depth), "a child that was left is another")
                    }
                    (3, Some(Seen::Str(s))) => check(*s == plain_string(w), "a child's string is wrong"),
                    _ => check(false, "a child is missing or something else is there"),
                }
                si += 1;
                child += 1;
            }
        }
    }
    text(&mut si, &mut pieces);
    check(si == seen.len(), "something is seen twice or isn't there");
}

/// Reads as `Whole` and compares.
fn whole(d: &Doc, w: &Want) {
    match read::<Whole>(&d.0) {
        Ok(g) => {
            same(w, &g.0);
            cover(0);
            emit(b"O");
        }
        Err(e) => {
            check(false, "a well-formed document is refused");
            emit(e.to_string().as_bytes());
        }
    }
}

fn builtin(scope: &Scope) -> Scope {
    let mut s = scope.clone();
    s.0[3] = XML.into();
    s
}

const URIS: [&str; 3] = ["urn:1", "urn:2", "urn:1/"];

/// Writes a start tag of any spelling up to and without the `>`. `free`
/// decides how much is chosen.
fn start(d: &mut Doc, scope: &Scope, depth: usize, local: &str, free: usize, most: usize, late: bool) -> Want {
    let mut sc = scope.clone();
    let mut decls = String::new();
    let mut declare = |sc: &mut Scope, i: usize, u: &str| {
        decls.push_str([" xmlns='", " xmlns:a='", " xmlns:b='"][i]);
        decls.push_str(u);
        decls.push('\'');
        sc.0[i] = u.into();
    };
    match choice(if free > 1 { 8 } else { 4 }) {
        0 => {}
        1 => declare(&mut sc, 0, URIS[0]),
        2 => declare(&mut sc, 1, URIS[choice(free + 1)]),
        3 => {
            declare(&mut sc, 1, URIS[1]);
            declare(&mut sc, 0, "");
        }
        4 => declare(&mut sc, 2, URIS[0]),
        5 => declare(&mut sc, 0, URIS[2]),
        6 => {
            declare(&mut sc, 0, URIS[1]);
            declare(&mut sc, 2, URIS[1]);
        }
        _ => declare(&mut sc, 0, ""),
    }
    let p = choice(3);
    assume(p == 0 || !sc.0[p].is_empty());
    let prefix = [None, Some("a"), Some("b")][p];
    d.s("<");
    qname(d, prefix, local);
    let mut w = Want {
        prefix: prefix.map(|p| p.to_owned()),
        ns: sc.0[p].clone(),
        local: local.into(),
        depth,
        scope: builtin(&sc),
        puts: Vec::new(),
        end: 0,
    };
    if !late {
        d.s(&decls);
    }
    for k in 0..choice(most + 1) {
        let p = choice(4);
        assume(p == 0 || p == 3 || !sc.0[p].is_empty());
        let l = ["k", "l"][k];
        let v = if k + 1 == most { letter() } else { b'v' };
        d.s(" ");
        qname(d, [None, Some("a"), Some("b"), Some("xml")][p], l);
        d.s("='").c(v).s("&lt;'");
        let mut s = str1(v);
        s.push('<');
        let uri = match p {
            0 => "",
            3 => XML,
            _ => &sc.0[p],
        };
        w.puts.push(Put::Attr(uri.into(), l.into(), s));
    }
    if late {
        d.s(&decls);
    }
    w
}

fn qname(d: &mut Doc, prefix: Option<&str>, local: &str) {
    if let Some(p) = prefix {
        d.s(p).s(":");
    }
    d.s(local);
}

fn end(d: &mut Doc, w: &Want) {
    d.s("</");
    qname(d, w.prefix.as_deref(), &w.local);
    d.s(">");
}

/// Nested elements with any declarations and prefixes.
fn chain(n: usize, free: usize, most: usize, late: bool) {
    let mut d = Doc::new("");
    let mut scope = Scope([String::new(), String::new(), String::new(), String::new()]);
    let mut ws = Vec::new();
    for i in 0..n {
        let w = start(&mut d, &scope, i + 1, ["r", "s", "t", "u", "v"][i], free, most, late);
        scope = w.scope.clone();
        ws.push(w);
        d.s(">");
    }
    while let Some(w) = ws.pop() {
        end(&mut d, &w);
        match ws.last_mut() {
            Some(p) => p.puts.push(Put::Elem(Box::new(w))),
            None => whole(&d, &w),
        }
    }
}

/// Two children after each other; what one declares doesn't reach the other.
fn siblings(free: usize, most: usize) {
    let mut d = Doc::new("");
    let none = Scope([String::new(), String::new(), String::new(), String::new()]);
    let mut r = start(&mut d, &none, 1, "r", 0, 0, false);
    d.s(">");
    for l in ["s", "t"] {
        let mut s = start(&mut d, &r.scope, 2, l, free, most, true);
        if flag() {
            d.s("/>");
        } else {
            d.s("><u/>");
            let u = Want { prefix: None, ns: s.scope.0[0].clone(), local: "u".into(), depth: 3, scope: s.scope.clone(), puts: Vec::new(), end: 0 };
            s.puts.push(Put::Elem(Box::new(u)));
            end(&mut d, &s);
        }
        r.puts.push(Put::Elem(Box::new(s)));
    }
    end(&mut d, &r);
    whole(&d, &r);
}

fn element(local: &str, depth: usize) -> Want {
    let scope = builtin(&Scope([String::new(), String::new(), String::new(), String::new()]));
    Want { prefix: None, ns: String::new(), local: local.into(), depth, scope, puts: Vec::new(), end: 0 }
}

/// Text under construction: the current piece between two pieces of markup.
struct Text(String, bool);

impl Text {
    fn flush(&mut self, w: &mut Want) {
        if !self.0.is_empty() {
            w.puts.push(Put::Piece(std::mem::take(&mut self.0), self.1));
        }
        self.1 = true;
    }
    fn put(&mut self, c: char) {
        self.0.push(c);
        self.1 &= c.is_ascii_whitespace();
    }
    fn plain(&mut self, b: u8) {
        // SAFETY: callers pass ASCII only.
        unsafe { self.0.as_mut_vec().push(b) };
        self.1 = false;
    }
}

/// `n` pieces of content, elements down to `levels`.
fn content(d: &mut Doc, w: &mut Want, n: usize, kinds: usize, levels: usize, any: fn() -> u8) {
    let mut t = Text(String::new(), true);
    for _ in 0..n {
        match choice(kinds) {
            0 => {
                let b = any();
                d.c(b);
                t.plain(b);
            }
            1 => {
                d.s(" \n");
                t.put(' ');
                t.put('\n');
            }
            2 => {
                t.flush(w);
                if levels > 0 && flag() {
                    let mut c = element("c", w.depth + 1);
                    d.s("<c>");
                    content(d, &mut c, if levels > 1 { 2 } else { 1 }, kinds.min(6), levels - 1, any);
                    d.s("</c>");
                    w.puts.push(Put::Elem(Box::new(c)));
                } else {
                    d.s("<e/>");
                    w.puts.push(Put::Elem(Box::new(element("e", w.depth + 1))));
                }
            }
            3 => {
                t.flush(w);
                d.s("<!-- <x> -->");
            }
            4 => {
                t.flush(w);
                let b = any();
                d.s("<![CDATA[").c(b).s("<]]>");
                t.plain(b);
                t.put('<');
                t.flush(w);
            }
            5 => {
                d.s("&lt;");
                t.put('<');
            }
            6 => {
                d.s("&#x20ac;");
                t.put('\u{20ac}');
            }
            7 => {
                t.flush(w);
                d.s("<?p <y> ?>");
            }
            8 => {
                t.flush(w);
                d.s("<![CDATA[ ]]>");
                t.put(' ');
                t.flush(w);
            }
            9 => {
                d.s("&#32;");
                t.put(' ');
            }
            _ => {
                d.s("\u{1F600}");
                t.put('\u{1F600}');
            }
        }
    }
    t.flush(w);
}

fn contents(n: usize, kinds: usize, levels: usize, any: fn() -> u8) {
    let mut d = Doc::new("<r>");
    let mut r = element("r", 1);
    content(&mut d, &mut r, n, kinds, levels, any);
    d.s("</r>");
    whole(&d, &r);
}

/// What a visitor does with one child leaves the others as they are.
fn wishes(n: usize) {
    let mut d = Doc::new("<r>");
    let mut r = element("r", 1);
    let mut acts = Vec::new();
    for i in 0..n {
        if flag() {
            let b = letter();
            d.c(b);
            r.puts.push(Put::Piece(str1(b), false));
        }
        let mut c = element(["c", "e", "f", "g"][i], 2);
        d.s("<").s(&c.local);
        if n < 3 && flag() {
            let b = letter();
            d.s(" k=\"").c(b).s("\"");
            c.puts.push(Put::Attr(String::new(), "k".into(), str1(b)));
        }
        d.s(">");
        content(&mut d, &mut c, 1, if n < 3 { 5 } else { 3 }, 1, || b'z');
        end(&mut d, &c);
        r.puts.push(Put::Elem(Box::new(c)));
        acts.push(choice(4));
    }
    d.s("</r>");
    // SAFETY: single-threaded.
    unsafe { ACTS = acts.clone() };
    match read::<Wishes>(&d.0) {
        Ok(g) => {
            same_content(&r, &g.0.seen, &acts);
            cover(0);
            emit(b"O");
        }
        Err(e) => {
            check(false, "a well-formed document is refused");
            emit(e.to_string().as_bytes());
        }
    }
    unsafe { ACTS = Vec::new() };
}

/// Names of free characters.
fn free_names(n: usize) {
    let mut d = Doc::new("<");
    let mut name = String::new();
    for i in 0..n {
        let b = if i == 0 { letter() } else { name_char() };
        // xml-rs refuses names with two hyphens in a row.
        assume(i == 0 || b != b'-' || name.as_bytes()[i - 1] != b'-');
        // SAFETY: ASCII only.
        unsafe { name.as_mut_vec().push(b) };
    }
    d.s(&name).s(" k='v'><").s(&name).s("/></").s(&name).s(">");
    let mut r = element(&name, 1);
    r.puts.push(Put::Attr(String::new(), "k".into(), "v".into()));
    r.puts.push(Put::Elem(Box::new(element(&name, 2))));
    whole(&d, &r);
}

fn name_char() -> u8 {
    let b = byte();
    let l = b | 0x20;
    assume(((l >= b'a') & (l <= b'z')) | ((b >= b'0') & (b <= b'9')) | (b == b'-') | (b == b'.') | (b == b'_'));
    b
}

/// Attribute values of free characters and every kind of reference.
fn values(n: usize) {
    let quote = if flag() { b'"' } else { b'\'' };
    let mut d = Doc::new("<r k=");
    d.c(quote);
    let mut v = String::new();
    for _ in 0..n {
        match choice(9) {
            0 | 1 => {
                let b = plain();
                d.c(b);
                // SAFETY: ASCII only.
                unsafe { v.as_mut_vec().push(b) };
            }
            2 => {
                d.s("&quot;");
                v.push('"');
            }
            3 => {
                d.s("&apos;");
                v.push('\'');
            }
            4 => {
                d.s("&amp;");
                v.push('&');
            }
            5 => {
                let b = letter();
                assume((b >= b'a') & (b <= b'f'));
                d.s("&#x6").c(b).s(";");
                // SAFETY: ASCII only.
                unsafe { v.as_mut_vec().push(0x60 + (b - b'a') + 10) };
            }
            6 => {
                let o = if quote == b'"' { b'\'' } else { b'"' };
                d.c(o).s(">]");
                v.push(o as char);
                v.push_str(">]");
            }
            7 => {
                d.s("\u{e9}\u{20ac}\u{1F600}");
                v.push_str("\u{e9}\u{20ac}\u{1F600}");
            }
            _ => {
                d.s(" x ");
                v.push_str(" x ");
            }
        }
    }
    d.c(quote).s("/>");
    let mut r = element("r", 1);
    r.puts.push(Put::Attr(String::new(), "k".into(), v));
    whole(&d, &r);
}

/// Many attributes, or many children, in their order.
fn many(n: usize, at: usize) {
    let mut d = Doc::new("<r");
    let mut r = element("r", 1);
    let name = |i: usize| {
        let mut s = String::from("k");
        s.push((b'a' + ((i * 7) % 26) as u8) as char);
        s.push((b'a' + (i / 26) as u8) as char);
        s
    };
    for i in 0..n {
        let b = if i == at { plain() } else { b'v' };
        d.s(" ").s(&name(i)).s("='").c(b).s("'");
        r.puts.push(Put::Attr(String::new(), name(i), str1(b)));
    }
    d.s(">");
    for i in 0..n {
        let b = if i == at { plain() } else { b'v' };
        let mut c = element(&name(i), 2);
        c.puts.push(Put::Piece(str1(b), false));
        d.s("<").s(&c.local).s(">").c(b);
        end(&mut d, &c);
        r.puts.push(Put::Elem(Box::new(c)));
    }
    d.s("</r>");
    whole(&d, &r);
}

/// Deep documents.
fn deep(n: usize, at: usize) {
    let mut d = Doc::new("");
    let mut ws: Vec<Want> = Vec::new();
    for i in 0..n {
        let mut w = element(["x", "y", "z"][i % 3], i + 1);
        d.s("<").s(&w.local).s(">");
        if i == at {
            let b = plain();
            d.c(b);
            w.puts.push(Put::Piece(str1(b), false));
        }
        ws.push(w);
    }
    while let Some(w) = ws.pop() {
        end(&mut d, &w);
        let ws_len = ws.len();
        match ws.last_mut() {
            Some(p) => {
                p.puts.push(Put::Elem(Box::new(w)));
                let b = b'0' + (ws_len % 10) as u8;
                d.c(b);
                p.puts.push(Put::Piece(str1(b), false));
            }
            None => whole(&d, &w),
        }
    }
}

const SIZES: [usize; 7] = [64, 127, 128, 129, 255, 256, 257];

fn size() -> (usize, usize) {
    let n = SIZES[choice(7)];
    (n, [0, n / 2, n - 2, n - 1][choice(4)])
}

/// The end's position is that of the end tag.
fn ends() {
    let mut d = Doc::new("<r>");
    let mut lines = (0u64, 3u64);
    let step = |d: &mut Doc, lines: &mut (u64, u64), s: &str| {
        d.s(s);
        for c in s.chars() {
            if c == '\n' {
                *lines = (lines.0 + 1, 0);
            } else {
                lines.1 += 1;
            }
        }
    };
    for _ in 0..3 {
        step(&mut d, &mut lines, ["", "\n", "ab", "\u{20ac}", "<e\n/>", "<!--\n-->"][choice(6)]);
    }
    step(&mut d, &mut lines, "<c>");
    for _ in 0..2 {
        step(&mut d, &mut lines, ["", "\n", "ab", "<e/>\n"][choice(4)]);
    }
    let c_end = lines;
    step(&mut d, &mut lines, "</c>");
    step(&mut d, &mut lines, ["", "\n\n", "ab"][choice(3)]);
    let r_end = lines;
    d.s("</r>");
    match read::<Whole>(&d.0) {
        Ok(g) => {
            check(g.0.end == r_end, "the root's end is elsewhere");
            for s in &g.0.seen {
                if let Seen::Elem(e) = s {
                    if e.local == "c" {
                        check(e.end == c_end, "a child's end is elsewhere");
                    }
                }
            }
            cover(0);
            emit(b"O");
        }
        Err(e) => {
            check(false, "a well-formed document is refused");
            emit(e.to_string().as_bytes());
        }
    }
}

crate::harnesses! {
    h_visitor_chain1 => chain(1, 2, 2, false);
    h_visitor_chain1_late => chain(1, 2, 2, true);
    h_visitor_chain2 => chain(2, 2, 0, false);
    h_visitor_chain2_attr => chain(2, 1, 1, true);
    h_visitor_chain2_attrs => chain(2, 1, 2, false);
    h_visitor_chain3 => chain(3, 2, 0, false);
    h_visitor_chain3_attr => chain(3, 1, 1, false);
    h_visitor_chain4 => chain(4, 0, 0, false);
    h_visitor_siblings => siblings(2, 0);
    h_visitor_siblings1 => siblings(1, 1);
    h_visitor_siblings2 => siblings(2, 1);
    h_visitor_content2 => contents(2, 11, 1, plain);
    h_visitor_content3 => contents(3, 11, 0, plain);
    h_visitor_content2_2 => contents(2, 11, 2, letter);
    h_visitor_content3_1 => contents(3, 6, 1, letter);
    h_visitor_content3_2 => contents(3, 6, 2, letter);
    h_visitor_content4 => contents(4, 11, 0, letter);
    h_visitor_content5 => contents(5, 9, 0, || b'z');
    h_visitor_content6 => contents(6, 6, 0, || b'z');
    h_visitor_wishes1 => wishes(1);
    h_visitor_wishes2 => wishes(2);
    h_visitor_wishes3 => wishes(3);
    h_visitor_names1 => free_names(1);
    h_visitor_names2 => free_names(2);
    h_visitor_names3 => free_names(3);
    h_visitor_values1 => values(1);
    h_visitor_values2 => values(2);
    h_visitor_values3 => values(3);
    h_visitor_values4 => values(4);
    h_visitor_many6 => many(6, choice(6));
    h_visitor_many30 => many(30, choice(30));
    h_visitor_many_big => {
        let (n, at) = size();
        many(n, at)
    };
    h_visitor_deep_big => {
        let (n, at) = size();
        deep(n, at)
    };
    h_visitor_deep5 => deep(5, choice(5));
    h_visitor_deep20 => deep(20, choice(20));
    h_visitor_ends => ends();
}
