//! Serializing a value and reading it back is the identity.

use crate::sym::*;
use crate::util::*;
use static_xml::ser::SerializeRoot;
use static_xml_derive::{Deserialize, ParseText, Serialize, ToText};

#[path = "wide_types.rs"]
mod wide_types;
use wide_types::*;

fn dig() -> u8 {
    let b = byte();
    assume(b < 10);
    b
}

fn ch() -> String {
    str1(letter())
}

fn opt(on: bool) -> Option<String> {
    on.then(ch)
}

#[derive(Debug, Clone, PartialEq, ParseText, ToText)]
#[static_xml(mode = "restriction")]
enum Size {
    #[static_xml(rename = "small")]
    Small,
    Large,
    #[static_xml(rename = "<&>\"'")]
    Odd,
    #[static_xml(unknown)]
    Other(String),
}

fn size() -> Size {
    match choice(4) {
        0 => Size::Small,
        1 => Size::Large,
        2 => Size::Odd,
        _ => Size::Other(ch()),
    }
}

fn size_text(s: &Size) -> String {
    match s {
        Size::Small => "small".into(),
        Size::Large => "Large".into(),
        Size::Odd => "<&>\"'".into(),
        Size::Other(o) => o.clone(),
    }
}

#[derive(Debug, Clone, PartialEq, ParseText, ToText)]
#[static_xml(mode = "union")]
enum Un {
    Flag(bool),
    Num(u8),
    Size(Size),
}

fn un() -> Un {
    match choice(3) {
        0 => Un::Flag(flag()),
        // 0 and 1 are read as flags
        1 => Un::Num(2 + choice(8) as u8),
        _ => Un::Size(size()),
    }
}

fn un_text(u: &Un) -> String {
    match u {
        Un::Flag(b) => if *b { "true" } else { "false" }.into(),
        Un::Num(n) => str1(b'0' + n),
        Un::Size(s) => size_text(s),
    }
}

/// Text by FromStr and Display.
#[derive(Debug, Clone, PartialEq, ParseText, ToText)]
#[static_xml(mode = "std", whitespace = "collapse")]
struct Pair(u8, char);

impl std::str::FromStr for Pair {
    type Err = std::fmt::Error;
    fn from_str(s: &str) -> Result<Self, Self::Err> {
        let b = s.as_bytes();
        if b.len() == 3 && b[1] == b':' && b[0].is_ascii_digit() {
            Ok(Pair(b[0] - b'0', b[2] as char))
        } else {
            Err(std::fmt::Error)
        }
    }
}
impl std::fmt::Display for Pair {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&pair_text(self))
    }
}

fn pair_text(p: &Pair) -> String {
    let mut s = str1(b'0' + p.0);
    s.push(':');
    s.push_str(&str1(p.1 as u8));
    s
}

#[derive(Debug, Clone, PartialEq, Deserialize, Serialize)]
struct Leaf {
    #[static_xml(attribute)]
    id: String,
    #[static_xml(attribute, rename = "opt-attr")]
    oa: Option<Size>,
    x: Option<String>,
}

fn leaf(k: usize) -> Leaf {
    Leaf { id: ch(), oa: (k & 1 != 0).then(|| Size::Odd), x: opt(k & 2 != 0) }
}

fn leaf_node(l: &Leaf, name: &str) -> Node {
    let mut n = Node::new("", name);
    n.attrs.push(("".into(), "id".into(), l.id.clone()));
    if let Some(s) = &l.oa {
        n.attrs.push(("".into(), "opt-attr".into(), size_text(s)));
    }
    text_opt(&mut n, "x", &l.x);
    n
}

fn text_node(name: &str, t: &str) -> Node {
    let mut n = Node::new("", name);
    n.text(t);
    n
}

fn text_opt(n: &mut Node, name: &str, t: &Option<String>) {
    if let Some(t) = t {
        n.child(text_node(name, t));
    }
}

/// Serializes, compares the document with `want`, reads back, compares, and
/// serializes again.
fn round<T>(v: &T, mut want: Node)
where
    T: static_xml::de::Deserialize + static_xml::ser::Serialize + SerializeRoot + PartialEq,
{
    let d = match static_xml::ser::serialize(v).to_string() {
        Ok(d) => d,
        Err(_) => return check(false, "value not written"),
    };
    match read::<Tree>(d.as_bytes()) {
        Ok(mut t) => {
            t.0.sort_attrs();
            want.sort_attrs();
            check(t.0 == want, "the document does not have the value's attributes and elements in order");
        }
        Err(_) => check(false, "written document is not well-formed"),
    }
    match read::<T>(d.as_bytes()) {
        Ok(g) => {
            check(g == *v, "value changed by writing and reading");
            match static_xml::ser::serialize(&g).to_string() {
                Ok(d2) => check(d2 == d, "writing the value read gives another document"),
                Err(_) => check(false, "value read not written"),
            }
            cover(0);
            emit(d.as_bytes());
        }
        Err(_) => check(false, "written document can't be read back"),
    }
}

#[derive(Debug, Clone, PartialEq, Deserialize, Serialize)]
#[static_xml(rename = "plain-root")]
struct Plain {
    #[static_xml(attribute)]
    a: String,
    #[static_xml(attribute)]
    b: Option<u8>,
    #[static_xml(attribute, default)]
    c: bool,
    z: String,
    #[static_xml(rename = "Y.y")]
    y: Option<String>,
    v: Vec<String>,
    #[static_xml(default)]
    d: u8,
    a2: Option<i8>,
    pair: Option<Pair>,
}

fn plain(which: usize) {
    let all = which == 2;
    let v = |c: bool| !c || flag();
    let (p, q) = (which == 0 || all, which == 1 || all);
    let s = Plain {
        a: if v(p) { ch() } else { String::new() },
        b: v(p).then(dig),
        c: v(p),
        z: if v(q) { ch() } else { String::new() },
        y: v(q).then(|| if q && flag() { String::new() } else { ch() }),
        v: (0..if q { choice(4) } else { 1 }).map(|i| if i == 1 { String::new() } else { ch() }).collect(),
        d: if v(p) { dig() } else { 0 },
        a2: v(q).then(|| -(dig() as i8) - 1),
        pair: v(p).then(|| Pair(dig(), letter() as char)),
    };
    let mut n = Node::new("", "plain-root");
    n.attrs.push(("".into(), "a".into(), s.a.clone()));
    if let Some(b) = s.b {
        n.attrs.push(("".into(), "b".into(), str1(b'0' + b)));
    }
    n.attrs.push(("".into(), "c".into(), if s.c { "true" } else { "false" }.into()));
    n.child(text_node("z", &s.z));
    text_opt(&mut n, "Y.y", &s.y);
    for t in &s.v {
        n.child(text_node("v", t));
    }
    n.child(text_node("d", &str1(b'0' + s.d)));
    if let Some(i) = s.a2 {
        n.child(text_node("a2", &i.to_string()));
    }
    if let Some(p) = &s.pair {
        n.child(text_node("pair", &pair_text(p)));
    }
    round(&s, n);
}

#[derive(Debug, Clone, PartialEq, Deserialize, Serialize)]
struct Nest {
    one: Leaf,
    opt: Option<Leaf>,
    many: Vec<Leaf>,
    sizes: Vec<Size>,
    #[static_xml(attribute)]
    u: Option<Un>,
    us: Vec<Un>,
    pick: Option<Pick>,
}

fn nest(which: usize) {
    let s = Nest {
        one: leaf(if which == 0 { choice(4) } else { 3 }),
        opt: flag().then(|| leaf(if which == 0 { choice(4) } else { 0 })),
        many: (0..choice(if which == 0 { 4 } else { 2 })).map(|i| leaf(if which == 0 { choice(4) } else { i })).collect(),
        sizes: (0..choice(if which == 1 { 3 } else { 2 })).map(|_| if which == 1 { size() } else { Size::Small }).collect(),
        u: if which == 2 { flag().then(un) } else { None },
        us: (0..if which == 2 { choice(3) } else { 1 }).map(|_| if which == 2 { un() } else { Un::Num(7) }).collect(),
        pick: if which == 1 { flag().then(|| pick(false)) } else { None },
    };
    let mut n = Node::new("", "Nest");
    if let Some(u) = &s.u {
        n.attrs.push(("".into(), "u".into(), un_text(u)));
    }
    n.child(leaf_node(&s.one, "one"));
    if let Some(l) = &s.opt {
        n.child(leaf_node(l, "opt"));
    }
    for l in &s.many {
        n.child(leaf_node(l, "many"));
    }
    for z in &s.sizes {
        n.child(text_node("sizes", &size_text(z)));
    }
    for u in &s.us {
        n.child(text_node("us", &un_text(u)));
    }
    if let Some(p) = &s.pick {
        let mut e = Node::new("", "pick");
        pick_nodes(&mut e, p);
        n.child(e);
    }
    round(&s, n);
}

#[derive(Debug, Clone, PartialEq, Deserialize, Serialize)]
enum Pick {
    #[static_xml(rename = "txt")]
    Text(String),
    Unit,
    #[static_xml(rename = "list")]
    List(Vec<Leaf>),
    Leaf(Leaf),
    #[static_xml(rename = "n")]
    Num(Option<u8>),
    #[static_xml(rename = "rec")]
    Rec(Vec<Rec>),
}

/// Never a list without elements, which can't be told from nothing.
fn pick(deep: bool) -> Pick {
    match choice(6) {
        0 => Pick::Text(ch()),
        1 => Pick::Unit,
        2 => Pick::List((0..1 + choice(3)).map(|i| leaf(if deep { choice(4) } else { i })).collect()),
        3 => Pick::Leaf(leaf(choice(4))),
        4 => Pick::Num(Some(dig())),
        _ => Pick::Rec(vec![Rec { n: 1, kids: vec![Rec { n: dig(), kids: vec![] }] }, Rec { n: 2, kids: vec![] }]),
    }
}

fn pick_nodes(n: &mut Node, p: &Pick) {
    match p {
        Pick::Text(s) => n.child(text_node("txt", s)),
        Pick::Unit => n.child(Node::new("", "Unit")),
        Pick::List(v) => v.iter().for_each(|l| n.child(leaf_node(l, "list"))),
        Pick::Leaf(l) => n.child(leaf_node(l, "Leaf")),
        Pick::Num(Some(d)) => n.child(text_node("n", &str1(b'0' + d))),
        Pick::Num(None) => {}
        Pick::Rec(v) => v.iter().for_each(|r| n.child(rec_node(r, "rec"))),
    }
}

/// A choice as the root.
fn choices() {
    let p = pick(true);
    let mut n = Node::new("", "Pick");
    pick_nodes(&mut n, &p);
    round(&p, n);
}

#[derive(Debug, Clone, PartialEq, Deserialize, Serialize)]
struct Flat {
    #[static_xml(flatten)]
    p: Pick,
    first: Option<String>,
    #[static_xml(attribute)]
    at: Option<String>,
    list2: Vec<String>,
    #[static_xml(flatten)]
    q: Tail,
    group: Option<Group>,
}

#[derive(Debug, Clone, PartialEq, Deserialize, Serialize)]
struct Group {
    #[static_xml(attribute)]
    ga: Option<String>,
    ge: Vec<String>,
    gl: Option<Leaf>,
    #[static_xml(flatten)]
    inner: Deep,
}

#[derive(Debug, Clone, PartialEq, Deserialize, Serialize)]
enum Deep {
    De(String),
    Df(Vec<Tail>),
    Dg,
}

#[derive(Debug, Clone, PartialEq, Deserialize, Serialize)]
enum Tail {
    #[static_xml(rename = "end")]
    End,
    #[static_xml(rename = "more")]
    More(Vec<String>),
}

fn tail(n: usize) -> Tail {
    match choice(2) {
        0 => Tail::End,
        _ => Tail::More((0..1 + choice(n)).map(|_| ch()).collect()),
    }
}

fn tail_nodes(n: &mut Node, t: &Tail) {
    match t {
        Tail::End => n.child(Node::new("", "end")),
        Tail::More(v) => v.iter().for_each(|t| n.child(text_node("more", t))),
    }
}

fn flat(which: usize) {
    let all = which == 2;
    let (p, q) = (which == 0 || all, which == 1 || all);
    let v = |c: bool| !c || flag();
    let s = Flat {
        p: if q { pick(false) } else { Pick::List(vec![leaf(3), leaf(0)]) },
        first: opt(v(p)),
        at: opt(v(p)),
        list2: (0..if q { choice(3) } else { 1 }).map(|_| ch()).collect(),
        q: tail(if q { 2 } else { 1 }),
        group: v(p).then(|| Group {
            ga: opt(v(p)),
            ge: (0..if p { choice(3) } else { 2 }).map(|_| ch()).collect(),
            gl: v(p).then(|| leaf(1)),
            inner: match choice(3) {
                0 => Deep::De(ch()),
                1 => Deep::Df((0..1 + choice(if p { 2 } else { 1 })).map(|_| tail(2)).collect()),
                _ => Deep::Dg,
            },
        }),
    };
    let mut n = Node::new("", "Flat");
    if let Some(v) = &s.at {
        n.attrs.push(("".into(), "at".into(), v.clone()));
    }
    text_opt(&mut n, "first", &s.first);
    for t in &s.list2 {
        n.child(text_node("list2", t));
    }
    if let Some(g) = &s.group {
        let mut e = Node::new("", "group");
        if let Some(v) = &g.ga {
            e.attrs.push(("".into(), "ga".into(), v.clone()));
        }
        for t in &g.ge {
            e.child(text_node("ge", t));
        }
        if let Some(l) = &g.gl {
            e.child(leaf_node(l, "gl"));
        }
        match &g.inner {
            Deep::De(s) => e.child(text_node("De", s)),
            Deep::Df(v) => v.iter().for_each(|t| {
                let mut d = Node::new("", "Df");
                tail_nodes(&mut d, t);
                e.child(d)
            }),
            Deep::Dg => e.child(Node::new("", "Dg")),
        }
        n.child(e);
    }
    pick_nodes(&mut n, &s.p);
    tail_nodes(&mut n, &s.q);
    round(&s, n);
}

/// Recursive types: trees of up to `nodes` nodes.
#[derive(Debug, Clone, PartialEq, Deserialize, Serialize)]
#[static_xml(rename = "rec", namespace = "t: urn:tree", prefix = "t")]
struct Rec {
    #[static_xml(attribute)]
    n: u8,
    #[static_xml(rename = "rec")]
    kids: Vec<Rec>,
}

fn rec_node(r: &Rec, name: &str) -> Node {
    let mut n = Node::new("", name);
    n.attrs.push(("".into(), "n".into(), str1(b'0' + r.n)));
    for k in &r.kids {
        n.child(rec_node(k, "rec"));
    }
    n
}

fn tree(nodes: usize) {
    let mut left = nodes;
    fn grow(left: &mut usize) -> Rec {
        let mut r = Rec { n: dig(), kids: Vec::new() };
        while *left > 0 && flag() {
            *left -= 1;
            r.kids.push(grow(left));
        }
        r
    }
    let r = grow(&mut left);
    let mut n = rec_node(&r, "rec");
    n.ns = "urn:tree".into();
    round(&r, n);
}

/// Deep nesting.
fn deep(max: usize) {
    let n = count(max);
    let mut r = Rec { n: dig(), kids: vec![] };
    for i in 0..n {
        r = Rec { n: (i % 10) as u8, kids: vec![r] };
        if i % 3 == 0 {
            r.kids.push(Rec { n: 9, kids: vec![] });
        }
    }
    let mut n = rec_node(&r, "rec");
    n.ns = "urn:tree".into();
    round(&r, n);
}

fn count(max: usize) -> usize {
    if max < 100 {
        return choice(max);
    }
    [64, 100, 127, 128, 129, 255, 256, 257, max][choice(9)]
}

/// Many elements.
fn wide(max: usize) {
    let n = count(max);
    let s = Nest {
        one: leaf(0),
        opt: None,
        many: if n < 64 {
            (0..n).map(|i| leaf(i % 4)).collect()
        } else {
            let some: Vec<Leaf> = (0..4).map(leaf).collect();
            (0..n).map(|i| some[i % 4].clone()).collect()
        },
        sizes: (0..n / 2).map(|_| Size::Large).collect(),
        u: None,
        us: vec![],
        pick: None,
    };
    let mut w = Node::new("", "Nest");
    w.child(leaf_node(&s.one, "one"));
    for l in &s.many {
        w.child(leaf_node(l, "many"));
    }
    for _ in &s.sizes {
        w.child(text_node("sizes", "Large"));
    }
    round(&s, w);
}

/// Types with hundreds of fields or variants.
fn wide_types(kind: usize) {
    let at = [0, 1, 2, 7, 30, 31, 32, 33, 63, 64, 65, 66, 126, 127, 128, 129, 130, 139, 254, 255, 256, 257, 258, 268, 269];
    let i = at[choice(25)];
    let v = 1 + dig() % 9;
    let rest = flag();
    match kind {
        0 => {
            let w = WideElems::made(|k| if k == i { Some(v) } else { (rest || MUST.contains(&k)).then(|| 1 + (k % 9) as u8) });
            let mut n = Node::new("", "r");
            for (k, g) in w.all().into_iter().enumerate() {
                let s = str1(b'0' + g.unwrap_or(0));
                // A defaulted field is written all the same.
                if g.is_some() || !MUST.contains(&k) && k % 4 == 2 {
                    n.child(text_node(&format!("f{k}"), &s));
                }
            }
            round(&w, n);
        }
        1 => {
            let i = i.min(ATTRS - 1);
            let w = WideAttrs::made(|k| if k == i { Some(v) } else { rest.then(|| 1 + (k % 9) as u8) });
            let mut n = Node::new("", "r");
            for (k, g) in w.all().into_iter().enumerate() {
                if g.is_some() || k % 2 == 1 {
                    n.attrs.push(("urn:p".into(), format!("f{k}"), str1(b'0' + g.unwrap_or(0))));
                }
            }
            round(&w, n);
        }
        _ => {
            let w = HasWide { e: WideEnum::made(i, v) };
            let mut n = Node::new("", "r");
            n.child(if i % 3 == 1 { Node::new("", &format!("V{i}")) } else { text_node(&format!("V{i}"), &str1(b'0' + v)) });
            round(&w, n);
        }
    }
}

/// Names in several namespaces.
#[derive(Debug, Clone, PartialEq, Deserialize, Serialize)]
#[static_xml(rename = "doc", namespace = "a: urn:a", namespace = "b: urn:b", prefix = "a")]
struct Spaces {
    #[static_xml(attribute, prefix = "b")]
    id: Option<String>,
    #[static_xml(attribute, rename = "id")]
    plain: Option<String>,
    #[static_xml(prefix = "a")]
    x: Option<String>,
    #[static_xml(prefix = "b", rename = "x")]
    bx: Vec<String>,
    #[static_xml(rename = "x")]
    nx: Option<String>,
    #[static_xml(prefix = "b")]
    sub: Vec<SubSpaces>,
    #[static_xml(flatten)]
    alt: AltSpaces,
}

/// Declares another URI under a prefix already in use around it.
#[derive(Debug, Clone, PartialEq, Deserialize, Serialize)]
#[static_xml(namespace = "a: urn:other", namespace = "c: urn:a")]
struct SubSpaces {
    #[static_xml(attribute, prefix = "c")]
    k: Option<String>,
    #[static_xml(prefix = "a")]
    v: Option<String>,
    #[static_xml(prefix = "c", rename = "v")]
    w: Vec<String>,
    rest: Option<String>,
}

#[derive(Debug, Clone, PartialEq, Deserialize, Serialize)]
#[static_xml(namespace = "d: urn:d", namespace = "a: urn:a")]
enum AltSpaces {
    #[static_xml(prefix = "d")]
    Q(String),
    #[static_xml(prefix = "a", rename = "Q")]
    R(Option<String>),
    #[static_xml(rename = "Q")]
    S(Vec<SubSpaces>),
}

fn sub(all: bool) -> SubSpaces {
    let v = || !all || flag();
    SubSpaces {
        k: opt(v()),
        v: opt(v()),
        w: (0..if all { choice(3) } else { 1 }).map(|_| ch()).collect(),
        rest: opt(v()),
    }
}

fn ns_text(ns: &str, name: &str, t: &str) -> Node {
    let mut n = Node::new(ns, name);
    n.text(t);
    n
}

fn sub_node(ns: &str, name: &str, s: &SubSpaces) -> Node {
    let mut n = Node::new(ns, name);
    if let Some(k) = &s.k {
        n.attrs.push(("urn:a".into(), "k".into(), k.clone()));
    }
    s.v.iter().for_each(|t| n.child(ns_text("urn:other", "v", t)));
    s.w.iter().for_each(|t| n.child(ns_text("urn:a", "v", t)));
    s.rest.iter().for_each(|t| n.child(ns_text("", "rest", t)));
    n
}

fn spaces(which: usize) {
    let v = |c: usize| which != c && which != 3 || flag();
    let s = Spaces {
        id: opt(v(0)),
        plain: opt(v(0)),
        x: opt(v(1)),
        bx: (0..if which == 1 { choice(4) } else { 1 }).map(|_| ch()).collect(),
        nx: opt(v(1)),
        sub: (0..choice(if which == 2 { 3 } else { 2 })).map(|_| sub(which == 2)).collect(),
        alt: match choice(3) {
            0 => AltSpaces::Q(ch()),
            1 => AltSpaces::R(Some(ch())),
            _ => AltSpaces::S((0..1 + choice(2)).map(|_| sub(which == 3)).collect()),
        },
    };
    let mut n = Node::new("urn:a", "doc");
    s.id.iter().for_each(|t| n.attrs.push(("urn:b".into(), "id".into(), t.clone())));
    s.plain.iter().for_each(|t| n.attrs.push(("".into(), "id".into(), t.clone())));
    s.x.iter().for_each(|t| n.child(ns_text("urn:a", "x", t)));
    s.bx.iter().for_each(|t| n.child(ns_text("urn:b", "x", t)));
    s.nx.iter().for_each(|t| n.child(ns_text("", "x", t)));
    s.sub.iter().for_each(|t| n.child(sub_node("urn:b", "sub", t)));
    match &s.alt {
        AltSpaces::Q(t) => n.child(ns_text("urn:d", "Q", t)),
        AltSpaces::R(t) => t.iter().for_each(|t| n.child(ns_text("urn:a", "Q", t))),
        AltSpaces::S(v) => v.iter().for_each(|t| n.child(sub_node("", "Q", t))),
    }
    round(&s, n);
}

/// Every kind of place a text can stand.
#[derive(Debug, Clone, PartialEq, Deserialize, Serialize)]
#[static_xml(namespace = "p: urn:p")]
struct Slots {
    #[static_xml(attribute)]
    a: String,
    #[static_xml(attribute)]
    oa: Option<String>,
    #[static_xml(attribute, default)]
    da: String,
    #[static_xml(attribute, prefix = "p", rename = "a")]
    pa: Option<String>,
    #[static_xml(attribute)]
    za: Option<Size>,
    #[static_xml(attribute, default)]
    doa: Option<String>,
    e: String,
    oe: Option<String>,
    #[static_xml(default)]
    de: String,
    #[static_xml(default)]
    doe: Option<String>,
    #[static_xml(prefix = "p", rename = "e")]
    pe: Vec<String>,
    ze: Option<Size>,
    zv: Vec<Size>,
    #[static_xml(flatten)]
    ch: Slot2,
}

#[derive(Debug, Clone, PartialEq, Deserialize, Serialize)]
enum Slot2 {
    One(String),
    Opt(Option<String>),
    Many(Vec<String>),
    #[static_xml(rename = "size")]
    Z(Size),
    Deep(Option<Pick>),
    None,
}

const TEXTS: [&str; 16] = [
    "", " ", "\n", "\t a \n", "0", "true", "<a/>", "&amp;", "]]>", "\"'", "é\u{a0}", "None", "  ", "small", "a b", "x\n\n",
];

fn rich() -> String {
    let k = choice(TEXTS.len() + 2);
    if k < TEXTS.len() {
        TEXTS[k].into()
    } else if k == TEXTS.len() {
        "long text & more ".repeat(20)
    } else {
        let mut s = ch();
        s.push_str(&str1(letter()));
        s
    }
}

fn slots(from: usize, to: usize) {
    let base = choice(2);
    let o = |s: &str| (base == 1).then(|| s.to_owned());
    let mut s = Slots {
        a: "q".into(),
        oa: o("r"),
        da: if base == 1 { "s".into() } else { String::new() },
        pa: o("t"),
        za: (base == 1).then(|| Size::Large),
        doa: o("u"),
        e: "v".into(),
        oe: o("w"),
        de: if base == 1 { "x".into() } else { String::new() },
        doe: o("y"),
        pe: o("z").into_iter().collect(),
        ze: (base == 1).then(|| Size::Small),
        zv: vec![],
        ch: Slot2::None,
    };
    let t = rich();
    let z = || Size::Other(t.clone());
    let known = t == "small";
    match from + choice(to - from) {
        0 => s.a = t,
        1 => s.oa = Some(t),
        2 => s.da = t,
        3 => s.pa = Some(t),
        4 => s.za = Some(if known { Size::Small } else { z() }),
        5 => s.doa = Some(t),
        6 => s.e = t,
        7 => s.oe = Some(t),
        8 => s.de = t,
        9 => s.doe = Some(t),
        10 => s.pe = vec![t.clone(), "".into(), t],
        11 => s.pe = vec![t],
        12 => s.ze = Some(if known { Size::Small } else { z() }),
        13 => s.zv = vec![if known { Size::Small } else { z() }, Size::Odd],
        14 => s.ch = Slot2::One(t),
        15 => s.ch = Slot2::Opt(Some(t)),
        16 => s.ch = Slot2::Many(vec![t]),
        17 => s.ch = Slot2::Many(vec!["".into(), t.clone(), t]),
        18 => s.ch = Slot2::Z(if known { Size::Small } else { z() }),
        _ => s.ch = Slot2::Deep(Some(Pick::Text(t))),
    }
    let mut n = Node::new("", "Slots");
    let mut at = |ns: &str, l: &str, v: Option<String>| {
        if let Some(v) = v {
            n.attrs.push((ns.into(), l.into(), v));
        }
    };
    at("", "a", Some(s.a.clone()));
    at("", "oa", s.oa.clone());
    at("", "da", Some(s.da.clone()));
    at("urn:p", "a", s.pa.clone());
    at("", "za", s.za.as_ref().map(size_text));
    at("", "doa", s.doa.clone());
    n.child(text_node("e", &s.e));
    text_opt(&mut n, "oe", &s.oe);
    n.child(text_node("de", &s.de));
    text_opt(&mut n, "doe", &s.doe);
    s.pe.iter().for_each(|t| n.child(ns_text("urn:p", "e", t)));
    s.ze.iter().for_each(|z| n.child(text_node("ze", &size_text(z))));
    s.zv.iter().for_each(|z| n.child(text_node("zv", &size_text(z))));
    match &s.ch {
        Slot2::One(t) => n.child(text_node("One", t)),
        Slot2::Opt(t) => text_opt(&mut n, "Opt", t),
        Slot2::Many(v) => v.iter().for_each(|t| n.child(text_node("Many", t))),
        Slot2::Z(z) => n.child(text_node("size", &size_text(z))),
        Slot2::Deep(p) => p.iter().for_each(|p| {
            let mut d = Node::new("", "Deep");
            pick_nodes(&mut d, p);
            n.child(d);
        }),
        Slot2::None => n.child(Node::new("", "None")),
    }
    round_loose(&s, n);
}

/// As `round`, where the tree reader omits white space alone between markup.
fn round_loose(v: &Slots, mut want: Node) {
    fn blank(n: &mut Node) {
        n.items.retain(|i| !matches!(i, Item::Text(t) if t.bytes().all(|b| matches!(b, 9 | 10 | 13 | 32))));
        for i in &mut n.items {
            if let Item::Elem(e) = i {
                blank(e);
            }
        }
    }
    let d = match static_xml::ser::serialize(v).to_string() {
        Ok(d) => d,
        Err(_) => return check(false, "value not written"),
    };
    match read::<Tree>(d.as_bytes()) {
        Ok(mut t) => {
            blank(&mut t.0);
            blank(&mut want);
            check(t.0 == want, "the document does not have the value's attributes and elements in order");
        }
        Err(_) => check(false, "written document is not well-formed"),
    }
    match read::<Slots>(d.as_bytes()) {
        Ok(g) => {
            check(g == *v, "value changed by writing and reading");
            check(matches!(static_xml::ser::serialize(&g).to_string(), Ok(d2) if d2 == d), "writing the value read gives another document");
            cover(0);
            emit(d.as_bytes());
        }
        Err(_) => check(false, "written document can't be read back"),
    }
}

/// Every type of number and bool, in attributes and elements, at its extremes.
#[derive(Debug, Clone, PartialEq, Deserialize, Serialize)]
struct Nums {
    #[static_xml(attribute)]
    a: i8,
    #[static_xml(attribute)]
    b: Option<u64>,
    #[static_xml(attribute, default)]
    c: i128,
    d: u16,
    e: Option<i32>,
    f: Vec<i64>,
    #[static_xml(default)]
    g: u128,
    h: bool,
    i: Option<bool>,
    j: Vec<u32>,
    k: Vec<bool>,
}

fn nums() {
    let x = choice(5);
    macro_rules! ext {
        ($t:ident) => {
            [0, 1, $t::MIN, $t::MAX, $t::MAX / 2][x]
        };
    }
    let which = choice(4);
    let s = Nums {
        a: ext!(i8),
        b: (which > 0).then(|| ext!(u64)),
        c: ext!(i128),
        d: ext!(u16),
        e: (which > 1).then(|| ext!(i32)),
        f: (0..which).map(|i| ext!(i64).wrapping_sub(i as i64)).collect(),
        g: ext!(u128),
        h: which & 1 == 1,
        i: (which > 0).then_some(x & 1 == 1),
        j: (0..which).map(|i| ext!(u32).wrapping_add(i as u32)).collect(),
        k: (0..which).map(|i| i & 1 == 0).collect(),
    };
    let mut n = Node::new("", "Nums");
    n.attrs.push(("".into(), "a".into(), s.a.to_string()));
    if let Some(b) = s.b {
        n.attrs.push(("".into(), "b".into(), b.to_string()));
    }
    n.attrs.push(("".into(), "c".into(), s.c.to_string()));
    n.child(text_node("d", &s.d.to_string()));
    text_opt(&mut n, "e", &s.e.map(|e| e.to_string()));
    s.f.iter().for_each(|f| n.child(text_node("f", &f.to_string())));
    n.child(text_node("g", &s.g.to_string()));
    n.child(text_node("h", &s.h.to_string()));
    text_opt(&mut n, "i", &s.i.map(|e| e.to_string()));
    s.j.iter().for_each(|f| n.child(text_node("j", &f.to_string())));
    s.k.iter().for_each(|f| n.child(text_node("k", &f.to_string())));
    round(&s, n);
}

crate::harnesses! {
    h_round_slots0 => slots(0, 7);
    h_round_slots1 => slots(7, 14);
    h_round_slots2 => slots(14, 20);
    h_round_wide_elems => wide_types(0);
    h_round_wide_attrs => wide_types(1);
    h_round_wide_enum => wide_types(2);
    h_round_nums => nums();
    h_round_spaces0 => spaces(0);
    h_round_spaces1 => spaces(1);
    h_round_spaces2 => spaces(2);
    h_round_spaces3 => spaces(3);
    h_round_plain0 => plain(0);
    h_round_plain1 => plain(1);
    h_round_plain2 => plain(2);
    h_round_nest0 => nest(0);
    h_round_nest1 => nest(1);
    h_round_nest2 => nest(2);
    h_round_choices => choices();
    h_round_flat0 => flat(0);
    h_round_flat1 => flat(1);
    h_round_flat2 => flat(2);
    h_round_tree3 => tree(3);
    h_round_tree5 => tree(5);
    h_round_tree7 => tree(7);
    h_round_deep300 => deep(300);
    h_round_wide300 => wide(300);
    h_round_deep20 => deep(20);
    h_round_wide20 => wide(20);
}
