//! Namespaces in written documents.

use crate::sym::*;
use crate::util::*;
use static_xml::ser::{ElementBuilder, ElementWriter, Error, Serialize, SerializeField};
use static_xml::ExpandedNameRef;
use static_xml_derive::{Deserialize, Serialize};

fn leak(s: String) -> &'static str {
    Box::leak(s.into_boxed_str())
}

/// An element to write by hand.
struct E {
    ns: &'static str,
    local: &'static str,
    decls: Vec<(&'static str, &'static str)>,
    attrs: Vec<(&'static str, &'static str)>,
    kids: Vec<E>,
}

fn name(ns: &'static str, local: &'static str) -> ExpandedNameRef<'static> {
    ExpandedNameRef { namespace: ns, local_name: local }
}

impl Serialize for E {
    fn write_attributes(&self, b: &mut ElementBuilder) -> Result<(), Error> {
        for (p, u) in &self.decls {
            b.namespace(p, u);
        }
        for (ns, local) in &self.attrs {
            b.attribute(name(ns, local), "v".into())?;
        }
        Ok(())
    }
    fn write_children(&self, w: &mut ElementWriter) -> Result<(), Error> {
        for k in &self.kids {
            k.write(w, name(k.ns, k.local))?;
        }
        Ok(())
    }
}

impl E {
    fn node(&self) -> Node {
        let mut n = Node::new(self.ns, self.local);
        for (ns, local) in &self.attrs {
            n.attrs.push((ns.to_string(), local.to_string(), "v".into()));
        }
        for k in &self.kids {
            n.child(k.node());
        }
        n
    }
}

/// Writes `e` and reads it back with a reader that knows nothing of it.
fn judge(e: &E) {
    let out = static_xml::serialize_with_name(e, name(e.ns, e.local)).to_string();
    match out {
        Ok(s) => match read::<Tree>(s.as_bytes()) {
            Ok(t) => {
                let (mut a, mut b) = (t.0, e.node());
                a.sort_attrs();
                b.sort_attrs();
                check(a == b, "written document has other expanded names than were given");
                cover(0);
                emit(s.as_bytes());
            }
            Err(_) => check(false, "written document is not well-formed"),
        },
        Err(_) => check(false, "element with declared namespaces not written"),
    }
}

const A: &str = "urn:a?b=1&c=\"<>'";
const B: &str = "urn:b";

/// `depth` nested elements, each with up to one declaration and any name its
/// own and its parent's declarations allow.
fn chain(depth: usize, attrs: bool, extra: bool) {
    let mut out: Option<E> = None;
    let mut stack: Vec<E> = Vec::with_capacity(8);
    let mut parent_ns: Vec<&'static str> = vec![""];
    for _ in 0..depth {
        let mut e = E { ns: "", local: "e", decls: Vec::new(), attrs: Vec::new(), kids: Vec::new() };
        let mut avail = parent_ns.clone();
        let mut mine = vec![""];
        if flag() {
            let p = if extra { ["", "p", "ns1"][choice(3)] } else { ["", "p"][choice(2)] };
            let u = [A, B][choice(2)];
            e.decls.push((p, u));
            if !avail.contains(&u) {
                avail.push(u);
            }
            mine.push(u);
            if attrs && flag() {
                e.attrs.push((u, "x"));
                e.attrs.push(("", "x"));
            }
        }
        e.ns = avail[choice(avail.len())];
        if !mine.contains(&e.ns) {
            mine.push(e.ns);
        }
        parent_ns = mine;
        stack.push(e);
    }
    // An unnamespaced leaf, whatever is in scope.
    out.replace(E { ns: "", local: "z", decls: Vec::new(), attrs: Vec::new(), kids: Vec::new() });
    while let Some(mut e) = stack.pop() {
        if let Some(k) = out.take() {
            e.kids.push(k);
        }
        out = Some(e);
    }
    judge(&out.unwrap());
}

/// Several declarations on one element, whose prefixes are any letters, and
/// the same on its child.
fn prefixes(n: usize, m: usize, attrs: bool) {
    const URLS: [&str; 3] = [A, B, "urn:c"];
    let pick = |n: usize| {
        let mut decls = Vec::with_capacity(4);
        for i in 0..n {
            let p = match choice(3) {
                0 => "",
                1 => leak(str1(lower())),
                _ => "ns1",
            };
            decls.push((p, URLS[i]));
        }
        decls
    };
    let mut root = E { ns: "", local: "r", decls: pick(n), attrs: Vec::new(), kids: Vec::new() };
    let mut kid = E { ns: "", local: "k", decls: pick(m), attrs: Vec::new(), kids: Vec::new() };
    if attrs {
        root.attrs.push((URLS[choice(n)], "x"));
        if m > 0 {
            kid.attrs.push((URLS[m - 1], "y"));
        }
    }
    let rn = choice(n + 1);
    root.ns = if rn == n { "" } else { URLS[rn] };
    let kn = choice(n + 1);
    kid.ns = if kn == n { "" } else { URLS[kn] };
    root.kids.push(kid);
    judge(&root);
}

/// Declarations for URLs that are any of 26 each, so that they may coincide.
fn urls(n: usize, m: usize) {
    let pick = |n: usize| {
        let mut decls: Vec<(&'static str, &'static str)> = Vec::with_capacity(4);
        for i in 0..n {
            let u = leak(str1(lower()));
            decls.push((["", "p", "q"][choice(3)], u));
            let _ = i;
        }
        decls
    };
    let mut root = E { ns: "", local: "r", decls: pick(n), attrs: Vec::new(), kids: Vec::new() };
    let mut kid = E { ns: "", local: "k", decls: pick(m), attrs: Vec::new(), kids: Vec::new() };
    let rn = choice(n + 1);
    root.ns = if rn == n { "" } else { root.decls[rn].1 };
    let kn = choice(n + m + 1);
    kid.ns = if kn < n {
        root.decls[kn].1
    } else if kn < n + m {
        kid.decls[kn - n].1
    } else {
        ""
    };
    root.kids.push(kid);
    judge(&root);
}

/// Siblings do not see each other's declarations.
fn siblings(n: usize) {
    let mut root = E { ns: A, local: "r", decls: vec![(["", "p"][choice(2)], A)], attrs: Vec::new(), kids: Vec::new() };
    for _ in 0..n {
        let d = choice(4);
        let mut k = E { ns: "", local: "k", decls: Vec::new(), attrs: Vec::new(), kids: Vec::new() };
        if d > 0 {
            k.decls.push((["", "p", "q"][d - 1], B));
            if flag() {
                k.attrs.push((B, "x"));
            }
        }
        k.ns = match choice(if d > 0 { 3 } else { 2 }) {
            0 => "",
            1 => A,
            _ => B,
        };
        if flag() {
            k.kids.push(E { ns: k.ns, local: "g", decls: Vec::new(), attrs: Vec::new(), kids: Vec::new() });
        }
        root.kids.push(k);
    }
    judge(&root);
}

/// Attributes (and the element itself) in namespaces only the parent declares,
/// whose prefixes the element may give to others.
fn inherit(decls: usize, deeper: bool) {
    let pa = ["p", "", "q"][choice(3)];
    let mut root = E { ns: "", local: "r", decls: vec![(pa, A), (if pa == "q" { "p" } else { "q" }, B)], attrs: Vec::new(), kids: Vec::new() };
    root.ns = ["", A, B][choice(3)];
    let mut kid = E { ns: "", local: "k", decls: Vec::new(), attrs: Vec::new(), kids: Vec::new() };
    const URLS: [&str; 3] = [A, "urn:c", "urn:Aa"];
    for i in 0..decls {
        kid.decls.push((["p", "q", "", "ns1", "p2"][choice(5)], URLS[(i + choice(2)) % 3]));
    }
    match choice(4) {
        0 => kid.attrs.push((A, "x")),
        1 => kid.attrs.push((B, "x")),
        2 => kid.attrs.extend([(B, "x"), (A, "x"), ("", "x")]),
        _ => {}
    }
    kid.ns = match choice(4) {
        0 => "",
        1 => A,
        2 => B,
        _ => kid.decls.first().map_or("", |d| d.1),
    };
    // Each URL at most once per element, as the types derived do.
    for i in 0..kid.decls.len() {
        for j in 0..i {
            assume(kid.decls[i].1 != kid.decls[j].1);
        }
    }
    if deeper {
        let mut g = E { ns: kid.ns, local: "g", decls: Vec::new(), attrs: Vec::new(), kids: Vec::new() };
        if let Some(a) = kid.attrs.first() {
            g.attrs.push((a.0, "y"));
        }
        if flag() {
            g.decls.push((["p", "q"][choice(2)], "urn:d"));
            g.attrs.push(("urn:d", "z"));
        }
        kid.kids.push(g);
    }
    root.kids.push(kid);
    root.kids.push(E { ns: B, local: "last", decls: Vec::new(), attrs: vec![(A, "x")], kids: Vec::new() });
    judge(&root);
}

/// Many namespaces at once, all asking for the same prefix, or for those made
/// up for the others.
fn crowd(max: usize) {
    let n = 1 + if max < 60 { choice(max) } else { max - choice(3) };
    let same = ["", "p", "ns1", "n"][choice(4)];
    let mut root = E { ns: "", local: "r", decls: Vec::new(), attrs: Vec::new(), kids: Vec::new() };
    for i in 0..n {
        let u = leak(format!("urn:{}{}", (b'a' + ((i * 7) % 26) as u8) as char, &["", "1", "2", "3", "4", "5"][i / 26]));
        root.decls.push((if i == 3 { "p3" } else if i == 5 { "ns2" } else { same }, u));
        root.attrs.push((u, "x"));
        root.kids.push(E { ns: u, local: "k", decls: vec![], attrs: vec![("", "x")], kids: vec![E { ns: u, local: "g", decls: vec![(same, "urn:z!")], attrs: vec![("urn:z!", "x")], kids: vec![] }] });
    }
    root.ns = ["", root.decls[0].1, root.decls[n - 1].1][choice(3)];
    judge(&root);
}

// Derived types.

#[derive(Debug, Clone, PartialEq, Default, Deserialize, Serialize)]
#[static_xml(default_namespace = "urn:a", prefix = "", rename = "top")]
struct Top {
    #[static_xml(prefix = "")]
    a: Option<String>,
    plain: Option<String>,
    #[static_xml(prefix = "")]
    mid: Option<Mid>,
    #[static_xml(prefix = "", rename = "mids")]
    mids: Vec<Mid>,
    bare: Option<Bare>,
    #[static_xml(attribute)]
    at: Option<String>,
}

#[derive(Debug, Clone, PartialEq, Default, Deserialize, Serialize)]
#[static_xml(default_namespace = "urn:b", namespace = "x: urn:c")]
struct Mid {
    #[static_xml(prefix = "")]
    b: Option<String>,
    #[static_xml(prefix = "x")]
    c: Option<String>,
    #[static_xml(prefix = "")]
    low: Option<Low>,
    plain: Option<String>,
    #[static_xml(attribute, prefix = "x")]
    ct: Option<String>,
    #[static_xml(attribute, prefix = "", rename = "bt")]
    bt: Option<String>,
}

#[derive(Debug, Clone, PartialEq, Default, Deserialize, Serialize)]
#[static_xml(default_namespace = "urn:a", namespace = "x: urn:b")]
struct Low {
    #[static_xml(prefix = "")]
    a: Option<String>,
    #[static_xml(prefix = "x")]
    b: Option<String>,
    #[static_xml(attribute, prefix = "xml")]
    lang: Option<String>,
    plain: Vec<Bare>,
}

#[derive(Debug, Clone, PartialEq, Default, Deserialize, Serialize)]
struct Bare {
    s: Option<String>,
    #[static_xml(attribute)]
    at: Option<String>,
}

fn leaf(ns: &str, local: &str, t: &str) -> Node {
    let mut n = Node::new(ns, local);
    n.text(t);
    n
}

fn attr(n: &mut Node, ns: &str, local: &str, v: &Option<String>) {
    if let Some(v) = v {
        n.attrs.push((ns.into(), local.into(), v.clone()));
    }
}

fn opt(n: &mut Node, ns: &str, local: &str, v: &Option<String>) {
    if let Some(v) = v {
        n.child(leaf(ns, local, v));
    }
}

fn bare_node(b: &Bare, local: &str) -> Node {
    let mut n = Node::new("", local);
    attr(&mut n, "", "at", &b.at);
    opt(&mut n, "", "s", &b.s);
    n
}

fn low_node(l: &Low) -> Node {
    let mut n = Node::new("urn:b", "low");
    attr(&mut n, "http://www.w3.org/XML/1998/namespace", "lang", &l.lang);
    opt(&mut n, "urn:a", "a", &l.a);
    opt(&mut n, "urn:b", "b", &l.b);
    for b in &l.plain {
        n.child(bare_node(b, "plain"));
    }
    n
}

fn mid_node(m: &Mid, local: &str) -> Node {
    let mut n = Node::new("urn:a", local);
    attr(&mut n, "urn:c", "ct", &m.ct);
    attr(&mut n, "urn:b", "bt", &m.bt);
    opt(&mut n, "urn:b", "b", &m.b);
    opt(&mut n, "urn:c", "c", &m.c);
    if let Some(l) = &m.low {
        n.child(low_node(l));
    }
    opt(&mut n, "", "plain", &m.plain);
    n
}

fn top_node(t: &Top) -> Node {
    let mut n = Node::new("urn:a", "top");
    attr(&mut n, "", "at", &t.at);
    opt(&mut n, "urn:a", "a", &t.a);
    opt(&mut n, "", "plain", &t.plain);
    if let Some(m) = &t.mid {
        n.child(mid_node(m, "mid"));
    }
    for m in &t.mids {
        n.child(mid_node(m, "mids"));
    }
    if let Some(b) = &t.bare {
        n.child(bare_node(b, "bare"));
    }
    n
}

fn maybe() -> Option<String> {
    flag().then(|| str1(letter()))
}

/// `which`: what varies; 4 and 5 vary everything.
fn derived(which: usize) {
    let mut t = Top::default();
    let v = |c: bool| if c { maybe() } else { Some("x".into()) };
    let low = |on: bool| Low {
        a: v(on),
        b: v(on),
        lang: v(on),
        plain: if flag() { vec![Bare { s: Some("s".into()), at: None }] } else { vec![] },
    };
    let mid = |m: bool, l: bool, lows: bool| Mid {
        b: v(m),
        c: v(m),
        low: (lows && flag()).then(|| low(l)),
        plain: v(m),
        ct: v(m),
        bt: v(m),
    };
    match which {
        0 => {
            t.a = maybe();
            t.plain = maybe();
            t.mid = Some(mid(false, false, true));
            t.bare = flag().then(|| Bare { s: maybe(), at: maybe() });
            t.at = maybe();
        }
        1 => {
            t.mid = Some(mid(true, false, true));
            t.bare = flag().then(|| Bare::default());
        }
        2 => {
            t.mid = Some(mid(false, true, true));
            t.plain = maybe();
        }
        3 => {
            t.mids.push(mid(false, false, true));
            t.mids.push(mid(false, true, true));
            t.a = Some("x".into());
        }
        4 => {
            t.a = maybe();
            t.plain = maybe();
            t.mid = Some(mid(true, true, true));
            t.bare = flag().then(|| Bare { s: maybe(), at: maybe() });
            t.at = maybe();
        }
        _ => {
            t.mids.push(mid(true, true, true));
            t.mids.push(mid(true, false, false));
            t.a = Some("x".into());
        }
    }
    match static_xml::serialize(&t).to_string() {
        Ok(s) => {
            match read::<Tree>(s.as_bytes()) {
                Ok(g) => {
                    let (mut a, mut b) = (g.0, top_node(&t));
                    a.sort_attrs();
                    b.sort_attrs();
                    check(a == b, "written document has other expanded names than the type declares");
                    emit(s.as_bytes());
                }
                Err(_) => check(false, "written document is not well-formed"),
            }
            match read::<Top>(s.as_bytes()) {
                Ok(u) => check(u == t, "changed by writing and reading"),
                Err(_) => check(false, "written document can't be read back"),
            }
            cover(0);
        }
        Err(_) => check(false, "value not written"),
    }
}

// Flattened choices with conflicting mappings: the container's win, but names
// keep their meaning.

#[derive(Debug, Clone, PartialEq, Deserialize, Serialize)]
#[static_xml(namespace = "p: urn:a", namespace = "q: urn:b")]
struct Outer {
    #[static_xml(prefix = "p")]
    f: Option<String>,
    #[static_xml(flatten)]
    ch: Ch,
    #[static_xml(attribute, prefix = "q", rename = "at")]
    at: Option<String>,
}

#[derive(Debug, Clone, PartialEq, Deserialize, Serialize)]
#[static_xml(namespace = "p: urn:b", namespace = "q: urn:c", default_namespace = "urn:d")]
enum Ch {
    #[static_xml(prefix = "p")]
    B(String),
    #[static_xml(prefix = "q")]
    C(Vec<Bare>),
    #[static_xml(prefix = "")]
    D,
    N(Low),
}

fn flattened() {
    let t = str1(letter());
    let ch = match choice(4) {
        0 => Ch::B(t),
        1 => Ch::C(vec![Bare { s: Some(t), at: maybe() }, Bare::default()]),
        2 => Ch::D,
        _ => Ch::N(Low { a: Some(t), b: maybe(), lang: None, plain: vec![Bare::default()] }),
    };
    let o = Outer { f: maybe(), ch, at: maybe() };
    let mut want = Node::new("", "Outer");
    attr(&mut want, "urn:b", "at", &o.at);
    opt(&mut want, "urn:a", "f", &o.f);
    match &o.ch {
        Ch::B(s) => want.child(leaf("urn:b", "B", s)),
        Ch::C(v) => {
            for b in v {
                let mut n = bare_node(b, "C");
                n.ns = "urn:c".into();
                want.child(n);
            }
        }
        Ch::D => want.child(Node::new("urn:d", "D")),
        Ch::N(l) => {
            let mut n = low_node(l);
            n.ns = String::new();
            n.local = "N".into();
            want.child(n);
        }
    }
    match static_xml::serialize(&o).to_string() {
        Ok(s) => {
            match read::<Tree>(s.as_bytes()) {
                Ok(g) => {
                    check(g.0 == want, "written document has other expanded names than the types declare");
                    emit(s.as_bytes());
                }
                Err(_) => check(false, "written document is not well-formed"),
            }
            check(matches!(read::<Outer>(s.as_bytes()), Ok(u) if u == o), "changed by writing and reading");
            cover(0);
        }
        Err(_) => check(false, "value not written"),
    }
}

crate::harnesses! {
    h_serns_chain1 => chain(1, true, true);
    h_serns_chain2 => chain(2, true, true);
    h_serns_chain3 => chain(3, true, false);
    h_serns_chain4 => chain(4, false, false);
    h_serns_chain5 => chain(5, false, false);
    h_serns_prefixes1 => prefixes(1, 1, false);
    h_serns_prefixes2 => prefixes(2, 1, true);
    h_serns_prefixes3 => prefixes(2, 2, true);
    h_serns_prefixes4 => prefixes(3, 1, false);
    h_serns_urls1 => urls(1, 1);
    h_serns_urls2 => urls(2, 1);
    h_serns_urls3 => urls(2, 2);
    h_serns_siblings2 => siblings(2);
    h_serns_siblings3 => siblings(3);
    h_serns_inherit0 => inherit(0, true);
    h_serns_inherit1 => inherit(1, false);
    h_serns_inherit1_deep => inherit(1, true);
    h_serns_inherit2 => inherit(2, false);
    h_serns_crowd7 => crowd(7);
    h_serns_crowd20 => crowd(20);
    h_serns_crowd66 => crowd(66);
    h_serns_crowd130 => crowd(130);
    h_serns_derived_top => derived(0);
    h_serns_derived_mid => derived(1);
    h_serns_derived_low => derived(2);
    h_serns_derived_vec => derived(3);
    h_serns_derived_all => derived(4);
    h_serns_derived_vecs => derived(5);
    h_serns_flattened => flattened();
}
