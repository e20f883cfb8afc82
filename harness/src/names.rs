//! Matching by expanded name, whatever prefixes the document uses.

use crate::sym::*;
use crate::util::*;
use static_xml_derive::{Deserialize, Serialize};

#[path = "wide_types.rs"]
mod wide_types;
use wide_types::*;

pub const A: &str = "urn:a";
pub const B: &str = "urn:b";
pub const AB: &str = "urn:ab";

#[derive(Debug, PartialEq, Default, Deserialize, Serialize)]
#[static_xml(namespace = "q: urn:a", namespace = "b: urn:b", namespace = "zz: urn:ab")]
struct Names {
    x: Option<String>,
    #[static_xml(prefix = "q", rename = "x")]
    ax: Option<String>,
    #[static_xml(prefix = "b", rename = "x")]
    bx: Option<String>,
    xx: Option<String>,
    #[static_xml(prefix = "q")]
    y: Option<String>,
    #[static_xml(prefix = "zz", rename = "x")]
    abx: Option<String>,
    #[static_xml(rename = "Y")]
    big_y: Option<String>,
    #[static_xml(prefix = "b", rename = "a-b.c")]
    odd: Option<String>,
    #[static_xml(attribute)]
    u: Option<String>,
    #[static_xml(attribute, prefix = "b", rename = "u")]
    bu: Option<String>,
    #[static_xml(attribute, prefix = "q", rename = "u")]
    au: Option<String>,
    #[static_xml(attribute, prefix = "q")]
    w: Option<String>,
    #[static_xml(attribute, prefix = "xml")]
    lang: Option<String>,
    #[static_xml(attribute, rename = "lang")]
    plain_lang: Option<String>,
    #[static_xml(attribute, rename = "x")]
    attr_x: Option<String>,
}

const URLS: [&str; 4] = ["", A, B, AB];

/// Reference model: sets the field for (namespace, local name), if any.
fn set(n: &mut Names, ns: &str, local: &[u8], v: String) {
    let f = match (ns, local) {
        ("", b"x") => &mut n.x,
        (A, b"x") => &mut n.ax,
        (B, b"x") => &mut n.bx,
        ("", b"xx") => &mut n.xx,
        (A, b"y") => &mut n.y,
        (AB, b"x") => &mut n.abx,
        ("", b"Y") => &mut n.big_y,
        (B, b"a-b.c") => &mut n.odd,
        _ => return,
    };
    *f = Some(v);
}

fn set_attr(n: &mut Names, ns: &str, local: &[u8], v: String) {
    let f = match (ns, local) {
        ("", b"u") => &mut n.u,
        (B, b"u") => &mut n.bu,
        (A, b"u") => &mut n.au,
        (A, b"w") => &mut n.w,
        ("http://www.w3.org/XML/1998/namespace", b"lang") => &mut n.lang,
        ("", b"lang") => &mut n.plain_lang,
        ("", b"x") => &mut n.attr_x,
        _ => return,
    };
    *f = Some(v);
}

fn same(a: &Names, b: &Names) {
    check(a.x == b.x, "field {}x differs");
    check(a.ax == b.ax, "field {urn:a}x differs");
    check(a.bx == b.bx, "field {urn:b}x differs");
    check(a.xx == b.xx, "field {}xx differs");
    check(a.y == b.y, "field {urn:a}y differs");
    check(a.abx == b.abx, "field {urn:ab}x differs");
    check(a.big_y == b.big_y, "field {}Y differs");
    check(a.odd == b.odd, "field {urn:b}a-b.c differs");
    check(a.u == b.u, "attribute {}u differs");
    check(a.bu == b.bu, "attribute {urn:b}u differs");
    check(a.au == b.au, "attribute {urn:a}u differs");
    check(a.w == b.w, "attribute {urn:a}w differs");
    check(a.lang == b.lang, "attribute xml:lang differs");
    check(a.plain_lang == b.plain_lang, "attribute {}lang differs");
    check(a.attr_x == b.attr_x, "attribute {}x differs");
}

/// Prefix bindings in scope: "" (default), "p", "b".
#[derive(Clone, Copy)]
struct Scope([usize; 3]); // index into URLS; 0 = unbound / no namespace

const PFX: [&str; 3] = ["", "p", "b"];

fn bind(d: &mut Doc, s: &mut Scope, i: usize, url: usize) {
    d.s(if i == 0 { " xmlns" } else { " xmlns:" }).s(PFX[i]).s("='").s(URLS[url]).s("'");
    s.0[i] = url;
}

/// One child element with a symbolic local name of `len` bytes, under root
/// bindings and an optional rebinding on the child itself.
fn element(len: usize) {
    let mut d = Doc::new("<r");
    let mut s = Scope([0; 3]);
    let def = choice(4);
    if def > 0 {
        bind(&mut d, &mut s, 0, def);
    }
    let p = 1 + choice(3);
    bind(&mut d, &mut s, 1, p);
    bind(&mut d, &mut s, 2, 2);
    d.s(">");
    let mut c = s;
    let pfx = choice(3);
    let rebind = choice(5);
    d.c(b'<');
    if pfx > 0 {
        d.s(PFX[pfx]).c(b':');
    }
    let mut local = Vec::new();
    for i in 0..len {
        let b = byte();
        // ASCII name characters
        let start = ((b | 0x20) >= b'a') & ((b | 0x20) <= b'z') | (b == b'_');
        let more = ((b >= b'0') & (b <= b'9')) | (b == b'-') | (b == b'.');
        assume(if i == 0 { start } else { start | more });
        local.push(b);
    }
    d.b(&local);
    if rebind > 0 {
        // rebind the prefix in use: to each URL, or (default only) to none
        let url = rebind - 1;
        assume(url > 0 || pfx == 0);
        bind(&mut d, &mut c, pfx, url);
    }
    d.s(">v</");
    if pfx > 0 {
        d.s(PFX[pfx]).c(b':');
    }
    d.b(&local).s("><");
    // A sibling afterwards, outside any rebinding.
    d.s("p:x>w</p:x></r>");
    let mut want = Names::default();
    set(&mut want, URLS[c.0[pfx]], &local, "v".into());
    // a repeated singleton is the business of another property
    assume(!(URLS[c.0[pfx]] == URLS[p] && local == b"x"));
    set(&mut want, URLS[p], b"x", "w".into());
    match read::<Names>(&d.0) {
        Ok(got) => {
            same(&got, &want);
            cover(if want == Names::default() { 1 } else { 0 });
            emit(b"O");
        }
        Err(_) => check(false, "a well-formed document was rejected"),
    }
}

/// The full set of interesting names against every way of binding them.
fn known() {
    let mut d = Doc::new("<r");
    let mut s = Scope([0; 3]);
    let def = choice(4);
    if def > 0 {
        bind(&mut d, &mut s, 0, def);
    }
    let p = 1 + choice(3);
    let b = 1 + choice(3);
    bind(&mut d, &mut s, 1, p);
    bind(&mut d, &mut s, 2, b);
    d.s(">");
    let mut want = Names::default();
    let mut dup = false;
    let mut seen: Vec<(&str, &str)> = Vec::new();
    for k in 0..2u8 {
        let pfx = choice(3);
        let local = ["x", "xx", "y", "Y", "a-b.c", "u"][choice(6)];
        d.c(b'<');
        if pfx > 0 {
            d.s(PFX[pfx]).c(b':');
        }
        d.s(local).s(">").c(b'0' + k).s("</");
        if pfx > 0 {
            d.s(PFX[pfx]).c(b':');
        }
        d.s(local).s(">");
        let url = URLS[s.0[pfx]];
        if seen.contains(&(url, local)) {
            dup = true;
        }
        seen.push((url, local));
        set(&mut want, url, local.as_bytes(), str1(b'0' + k));
    }
    d.s("</r>");
    assume(!dup);
    match read::<Names>(&d.0) {
        Ok(got) => {
            same(&got, &want);
            cover(0);
            emit(b"O");
        }
        Err(_) => check(false, "a well-formed document was rejected"),
    }
}

/// Attributes: unprefixed ones are in no namespace even under a default
/// namespace; `xml:` needs no declaration.
fn attribute(len: usize) {
    let mut d = Doc::new("<r");
    let mut s = Scope([0; 3]);
    let def = choice(4);
    let late = choice(2);
    let p = 1 + choice(3);
    if late == 0 {
        if def > 0 {
            bind(&mut d, &mut s, 0, def);
        }
        bind(&mut d, &mut s, 1, p);
    }
    let pfx = choice(3); // none, p, xml
    d.c(b' ').s(["", "p:", "xml:"][pfx]);
    let mut local = Vec::new();
    for i in 0..len {
        let b = byte();
        let start = ((b | 0x20) >= b'a') & ((b | 0x20) <= b'z') | (b == b'_');
        let more = ((b >= b'0') & (b <= b'9')) | (b == b'-') | (b == b'.');
        assume(if i == 0 { start } else { start | more });
        local.push(b);
    }
    if len == 0 {
        local.extend_from_slice([&b"lang"[..], b"u", b"w", b"x", b"langs"][choice(5)]);
    }
    d.b(&local).s("='v'");
    if late == 1 {
        // declarations may follow their use within the tag
        if def > 0 {
            bind(&mut d, &mut s, 0, def);
        }
        bind(&mut d, &mut s, 1, p);
    }
    d.s("/>");
    let mut want = Names::default();
    let url = ["", URLS[p], "http://www.w3.org/XML/1998/namespace"][pfx];
    set_attr(&mut want, url, &local, "v".into());
    match read::<Names>(&d.0) {
        Ok(got) => {
            same(&got, &want);
            cover(if want == Names::default() { 1 } else { 0 });
            emit(b"O");
        }
        // "xmlns"-like names are reserved
        Err(_) => check(local.starts_with(b"xmlns"), "a well-formed document was rejected"),
    }
}

#[derive(Debug, PartialEq, Deserialize)]
#[static_xml(default_namespace = "urn:a", namespace = "b: urn:b")]
struct Holder {
    #[static_xml(prefix = "")]
    m: Option<String>,
    #[static_xml(rename = "m")]
    bare: Option<String>,
    #[static_xml(flatten)]
    k: Kinds,
    #[static_xml(prefix = "b", rename = "sub")]
    sub: Option<SubHolder>,
}

#[derive(Debug, PartialEq, Deserialize)]
#[static_xml(namespace = "p: urn:b")]
struct SubHolder {
    #[static_xml(prefix = "p")]
    m: String,
}

#[derive(Debug, PartialEq, Deserialize)]
#[static_xml(namespace = "n: urn:a", namespace = "o: urn:b")]
enum Kinds {
    #[static_xml(prefix = "n", rename = "k")]
    Ak(String),
    #[static_xml(prefix = "o", rename = "k")]
    Bk(String),
    #[static_xml(rename = "k")]
    K(String),
    #[static_xml(prefix = "o")]
    Z,
    #[static_xml(prefix = "o")]
    L(String),
}

/// Default-namespace fields, enum variants and nested structs by namespace.
fn holder() {
    let mut d = Doc::new("<r");
    let mut s = Scope([0; 3]);
    let def = choice(3);
    if def > 0 {
        bind(&mut d, &mut s, 0, def);
    }
    let p = 1 + choice(2);
    bind(&mut d, &mut s, 1, p);
    d.s(">");
    let m = choice(2);
    let mu = URLS[s.0[m]];
    d.s(["<m>1</m>", "<p:m>1</p:m>"][m]);
    let v = choice(3);
    let vp = choice(2);
    let vu = URLS[s.0[vp]];
    let name = ["k", "Z", "L"][v];
    d.c(b'<').s(["", "p:"][vp]).s(name).s(">t</").s(["", "p:"][vp]).s(name).s(">");
    let sp = choice(2);
    let su = URLS[s.0[sp]];
    d.s(["<sub>", "<p:sub>"][sp]).s("<x:m xmlns:x='urn:b'>2</x:m><m xmlns='urn:a'>3</m>").s(["</sub>", "</p:sub>"][sp]);
    d.s("</r>");
    let kind = match (vu, name) {
        (A, "k") => Some(Kinds::Ak("t".into())),
        (B, "k") => Some(Kinds::Bk("t".into())),
        ("", "k") => Some(Kinds::K("t".into())),
        (B, "Z") => Some(Kinds::Z),
        (B, "L") => Some(Kinds::L("t".into())),
        _ => None,
    };
    match read::<Holder>(&d.0) {
        Ok(h) => {
            check(Some(h.k) == kind, "wrong enum variant for the element's expanded name");
            check(h.m.is_some() == (mu == A), "default-namespace field matched the wrong namespace");
            check(h.bare.is_some() == (mu == ""), "unprefixed field matched the wrong namespace");
            check(h.sub.is_some() == (su == B), "nested field matched the wrong namespace");
            if let Some(s) = h.sub {
                check(s.m == "2", "nested struct's field matched the wrong namespace");
            }
            cover(0);
            emit(b"O");
        }
        Err(_) => {
            check(kind.is_none(), "a matching enum element was not recognised");
            cover(1);
            emit(b"E");
        }
    }
}

#[derive(Debug, PartialEq, Deserialize)]
struct Many {
    a: Option<u8>,
    aa: Option<u8>,
    ab: Option<u8>,
    b: Option<u8>,
    ba: Option<u8>,
    c: Option<u8>,
    #[static_xml(rename = "A")]
    up_a: Option<u8>,
    #[static_xml(rename = "_")]
    us: Option<u8>,
    #[static_xml(rename = "a1")]
    a1: Option<u8>,
    #[static_xml(rename = "z-")]
    zd: Option<u8>,
    #[static_xml(rename = "é")]
    e: Option<u8>,
}

/// A larger sorted table of names; any name of up to two ASCII characters.
fn many(len: usize) {
    let mut local = Vec::new();
    for i in 0..len {
        let b = byte();
        let start = ((b | 0x20) >= b'a') & ((b | 0x20) <= b'z') | (b == b'_');
        let more = ((b >= b'0') & (b <= b'9')) | (b == b'-') | (b == b'.');
        assume(if i == 0 { start } else { start | more });
        local.push(b);
    }
    if len == 3 {
        // xml-rs does not accept names containing "--"
        assume((local[1] != b'-') | (local[2] != b'-'));
    }
    if len == 0 {
        local.extend_from_slice("é".as_bytes());
    }
    let mut d = Doc::new("<r><");
    d.b(&local).s(">7</").b(&local).s("></r>");
    match read::<Many>(&d.0) {
        Ok(m) => {
            let fields: [(&[u8], Option<u8>); 11] = [
                (b"a", m.a),
                (b"aa", m.aa),
                (b"ab", m.ab),
                (b"b", m.b),
                (b"ba", m.ba),
                (b"c", m.c),
                (b"A", m.up_a),
                (b"_", m.us),
                (b"a1", m.a1),
                (b"z-", m.zd),
                ("é".as_bytes(), m.e),
            ];
            for (n, v) in fields {
                check((v == Some(7)) == (local == n), "an element was matched to a differently named field, or its own field missed it");
            }
            cover(0);
            emit(b"O");
        }
        Err(_) => check(false, "a well-formed document was rejected"),
    }
}

/// Fields named by raw identifiers match the name without the `r#`.
#[derive(Debug, PartialEq, Deserialize, Serialize)]
struct Raw {
    #[static_xml(attribute)]
    r#in: Option<String>,
    r#type: Option<String>,
    r#match: Vec<String>,
}

fn raw() {
    let t = str1(plain());
    let k = choice(3);
    let doc = [format!("<Raw in='{t}'/>"), format!("<Raw><type>{t}</type></Raw>"), format!("<Raw><match>{t}</match><match/></Raw>")];
    let want = Raw {
        r#in: (k == 0).then(|| t.clone()),
        r#type: (k == 1).then(|| t.clone()),
        r#match: if k == 2 { vec![t, String::new()] } else { Vec::new() },
    };
    match read::<Raw>(doc[k].as_bytes()) {
        Ok(r) => check(r == want, "raw identifier field not matched by its name"),
        Err(_) => check(false, "rejected"),
    }
    match static_xml::serialize(&want).write_document_declaration(false).to_string() {
        Ok(s) => {
            let sp = [" in=", "<type>", "<match>"][k];
            let mut found = false;
            for i in 0..s.len() - sp.len() {
                found |= &s.as_bytes()[i..i + sp.len()] == sp.as_bytes();
            }
            check(found, "raw identifier field not written under its name");
            cover(0);
        }
        Err(_) => check(false, "can't be written"),
    }
}

/// A default namespace spelled out as no namespace at all, next to names
/// without a prefix, and with one, in an enum and in a struct.
#[derive(Debug, PartialEq, Deserialize)]
#[static_xml(default_namespace = "", namespace = "b: urn:b")]
enum Blank {
    B(String),
    #[static_xml(prefix = "")]
    A(String),
    #[static_xml(prefix = "b")]
    C(String),
    #[static_xml(prefix = "b", rename = "B")]
    Bb(String),
    D(String),
    #[static_xml(prefix = "")]
    E(String),
    F(String),
    #[static_xml(prefix = "", rename = "AA")]
    Aa(String),
}

#[derive(Debug, PartialEq, Deserialize)]
#[static_xml(default_namespace = "", namespace = "b: urn:b")]
struct BlankS {
    #[static_xml(rename = "B")]
    b: Option<String>,
    #[static_xml(prefix = "", rename = "A")]
    a: Option<String>,
    #[static_xml(prefix = "b", rename = "C")]
    c: Option<String>,
    #[static_xml(prefix = "b", rename = "B")]
    bb: Option<String>,
    #[static_xml(rename = "D")]
    d: Option<String>,
    #[static_xml(prefix = "", rename = "E")]
    e: Option<String>,
    #[static_xml(rename = "F")]
    f: Option<String>,
    #[static_xml(prefix = "", rename = "AA")]
    aa: Option<String>,
    #[static_xml(attribute, rename = "B")]
    at_b: Option<String>,
    #[static_xml(attribute, prefix = "b", rename = "B")]
    at_bb: Option<String>,
    #[static_xml(attribute, rename = "A")]
    at_a: Option<String>,
}

#[derive(Debug, PartialEq, Deserialize)]
struct HasBlank {
    #[static_xml(flatten)]
    k: Blank,
}

fn blank() {
    const L: [&str; 8] = ["A", "B", "C", "D", "E", "F", "AA", "G"];
    let mut l = L[choice(8)].as_bytes().to_vec();
    if flag() {
        l = vec![letter()];
    }
    let b = flag();
    let v = str1(letter());
    let ok = |t: usize| -> bool {
        match t {
            0 => !b & (l == b"A"),
            1 => !b & (l == b"B"),
            2 => b & (l == b"C"),
            3 => b & (l == b"B"),
            4 => !b & (l == b"D"),
            5 => !b & (l == b"E"),
            6 => !b & (l == b"F"),
            _ => !b & (l == b"AA"),
        }
    };
    let mut d = Doc::new("<r xmlns:p='urn:b'");
    let how = choice(3);
    if how == 2 {
        d.s([" ", " p:"][b as usize]).b(&l).s("='").s(&v).s("'/>");
    } else {
        d.s("><").s(["", "p:"][b as usize]).b(&l).s(">").s(&v).s("</").s(["", "p:"][b as usize]).b(&l).s("></r>");
    }
    if how == 0 {
        match read::<HasBlank>(&d.0) {
            Ok(h) => {
                let (t, s) = match h.k {
                    Blank::A(s) => (0, s),
                    Blank::B(s) => (1, s),
                    Blank::C(s) => (2, s),
                    Blank::Bb(s) => (3, s),
                    Blank::D(s) => (4, s),
                    Blank::E(s) => (5, s),
                    Blank::F(s) => (6, s),
                    Blank::Aa(s) => (7, s),
                };
                check(ok(t) && s == v, "another variant than the element's");
                cover(0);
            }
            Err(_) => {
                let mut any = false;
                for t in 0..8 {
                    any |= ok(t);
                }
                check(!any, "a variant's element was not recognised");
                cover(1);
            }
        }
        return;
    }
    match read::<BlankS>(&d.0) {
        Ok(g) => {
            for (t, f) in [&g.a, &g.b, &g.c, &g.bb, &g.d, &g.e, &g.f, &g.aa].into_iter().enumerate() {
                check(f.is_some() == ((how == 1) & ok(t)), "a field has another element than its own");
            }
            for (t, f) in [&g.at_a, &g.at_b, &g.at_bb].into_iter().enumerate() {
                check(f.is_some() == ((how == 2) & ok([0, 1, 3][t])), "a field has another attribute than its own");
            }
            cover(2);
        }
        // "xmlns"-like names are reserved; one letter never is
        Err(_) => check(false, "a well-formed document was rejected"),
    }
}

/// Long names: every length up to 300, differing at one end, and a prefix of
/// one another; long prefixes and namespaces.
macro_rules! long_names {
    ($($f:ident $n:literal)*) => {
        #[derive(Debug, PartialEq, Deserialize)]
        struct LongNames {
            $(#[static_xml(rename = $n)] $f: Option<u8>,)*
        }
        impl LongNames {
            fn of(f: fn(&str) -> Option<u8>) -> LongNames {
                LongNames { $($f: f($n)),* }
            }
        }
        fn long_fields(l: &LongNames) -> Vec<(&'static str, Option<u8>)> {
            vec![$(($n, l.$f)),*]
        }
    };
}
long_names! {
    a0 "abcdefghijklmno"
    a1 "abcdefghijklmnop"
    a2 "abcdefghijklmnopq"
    a3 "abcdefghijklmnoqp"
    a4 "bbcdefghijklmnop"
    b0 "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn"
    b1 "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn"
    b2 "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn"
    b3 "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnm"
    c0 "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn"
    c1 "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnm"
}

fn long_names() {
    let names = long_fields(&LongNames::of(|_| None));
    let mut l = names[choice(names.len())].0.as_bytes().to_vec();
    match choice(4) {
        0 => {}
        1 => {
            let i = [0, l.len() / 2, l.len() - 2, l.len() - 1][choice(4)];
            l[i] = letter();
        }
        2 => l.push(letter()),
        _ => {
            l.pop();
        }
    }
    let mut d = Doc::new("<r><");
    d.b(&l).s(">7</").b(&l).s("></r>");
    match read::<LongNames>(&d.0) {
        Ok(m) => {
            for (n, v) in long_fields(&m) {
                check((v == Some(7)) == (l == n.as_bytes()), "an element was matched to a differently named field, or its own field missed it");
            }
            cover(0);
            emit(b"O");
        }
        Err(_) => check(false, "a well-formed document was rejected"),
    }
}

/// Many prefixes in scope: each name means what its own prefix is bound to.
fn scopes(n: usize) {
    let at = [0, 1, n / 2, n - 2, n - 1][choice(5)];
    let inner = flag();
    let own = flag();
    let mut d = Doc::new("<r");
    for i in 0..n {
        if i == at && inner {
            continue;
        }
        d.s(" xmlns:p").s(&i.to_string()).s("='").s(if i == at { "urn:a" } else { ["urn:b", "urn:x", "urn:y"][i % 3] }).s("'");
    }
    let p = if own { at } else { (at + 1 + choice(3)) % n };
    let want = if p == at { "urn:a" } else { ["urn:b", "urn:x", "urn:y"][p % 3] };
    d.s("><o/>");
    d.s("<p").s(&p.to_string()).s(":x");
    if inner {
        d.s(" xmlns:p").s(&at.to_string()).s("='urn:a'");
    }
    d.s(">t</p").s(&p.to_string()).s(":x></r>");
    match read::<Names>(&d.0) {
        Ok(m) => {
            check(m.ax.is_some() == (want == "urn:a"), "a name among many prefixes was matched by another's namespace");
            check(m.bx.is_some() == (want == "urn:b"), "a name among many prefixes was matched by another's namespace");
            check(m.x.is_none(), "a name among many prefixes lost its namespace");
            cover(0);
            emit(b"O");
        }
        Err(_) => check(false, "a well-formed document was rejected"),
    }
}

fn required(d: &mut Doc, but: usize) {
    for i in MUST {
        if i != but {
            d.s("<f").s(&i.to_string()).s(">1</f").s(&i.to_string()).s(">");
        }
    }
}

/// Types with hundreds of fields or variants: one of them, or a name like
/// one's.
fn wide_name(how: usize) {
    let n = if how == 2 { ATTRS } else { ELEMS };
    let i = choice(n / 10) * 10 + choice(10);
    let near = choice(4);
    let mut l = format!("{}{}", if how == 1 { "V" } else { "f" }, i);
    match near {
        0 => {}
        1 => l.push(letter() as char),
        2 => l.push('.'),
        _ => {
            l.remove(0);
            l.insert(0, 'g');
        }
    }
    let mut d = Doc::new("<r xmlns:q='urn:p'");
    if how == 2 {
        d.s(" q:").s(&l).s("='7' ").s(&l).s("='6'/>");
        match read::<WideAttrs>(&d.0) {
            Ok(w) => {
                for (j, v) in w.all().into_iter().enumerate() {
                    check(v == (near == 0 && i == j).then(|| 7), "an attribute was matched to another field than its own");
                }
                cover(0);
            }
            Err(_) => check(false, "a well-formed document was rejected"),
        }
        return;
    }
    d.s(">");
    let unit = how == 1 && i % 3 == 1;
    let t = if unit { "" } else { "7" };
    d.s("<").s(&l).s(">").s(t).s("</").s(&l).s(">");
    if how == 0 {
        required(&mut d, if near == 0 { i } else { ELEMS });
    } else if near != 0 {
        d.s("<V269>2</V269>");
    }
    d.s("<q:f10>9</q:f10></r>");
    if how == 0 {
        match read::<WideElems>(&d.0) {
            Ok(w) => {
                for (j, v) in w.all().into_iter().enumerate() {
                    let want = if near == 0 && i == j { Some(7) } else { MUST.contains(&j).then(|| 1) };
                    check(v == want, "an element was matched to another field than its own");
                }
                cover(0);
            }
            Err(_) => check(false, "a well-formed document was rejected"),
        }
    } else {
        let want = if near == 0 { (i, if unit { 0 } else { 7 }) } else { (269, 2) };
        match read::<HasWide>(&d.0) {
            Ok(w) => {
                check(w.e.get() == want, "an element was matched to another variant than its own");
                cover(0);
            }
            Err(_) => check(false, "a well-formed document was rejected"),
        }
    }
}

// Namespace URIs of every shape, against documents that bind exactly that URI
// or one differing in any one byte, by a byte more or by a byte less.

const SHAPES: [&str; 7] = ["urn:x#", "http://www.w3.org/2001/XMLSchema", "u", "URN:X/", "a%20b", "http://\u{e9}.org/?q=1;z&y", "XML"];

macro_rules! shaped {
    ($name:ident, $ns:literal) => {
        #[derive(Debug, PartialEq, Deserialize)]
        #[static_xml(namespace = $ns)]
        struct $name {
            #[static_xml(prefix = "p", rename = "e")]
            pe: Option<String>,
            #[static_xml(rename = "e")]
            e: Option<String>,
            #[static_xml(attribute, prefix = "p", rename = "a")]
            pa: Option<String>,
            #[static_xml(attribute, rename = "a")]
            a: Option<String>,
        }
        impl From<$name> for Shaped {
            fn from(s: $name) -> Shaped {
                Shaped { pe: s.pe, e: s.e, pa: s.pa, a: s.a }
            }
        }
    };
}

struct Shaped {
    pe: Option<String>,
    e: Option<String>,
    pa: Option<String>,
    a: Option<String>,
}

shaped!(Shape0, "p: urn:x#");
shaped!(Shape1, "p: http://www.w3.org/2001/XMLSchema");
shaped!(Shape2, "p: u");
shaped!(Shape3, "p: URN:X/");
shaped!(Shape4, "p: a%20b");
shaped!(Shape5, "p: http://\u{e9}.org/?q=1;z&y");
shaped!(Shape6, "p: XML");

fn shape<T: static_xml::de::Deserialize + Into<Shaped>>(uri: &str, edit: usize) {
    let mut u = uri.as_bytes().to_vec();
    let mut same = true;
    match edit {
        0 => {}
        1 => {
            let i = choice(u.len());
            let b = byte();
            assume((b > 0x20) & (b < 0x7f) & (b != b'<') & (b != b'&') & (b != b'"'));
            assume(u[i] < 0x80);
            same = b == u[i];
            u[i] = b;
        }
        2 => {
            same = false;
            let b = byte();
            assume((b >= 0x20) & (b < 0x7f) & (b != b'<') & (b != b'&') & (b != b'"'));
            u.insert([0, u.len()][choice(2)], b);
        }
        _ => {
            same = false;
            u.remove([0, u.len() - 1][choice(2)]);
            // an empty URI would undeclare
            assume(!u.is_empty());
        }
    }
    let mut esc = Vec::new();
    for &c in &u {
        if c == b'&' {
            esc.extend_from_slice(b"&amp;");
        } else {
            esc.push(c);
        }
    }
    let mut d = Doc::new("<r xmlns:p=\"");
    d.b(&esc);
    match choice(3) {
        0 => d.s("\" p:a='1'><p:e>2</p:e></r>"),
        1 => d.s("\" p:a='1'><e xmlns=\"").b(&esc).s("\">2</e></r>"),
        _ => d.s("\" p:a='1' xmlns=\"").b(&esc).s("\"><e>2</e></r>"),
    };
    match read::<T>(&d.0) {
        Ok(t) => {
            let t: Shaped = t.into();
            check(t.pe.is_some() == same, "element matched by another namespace than its own");
            check(t.pa.is_some() == same, "attribute matched by another namespace than its own");
            check(t.e.is_none() && t.a.is_none(), "a namespaced name matched a field without namespace");
            cover(same as usize);
            emit(b"O");
        }
        Err(_) => check(false, "a well-formed document was rejected"),
    }
}

fn shapes(edit: usize) {
    match choice(7) {
        0 => shape::<Shape0>(SHAPES[0], edit),
        1 => shape::<Shape1>(SHAPES[1], edit),
        2 => shape::<Shape2>(SHAPES[2], edit),
        3 => shape::<Shape3>(SHAPES[3], edit),
        4 => shape::<Shape4>(SHAPES[4], edit),
        5 => shape::<Shape5>(SHAPES[5], edit),
        _ => shape::<Shape6>(SHAPES[6], edit),
    }
}

crate::harnesses! {
    h_names_shapes0 => shapes(0);
    h_names_shapes1 => shapes(1);
    h_names_shapes2 => shapes(2);
    h_names_shapes3 => shapes(3);
    h_names_blank => blank();
    h_names_long => long_names();
    h_names_scopes20 => scopes(20);
    h_names_scopes300 => scopes(300);
    h_names_wide_elems => wide_name(0);
    h_names_wide_enum => wide_name(1);
    h_names_wide_attrs => wide_name(2);
    h_names_raw => raw();
    h_names_element1 => element(1);
    h_names_element2 => element(2);
    h_names_known => known();
    h_names_attr0 => attribute(0);
    h_names_attr1 => attribute(1);
    h_names_attr2 => attribute(2);
    h_names_holder => holder();
    h_names_many0 => many(0);
    h_names_many1 => many(1);
    h_names_many2 => many(2);
    h_names_many3 => many(3);
}
