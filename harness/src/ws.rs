//! White space normalization, against XSD's definition of it.

use crate::sym::*;
use crate::util::*;
use static_xml::de::{normalize, ParseText, WhiteSpace};
use static_xml_derive::{Deserialize, ParseText};

fn ws(b: u8) -> bool {
    b == 0x20 || b == 0x09 || b == 0x0a || b == 0x0d
}

/// XSD 1.1 part 1, 3.1.4: replace, then (for collapse) squeeze and trim.
fn reference(s: &[u8], mode: WhiteSpace) -> Vec<u8> {
    let mut out = Vec::with_capacity(s.len());
    match mode {
        WhiteSpace::Preserve => out.extend_from_slice(s),
        WhiteSpace::Replace => {
            for &b in s {
                out.push(if ws(b) { 0x20 } else { b });
            }
        }
        WhiteSpace::Collapse => {
            let mut pending = false;
            for &b in s {
                if ws(b) {
                    pending = !out.is_empty();
                } else {
                    if pending {
                        out.push(0x20);
                    }
                    pending = false;
                    out.push(b);
                }
            }
        }
    }
    out
}

const MODES: [WhiteSpace; 3] = [WhiteSpace::Preserve, WhiteSpace::Replace, WhiteSpace::Collapse];

fn string(v: &[u8]) -> String {
    // SAFETY: the harnesses build valid UTF-8 only.
    unsafe { String::from_utf8_unchecked(v.to_vec()) }
}

/// Any ASCII byte, or (rarely) a longer character.
fn any_char(v: &mut Vec<u8>, wide: bool) {
    if wide && flag() {
        match choice(3) {
            0 => {
                let (a, b) = (byte(), byte());
                assume((a >= 0xc2) & (a <= 0xdf) & (b >= 0x80) & (b <= 0xbf));
                v.push(a);
                v.push(b);
            }
            1 => {
                // Includes U+2000..U+200A, U+2028 and U+3000, spaces XSD leaves alone.
                let (a, b, c) = (byte(), byte(), byte());
                assume(((a == 0xe2) | (a == 0xe3)) & (b >= 0x80) & (b <= 0xbf) & (c >= 0x80) & (c <= 0xbf));
                v.push(a);
                v.push(b);
                v.push(c);
            }
            _ => {
                let c = byte();
                assume((c >= 0x80) & (c <= 0xbf));
                v.extend_from_slice(&[0xf0, 0x9f, 0x98]);
                v.push(c);
            }
        }
    } else {
        let b = byte();
        assume(b < 0x80);
        v.push(b);
    }
}

fn compare(v: &[u8], mode: WhiteSpace) {
    let want = reference(v, mode);
    let got = normalize(string(v), mode);
    check(got.as_bytes() == &want[..], "normalize differs from XSD whiteSpace processing");
    check(std::str::from_utf8(got.as_bytes()).is_ok(), "normalize made invalid UTF-8");
    let again = normalize(got.clone(), mode);
    check(again == got, "normalize is not idempotent");
    cover(match mode {
        WhiteSpace::Preserve => 0,
        WhiteSpace::Replace => 1,
        WhiteSpace::Collapse => 2,
    });
    emit(got.as_bytes());
}

/// All ASCII strings of length `n`.
fn ascii(n: usize, mode: WhiteSpace) {
    let mut v = Vec::with_capacity(32);
    for _ in 0..n {
        any_char(&mut v, false);
    }
    compare(&v, mode);
}

fn wide(n: usize) {
    let mode = MODES[choice(3)];
    let mut v = Vec::with_capacity(32);
    for _ in 0..n {
        any_char(&mut v, true);
    }
    compare(&v, mode);
}

/// Symbolic characters before, between and after long words and long gaps.
fn long(words: usize, word: usize, gap: usize, holes: usize) {
    let mode = MODES[1 + choice(2)];
    let mut v = Vec::with_capacity(1024);
    for w in 0..words {
        for _ in 0..holes {
            any_char(&mut v, false);
        }
        for i in 0..word {
            v.push(b'a' + (i % 26) as u8);
        }
        for i in 0..gap {
            v.push(b" \t\n\r"[(i + w) % 4]);
        }
    }
    for _ in 0..holes {
        any_char(&mut v, false);
    }
    compare(&v, mode);
}

// The derive macros' `whitespace` attribute.

#[derive(Debug, PartialEq, ParseText)]
#[static_xml(mode = "std", whitespace = "replace")]
struct SR(String);
#[derive(Debug, PartialEq, ParseText)]
#[static_xml(mode = "std", whitespace = "collapse")]
struct SC(String);
#[derive(Debug, PartialEq, ParseText)]
#[static_xml(mode = "std", whitespace = "preserve")]
struct SP(String);
#[derive(Debug, PartialEq, ParseText)]
#[static_xml(mode = "std")]
struct SD(String);

macro_rules! from_str {
    ($($t:ident)*) => { $(impl std::str::FromStr for $t {
        type Err = std::fmt::Error;
        fn from_str(s: &str) -> Result<Self, Self::Err> { Ok($t(s.to_owned())) }
    })* };
}
from_str!(SR SC SP SD);

#[derive(Debug, PartialEq, ParseText)]
#[static_xml(mode = "restriction", whitespace = "replace")]
enum RR {
    #[static_xml(rename = "a b")]
    Ab,
    #[static_xml(unknown)]
    O(String),
}
#[derive(Debug, PartialEq, ParseText)]
#[static_xml(mode = "restriction", whitespace = "collapse")]
enum RC {
    #[static_xml(rename = "a b")]
    Ab,
    #[static_xml(unknown)]
    O(String),
}
#[derive(Debug, PartialEq, ParseText)]
#[static_xml(mode = "restriction")]
enum RD {
    #[static_xml(rename = "a b")]
    Ab,
    #[static_xml(unknown)]
    O(String),
}
#[derive(Debug, PartialEq, ParseText)]
#[static_xml(mode = "union", whitespace = "replace")]
enum UR {
    S(String),
}
#[derive(Debug, PartialEq, ParseText)]
#[static_xml(mode = "union", whitespace = "collapse")]
enum UC {
    S(String),
}
#[derive(Debug, PartialEq, ParseText)]
#[static_xml(mode = "union")]
enum UD {
    S(String),
}

/// What each derived type sees of the text.
fn seen(k: usize, s: String) -> Option<(Vec<u8>, WhiteSpace)> {
    use WhiteSpace::*;
    fn r(ab: bool, o: String) -> Vec<u8> {
        if ab { b"a b".to_vec() } else { o.into_bytes() }
    }
    Some(match k {
        0 => (SR::parse(s).ok()?.0.into_bytes(), Replace),
        1 => (SC::parse(s).ok()?.0.into_bytes(), Collapse),
        2 => (SP::parse(s).ok()?.0.into_bytes(), Preserve),
        3 => (SD::parse(s).ok()?.0.into_bytes(), Preserve),
        4 => (match RR::parse(s).ok()? { RR::Ab => r(true, String::new()), RR::O(o) => { check(o != "a b", "known text parsed as unknown"); r(false, o) } }, Replace),
        5 => (match RC::parse(s).ok()? { RC::Ab => r(true, String::new()), RC::O(o) => { check(o != "a b", "known text parsed as unknown"); r(false, o) } }, Collapse),
        6 => (match RD::parse(s).ok()? { RD::Ab => r(true, String::new()), RD::O(o) => { check(o != "a b", "known text parsed as unknown"); r(false, o) } }, Preserve),
        7 => (match UR::parse(s).ok()? { UR::S(o) => o.into_bytes() }, Replace),
        8 => (match UC::parse(s).ok()? { UC::S(o) => o.into_bytes() }, Collapse),
        _ => (match UD::parse(s).ok()? { UD::S(o) => o.into_bytes() }, Preserve),
    })
}

fn derived(n: usize) {
    let k = choice(10);
    let mut v = Vec::with_capacity(32);
    for _ in 0..n {
        v.push(among(b" \t\n\rabz"));
    }
    match seen(k, string(&v)) {
        Some((got, mode)) => {
            check(got == reference(&v, mode), "a derived text type ignores or misapplies its whitespace attribute");
            cover(0);
            emit(&got);
        }
        None => check(false, "text rejected"),
    }
}

/// Through a document: element text and attribute, in a struct.
#[derive(Debug, PartialEq, Deserialize)]
struct Host {
    #[static_xml(attribute)]
    a: Option<SC>,
    #[static_xml(attribute)]
    b: Option<SR>,
    #[static_xml(attribute)]
    c: Option<SD>,
    x: Option<SC>,
    y: Option<SR>,
    z: Option<SD>,
}

fn host(n: usize) {
    let mut v = Vec::with_capacity(32);
    let k = choice(6);
    for _ in 0..n {
        // Literal tabs in attributes are the XML parser's business.
        v.push(if k < 3 { among(b" ab") } else { among(b" \tab") });
    }
    let mut d = Doc::new("<r");
    if k < 3 {
        d.s([" a='", " b='", " c='"][k]).b(&v).s("'/>");
    } else {
        d.s([" ><x>", "><y>", "><z>"][k - 3]).b(&v).s(["</x></r>", "</y></r>", "</z></r>"][k - 3]);
    }
    match read::<Host>(&d.0) {
        Ok(h) => {
            let got = match k {
                0 => h.a.map(|s| s.0),
                1 => h.b.map(|s| s.0),
                2 => h.c.map(|s| s.0),
                3 => h.x.map(|s| s.0),
                4 => h.y.map(|s| s.0),
                _ => h.z.map(|s| s.0),
            };
            let mode = [WhiteSpace::Collapse, WhiteSpace::Replace, WhiteSpace::Preserve][k % 3];
            check(got.map(String::into_bytes) == Some(reference(&v, mode)), "field not normalized as declared");
            cover(k);
        }
        Err(_) => check(false, "rejected"),
    }
}

crate::harnesses! {
    h_ws_preserve8 => ascii(8, WhiteSpace::Preserve);
    h_ws_replace6 => ascii(6, WhiteSpace::Replace);
    h_ws_replace10 => ascii(10, WhiteSpace::Replace);
    h_ws_replace12 => ascii(12, WhiteSpace::Replace);
    h_ws_collapse0 => ascii(0, WhiteSpace::Collapse);
    h_ws_collapse1 => ascii(1, WhiteSpace::Collapse);
    h_ws_collapse2 => ascii(2, WhiteSpace::Collapse);
    h_ws_collapse3 => ascii(3, WhiteSpace::Collapse);
    h_ws_collapse4 => ascii(4, WhiteSpace::Collapse);
    h_ws_collapse5 => ascii(5, WhiteSpace::Collapse);
    h_ws_collapse6 => ascii(6, WhiteSpace::Collapse);
    h_ws_collapse7 => ascii(7, WhiteSpace::Collapse);
    h_ws_collapse8 => ascii(8, WhiteSpace::Collapse);
    h_ws_collapse10 => ascii(10, WhiteSpace::Collapse);
    h_ws_collapse12 => ascii(12, WhiteSpace::Collapse);
    h_ws_collapse14 => ascii(14, WhiteSpace::Collapse);
    h_ws_replace16 => ascii(16, WhiteSpace::Replace);
    h_ws_collapse16 => ascii(16, WhiteSpace::Collapse);
    h_ws_collapse18 => ascii(18, WhiteSpace::Collapse);
    h_ws_collapse20 => ascii(20, WhiteSpace::Collapse);
    h_ws_wide5 => wide(5);
    h_ws_wide6 => wide(6);
    h_ws_long5 => long(4, 33, 9, 2);
    h_ws_derived7 => derived(7);
    h_ws_host6 => host(6);
    h_ws_wide2 => wide(2);
    h_ws_wide3 => wide(3);
    h_ws_wide4 => wide(4);
    h_ws_long1 => long(3, 40, 20, 1);
    h_ws_long2 => long(3, 17, 5, 2);
    h_ws_long3 => long(2, 70, 1, 2);
    h_ws_long4 => long(1, 300, 70, 3);
    h_ws_many => long(12, 3, 2, 1);
    h_ws_derived3 => derived(3);
    h_ws_derived4 => derived(4);
    h_ws_host3 => host(3);
    h_ws_host4 => host(4);
}
