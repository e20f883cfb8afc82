//! Every string survives being written as text or as an attribute value.

use crate::sym::*;
use crate::util::*;
use static_xml::ser::{ElementBuilder, ElementWriter, Error, Serialize};
use static_xml::ExpandedNameRef;
use static_xml_derive::{Deserialize, Serialize};

fn string(v: Vec<u8>) -> String {
    // SAFETY: callers build valid UTF-8.
    unsafe { String::from_utf8_unchecked(v) }
}

/// An ASCII character XML allows, less the carriage return (no fork).
fn ascii() -> u8 {
    let b = byte();
    assume(((b >= 0x20) & (b < 0x7f)) | (b == 9) | (b == 10));
    b
}

/// The characters escaping and parsing treat differently from others.
const SPECIAL: &[u8] = b"<>&\"'\n\t ];#x-!?/=";

fn special() -> u8 {
    SPECIAL[choice(SPECIAL.len())]
}

/// A multi-byte character, any of its class.
fn wide(v: &mut Vec<u8>) {
    let cont = || {
        let b = byte();
        assume((b >= 0x80) & (b < 0xc0));
        b
    };
    match choice(3) {
        0 => {
            let b = byte();
            assume((b >= 0xc3) & (b < 0xe0));
            v.push(b);
            v.push(cont());
        }
        1 => {
            let b = byte();
            assume(((b >= 0xe1) & (b < 0xed)) | (b == 0xee));
            v.push(b);
            v.push(cont());
            v.push(cont());
        }
        _ => {
            let b = byte();
            assume((b >= 0xf1) & (b < 0xf4));
            v.push(b);
            v.push(cont());
            v.push(cont());
            v.push(cont());
        }
    }
}

#[derive(Debug, Clone, PartialEq, Deserialize, Serialize)]
#[static_xml(rename = "host", namespace = "p: urn:p")]
struct Host {
    #[static_xml(attribute)]
    a: String,
    #[static_xml(attribute, prefix = "p", rename = "a")]
    pa: Option<String>,
    t: String,
    #[static_xml(prefix = "p")]
    v: Vec<String>,
    last: Option<String>,
}

/// Text and attributes by hand, next to children.
struct Mixed<'a> {
    s: &'a str,
    u: &'a str,
}

impl<'a> Serialize for Mixed<'a> {
    fn write_attributes(&self, b: &mut ElementBuilder) -> Result<(), Error> {
        b.attribute(ExpandedNameRef { namespace: "", local_name: "x" }, self.s.to_owned())?;
        b.attribute(ExpandedNameRef { namespace: "", local_name: "y" }, self.u.to_owned())
    }
    fn write_children(&self, w: &mut ElementWriter) -> Result<(), Error> {
        w.text("(")?;
        w.text(self.s)?;
        let c = w.element(ExpandedNameRef { namespace: "", local_name: "c" });
        let mut c = c.start()?;
        c.text("[")?;
        c.text(self.u)?;
        c.text("]")?;
        c.finish()?;
        w.text(self.u)?;
        w.text(")")
    }
}

const ROOT: ExpandedNameRef<'static> = ExpandedNameRef { namespace: "", local_name: "root" };

/// As the whole content of an element.
fn text(s: String) {
    match static_xml::ser::serialize_with_name(&s, ROOT).to_string() {
        Ok(d) => {
            check(matches!(read::<String>(d.as_bytes()), Ok(g) if g == s), "text changed by writing and reading");
            emit(d.as_bytes());
            cover(0);
        }
        Err(_) => check(false, "text not written"),
    }
}

/// In attributes and in text between other content, seen by a visitor.
fn mixed(s: String, u: String) {
    match static_xml::ser::serialize_with_name(&Mixed { s: &s, u: &u }, ROOT).to_string() {
        Ok(d) => {
            let mut want = Node::new("", "root");
            want.attrs.push(("".into(), "x".into(), s.clone()));
            want.attrs.push(("".into(), "y".into(), u.clone()));
            want.text("(");
            want.text(&s);
            let mut c = Node::new("", "c");
            c.text("[");
            c.text(&u);
            c.text("]");
            want.child(c);
            want.text(&u);
            want.text(")");
            match read::<Tree>(d.as_bytes()) {
                Ok(t) => check(t.0 == want, "content changed by writing and reading"),
                Err(_) => check(false, "written document is not well-formed"),
            }
            emit(d.as_bytes());
            cover(0);
        }
        Err(_) => check(false, "content not written"),
    }
}

/// In the fields of a derived type.
fn fields(h: Host) {
    match static_xml::ser::serialize(&h).to_string() {
        Ok(d) => {
            check(matches!(read::<Host>(d.as_bytes()), Ok(g) if g == h), "fields changed by writing and reading");
            emit(d.as_bytes());
            cover(0);
        }
        Err(_) => check(false, "fields not written"),
    }
}

fn free(n: usize) -> String {
    let n = choice(n + 1);
    string((0..n).map(|_| ascii()).collect())
}

fn specials(n: usize) -> String {
    string((0..n).map(|_| special()).collect())
}

fn field_strings(which: usize, s: String) {
    let mut h = Host { a: "1".into(), pa: None, t: "2".into(), v: vec![], last: Some("3".into()) };
    match which {
        0 => h.a = s,
        1 => h.pa = Some(s),
        2 => h.t = s,
        3 => h.v = vec![s.clone(), "".into(), s],
        _ => h.last = Some(s),
    }
    fields(h);
}

fn wides() -> String {
    let mut v = vec![ascii()];
    wide(&mut v);
    v.push(b'<');
    string(v)
}

/// Free characters after (and before) a long run of others.
fn long(n: usize) -> String {
    let mut v = vec![b'a'; n];
    v[n / 2] = b'&';
    v.push(ascii());
    v.extend_from_slice(&[b'z'; 3]);
    v.push(special());
    string(v)
}

/// Strings that look like markup, in whole.
fn tricky() -> String {
    let l = [
        "]]>", "<![CDATA[x]]>", "<!--x-->", "--", "<?pi?>", "&amp;", "&#10;", "&lt;/root>", "</root>", "\" y=\"", "' y='",
        "\u{85}\u{2028}", "\u{fffd}", "\u{10ffff}", "\u{feff}a", "a\u{0}"[..1].trim(), "&", "&;", "&#;", "%a;", "{}", "\\n", "\u{e000}", "\u{7f}\u{80}\u{9f}",
    ];
    let mut s = String::from(l[choice(l.len())]);
    match choice(3) {
        0 => s.push(ascii() as char),
        1 => s.insert(0, ' '),
        _ => {}
    }
    s
}

/// Pieces that matter to escaping, in any order, next to many others.
fn mix(n: usize) -> String {
    const L: [&str; 10] = ["<", "&", "]]>", "]", ">", "\"", "'", "\n", " ", "é"];
    let mut s = String::new();
    for _ in 0..n {
        s.push_str(L[choice(L.len())]);
    }
    match choice(3) {
        0 => s.push_str("<<&&''\"\"\t>>"),
        1 => s.insert_str(0, "&lt;<a b='\"c&d' >&<e/>"),
        _ => {}
    }
    s
}

/// As long as it gets, of one kind of character.
fn runs() -> String {
    let k = ["<", "&", ">", "\"", "'", "\n", " ", "]", "é", "-", "<&"][choice(11)];
    let mut s = k.repeat([2, 5, 9, 17, 33, 70, 150][choice(7)]);
    match choice(3) {
        0 => {}
        1 => s.push(ascii() as char),
        _ => s.insert(0, 'a'),
    }
    s
}

/// Longer than any buffer, with characters of every width across its ends.
fn huge() -> String {
    let k = ["a", "\u{e9}", "\u{20ac}", "\u{1f600}", "&", "<", "]]>", "\n"][choice(8)];
    let mut s = "abc"[..choice(4)].to_owned();
    s.push_str(&k.repeat([300, 1100, 4200][choice(3)] / k.len()));
    s.push(ascii() as char);
    s
}

/// Many strings: every one is its own.
fn vec_of(n: usize) {
    let mut v = Vec::new();
    for i in 0..n {
        v.push(match (i + choice(2)) % 3 {
            0 => String::new(),
            1 => str1(ascii()),
            _ => " <&>\n".to_owned(),
        });
    }
    fields(Host { a: "&".into(), pa: Some("\n".into()), t: "<t>".into(), v, last: None });
}

crate::harnesses! {
    h_escape_text3 => text(free(3));
    h_escape_text4 => text(free(4));
    h_escape_text5 => text(free(5));
    h_escape_special3 => text(specials(3));
    h_escape_special4 => text(specials(4));
    h_escape_text_wide => text(wides());
    h_escape_text_mix2 => text(mix(2));
    h_escape_text_mix3 => text(mix(3));
    h_escape_text_mix4 => text(mix(4));
    h_escape_text_runs => text(runs());
    h_escape_text_huge => text(huge());
    h_escape_fields_huge => field_strings(choice(5), huge());
    h_escape_mixed_huge => mixed(huge(), "]]>".to_owned());
    h_escape_mixed_mix2 => mixed(mix(2), "]]>".to_owned());
    h_escape_fields_mix2 => field_strings(choice(5), mix(2));
    h_escape_fields_runs => field_strings(choice(5), runs());
    h_escape_text_long => text(long(70));
    h_escape_text_tricky => text(tricky());
    h_escape_mixed1 => mixed(free(1), free(1));
    h_escape_mixed2 => mixed(free(2), "\"'<&> \n\t]]>".to_owned());
    h_escape_mixed3 => mixed("]]>".to_owned(), free(3));
    h_escape_mixed_wide => mixed(wides(), "x".to_owned());
    h_escape_mixed_long => mixed("y".to_owned(), long(40));
    h_escape_mixed_trick => mixed(tricky(), "x".to_owned());
    h_escape_mixed_tricky => mixed(tricky(), tricky());
    h_escape_attr3 => field_strings(0, free(3));
    h_escape_attr4 => field_strings(0, free(4));
    h_escape_attr_special3 => field_strings(1, specials(3));
    h_escape_fields2 => field_strings(choice(5), free(2));
    h_escape_fields3 => field_strings(choice(5), free(3));
    h_escape_fields_special => field_strings(choice(5), specials(2));
    h_escape_fields_wide => field_strings(choice(5), wides());
    h_escape_fields_tricky => field_strings(choice(5), tricky());
    h_escape_fields_long => field_strings(choice(5), long(130));
    h_escape_vec4 => vec_of(4);
    h_escape_vec8 => vec_of(8);
}
