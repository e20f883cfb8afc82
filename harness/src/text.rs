//! Text content: what a text-typed element or attribute value reads as.

use crate::sym::*;
use crate::util::*;
use static_xml_derive::Deserialize;

/// Appends a chunk of character data of a symbolic kind to `d` and what it
/// stands for to `want`. The kinds are weighted towards whitespace-only ones.
fn chunk(d: &mut Doc, want: &mut Vec<u8>, kinds: usize) {
    match choice(kinds) {
        0 => {
            let b = plain();
            d.c(b);
            want.push(b);
        }
        1 => {
            let w = among(b" \t\n");
            d.c(w);
            want.push(w);
        }
        2 => {
            // A character, or whitespace, in a CDATA section.
            let b = among(b"x <>&\n\"]");
            d.s("<![CDATA[").c(b).s("]]>");
            want.push(b);
        }
        3 => {
            d.s("<!-- c -->");
        }
        4 => {
            d.s("<?pi d?>");
        }
        5 => {
            let (s, b) = [("&lt;", b'<'), ("&amp;", b'&'), ("&#x41;", b'A'), ("&#32;", b' ')][choice(4)];
            d.s(s);
            want.push(b);
        }
        6 => {
            // A two-byte character.
            let (b0, b1) = (byte(), byte());
            assume((b0 >= 0xc3) & (b0 <= 0xdf) & (b1 >= 0x80) & (b1 <= 0xbf));
            d.c(b0).c(b1);
            want.push(b0);
            want.push(b1);
        }
        _ => {
            let (s, b) = [("&gt;", b'>'), ("&quot;", b'"'), ("&apos;", b'\''), ("&#9;", b'\t'), ("&#xe9;", 0)][choice(5)];
            d.s(s);
            if b == 0 {
                want.extend_from_slice("é".as_bytes());
            } else {
                want.push(b);
            }
        }
    }
}

fn judge(r: ReadResult<String>, want: &[u8]) {
    match r {
        Ok(s) => {
            check(s.as_bytes() == want, "text is not the element's character data in order");
            cover(0);
            emit(s.as_bytes());
        }
        Err(_) => check(false, "well-formed text rejected"),
    }
}

fn root(n: usize, kinds: usize) {
    let mut d = Doc::new("<r>");
    let mut want = Vec::with_capacity(64);
    for _ in 0..n {
        chunk(&mut d, &mut want, kinds);
    }
    d.s("</r>");
    judge(read(&d.0), &want);
}

/// A few chunks after, before or amid long text.
fn long(pad: usize, sep: &str, sep_want: &str, n: usize) {
    let mut d = Doc::new("<r>");
    let mut want = Vec::with_capacity(256);
    chunk(&mut d, &mut want, 6);
    for i in 0..pad {
        let b = b'a' + (i % 26) as u8;
        d.c(b).s(sep);
        want.push(b);
        want.extend_from_slice(sep_want.as_bytes());
    }
    for _ in 0..n {
        chunk(&mut d, &mut want, 6);
    }
    d.s("</r>");
    judge(read(&d.0), &want);
}

const SIZES: [usize; 12] = [255, 256, 1023, 1024, 1025, 2047, 4095, 4096, 4097, 8191, 8192, 8193];

/// A piece around the end of a very long text.
fn far(wide: bool) {
    let mut d = Doc::new("<r>");
    let n = SIZES[choice(12)];
    let mut want = vec![b'a'; n - 1];
    if wide {
        let k = choice(3);
        let s = ["\u{e9}", "\u{20ac}", "\u{1f600}"][k];
        want = s.repeat(n / s.len()).into_bytes();
        for _ in 0..choice(4) {
            want.insert(0, b'a');
        }
    }
    d.b(&want);
    chunk(&mut d, &mut want, 7);
    d.s("b");
    want.push(b'b');
    d.s("</r>");
    judge(read(&d.0), &want);
}

/// Very many pieces.
fn pieces() {
    let n = [127, 128, 129, 255, 256, 257, 1025][choice(7)];
    let (s, w) = [("<![CDATA[x]]>", "x"), ("y<!---->", "y"), ("&#122;", "z"), ("<?p?> ", " "), ("<![CDATA[]]>", ""), ("&amp;&lt;", "&<"), ("<!--a--><!--b-->", "")][choice(7)];
    let mut d = Doc::new("<r>");
    let mut want = Vec::with_capacity(256);
    for i in 0..n {
        if i == n - 1 {
            chunk(&mut d, &mut want, 6);
        }
        d.s(s);
        want.extend_from_slice(w.as_bytes());
    }
    d.s("</r>");
    judge(read(&d.0), &want);
}

#[derive(Debug, PartialEq, Deserialize)]
struct F {
    #[static_xml(attribute)]
    k: Option<String>,
    a: Option<String>,
    v: Vec<String>,
}

/// Text fields of a struct each get their own element's text, whatever mixed
/// content the struct's element has around them.
fn fields(n: usize) {
    let mut d = Doc::new("<r>");
    let mut want_a = None;
    let mut want_v: Vec<Vec<u8>> = Vec::new();
    for i in 0..n {
        d.s(["", "\n ", "<!--c-->x<?p?>"][if i < 2 { choice(3) } else { 1 }]);
        let mut w = Vec::with_capacity(16);
        let name = if i == 1 { "a" } else { "v" };
        d.s("<").s(name).s(">");
        chunk(&mut d, &mut w, 4);
        d.s("</").s(name).s(">");
        if i == 1 {
            want_a = Some(w);
        } else {
            want_v.push(w);
        }
    }
    d.s("tail</r>");
    match read::<F>(&d.0) {
        Ok(f) => {
            check(f.a.as_deref().map(str::as_bytes) == want_a.as_deref(), "field text differs");
            check(f.v.len() == want_v.len(), "number of repeated texts differs");
            let mut ok = true;
            for (a, b) in f.v.iter().zip(&want_v) {
                ok &= a.as_bytes() == &b[..];
            }
            check(ok, "repeated text differs");
            cover(0);
        }
        Err(_) => check(false, "well-formed document rejected"),
    }
}

/// A child element anywhere in a text-typed element is an error.
fn child(n: usize) {
    let mut d = Doc::new("<r><a>");
    let mut w = Vec::with_capacity(16);
    let at = choice(n + 1);
    for i in 0..n + 1 {
        if i == at {
            match choice(3) {
                0 => d.s("<b/>"),
                1 => d.s("<a>t</a>"),
                _ => d.s("<b><c/></b>"),
            };
        }
        if i < n {
            chunk(&mut d, &mut w, 5);
        }
    }
    d.s("</a></r>");
    check(read::<F>(&d.0).is_err(), "a child element in a text element is not an error");
    cover(0);
}

/// An attribute value, in either quote character.
fn attr(n: usize) {
    let q = if flag() { b'"' } else { b'\'' };
    let mut d = Doc::new("<r k=");
    let mut want = Vec::with_capacity(32);
    d.c(q);
    for _ in 0..n {
        match choice(5) {
            0 => {
                let b = plain();
                d.c(b);
                want.push(b);
            }
            1 => {
                d.c(b' ');
                want.push(b' ');
            }
            2 => {
                let (s, b) = [("&lt;", b'<'), ("&amp;", b'&'), ("&#x41;", b'A'), ("&#10;", b'\n'), ("&quot;", b'"'), ("&apos;", b'\'')][choice(6)];
                d.s(s);
                want.push(b);
            }
            3 => {
                let b = if q == b'"' { b'\'' } else { b'"' };
                d.c(b);
                want.push(b);
            }
            _ => {
                let b = among(b">]");
                d.c(b);
                want.push(b);
            }
        }
    }
    d.c(q).s("/>");
    match read::<F>(&d.0) {
        Ok(f) => {
            let k = f.k.unwrap_or_default();
            check(k.as_bytes() == &want[..], "attribute value differs");
            cover(0);
            emit(k.as_bytes());
        }
        Err(_) => check(false, "well-formed attribute rejected"),
    }
}

crate::harnesses! {
    h_text_root1 => root(1, 8);
    h_text_root2 => root(2, 8);
    h_text_root3 => root(3, 8);
    h_text_root4 => root(4, 6);
    h_text_root5 => root(5, 6);
    h_text_long40 => long(40, "", "", 2);
    h_text_cdata8 => long(8, "<![CDATA[ ]]>", " ", 2);
    h_text_comment8 => long(8, "<!--x--> <?p q?> ", "  ", 2);
    h_text_entity8 => long(8, "&amp;", "&", 2);
    h_text_far => far(false);
    h_text_far_wide => far(true);
    h_text_pieces => pieces();
    h_text_fields2 => fields(2);
    h_text_fields3 => fields(3);
    h_text_child2 => child(2);
    h_text_child3 => child(3);
    h_text_attr3 => attr(3);
    h_text_attr4 => attr(4);
}
