//! Every value a read creates is dropped exactly once, and a read leaves
//! nothing behind, whether it succeeds or fails.

use crate::sym::*;
use crate::util::*;
use static_xml::de::{ElementReader, ElementVisitor, Deserialize, ParseText, RawDeserialize, RawDeserializeVisitor, VisitorError};
use static_xml::{BoxedStdError, ExpandedNameRef, TextPosition};
use static_xml_derive::{Deserialize, ParseText};
use std::mem::MaybeUninit;

const MAX: usize = 1000;
/// Per token: 0 not created, 1 alive, 2 dropped.
static mut STATE: [u8; MAX] = [0; MAX];
static mut CREATED: usize = 0;
static mut ALIVE: usize = 0;

fn alive() -> usize {
    // SAFETY: single-threaded.
    unsafe { ALIVE }
}

/// A value whose life is watched. It owns memory of its own.
#[derive(Debug)]
struct T {
    id: usize,
    text: String,
}

impl T {
    fn new(text: String) -> T {
        // SAFETY: single-threaded.
        unsafe {
            let id = CREATED;
            CREATED += 1;
            ALIVE += 1;
            STATE[id] = 1;
            T { id, text }
        }
    }
}

impl Default for T {
    fn default() -> T {
        T::new("default".to_owned())
    }
}

impl Drop for T {
    fn drop(&mut self) {
        // SAFETY: single-threaded.
        unsafe {
            check(self.id < CREATED, "what was dropped was never created");
            check(STATE[self.id] == 1, "a value was dropped twice");
            STATE[self.id] = 2;
            ALIVE -= 1;
        }
        check(self.text.len() < 1000, "what was dropped is not a value");
    }
}

/// An error that is itself watched.
#[derive(Debug)]
struct E(T);

impl std::fmt::Display for E {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0.text)
    }
}
impl std::error::Error for E {}

/// Text starting with `!` fails, after a value has been made of it.
impl ParseText for T {
    fn parse(text: String) -> Result<Self, BoxedStdError> {
        let bad = text.as_bytes().first() == Some(&b'!');
        let t = T::new(text);
        if bad {
            return Err(Box::new(E(T::new("bad".to_owned()))));
        }
        Ok(t)
    }
}

/// The watched values a value owns.
trait Holds {
    fn holds(&self, out: &mut Vec<usize>);
}

impl Holds for T {
    fn holds(&self, out: &mut Vec<usize>) {
        out.push(self.id);
    }
}
impl<X: Holds> Holds for Option<X> {
    fn holds(&self, out: &mut Vec<usize>) {
        if let Some(x) = self {
            x.holds(out);
        }
    }
}
impl<X: Holds> Holds for Vec<X> {
    fn holds(&self, out: &mut Vec<usize>) {
        for x in self {
            x.holds(out);
        }
    }
}

macro_rules! holds {
    ($t:ident: $($f:ident)*) => {
        impl Holds for $t {
            fn holds(&self, out: &mut Vec<usize>) {
                $(self.$f.holds(out);)*
            }
        }
    };
}

/// Reads a document as `X`; everything must be gone in the end.
fn watch<X: Deserialize + Holds, R: std::io::Read>(source: R) {
    // One process may run many inputs.
    // SAFETY: single-threaded.
    unsafe {
        STATE = [0; MAX];
        CREATED = 0;
        ALIVE = 0;
    }
    let before = live();
    let r: Result<X, static_xml::de::Error> = static_xml::read(source);
    match r {
        Ok(x) => {
            let mut ids = Vec::new();
            x.holds(&mut ids);
            for (i, id) in ids.iter().enumerate() {
                // SAFETY: single-threaded.
                check(unsafe { *id < CREATED && STATE[*id] == 1 }, "a value handed out has been dropped already");
                check(!ids[..i].contains(id), "a value was handed out twice");
            }
            check(alive() == ids.len(), "a value was neither handed out nor dropped");
            drop(x);
            cover(0);
            emit(b"O");
        }
        Err(e) => {
            // The error may hold one.
            check(alive() <= 1, "a failed read kept a value");
            let s = e.to_string();
            emit(s.as_bytes());
            drop(s);
            drop(e);
            cover(1);
        }
    }
    check(alive() == 0, "a value was never dropped");
    check(live() == before, "a read left memory behind");
}

#[derive(Deserialize)]
#[static_xml(namespace = "p: urn:p")]
struct Attrs {
    #[static_xml(attribute)]
    must: T,
    #[static_xml(attribute)]
    may: Option<T>,
    #[static_xml(attribute, default)]
    def: T,
    #[static_xml(attribute, prefix = "p", rename = "may")]
    pmay: Option<T>,
}
holds!(Attrs: must may def pmay);

#[derive(Deserialize)]
struct Elems {
    must: T,
    may: Option<T>,
    many: Vec<T>,
    #[static_xml(default)]
    def: T,
}
holds!(Elems: must may many def);

#[derive(Deserialize)]
struct Nest {
    #[static_xml(attribute)]
    id: Option<T>,
    name: T,
    one: Option<Elems>,
    sub: Vec<Nest>,
    #[static_xml(default)]
    def: T,
}
holds!(Nest: id name one sub def);

#[derive(Deserialize)]
enum Choice {
    #[static_xml(rename = "a")]
    A(T),
    #[static_xml(rename = "m")]
    Many(Vec<T>),
    #[static_xml(rename = "o")]
    O(Option<T>),
    #[static_xml(rename = "n")]
    N(Elems),
    #[static_xml(rename = "u")]
    U,
}

impl Holds for Choice {
    fn holds(&self, out: &mut Vec<usize>) {
        match self {
            Choice::A(t) => t.holds(out),
            Choice::Many(v) => v.holds(out),
            Choice::O(o) => o.holds(out),
            Choice::N(e) => e.holds(out),
            Choice::U => {}
        }
    }
}

#[derive(Deserialize)]
enum Other {
    #[static_xml(rename = "b")]
    B(T),
    #[static_xml(rename = "c")]
    C(Vec<T>),
    #[static_xml(rename = "a")]
    A(Vec<T>),
}

impl Holds for Other {
    fn holds(&self, out: &mut Vec<usize>) {
        match self {
            Other::B(t) => t.holds(out),
            Other::C(v) | Other::A(v) => v.holds(out),
        }
    }
}

/// Flattened, written by hand: keeps its values in place as derived code does.
struct Hand {
    first: T,
    rest: Vec<T>,
}
holds!(Hand: first rest);

struct HandVisitor<'o> {
    out: &'o mut MaybeUninit<Hand>,
    first: Option<T>,
    rest: Vec<T>,
}

impl ElementVisitor for HandVisitor<'_> {
    fn attribute(&mut self, name: &ExpandedNameRef<'_>, value: String) -> Result<Option<String>, VisitorError> {
        if name.local_name == "h" {
            self.rest.push(T::parse(value).map_err(VisitorError::Wrap)?);
            return Ok(None);
        }
        Ok(Some(value))
    }
    fn element<'a>(&mut self, child: ElementReader<'a>) -> Result<Option<ElementReader<'a>>, VisitorError> {
        if child.expanded_name().local_name == "h" {
            let t = T::deserialize(child)?;
            if self.first.is_none() {
                self.first = Some(t);
            } else {
                self.rest.push(t);
            }
            return Ok(None);
        }
        Ok(Some(child))
    }
    fn characters(&mut self, s: String, _: TextPosition) -> Result<Option<String>, BoxedStdError> {
        self.rest.push(T::parse(s)?);
        Ok(None)
    }
}

unsafe impl<'o> RawDeserializeVisitor<'o> for HandVisitor<'o> {
    type Out = Hand;
    fn new(out: &'o mut MaybeUninit<Hand>) -> Self {
        HandVisitor { out, first: None, rest: Vec::new() }
    }
    fn finalize(self, _default: Option<fn() -> Hand>) -> Result<(), VisitorError> {
        let first = self.first.ok_or_else(|| VisitorError::Wrap("no h".into()))?;
        self.out.write(Hand { first, rest: self.rest });
        Ok(())
    }
}

impl<'o> RawDeserialize<'o> for Hand {
    type Visitor = HandVisitor<'o>;
}

#[derive(Deserialize)]
struct Flat {
    #[static_xml(attribute)]
    at: Option<T>,
    #[static_xml(flatten)]
    c: Choice,
    own: T,
    #[static_xml(flatten)]
    o: Other,
    may: Option<T>,
}
holds!(Flat: at c own o may);

#[derive(Deserialize)]
struct FlatHand {
    #[static_xml(flatten)]
    c: Choice,
    #[static_xml(attribute)]
    at: Option<T>,
    #[static_xml(flatten)]
    hand: Hand,
    #[static_xml(default)]
    def: T,
}
holds!(FlatHand: c at hand def);

/// Derived text types hold and try values too.
#[derive(ParseText)]
#[static_xml(mode = "union", whitespace = "collapse")]
enum Union {
    First(T),
    Num(u8),
    Second(Word),
}

impl Holds for Union {
    fn holds(&self, out: &mut Vec<usize>) {
        match self {
            Union::First(t) => t.holds(out),
            Union::Second(w) => w.holds(out),
            Union::Num(_) => {}
        }
    }
}

#[derive(ParseText)]
#[static_xml(mode = "restriction")]
enum Word {
    #[static_xml(rename = "!x")]
    X,
    #[static_xml(unknown)]
    Unknown(String),
}

impl Holds for Word {
    fn holds(&self, _: &mut Vec<usize>) {}
}

#[derive(Deserialize)]
struct Texts {
    #[static_xml(attribute)]
    a: Union,
    e: Vec<Union>,
    o: Option<Union>,
}
holds!(Texts: a e o);

/// Reads children as the types above and swallows their errors, by name.
struct Careless {
    kept: Vec<T>,
    some: Vec<Nest>,
}

struct CarelessDoc(Careless);

impl ElementVisitor for Careless {
    fn attribute(&mut self, _: &ExpandedNameRef<'_>, value: String) -> Result<Option<String>, VisitorError> {
        self.kept.push(T::new(value));
        Ok(None)
    }
    fn element<'a>(&mut self, child: ElementReader<'a>) -> Result<Option<ElementReader<'a>>, VisitorError> {
        let first = child.expanded_name().local_name.as_bytes()[0];
        match first {
            b'n' => {
                if let Ok(n) = Nest::deserialize(child) {
                    self.some.push(n);
                }
            }
            b'f' => {
                let _ = FlatHand::deserialize(child);
            }
            b'c' => {
                let _ = Choice::deserialize(child);
            }
            b't' => self.kept.push(T::deserialize(child)?),
            b'r' => {
                let mut c = Careless { kept: Vec::new(), some: Vec::new() };
                let _ = child.read_to(&mut c);
            }
            _ => return Ok(Some(child)),
        }
        Ok(None)
    }
    fn characters(&mut self, s: String, _: TextPosition) -> Result<Option<String>, BoxedStdError> {
        self.kept.push(T::new(s));
        Ok(Some("other".to_owned()))
    }
}

impl Deserialize for CarelessDoc {
    fn deserialize(element: ElementReader<'_>) -> Result<Self, VisitorError> {
        let mut c = Careless { kept: Vec::new(), some: Vec::new() };
        element.read_to(&mut c)?;
        Ok(CarelessDoc(c))
    }
}

impl Holds for CarelessDoc {
    fn holds(&self, out: &mut Vec<usize>) {
        self.0.kept.holds(out);
        self.0.some.holds(out);
    }
}

/// A letter, or `!` to make the text a bad one.
fn text_char() -> u8 {
    let b = byte();
    assume((b == b'!') | (((b | 0x20) >= b'a') & ((b | 0x20) <= b'z')));
    b
}

fn leaf(d: &mut Doc, name: &str, b: u8) {
    d.s("<").s(name).s(">").c(b).s("</").s(name).s(">");
}

/// Up to `n` attributes with names out of all.
fn attrs(n: usize) {
    let mut d = Doc::new("<r xmlns:p='urn:p' xmlns:q='urn:p'");
    for _ in 0..choice(n + 1) {
        d.s(" ").s(["must", "may", "def", "p:may", "q:may", "x"][choice(6)]).s("='").c(text_char()).s("'");
    }
    d.s("/>");
    watch::<Attrs, _>(&d.0[..]);
}

fn elems(n: usize) {
    let mut d = Doc::new("<r>");
    for _ in 0..choice(n + 1) {
        let k = choice(6);
        match k {
            5 => {
                d.s("<must><z/></must>");
            }
            _ => leaf(&mut d, ["must", "may", "many", "def", "x"][k], text_char()),
        }
    }
    d.s("</r>");
    watch::<Elems, _>(&d.0[..]);
}

/// Pieces of a `Nest` at depth `depth`, good and bad.
fn nest_in(d: &mut Doc, n: usize, depth: usize) {
    d.s("<sub");
    match choice(3) {
        0 => {}
        1 => {
            d.s(" id='i'");
        }
        _ => {
            d.s(" id='!'");
        }
    }
    d.s(">");
    for _ in 0..choice(n + 1) {
        match choice(if depth > 0 { 6 } else { 5 }) {
            0 => leaf(d, "name", text_char()),
            1 => leaf(d, "def", b'd'),
            2 => {
                d.s("<one><must>1</must><many>2</many><many>").c(text_char()).s("</many></one>");
            }
            3 => {
                d.s("<one><may>1</may></one>");
            }
            4 => {
                d.s("<sub><name>s</name><one><must>2</must></one></sub>");
            }
            _ => nest_in(d, n, depth - 1),
        }
    }
    d.s("</sub>");
}

fn nest(n: usize, depth: usize) {
    let mut d = Doc::new("<r><name>a</name><sub><name>b</name></sub>");
    nest_in(&mut d, n, depth);
    d.s("</r>");
    watch::<Nest, _>(&d.0[..]);
}

const PIECES: [&str; 9] = ["a", "m", "o", "n", "u", "b", "c", "own", "may"];

fn piece(d: &mut Doc, k: usize) {
    match k {
        3 => {
            d.s("<n><must>1</must><many>2</many><may>").c(text_char()).s("</may></n>");
        }
        4 => {
            d.s("<u/>");
        }
        9 => {
            d.s("<n><may>1</may></n>");
        }
        10 => leaf(d, "x", b'!'),
        _ => leaf(d, PIECES[k], text_char()),
    }
}

fn choices(n: usize) {
    let mut d = Doc::new("<r>");
    for _ in 0..choice(n + 1) {
        piece(&mut d, [0, 1, 2, 3, 4, 9, 10][choice(7)]);
    }
    d.s("</r>");
    watch::<Choice, _>(&d.0[..]);
}

/// A struct with two flattened choices, `n` pieces out of all, after `pre`.
fn flat(pre: &str, n: usize) {
    let mut d = Doc::new("<r");
    match choice(3) {
        0 => {}
        1 => {
            d.s(" at='v'");
        }
        _ => {
            d.s(" at='!'");
        }
    }
    d.s(">").s(pre);
    for _ in 0..choice(n + 1) {
        piece(&mut d, choice(11));
    }
    d.s("</r>");
    watch::<Flat, _>(&d.0[..]);
}

fn hand(n: usize) {
    let mut d = Doc::new("<r h='1'");
    if flag() {
        d.s(" at='").c(text_char()).s("'");
    }
    d.s(">");
    for _ in 0..choice(n + 1) {
        match choice(7) {
            0 => leaf(&mut d, "h", text_char()),
            1 => leaf(&mut d, "def", text_char()),
            2 => leaf(&mut d, "a", text_char()),
            3 => leaf(&mut d, "m", b'm'),
            4 => {
                d.c(text_char()).s("<?p?>");
            }
            5 => {
                d.s("<a><z/></a>");
            }
            _ => {
                d.s("<x><h>1</h></x>");
            }
        }
    }
    d.s("</r>");
    watch::<FlatHand, _>(&d.0[..]);
}

fn texts(n: usize) {
    let mut d = Doc::new("<r");
    if flag() {
        d.s(" a='").c(text_char()).c(text_char()).s("'");
    }
    d.s(">");
    for _ in 0..choice(n + 1) {
        let k = choice(3);
        let nm = ["e", "o", "x"][k];
        d.s("<").s(nm).s(">").c(text_char()).s(["", "x", "<z/>"][choice(3)]).s("</").s(nm).s(">");
    }
    d.s("</r>");
    watch::<Texts, _>(&d.0[..]);
}

include!("wide_drop.rs");

/// Many fields: whichever of them fails, comes twice, or is there at all.
fn many_fields() {
    let at = [0, 1, 2, 3, 30, 31, 32, 33, 34, 62, 63, 64, 65, 66, 67, 68, 69];
    let mut d = Doc::new("<r>");
    let all = choice(3);
    let i = at[choice(17)];
    let how = choice(5);
    for k in 0..70 {
        if all == 2 || all == 1 && k % 3 == 0 {
            leaf(&mut d, &format!("f{k}"), b'x');
            if how == 4 && k == i {
                break;
            }
        }
    }
    match how {
        0 => leaf(&mut d, &format!("f{i}"), b'!'),
        1 => leaf(&mut d, &format!("f{i}"), b'y'),
        2 => drop(d.s("<f").s(&i.to_string()).s("><z/></f").s(&i.to_string()).s(">")),
        3 => {}
        _ => return watch::<WideDrop, _>(&d.0[..]),
    }
    d.s("</r>");
    watch::<WideDrop, _>(&d.0[..]);
}

/// Many repetitions before it ends, well or not.
fn many_values() {
    let n = [63, 64, 65, 127, 128, 129, 255, 256, 257][choice(9)];
    let mut d = Doc::new("<r>");
    let what = choice(3);
    for i in 0..n {
        leaf(&mut d, "many", if i == n / 2 && what == 1 { b'!' } else { b'x' });
    }
    if flag() {
        leaf(&mut d, "must", b'x');
    }
    if what != 2 {
        d.s("</r>");
    }
    watch::<Elems, _>(&d.0[..]);
}

/// Far down.
fn far_down() {
    let n = [31, 64, 127, 128, 129, 200][choice(6)];
    let mut d = Doc::new("<n><name>a</name>");
    for _ in 0..n {
        d.s("<sub id='1'><name>b</name>");
    }
    let what = choice(4);
    leaf(&mut d, "def", if what == 1 { b'!' } else { b'x' });
    if what == 2 {
        leaf(&mut d, "name", b'x');
    }
    for i in 0..n {
        d.s("</sub>");
        if what == 3 && i == n / 2 {
            leaf(&mut d, "def", b'!');
        }
    }
    if flag() {
        d.s("</n>");
    }
    watch::<Nest, _>(&d.0[..]);
}

fn careless_piece(d: &mut Doc) {
    match choice(9) {
        0 => {
            d.s("<n id='1'><name>2</name><sub><name>3</name></sub></n>");
        }
        1 => {
            d.s("<n id='1'><name>2</name><one><must>3</must></one><sub/><name>4</name></n>");
        }
        2 => {
            d.s("<f h='1' at='2'><m>3</m><h>4</h>five<m>").c(text_char()).s("</m><h>").c(text_char()).s("</h></f>");
        }
        3 => {
            d.s("<c><a>1</a><m>2</m></c>");
        }
        4 => {
            d.s("<c><m>1</m><m>").c(text_char()).s("</m></c>");
        }
        5 => leaf(d, "t", text_char()),
        6 => {
            d.s("<r k='1'>two<t>3</t><n><name>4</name></n><t>!</t><t>5</t></r>");
        }
        7 => {
            d.s("text");
        }
        _ => {
            d.s("<x><t>1</t></x>");
        }
    }
}

fn careless(n: usize) {
    let mut d = Doc::new("<r k='0'>");
    for _ in 0..choice(n + 1) {
        careless_piece(&mut d);
    }
    d.s("</r>");
    watch::<CarelessDoc, _>(&d.0[..]);
}

const FULL_NEST: &str = "<r id='1'><name>2</name><one><must>3</must><many>4</many><many>5</many></one><sub id='6'><name>7</name>\
                         <one><must>8</must></one></sub></r>";
const FULL_FLAT: &str = "<r at='1'><m>2</m><own>3</own><c>4</c><m>5</m><x><a/></x><c>6</c><may>7</may></r>";
const FULL_HAND: &str = "<r h='1' at='2'>three<m>4</m><h>5</h><h>6</h><def>7</def><m>8</m>9</r>";
const FULL_TEXTS: &str = "<r a='1'><e>2</e><o>!9</o><e>4</e></r>";
const FULL_CARELESS: &str = "<r k='1'>two<n><name>3</name><sub/></n><t>4</t><f><a>5</a><h>6</h></f><c><m>7</m></c></r>";

fn full(i: usize, doc: &[u8]) {
    match i {
        0 => watch::<Nest, _>(doc),
        1 => watch::<Flat, _>(doc),
        2 => watch::<FlatHand, _>(doc),
        3 => watch::<Texts, _>(doc),
        _ => watch::<CarelessDoc, _>(doc),
    }
}

const FULLS: [&str; 5] = [FULL_NEST, FULL_FLAT, FULL_HAND, FULL_TEXTS, FULL_CARELESS];

/// A full document that ends anywhere.
fn cut(i: usize) {
    let doc = FULLS[i];
    full(i, &doc.as_bytes()[..choice(doc.len() + 1)]);
}

/// A full document with one byte replaced by anything.
fn mutate(i: usize) {
    let mut d = Doc::new(FULLS[i]);
    let p = choice(d.0.len());
    let b = byte();
    assume(b < 0x80);
    d.0[p] = b;
    full(i, &d.0);
}

/// Hands out a document, then fails with an error that is watched.
struct Failing(Vec<u8>, usize);

impl std::io::Read for Failing {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if self.1 == self.0.len() {
            return Err(std::io::Error::new(std::io::ErrorKind::Other, E(T::new("io".to_owned()))));
        }
        buf[0] = self.0[self.1];
        self.1 += 1;
        Ok(1)
    }
}

/// The source fails anywhere.
fn fail(i: usize) {
    let doc = FULLS[i].as_bytes();
    let mut v = Vec::with_capacity(256);
    v.extend_from_slice(&doc[..choice(doc.len() + 1)]);
    let mut f = Failing(v, 0);
    match i {
        0 => watch::<Nest, _>(&mut f),
        1 => watch::<Flat, _>(&mut f),
        2 => watch::<FlatHand, _>(&mut f),
        3 => watch::<Texts, _>(&mut f),
        _ => watch::<CarelessDoc, _>(&mut f),
    }
}

crate::harnesses! {
    h_drop_attrs3 => attrs(3);
    h_drop_attrs4 => attrs(4);
    h_drop_attrs5 => attrs(5);
    h_drop_attrs6 => attrs(6);
    h_drop_elems3 => elems(3);
    h_drop_elems4 => elems(4);
    h_drop_elems5 => elems(5);
    h_drop_elems6 => elems(6);
    h_drop_nest2 => nest(2, 0);
    h_drop_nest2_1 => nest(2, 1);
    h_drop_nest3 => nest(3, 0);
    h_drop_nest4 => nest(4, 0);
    h_drop_choice3 => choices(3);
    h_drop_choice4 => choices(4);
    h_drop_choice5 => choices(5);
    h_drop_choice6 => choices(6);
    h_drop_flat2 => flat("", 2);
    h_drop_flat3 => flat("", 3);
    h_drop_flat4 => flat("", 4);
    h_drop_flat2_set => flat("<m>1</m><own>2</own><c>3</c>", 2);
    h_drop_flat3_set => flat("<m>1</m><own>2</own><c>3</c>", 3);
    h_drop_flat2_first => flat("<b>1</b><may>2</may>", 2);
    h_drop_hand3 => hand(3);
    h_drop_hand4 => hand(4);
    h_drop_hand5 => hand(5);
    h_drop_many_fields => many_fields();
    h_drop_many_values => many_values();
    h_drop_far_down => far_down();
    h_drop_texts2 => texts(2);
    h_drop_texts3 => texts(3);
    h_drop_texts4 => texts(4);
    h_drop_careless2 => careless(2);
    h_drop_careless3 => careless(3);
    h_drop_careless4 => careless(4);
    h_drop_cut_nest => cut(0);
    h_drop_cut_flat => cut(1);
    h_drop_cut_hand => cut(2);
    h_drop_cut_texts => cut(3);
    h_drop_cut_careless => cut(4);
    h_drop_mutate_nest => mutate(0);
    h_drop_mutate_flat => mutate(1);
    h_drop_mutate_hand => mutate(2);
    h_drop_mutate_texts => mutate(3);
    h_drop_mutate_careless => mutate(4);
    h_drop_fail_nest => fail(0);
    h_drop_fail_flat => fail(1);
    h_drop_fail_hand => fail(2);
    h_drop_fail_texts => fail(3);
    h_drop_fail_careless => fail(4);
}
