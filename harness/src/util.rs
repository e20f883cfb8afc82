//! Shared helpers: document building, a recording visitor, tree comparison.

use crate::sym::*;
use static_xml::de::{Deserialize, ElementReader, ElementVisitor, VisitorError};
use static_xml::{ExpandedNameRef, TextPosition};

pub type ReadResult<T> = Result<T, static_xml::de::Error>;

pub fn read<T: Deserialize>(doc: &[u8]) -> ReadResult<T> {
    static_xml::read(doc)
}

/// An element as the property statements see it: expanded name, attributes by
/// expanded name, children and text.
#[derive(Clone, PartialEq, Eq, Default)]
pub struct Node {
    pub ns: String,
    pub local: String,
    pub attrs: Vec<(String, String, String)>,
    pub items: Vec<Item>,
}

#[derive(Clone, PartialEq, Eq)]
pub enum Item {
    Elem(Node),
    Text(String),
}

impl Node {
    pub fn new(ns: &str, local: &str) -> Node {
        Node { ns: ns.into(), local: local.into(), attrs: Vec::new(), items: Vec::new() }
    }
    /// Appends text, merging with preceding text.
    pub fn text(&mut self, s: &str) {
        if s.is_empty() {
            return;
        }
        if let Some(Item::Text(t)) = self.items.last_mut() {
            t.push_str(s);
        } else {
            self.items.push(Item::Text(s.into()));
        }
    }
    pub fn child(&mut self, n: Node) {
        self.items.push(Item::Elem(n));
    }
    pub fn sort_attrs(&mut self) {
        self.attrs.sort();
        for i in &mut self.items {
            if let Item::Elem(n) = i {
                n.sort_attrs();
            }
        }
    }
    pub fn enc(&self, out: &mut Vec<u8>) {
        out.extend_from_slice(b"<{");
        out.extend_from_slice(self.ns.as_bytes());
        out.push(b'}');
        out.extend_from_slice(self.local.as_bytes());
        for (n, l, v) in &self.attrs {
            out.push(b' ');
            out.push(b'{');
            out.extend_from_slice(n.as_bytes());
            out.push(b'}');
            out.extend_from_slice(l.as_bytes());
            out.push(b'=');
            out.extend_from_slice(v.as_bytes());
        }
        out.push(b'>');
        for i in &self.items {
            match i {
                Item::Elem(n) => n.enc(out),
                Item::Text(t) => out.extend_from_slice(t.as_bytes()),
            }
        }
        out.extend_from_slice(b"</>");
    }
}

/// Reads any element into a `Node`, by hand-written visitor.
pub struct Tree(pub Node);

struct TreeVisitor(Node);

impl ElementVisitor for TreeVisitor {
    fn attribute(&mut self, name: &ExpandedNameRef<'_>, value: String) -> Result<Option<String>, VisitorError> {
        self.0.attrs.push((name.namespace.into(), name.local_name.into(), value));
        Ok(None)
    }
    fn element<'a>(&mut self, child: ElementReader<'a>) -> Result<Option<ElementReader<'a>>, VisitorError> {
        let t = Tree::deserialize(child)?;
        self.0.items.push(Item::Elem(t.0));
        Ok(None)
    }
    fn characters(&mut self, s: String, _pos: TextPosition) -> Result<Option<String>, static_xml::BoxedStdError> {
        self.0.text(&s);
        Ok(None)
    }
}

impl Deserialize for Tree {
    fn deserialize(element: ElementReader<'_>) -> Result<Self, VisitorError> {
        let mut v = {
            let n = element.expanded_name();
            TreeVisitor(Node::new(n.namespace, n.local_name))
        };
        element.read_to(&mut v)?;
        Ok(Tree(v.0))
    }
}

/// Bytes of a document under construction.
pub struct Doc(pub Vec<u8>);

impl Doc {
    pub fn new(s: &str) -> Doc {
        let mut v = Vec::with_capacity(256);
        v.extend_from_slice(s.as_bytes());
        Doc(v)
    }
    pub fn s(&mut self, s: &str) -> &mut Self {
        self.0.extend_from_slice(s.as_bytes());
        self
    }
    pub fn b(&mut self, b: &[u8]) -> &mut Self {
        self.0.extend_from_slice(b);
        self
    }
    pub fn c(&mut self, b: u8) -> &mut Self {
        self.0.push(b);
        self
    }
}

/// A one-character string from an ASCII byte.
pub fn str1(b: u8) -> String {
    let mut s = String::with_capacity(4);
    // SAFETY: callers pass ASCII only.
    unsafe { s.as_mut_vec().push(b) };
    s
}

pub fn emit_tree(n: &Node) {
    let mut v = Vec::new();
    n.enc(&mut v);
    emit(&v);
}
