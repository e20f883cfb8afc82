From a9ce7c64eb81c5ca59e2524f25822ee465dee5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:18 +0000
Subject: [PATCH 01/10] fix: keep the stack in sync when a visitor swallows a
 nested error

---
 static-xml/src/de/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/static-xml/src/de/mod.rs b/static-xml/src/de/mod.rs
index 35aae66..ffd8ecb 100644
--- a/static-xml/src/de/mod.rs
+++ b/static-xml/src/de/mod.rs
@@ -472,11 +472,13 @@ impl<R: std::io::Read> ErasedReader for Reader<R> {
             self.depth,
             depth
         );
+        // An `EndElement` may still be on the stack, including that of a nested
+        // element whose error was swallowed by a visitor. `next` expects it trimmed.
+        self.stack.truncate(self.depth);
         while self.depth > depth {
             self.next()?;
             self.stack.truncate(self.depth);
         }
-        self.stack.truncate(self.depth);
         Ok(())
     }
 
-- 
2.43.0


From 81be429e95960a9d300aad8e317992e11e09faf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:38 +0000
Subject: [PATCH 02/10] fix: let an initialized choice pass unknown elements to
 later flattened fields

---
 static-xml-derive/src/deserialize.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/static-xml-derive/src/deserialize.rs b/static-xml-derive/src/deserialize.rs
index 56b864e..e6ccfed 100644
--- a/static-xml-derive/src/deserialize.rs
+++ b/static-xml-derive/src/deserialize.rs
@@ -424,7 +424,7 @@ fn do_enum(enum_: &ElementEnum) -> TokenStream {
                             &ELEMENTS[expected_i],
                         ));
                     }
-                    return Ok(None);
+                    return Ok(Some(child));
                 }
                 self.out.write(match element_i {
                     #(#uninitialized_match_arms,)*
-- 
2.43.0


From e6b82d0c4e44d4ca7665d3e8f9dc46d52de5fc76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:28 +0000
Subject: [PATCH 03/10] fix: serializing a skipped variant is an error, as
 documented

---
 static-xml-derive/src/serialize.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/static-xml-derive/src/serialize.rs b/static-xml-derive/src/serialize.rs
index 3fd1479..6b6e867 100644
--- a/static-xml-derive/src/serialize.rs
+++ b/static-xml-derive/src/serialize.rs
@@ -129,7 +129,9 @@ fn do_enum(_errors: &Errors, enum_: &ElementEnum) -> TokenStream {
     }).collect();
     if enum_.has_skipped_variants {
         match_arms.push(quote! {
-            _ => {}
+            _ => return Err(::static_xml::ser::Error(
+                concat!("can't serialize skipped variant of ", stringify!(#ident)).to_owned()
+            ))
         });
     }
     let write_namespaces = write_namespaces(&enum_.attr);
-- 
2.43.0


From c55655343ab9f8e21aa2134a90bcb2baee3babb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:28 +0000
Subject: [PATCH 04/10] fix: allow deriving Deserialize for an enum with
 skipped variants

---
 static-xml-derive/src/deserialize.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/static-xml-derive/src/deserialize.rs b/static-xml-derive/src/deserialize.rs
index e6ccfed..c703073 100644
--- a/static-xml-derive/src/deserialize.rs
+++ b/static-xml-derive/src/deserialize.rs
@@ -341,7 +341,7 @@ fn do_enum(enum_: &ElementEnum) -> TokenStream {
         .iter()
         .map(|v| v.name.quote_expanded())
         .collect();
-    let initialized_match_arms: Vec<TokenStream> = enum_
+    let mut initialized_match_arms: Vec<TokenStream> = enum_
         .variants
         .iter()
         .enumerate()
@@ -370,6 +370,11 @@ fn do_enum(enum_: &ElementEnum) -> TokenStream {
             }
         })
         .collect();
+    if enum_.has_skipped_variants {
+        initialized_match_arms.push(quote! {
+            _ => unreachable!("skipped variants are never deserialized")
+        });
+    }
     let uninitialized_match_arms: Vec<TokenStream> = enum_
         .variants
         .iter()
-- 
2.43.0


From 0b3eed5ab30f168efa1c9d9dde0a6b8fca363d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:09 +0000
Subject: [PATCH 05/10] fix: keep whitespace-only chunks of an element's text

---
 static-xml/src/de/mod.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/static-xml/src/de/mod.rs b/static-xml/src/de/mod.rs
index ffd8ecb..ffe6657 100644
--- a/static-xml/src/de/mod.rs
+++ b/static-xml/src/de/mod.rs
@@ -381,9 +381,12 @@ enum Event {
     /// The end of an element.
     EndElement { name: xml::name::OwnedName },
 
-    /// Characters, whether from `XmlEvent::CData`, `XmlEvent::Characters`, or
-    /// (possibly?) `XmlEvent::Whitespace`.
+    /// Characters, whether from `XmlEvent::CData` or `XmlEvent::Characters`.
     Characters(String),
+
+    /// Whitespace-only characters, from `XmlEvent::Whitespace`. These are
+    /// significant in a text-only element; otherwise they just separate markup.
+    Whitespace(String),
 }
 
 /// Internal type-erased version of [`Reader`] for use by [`ElementReader`].
@@ -455,8 +458,11 @@ impl<R: std::io::Read> ErasedReader for Reader<R> {
                     let pos = self.inner.position();
                     return Ok((Event::Characters(str), pos));
                 }
+                Ok(XmlEvent::Whitespace(str)) => {
+                    let pos = self.inner.position();
+                    return Ok((Event::Whitespace(str), pos));
+                }
                 Ok(XmlEvent::Comment(_))
-                | Ok(XmlEvent::Whitespace(_))
                 | Ok(XmlEvent::ProcessingInstruction { .. })
                 | Ok(XmlEvent::StartDocument { .. })
                 | Ok(XmlEvent::EndDocument) => continue,
@@ -600,6 +606,7 @@ impl<'a> ElementReader<'a> {
                         Error::deserializer(stack, pos, e)
                     })?;
                 }
+                (Event::Whitespace(_), _pos) => {}
             }
         }
     }
@@ -627,7 +634,7 @@ impl<'a> ElementReader<'a> {
                     )));
                 }
                 (Event::EndElement { .. }, _pos) => break,
-                (Event::Characters(str), _pos) => {
+                (Event::Characters(str), _pos) | (Event::Whitespace(str), _pos) => {
                     if out.is_empty() {
                         out = str;
                     } else {
-- 
2.43.0


From 4c07993a277df678f7c3b634c91e9f99d1d44f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:12 +0000
Subject: [PATCH 06/10] fix: name raw identifiers without their r# prefix

---
 static-xml-derive/src/common.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/static-xml-derive/src/common.rs b/static-xml-derive/src/common.rs
index c1b2c96..a4e8e1a 100644
--- a/static-xml-derive/src/common.rs
+++ b/static-xml-derive/src/common.rs
@@ -6,7 +6,7 @@ use std::{cell::RefCell, collections::BTreeMap};
 use proc_macro2::TokenStream;
 use quote::{quote, quote_spanned, ToTokens};
 use static_xml::{de::WhiteSpace, ExpandedNameRef};
-use syn::{DeriveInput, Fields, Lit, LitStr, Meta, MetaNameValue, NestedMeta};
+use syn::{ext::IdentExt, DeriveInput, Fields, Lit, LitStr, Meta, MetaNameValue, NestedMeta};
 
 // See serde/serde_derive/src/internals/attr.rs and yaserde_derive/src/common/field.rs
 
@@ -195,7 +195,7 @@ impl<'a> TextEnum<'a> {
                         ));
                     }
                     TextVariantMode::Known {
-                        text: text.unwrap_or_else(|| v.ident.to_string()),
+                        text: text.unwrap_or_else(|| v.ident.unraw().to_string()),
                     }
                 };
                 RestrictionVariant { inner: v, mode }
@@ -267,7 +267,7 @@ impl<'a> Name<'a> {
     fn from_ident(ident: &syn::Ident) -> Name {
         Name {
             ident,
-            local_name: ident.to_string(),
+            local_name: ident.unraw().to_string(),
             prefix: None,
             namespace: None,
         }
-- 
2.43.0


From bf44a5f8d096ed52c5df286d620a24e917412fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:44 +0000
Subject: [PATCH 07/10] fix: declare namespaces by what is actually in scope

Serializing an element with no namespace inside a default namespace hit a
todo!(), or silently put the element into a namespace its parent had declared
under another prefix. xml-rs omits re-declarations shadowed in between and
doesn't escape URLs. Track the declarations in scope and write them as
attributes.
---
 static-xml/src/ser/mod.rs | 106 +++++++++++++++++++++++++++-----------
 1 file changed, 75 insertions(+), 31 deletions(-)

diff --git a/static-xml/src/ser/mod.rs b/static-xml/src/ser/mod.rs
index 16bddd7..36bcf38 100644
--- a/static-xml/src/ser/mod.rs
+++ b/static-xml/src/ser/mod.rs
@@ -160,7 +160,7 @@ impl<'a> ElementBuilder<'a> {
     #[must_use = "must call finish on the returned writer to complete the document"]
     pub fn start(mut self) -> Result<ElementWriter<'a>, Error> {
         let inner = self.0.take().unwrap();
-        let namespaces = inner.namespaces.finalize();
+        let namespaces = inner.namespaces.finalize(&inner.name);
         inner
             .writer
             .write(XmlEvent::StartElement {
@@ -168,17 +168,25 @@ impl<'a> ElementBuilder<'a> {
 
                 // TODO: better to reuse a Vec and amortize this allocation.
                 attributes: Cow::Owned(
-                    inner
-                        .attributes
-                        .iter()
-                        .map(|(k, v)| xml::attribute::Attribute {
-                            name: namespaces.resolve_attribute(k),
-                            value: &v,
-                        })
+                    namespaces
+                        .declarations()
+                        .chain(
+                            inner
+                                .attributes
+                                .iter()
+                                .map(|(k, v)| xml::attribute::Attribute {
+                                    name: namespaces.resolve_attribute(k),
+                                    value: &v,
+                                }),
+                        )
                         .collect::<Vec<_>>(),
                 ),
 
-                namespace: Cow::Borrowed(&namespaces.by_prefix),
+                // `xml::writer` omits a declaration if any ancestor has the
+                // same one, even if it's since been overridden; never writes
+                // `xmlns=""`; and doesn't escape URLs. So declarations are
+                // written as attributes instead.
+                namespace: Cow::Owned(xml::namespace::Namespace::empty()),
             })
             .map_err(|e| Error(e.to_string()))?;
         Ok(ElementWriter(Some(ElementWriterInner {
@@ -255,12 +263,15 @@ impl<'a> Drop for ElementWriter<'a> {
 }
 
 #[derive(Clone, Debug, Default, Eq, PartialEq)]
-struct NamespacesBuilder<'a>(
+struct NamespacesBuilder<'a> {
     /// A mapping from the URL to the assigned prefix.
     ///
     /// `assigned_prefix` is empty in all of the values.
-    BTreeMap<&'a str, Namespace<'a>>,
-);
+    by_url: BTreeMap<&'a str, Namespace<'a>>,
+
+    /// The URL of each prefix as declared by ancestors.
+    in_scope: BTreeMap<String, String>,
+}
 
 impl<'a> NamespacesBuilder<'a> {
     /// Ensures there's at least one mapping for `url`, preferably called `prefix`.
@@ -274,7 +285,7 @@ impl<'a> NamespacesBuilder<'a> {
             requested_prefix
         );
         use std::collections::btree_map::Entry;
-        match self.0.entry(url) {
+        match self.by_url.entry(url) {
             Entry::Vacant(e) => {
                 e.insert(Namespace {
                     requested_prefix,
@@ -297,21 +308,31 @@ impl<'a> NamespacesBuilder<'a> {
     ///
     /// Doesn't panic if `url` already exists; `resolve_attribute` will do that later.
     fn attribute(&mut self, url: &str) {
-        if let Some(ns) = self.0.get_mut(url) {
+        if url.is_empty() {
+            return; // unprefixed attributes are always unnamespaced.
+        }
+        if let Some(ns) = self.by_url.get_mut(url) {
             ns.required = true;
             ns.needs_prefix = true;
         }
     }
 
-    /// Finalizes the chosen prefixes, returning an immutable `Namespaces`.
-    fn finalize(mut self) -> Namespaces<'a> {
+    /// Finalizes the chosen prefixes for an element called `name`, returning an
+    /// immutable `Namespaces`.
+    fn finalize(mut self, name: &ExpandedNameRef<'_>) -> Namespaces<'a> {
         let mut by_prefix = xml::namespace::Namespace::empty();
 
+        // An element with no namespace must be unprefixed and must not be in
+        // the scope of a default namespace.
+        if name.namespace.is_empty() {
+            self.insert("", "");
+        }
+
         // Give first dibs to required mappings, and ensure they get some
         // assignment even if their requested prefix is taken (or unsuitable,
         // in the corner case where they requested no prefix but an attribute
         // uses them).
-        for (url, ns) in &mut self.0 {
+        for (url, ns) in &mut self.by_url {
             if !ns.required {
                 continue;
             }
@@ -334,7 +355,7 @@ impl<'a> NamespacesBuilder<'a> {
         }
 
         // Best-effort assignment for non-required mappings.
-        for (url, ns) in &mut self.0 {
+        for (url, ns) in &mut self.by_url {
             if ns.required {
                 continue; // already processed.
             }
@@ -344,9 +365,20 @@ impl<'a> NamespacesBuilder<'a> {
             }
         }
 
+        let mut in_scope = self.in_scope;
+        let mut declared = BTreeMap::new();
+        for (prefix, url) in &by_prefix {
+            if in_scope.get(prefix).map_or("", |u| &u[..]) != url {
+                in_scope.insert(prefix.to_owned(), url.to_owned());
+                declared.insert(prefix.to_owned(), url.to_owned());
+            }
+        }
+
         Namespaces {
-            by_url: self.0,
+            by_url: self.by_url,
             by_prefix,
+            in_scope,
+            declared,
         }
     }
 }
@@ -356,11 +388,20 @@ struct Namespaces<'a> {
     by_url: BTreeMap<&'a str, Namespace<'a>>,
 
     by_prefix: xml::namespace::Namespace,
+
+    /// The URL of each prefix as declared by this element and its ancestors.
+    in_scope: BTreeMap<String, String>,
+
+    /// The subset of `in_scope` this element has to declare.
+    declared: BTreeMap<String, String>,
 }
 
 impl<'a> Namespaces<'a> {
     fn child(&self, namespace: &str) -> NamespacesBuilder {
-        let mut child = NamespacesBuilder::default();
+        let mut child = NamespacesBuilder {
+            by_url: BTreeMap::new(),
+            in_scope: self.in_scope.clone(),
+        };
         let mut found_namespace = false;
         for (prefix, ns) in &self.by_prefix {
             let required = if !found_namespace && ns == namespace {
@@ -369,7 +410,7 @@ impl<'a> Namespaces<'a> {
             } else {
                 false
             };
-            child.0.insert(
+            child.by_url.insert(
                 ns,
                 Namespace {
                     requested_prefix: prefix,
@@ -382,6 +423,19 @@ impl<'a> Namespaces<'a> {
         child
     }
 
+    /// Returns the `xmlns` attributes this element needs.
+    fn declarations(&self) -> impl Iterator<Item = xml::attribute::Attribute<'_>> {
+        self.declared
+            .iter()
+            .map(|(prefix, url)| xml::attribute::Attribute {
+                name: match &prefix[..] {
+                    "" => xml::name::Name::local("xmlns"),
+                    p => xml::name::Name::prefixed(p, "xmlns"),
+                },
+                value: url,
+            })
+    }
+
     fn resolve_element<'b>(&'b self, name: &ExpandedNameRef<'b>) -> xml::name::Name<'b>
     where
         'a: 'b,
@@ -393,16 +447,6 @@ impl<'a> Namespaces<'a> {
                 ..
             }) => p,
             None if name.namespace == "http://www.w3.org/XML/1998/namespace" => "xml",
-            _ if name.namespace.is_empty() => {
-                if self.by_prefix.get("").is_none() {
-                    ""
-                } else {
-                    todo!(
-                        "element {} has no namespace, but default namespace is set",
-                        name
-                    )
-                }
-            }
             _ => panic!("element {} uses undeclared namespace", name),
         };
         xml::name::Name {
-- 
2.43.0


From d3773abf377e7f92a462f8d2c719de3949596c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:36 +0000
Subject: [PATCH 08/10] fix: read documents that start with an instruction and
 no declaration

---
 static-xml/src/de/mod.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/static-xml/src/de/mod.rs b/static-xml/src/de/mod.rs
index ffe6657..5cd7626 100644
--- a/static-xml/src/de/mod.rs
+++ b/static-xml/src/de/mod.rs
@@ -305,14 +305,18 @@ impl<R: std::io::Read> Reader<R> {
     ///
     /// Call only once.
     pub fn root(&mut self) -> Result<ElementReader<'_>, Error> {
-        match self.inner.next().map_err(|e| Error::xml(&[], e))? {
-            XmlEvent::StartDocument { .. } => {}
-            o => {
-                return Err(Error::msg(
-                    &[],
-                    self.inner.position(),
-                    format!("expected StartDocument, got {:#?}", o),
-                ))
+        // `xml-rs` returns anything before an omitted XML declaration first.
+        loop {
+            match self.inner.next().map_err(|e| Error::xml(&[], e))? {
+                XmlEvent::StartDocument { .. } => break,
+                XmlEvent::ProcessingInstruction { .. } | XmlEvent::Comment { .. } => {}
+                o => {
+                    return Err(Error::msg(
+                        &[],
+                        self.inner.position(),
+                        format!("expected StartDocument, got {:#?}", o),
+                    ))
+                }
             }
         }
         match self.next()? {
-- 
2.43.0


From 01672b9aab7639da1cad86ef0696525df1b826a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:05 +0000
Subject: [PATCH 09/10] fix: drop what was read when a read fails

---
 static-xml-derive/src/deserialize.rs | 56 ++++++++++++++++++++++++----
 1 file changed, 49 insertions(+), 7 deletions(-)

diff --git a/static-xml-derive/src/deserialize.rs b/static-xml-derive/src/deserialize.rs
index c703073..b8ee9e4 100644
--- a/static-xml-derive/src/deserialize.rs
+++ b/static-xml-derive/src/deserialize.rs
@@ -16,7 +16,7 @@ pub(crate) fn quote_flatten_visitors(struct_: &ElementStruct) -> Vec<TokenStream
         .filter_map(|f| {
             if matches!(f.mode, ElementFieldMode::Flatten) {
                 let field_visitor = format_ident!("{}_visitor", f.ident);
-                Some(quote_spanned! { f.inner.ident.span() => &mut self.#field_visitor })
+                Some(quote_spanned! { f.inner.ident.span() => self.#field_visitor.as_mut().unwrap() })
             } else {
                 None
             }
@@ -41,7 +41,9 @@ fn visitor_field_definitions(struct_: &ElementStruct) -> Vec<TokenStream> {
             match field.mode {
                 ElementFieldMode::Text => None,
                 ElementFieldMode::Flatten => Some(quote_spanned! {span=>
-                    #field_visitor: <#ty as ::static_xml::de::RawDeserialize<'out>>::Visitor
+                    // `None` once finalized.
+                    #field_visitor: Option<<#ty as ::static_xml::de::RawDeserialize<'out>>::Visitor>,
+                    #field_present: bool
                 }),
                 ElementFieldMode::Element { .. } | ElementFieldMode::Attribute { .. } => {
                     Some(quote_spanned! {span=>
@@ -62,10 +64,11 @@ fn visitor_initializers(struct_: &ElementStruct) -> Vec<TokenStream> {
             match field.mode {
                 ElementFieldMode::Flatten => {
                     let field_visitor = format_ident!("{}_visitor", field.ident);
+                    let field_present = format_ident!("{}_present", field.ident);
                     let fident = field.ident;
                     let ty = &field.inner.ty;
                     quote_spanned! {span=>
-                        #field_visitor: <#ty as ::static_xml::de::RawDeserialize>::Visitor::new(
+                        #field_visitor: Some(<#ty as ::static_xml::de::RawDeserialize>::Visitor::new(
                             // SAFETY: out points to valid, uninitialized memory.
                             unsafe {
                                 &mut *(
@@ -73,7 +76,8 @@ fn visitor_initializers(struct_: &ElementStruct) -> Vec<TokenStream> {
                                     as *mut ::std::mem::MaybeUninit<#ty>
                                 )
                             }
-                        )
+                        )),
+                        #field_present: false
                     }
                 }
                 _ => {
@@ -110,6 +114,7 @@ fn finalize_visitor_fields(struct_: &ElementStruct) -> Vec<TokenStream> {
                     if !self.#field_present {
                         // SAFETY: #field_mut is a valid pointer to uninitialized memory.
                         unsafe { ::std::ptr::write(#field_mut as *mut #ty, #value) };
+                        self.#field_present = true;
                     }
                 }
             }
@@ -126,18 +131,23 @@ fn finalize_visitor_fields(struct_: &ElementStruct) -> Vec<TokenStream> {
                     if !self.#field_present {
                         // SAFETY: #field_mut is a valid pointer to uninitialized memory.
                         unsafe { ::std::ptr::write(#field_mut /*as *mut #ty*/, #value) };
+                        self.#field_present = true;
                     }
                 }
             }
             ElementFieldMode::Flatten => {
                 let field_visitor = format_ident!("{}_visitor", field.ident);
+                let field_present = format_ident!("{}_present", field.ident);
                 let d = if let Some(d) = default {
                     quote! { Some(#d) }
                 } else {
                     quote! { None }
                 };
                 quote_spanned! {span=>
-                    <#ty as ::static_xml::de::RawDeserialize>::Visitor::finalize(self.#field_visitor, #d)?;
+                    if let Some(v) = self.#field_visitor.take() {
+                        <#ty as ::static_xml::de::RawDeserialize>::Visitor::finalize(v, #d)?;
+                        self.#field_present = true;
+                    }
                 }
             }
             ElementFieldMode::Text => todo!("text fields unimplemented"),
@@ -235,6 +245,12 @@ fn do_struct(struct_: &ElementStruct) -> TokenStream {
     let visitor_initializers = visitor_initializers(&struct_);
     let finalize_visitor_fields = finalize_visitor_fields(&struct_);
     let flatten_visitors = quote_flatten_visitors(&struct_);
+    let field_presents: Vec<_> = struct_
+        .fields
+        .iter()
+        .map(|field| format_ident!("{}_present", field.ident))
+        .collect();
+    let field_muts: Vec<_> = struct_.fields.iter().map(field_mut).collect();
     let (attribute_fallthrough, element_fallthrough);
     if flatten_visitors.is_empty() {
         attribute_fallthrough = quote! { Ok(Some(value)) };
@@ -317,10 +333,14 @@ fn do_struct(struct_: &ElementStruct) -> TokenStream {
                 }
             }
 
-            fn finalize(self, _default: Option<fn() -> Self::Out>) -> Result<(), ::static_xml::de::VisitorError> {
+            #[allow(unused_mut)]
+            fn finalize(mut self, _default: Option<fn() -> Self::Out>) -> Result<(), ::static_xml::de::VisitorError> {
                 // Note _default is currently unsupported for structs.
 
                 #(#finalize_visitor_fields)*
+
+                // The fields now belong to the caller.
+                #(self.#field_presents = false;)*
                 // SAFETY: returning `Ok` guarantees `self.out` is fully initialized.
                 // finalize_visitor_fields has guaranteed that each field is fully initialized.
                 // The padding doesn't matter. This is similar to this example
@@ -329,6 +349,17 @@ fn do_struct(struct_: &ElementStruct) -> TokenStream {
             }
         }
 
+        impl<'out> ::std::ops::Drop for #visitor_type<'out> {
+            fn drop(&mut self) {
+                #(
+                    if self.#field_presents {
+                        // SAFETY: the field is initialized when field_present is true.
+                        unsafe { ::std::ptr::drop_in_place(#field_muts) };
+                    }
+                )*
+            }
+        }
+
         ::static_xml::impl_deserialize_via_raw!(#ident, #visitor_type);
     }
 }
@@ -451,7 +482,7 @@ fn do_enum(enum_: &ElementEnum) -> TokenStream {
             }
 
             fn finalize(
-                self,
+                mut self,
                 default: Option<fn() -> Self::Out>,
             ) -> Result<(), ::static_xml::de::VisitorError> {
                 if !self.initialized {
@@ -462,10 +493,21 @@ fn do_enum(enum_: &ElementEnum) -> TokenStream {
                     }
                 }
                 // SAFETY: returning `Ok` guarantees `self.out` is fully initialized.
+                // It now belongs to the caller.
+                self.initialized = false;
                 Ok(())
             }
         }
 
+        impl<'out> ::std::ops::Drop for #visitor_type<'out> {
+            fn drop(&mut self) {
+                if self.initialized {
+                    // SAFETY: self.out is initialized when self.initialized is true.
+                    unsafe { ::std::ptr::drop_in_place(self.out.as_mut_ptr()) };
+                }
+            }
+        }
+
         impl<'out> ::static_xml::de::RawDeserialize<'out> for #ident {
             type Visitor = #visitor_type<'out>;
         }
-- 
2.43.0


From 893427d4a42060640704612b878488233e9524a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:29 +0000
Subject: [PATCH 10/10] fix: sort a choice's elements by the names they are
 looked up by

---
 static-xml-derive/src/common.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/static-xml-derive/src/common.rs b/static-xml-derive/src/common.rs
index a4e8e1a..64fa3f9 100644
--- a/static-xml-derive/src/common.rs
+++ b/static-xml-derive/src/common.rs
@@ -651,12 +651,7 @@ impl<'a> ElementEnum<'a> {
                 })
             })
             .collect();
-        variants.sort_by(|a, b| {
-            a.name
-                .namespace
-                .cmp(&b.name.namespace)
-                .then_with(|| a.name.local_name.cmp(&b.name.local_name))
-        });
+        variants.sort_by(|a, b| a.name.expanded().cmp(&b.name.expanded()));
         ElementEnum {
             input,
             attr,
-- 
2.43.0

