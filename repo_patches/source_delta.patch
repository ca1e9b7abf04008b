From 1b06a882ce548fb55b9031f4433796573020775b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:48 +0000
Subject: [PATCH 01/14] fix: sort derived enum variants in the order the lookup
 uses

Variants were sorted by Option<namespace>, so one with no namespace and one
mapped to the empty namespace were out of order for find()'s binary search
and some elements were not recognized.
---
 static-xml-derive/src/common.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/static-xml-derive/src/common.rs b/static-xml-derive/src/common.rs
index c1b2c96..efe3036 100644
--- a/static-xml-derive/src/common.rs
+++ b/static-xml-derive/src/common.rs
@@ -651,12 +651,9 @@ impl<'a> ElementEnum<'a> {
                 })
             })
             .collect();
-        variants.sort_by(|a, b| {
-            a.name
-                .namespace
-                .cmp(&b.name.namespace)
-                .then_with(|| a.name.local_name.cmp(&b.name.local_name))
-        });
+        // Must match the order used by `static_xml::de::find`; in particular, no namespace and an
+        // explicitly empty one are the same thing.
+        variants.sort_by(|a, b| a.name.expanded().cmp(&b.name.expanded()));
         ElementEnum {
             input,
             attr,
-- 
2.43.0


From 58c1b1185c00a28ca1a3b55ebff1aedd4a7aa662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:48 +0000
Subject: [PATCH 02/14] fix: initialized enum visitor passes on elements it
 does not know

It claimed to have consumed them, so fields flattened after it never saw
elements meant for them.
---
 static-xml-derive/src/deserialize.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/static-xml-derive/src/deserialize.rs b/static-xml-derive/src/deserialize.rs
index 56b864e..e6ccfed 100644
--- a/static-xml-derive/src/deserialize.rs
+++ b/static-xml-derive/src/deserialize.rs
@@ -424,7 +424,7 @@ fn do_enum(enum_: &ElementEnum) -> TokenStream {
                             &ELEMENTS[expected_i],
                         ));
                     }
-                    return Ok(None);
+                    return Ok(Some(child));
                 }
                 self.out.write(match element_i {
                     #(#uninitialized_match_arms,)*
-- 
2.43.0


From ece0329bdcd4f7a55e7189dd22490fb82ae17798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:48 +0000
Subject: [PATCH 03/14] fix: #[static_xml(skip)] variants

As documented, serializing one is an error (it silently wrote nothing), and
derive(Deserialize) accepts enums that have one (it generated a
non-exhaustive match).
---
 static-xml-derive/src/deserialize.rs | 7 ++++++-
 static-xml-derive/src/serialize.rs   | 4 +++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/static-xml-derive/src/deserialize.rs b/static-xml-derive/src/deserialize.rs
index e6ccfed..c703073 100644
--- a/static-xml-derive/src/deserialize.rs
+++ b/static-xml-derive/src/deserialize.rs
@@ -341,7 +341,7 @@ fn do_enum(enum_: &ElementEnum) -> TokenStream {
         .iter()
         .map(|v| v.name.quote_expanded())
         .collect();
-    let initialized_match_arms: Vec<TokenStream> = enum_
+    let mut initialized_match_arms: Vec<TokenStream> = enum_
         .variants
         .iter()
         .enumerate()
@@ -370,6 +370,11 @@ fn do_enum(enum_: &ElementEnum) -> TokenStream {
             }
         })
         .collect();
+    if enum_.has_skipped_variants {
+        initialized_match_arms.push(quote! {
+            _ => unreachable!("skipped variants are never deserialized")
+        });
+    }
     let uninitialized_match_arms: Vec<TokenStream> = enum_
         .variants
         .iter()
diff --git a/static-xml-derive/src/serialize.rs b/static-xml-derive/src/serialize.rs
index 3fd1479..3b35283 100644
--- a/static-xml-derive/src/serialize.rs
+++ b/static-xml-derive/src/serialize.rs
@@ -129,7 +129,9 @@ fn do_enum(_errors: &Errors, enum_: &ElementEnum) -> TokenStream {
     }).collect();
     if enum_.has_skipped_variants {
         match_arms.push(quote! {
-            _ => {}
+            _ => return Err(::static_xml::ser::Error(
+                concat!("can't serialize skipped variant of ", stringify!(#ident)).to_owned(),
+            ))
         });
     }
     let write_namespaces = write_namespaces(&enum_.attr);
-- 
2.43.0


From b65a1d267da7b2317b244ddc6f79796657c6ed02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:16 +0000
Subject: [PATCH 04/14] fix: derive(Serialize) writes #[static_xml(text)]
 fields

The field was silently left out of the document.
---
 static-xml-derive/src/serialize.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/static-xml-derive/src/serialize.rs b/static-xml-derive/src/serialize.rs
index 3b35283..1b064f6 100644
--- a/static-xml-derive/src/serialize.rs
+++ b/static-xml-derive/src/serialize.rs
@@ -69,7 +69,17 @@ fn write_struct_elements(struct_: &ElementStruct) -> Vec<TokenStream> {
             ::static_xml::ser::Serialize::write_children(&self.#ident, writer)?;
         })
     });
-    elements.chain(flattens).collect()
+    let texts = struct_.fields.iter().filter_map(|f| {
+        if !matches!(f.mode, ElementFieldMode::Text) {
+            return None;
+        }
+        let ident = &f.inner.ident;
+        Some(quote_spanned! {
+            ident.span() =>
+            writer.text(&::static_xml::ser::ToText::to_text(&self.#ident)?)?;
+        })
+    });
+    elements.chain(flattens).chain(texts).collect()
 }
 
 fn impl_root(name: &Name) -> TokenStream {
-- 
2.43.0


From 3b639f8ea2b0aa8be40e4039b902c5a0fc597ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:16 +0000
Subject: [PATCH 05/14] fix: reject derive(Deserialize) on packed structs

The generated code does unaligned pointer writes on them from safe code,
which is undefined behavior.
---
 static-xml-derive/src/deserialize.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/static-xml-derive/src/deserialize.rs b/static-xml-derive/src/deserialize.rs
index c703073..5f1ce3c 100644
--- a/static-xml-derive/src/deserialize.rs
+++ b/static-xml-derive/src/deserialize.rs
@@ -475,6 +475,23 @@ fn do_enum(enum_: &ElementEnum) -> TokenStream {
 }
 
 pub(crate) fn derive(errors: &Errors, input: syn::DeriveInput) -> Result<TokenStream, ()> {
+    // The generated code writes and updates each field through an aligned pointer.
+    for attr in &input.attrs {
+        if !attr.path.is_ident("repr") {
+            continue;
+        }
+        if let Ok(syn::Meta::List(meta)) = attr.parse_meta() {
+            for item in &meta.nested {
+                if matches!(item, syn::NestedMeta::Meta(m) if m.path().is_ident("packed")) {
+                    errors.push(syn::Error::new_spanned(
+                        item,
+                        "#[derive(static_xml::Deserialize)] doesn't support packed types",
+                    ));
+                    return Err(());
+                }
+            }
+        }
+    }
     match input.data {
         Data::Enum(ref data) => Ok(do_enum(&ElementEnum::new(&errors, &input, data))),
         Data::Struct(ref data) => ElementStruct::new(&errors, &input, data).map(|s| do_struct(&s)),
-- 
2.43.0


From 68a62a8ede124b19b32432aae7443ffde85c1454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:16 +0000
Subject: [PATCH 06/14] fix: trim the element stack before skipping

If a visitor discarded an error raised at the end of a nested element, the
ended element stayed on the stack while its siblings were skipped, so
later errors had a wrong stack (and debug builds panicked).
---
 static-xml/src/de/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/static-xml/src/de/mod.rs b/static-xml/src/de/mod.rs
index 35aae66..84ea4cd 100644
--- a/static-xml/src/de/mod.rs
+++ b/static-xml/src/de/mod.rs
@@ -473,8 +473,10 @@ impl<R: std::io::Read> ErasedReader for Reader<R> {
             depth
         );
         while self.depth > depth {
-            self.next()?;
+            // There may be an ended element to trim already, if a visitor discarded an error from
+            // a nested one.
             self.stack.truncate(self.depth);
+            self.next()?;
         }
         self.stack.truncate(self.depth);
         Ok(())
-- 
2.43.0


From 57f8e191189fa41b6bb32e6bf131613523a466dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:16 +0000
Subject: [PATCH 07/14] fix: keep whitespace-only character data

xml-rs reports it as a separate event type within elements, which was
skipped, so e.g. a String of spaces deserialized as empty.
---
 static-xml/src/de/mod.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/static-xml/src/de/mod.rs b/static-xml/src/de/mod.rs
index 84ea4cd..e6c3d46 100644
--- a/static-xml/src/de/mod.rs
+++ b/static-xml/src/de/mod.rs
@@ -382,7 +382,7 @@ enum Event {
     EndElement { name: xml::name::OwnedName },
 
     /// Characters, whether from `XmlEvent::CData`, `XmlEvent::Characters`, or
-    /// (possibly?) `XmlEvent::Whitespace`.
+    /// `XmlEvent::Whitespace`.
     Characters(String),
 }
 
@@ -451,12 +451,13 @@ impl<R: std::io::Read> ErasedReader for Reader<R> {
                     debug_assert_eq!(&self.stack[self.depth].name, &name);
                     return Ok((Event::EndElement { name }, pos));
                 }
-                Ok(XmlEvent::Characters(str)) | Ok(XmlEvent::CData(str)) => {
+                Ok(XmlEvent::Characters(str))
+                | Ok(XmlEvent::CData(str))
+                | Ok(XmlEvent::Whitespace(str)) => {
                     let pos = self.inner.position();
                     return Ok((Event::Characters(str), pos));
                 }
                 Ok(XmlEvent::Comment(_))
-                | Ok(XmlEvent::Whitespace(_))
                 | Ok(XmlEvent::ProcessingInstruction { .. })
                 | Ok(XmlEvent::StartDocument { .. })
                 | Ok(XmlEvent::EndDocument) => continue,
-- 
2.43.0


From 5b9b1d9bfc18128eb3489cc5b79cfcaeb5a483a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:16 +0000
Subject: [PATCH 08/14] fix: serializing unresolvable names returns an error
 rather than panicking

An element or attribute in an undeclared namespace (or an element in no
namespace beneath a default namespace) is bad input, not a bug.
---
 static-xml/src/ser/mod.rs | 72 ++++++++++++++++++++++++++-------------
 1 file changed, 48 insertions(+), 24 deletions(-)

diff --git a/static-xml/src/ser/mod.rs b/static-xml/src/ser/mod.rs
index 16bddd7..002333d 100644
--- a/static-xml/src/ser/mod.rs
+++ b/static-xml/src/ser/mod.rs
@@ -161,23 +161,31 @@ impl<'a> ElementBuilder<'a> {
     pub fn start(mut self) -> Result<ElementWriter<'a>, Error> {
         let inner = self.0.take().unwrap();
         let namespaces = inner.namespaces.finalize();
+        let name = namespaces.resolve_element(&inner.name);
+
+        // TODO: better to reuse a Vec and amortize this allocation.
+        let attributes = inner
+            .attributes
+            .iter()
+            .map(|(k, v)| {
+                Ok(xml::attribute::Attribute {
+                    name: namespaces.resolve_attribute(k)?,
+                    value: &v,
+                })
+            })
+            .collect::<Result<Vec<_>, Error>>();
+        let (name, attributes) = match (name, attributes) {
+            (Ok(n), Ok(a)) => (n, a),
+            (Err(e), _) | (_, Err(e)) => {
+                inner.writer.poison(e.clone());
+                return Err(e);
+            }
+        };
         inner
             .writer
             .write(XmlEvent::StartElement {
-                name: namespaces.resolve_element(&inner.name),
-
-                // TODO: better to reuse a Vec and amortize this allocation.
-                attributes: Cow::Owned(
-                    inner
-                        .attributes
-                        .iter()
-                        .map(|(k, v)| xml::attribute::Attribute {
-                            name: namespaces.resolve_attribute(k),
-                            value: &v,
-                        })
-                        .collect::<Vec<_>>(),
-                ),
-
+                name,
+                attributes: Cow::Owned(attributes),
                 namespace: Cow::Borrowed(&namespaces.by_prefix),
             })
             .map_err(|e| Error(e.to_string()))?;
@@ -382,7 +390,10 @@ impl<'a> Namespaces<'a> {
         child
     }
 
-    fn resolve_element<'b>(&'b self, name: &ExpandedNameRef<'b>) -> xml::name::Name<'b>
+    fn resolve_element<'b>(
+        &'b self,
+        name: &ExpandedNameRef<'b>,
+    ) -> Result<xml::name::Name<'b>, Error>
     where
         'a: 'b,
     {
@@ -397,15 +408,20 @@ impl<'a> Namespaces<'a> {
                 if self.by_prefix.get("").is_none() {
                     ""
                 } else {
-                    todo!(
+                    return Err(Error(format!(
                         "element {} has no namespace, but default namespace is set",
                         name
-                    )
+                    )));
                 }
             }
-            _ => panic!("element {} uses undeclared namespace", name),
+            _ => {
+                return Err(Error(format!(
+                    "element {} uses undeclared namespace",
+                    name
+                )))
+            }
         };
-        xml::name::Name {
+        Ok(xml::name::Name {
             local_name: name.local_name,
             namespace: None, // unused by xml::writer
             prefix: if prefix.is_empty() {
@@ -413,10 +429,13 @@ impl<'a> Namespaces<'a> {
             } else {
                 Some(&*prefix)
             },
-        }
+        })
     }
 
-    fn resolve_attribute<'b>(&'b self, name: &ExpandedNameRef<'b>) -> xml::name::Name<'b>
+    fn resolve_attribute<'b>(
+        &'b self,
+        name: &ExpandedNameRef<'b>,
+    ) -> Result<xml::name::Name<'b>, Error>
     where
         'a: 'b,
     {
@@ -429,10 +448,15 @@ impl<'a> Namespaces<'a> {
                     ..
                 }) if !p.is_empty() => p,
                 None if name.namespace == "http://www.w3.org/XML/1998/namespace" => "xml",
-                _ => panic!("attribute {} uses undeclared namespace", name),
+                _ => {
+                    return Err(Error(format!(
+                        "attribute {} uses undeclared namespace",
+                        name
+                    )))
+                }
             }
         };
-        xml::name::Name {
+        Ok(xml::name::Name {
             local_name: name.local_name,
             namespace: None, // unused by xml::writer
             prefix: if prefix.is_empty() {
@@ -440,7 +464,7 @@ impl<'a> Namespaces<'a> {
             } else {
                 Some(&*prefix)
             },
-        }
+        })
     }
 }
 
-- 
2.43.0


From 791c35b22367bd8270cb72f894e8bbc84ab2744c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:16 +0000
Subject: [PATCH 09/14] fix: derived structs can be flattened

The documentation promises this of any derive(Deserialize) type, but only
enums implemented the trait flattening needs.
---
 static-xml-derive/src/deserialize.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/static-xml-derive/src/deserialize.rs b/static-xml-derive/src/deserialize.rs
index 5f1ce3c..f9a19cf 100644
--- a/static-xml-derive/src/deserialize.rs
+++ b/static-xml-derive/src/deserialize.rs
@@ -235,6 +235,9 @@ fn do_struct(struct_: &ElementStruct) -> TokenStream {
     let visitor_initializers = visitor_initializers(&struct_);
     let finalize_visitor_fields = finalize_visitor_fields(&struct_);
     let flatten_visitors = quote_flatten_visitors(&struct_);
+
+    // As in do_enum, these visibilities must match.
+    let vis = &struct_.input.vis;
     let (attribute_fallthrough, element_fallthrough);
     if flatten_visitors.is_empty() {
         attribute_fallthrough = quote! { Ok(Some(value)) };
@@ -271,7 +274,7 @@ fn do_struct(struct_: &ElementStruct) -> TokenStream {
         // a generated field name e.g. `foo__required` or `foo__visitor`. Don't
         // complain about this.
         #[allow(non_snake_case)]
-        struct #visitor_type<'out> {
+        #vis struct #visitor_type<'out> {
             // This can't be &mut MaybeUninit<#type> because flattened fields
             // (if any) get a &mut MaybeUninit<#type> that aliases it. So
             // use a raw pointer and addr_of! to access individual fields, and
@@ -329,6 +332,10 @@ fn do_struct(struct_: &ElementStruct) -> TokenStream {
             }
         }
 
+        impl<'out> ::static_xml::de::RawDeserialize<'out> for #ident {
+            type Visitor = #visitor_type<'out>;
+        }
+
         ::static_xml::impl_deserialize_via_raw!(#ident, #visitor_type);
     }
 }
-- 
2.43.0


From 262d4e3b2e4b44d2b7f2e01ede569cee43187e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:44 +0000
Subject: [PATCH 10/14] fix: names of raw identifiers don't include r#

A field named r#type was written as the ill-formed element <r#type> and read
from it.
---
 static-xml-derive/src/common.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/static-xml-derive/src/common.rs b/static-xml-derive/src/common.rs
index efe3036..51c9002 100644
--- a/static-xml-derive/src/common.rs
+++ b/static-xml-derive/src/common.rs
@@ -6,7 +6,7 @@ use std::{cell::RefCell, collections::BTreeMap};
 use proc_macro2::TokenStream;
 use quote::{quote, quote_spanned, ToTokens};
 use static_xml::{de::WhiteSpace, ExpandedNameRef};
-use syn::{DeriveInput, Fields, Lit, LitStr, Meta, MetaNameValue, NestedMeta};
+use syn::{ext::IdentExt, DeriveInput, Fields, Lit, LitStr, Meta, MetaNameValue, NestedMeta};
 
 // See serde/serde_derive/src/internals/attr.rs and yaserde_derive/src/common/field.rs
 
@@ -195,7 +195,7 @@ impl<'a> TextEnum<'a> {
                         ));
                     }
                     TextVariantMode::Known {
-                        text: text.unwrap_or_else(|| v.ident.to_string()),
+                        text: text.unwrap_or_else(|| v.ident.unraw().to_string()),
                     }
                 };
                 RestrictionVariant { inner: v, mode }
@@ -267,7 +267,7 @@ impl<'a> Name<'a> {
     fn from_ident(ident: &syn::Ident) -> Name {
         Name {
             ident,
-            local_name: ident.to_string(),
+            local_name: ident.unraw().to_string(),
             prefix: None,
             namespace: None,
         }
-- 
2.43.0


From 3371c9c39e1e22d107ffe2234a7e670cafb46f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:45 +0000
Subject: [PATCH 11/14] fix: write namespace mappings escaped, and whenever
 they differ from the parent's

---
 static-xml/src/ser/mod.rs | 35 +++++++++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/static-xml/src/ser/mod.rs b/static-xml/src/ser/mod.rs
index 002333d..2e873ea 100644
--- a/static-xml/src/ser/mod.rs
+++ b/static-xml/src/ser/mod.rs
@@ -108,6 +108,9 @@ struct ElementBuilderInner<'a> {
     name: ExpandedNameRef<'a>,
     namespaces: NamespacesBuilder<'a>,
 
+    /// The mappings in scope at the parent element, if any.
+    inherited: Option<&'a xml::namespace::Namespace>,
+
     /// Attributes, keyed by the expanded name as that's what must be unique.
     /// The prefix is part of the BTreeMap's value, even though XML considers
     /// it part of the key.
@@ -163,16 +166,34 @@ impl<'a> ElementBuilder<'a> {
         let namespaces = inner.namespaces.finalize();
         let name = namespaces.resolve_element(&inner.name);
 
+        // Write namespace mappings as attributes. `xml::writer` doesn't escape the URLs of
+        // mappings passed as such, nor write one that some ancestor has if another ancestor in
+        // between overrides it.
+        let mappings = namespaces
+            .by_prefix
+            .into_iter()
+            .filter(|&(prefix, url)| {
+                let in_scope = inner.inherited.and_then(|i| i.get(prefix));
+                in_scope != Some(url) && !(in_scope.is_none() && url.is_empty())
+            })
+            .map(|(prefix, url)| {
+                Ok(xml::attribute::Attribute {
+                    name: match prefix {
+                        "" => xml::name::Name::local("xmlns"),
+                        p => xml::name::Name::prefixed(p, "xmlns"),
+                    },
+                    value: url,
+                })
+            });
+
         // TODO: better to reuse a Vec and amortize this allocation.
-        let attributes = inner
-            .attributes
-            .iter()
-            .map(|(k, v)| {
+        let attributes = mappings
+            .chain(inner.attributes.iter().map(|(k, v)| {
                 Ok(xml::attribute::Attribute {
                     name: namespaces.resolve_attribute(k)?,
                     value: &v,
                 })
-            })
+            }))
             .collect::<Result<Vec<_>, Error>>();
         let (name, attributes) = match (name, attributes) {
             (Ok(n), Ok(a)) => (n, a),
@@ -186,7 +207,7 @@ impl<'a> ElementBuilder<'a> {
             .write(XmlEvent::StartElement {
                 name,
                 attributes: Cow::Owned(attributes),
-                namespace: Cow::Borrowed(&namespaces.by_prefix),
+                namespace: Cow::Owned(xml::namespace::Namespace::empty()),
             })
             .map_err(|e| Error(e.to_string()))?;
         Ok(ElementWriter(Some(ElementWriterInner {
@@ -228,6 +249,7 @@ impl<'a> ElementWriter<'a> {
         ElementBuilder(Some(ElementBuilderInner {
             name,
             namespaces: inner.namespaces.child(name.namespace),
+            inherited: Some(&inner.namespaces.by_prefix),
             attributes: Vec::default(),
             seen_attributes: HashMap::default(),
             writer: inner.writer,
@@ -730,6 +752,7 @@ impl<'a> Serializer<'a> {
         let mut builder = ElementBuilder(Some(ElementBuilderInner {
             name: self.name,
             namespaces: NamespacesBuilder::default(),
+            inherited: None,
             attributes: Vec::default(),
             seen_attributes: HashMap::default(),
             writer: &mut writer,
-- 
2.43.0


From 8f0252ba88aab90368b31eafa81507fd240ee0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:16 +0000
Subject: [PATCH 12/14] fix: never use a prefix for no namespace

---
 static-xml/src/ser/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/static-xml/src/ser/mod.rs b/static-xml/src/ser/mod.rs
index 2e873ea..d9b371c 100644
--- a/static-xml/src/ser/mod.rs
+++ b/static-xml/src/ser/mod.rs
@@ -303,6 +303,8 @@ impl<'a> NamespacesBuilder<'a> {
             "prefix {:?} must not start with xml",
             requested_prefix
         );
+        // No prefix can stand for no namespace.
+        let requested_prefix = if url.is_empty() { "" } else { requested_prefix };
         use std::collections::btree_map::Entry;
         match self.0.entry(url) {
             Entry::Vacant(e) => {
@@ -327,6 +329,9 @@ impl<'a> NamespacesBuilder<'a> {
     ///
     /// Doesn't panic if `url` already exists; `resolve_attribute` will do that later.
     fn attribute(&mut self, url: &str) {
+        if url.is_empty() {
+            return; // needs no prefix, and can't have one.
+        }
         if let Some(ns) = self.0.get_mut(url) {
             ns.required = true;
             ns.needs_prefix = true;
-- 
2.43.0


From 2cb60c6e02a46b804c4a71b8c59811e6b30e1fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:22 +0000
Subject: [PATCH 13/14] fix: don't bind another prefix to the XML namespace

---
 static-xml/src/ser/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/static-xml/src/ser/mod.rs b/static-xml/src/ser/mod.rs
index d9b371c..8dbcb91 100644
--- a/static-xml/src/ser/mod.rs
+++ b/static-xml/src/ser/mod.rs
@@ -303,6 +303,9 @@ impl<'a> NamespacesBuilder<'a> {
             "prefix {:?} must not start with xml",
             requested_prefix
         );
+        if url == "http://www.w3.org/XML/1998/namespace" {
+            return; // always has the prefix "xml", and can't have any other.
+        }
         // No prefix can stand for no namespace.
         let requested_prefix = if url.is_empty() { "" } else { requested_prefix };
         use std::collections::btree_map::Entry;
-- 
2.43.0


From 5da31ad34c9b0d8ce433f084799461bf690efa8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:15 +0000
Subject: [PATCH 14/14] fix: keep inherited prefix mappings in scope when their
 namespace gets another prefix

An attribute in the default namespace gives that namespace a second prefix. The
default mapping was then forgotten though it was still in force, so elements in
no namespace were written unprefixed beneath it, and so in the namespace.
---
 static-xml/src/ser/mod.rs | 32 ++++++++++++++------------------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/static-xml/src/ser/mod.rs b/static-xml/src/ser/mod.rs
index 8dbcb91..89a2cf2 100644
--- a/static-xml/src/ser/mod.rs
+++ b/static-xml/src/ser/mod.rs
@@ -163,7 +163,7 @@ impl<'a> ElementBuilder<'a> {
     #[must_use = "must call finish on the returned writer to complete the document"]
     pub fn start(mut self) -> Result<ElementWriter<'a>, Error> {
         let inner = self.0.take().unwrap();
-        let namespaces = inner.namespaces.finalize();
+        let namespaces = inner.namespaces.finalize(inner.inherited);
         let name = namespaces.resolve_element(&inner.name);
 
         // Write namespace mappings as attributes. `xml::writer` doesn't escape the URLs of
@@ -342,7 +342,7 @@ impl<'a> NamespacesBuilder<'a> {
     }
 
     /// Finalizes the chosen prefixes, returning an immutable `Namespaces`.
-    fn finalize(mut self) -> Namespaces<'a> {
+    fn finalize(mut self, inherited: Option<&xml::namespace::Namespace>) -> Namespaces<'a> {
         let mut by_prefix = xml::namespace::Namespace::empty();
 
         // Give first dibs to required mappings, and ensure they get some
@@ -382,6 +382,11 @@ impl<'a> NamespacesBuilder<'a> {
             }
         }
 
+        // Whatever isn't overridden stays in scope, even if its URL got another prefix above.
+        for (prefix, url) in inherited.into_iter().flatten() {
+            by_prefix.put(prefix, url);
+        }
+
         Namespaces {
             by_url: self.0,
             by_prefix,
@@ -399,23 +404,14 @@ struct Namespaces<'a> {
 impl<'a> Namespaces<'a> {
     fn child(&self, namespace: &str) -> NamespacesBuilder {
         let mut child = NamespacesBuilder::default();
-        let mut found_namespace = false;
         for (prefix, ns) in &self.by_prefix {
-            let required = if !found_namespace && ns == namespace {
-                found_namespace = true;
-                true
-            } else {
-                false
-            };
-            child.0.insert(
-                ns,
-                Namespace {
-                    requested_prefix: prefix,
-                    assigned_prefix: None,
-                    required,
-                    needs_prefix: false,
-                },
-            );
+            // The first prefix wins if there are several for a namespace.
+            child.0.entry(ns).or_insert(Namespace {
+                requested_prefix: prefix,
+                assigned_prefix: None,
+                required: ns == namespace,
+                needs_prefix: false,
+            });
         }
         child
     }
-- 
2.43.0

