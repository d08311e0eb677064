From 7d494bbbc48a1b1a297fc362ce4e951f74089e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:45 +0000
Subject: [PATCH 01/11] fix: deliver white-space-only character data

xml-rs reports character data consisting only of white space as
XmlEvent::Whitespace, which was dropped, so an element such as
<t>  </t> read as an empty string.
---
 static-xml/src/de/mod.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/static-xml/src/de/mod.rs b/static-xml/src/de/mod.rs
index 35aae66..27128c4 100644
--- a/static-xml/src/de/mod.rs
+++ b/static-xml/src/de/mod.rs
@@ -382,7 +382,7 @@ enum Event {
     EndElement { name: xml::name::OwnedName },
 
     /// Characters, whether from `XmlEvent::CData`, `XmlEvent::Characters`, or
-    /// (possibly?) `XmlEvent::Whitespace`.
+    /// `XmlEvent::Whitespace`.
     Characters(String),
 }
 
@@ -451,12 +451,13 @@ impl<R: std::io::Read> ErasedReader for Reader<R> {
                     debug_assert_eq!(&self.stack[self.depth].name, &name);
                     return Ok((Event::EndElement { name }, pos));
                 }
-                Ok(XmlEvent::Characters(str)) | Ok(XmlEvent::CData(str)) => {
+                Ok(XmlEvent::Characters(str))
+                | Ok(XmlEvent::CData(str))
+                | Ok(XmlEvent::Whitespace(str)) => {
                     let pos = self.inner.position();
                     return Ok((Event::Characters(str), pos));
                 }
                 Ok(XmlEvent::Comment(_))
-                | Ok(XmlEvent::Whitespace(_))
                 | Ok(XmlEvent::ProcessingInstruction { .. })
                 | Ok(XmlEvent::StartDocument { .. })
                 | Ok(XmlEvent::EndDocument) => continue,
-- 
2.43.0


From b197d777ebf0ef4e54025be62a4790eea19a187a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:45 +0000
Subject: [PATCH 02/11] fix: trim ended elements before skipping to the target
 depth

When a visitor swallowed an error raised within a grandchild that had
already been read, next() was called with that element still on the
stack, giving a debug assertion failure or a corrupt error stack.
---
 static-xml/src/de/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/static-xml/src/de/mod.rs b/static-xml/src/de/mod.rs
index 27128c4..08f7885 100644
--- a/static-xml/src/de/mod.rs
+++ b/static-xml/src/de/mod.rs
@@ -473,11 +473,13 @@ impl<R: std::io::Read> ErasedReader for Reader<R> {
             self.depth,
             depth
         );
+        // The last-ended element may be a descendant of the one at `depth`, if a
+        // visitor failed within it and its caller swallowed the error.
+        self.stack.truncate(self.depth);
         while self.depth > depth {
             self.next()?;
             self.stack.truncate(self.depth);
         }
-        self.stack.truncate(self.depth);
         Ok(())
     }
 
-- 
2.43.0


From 575c5189bea72d21a68833caa4a873dda7f6598b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:45 +0000
Subject: [PATCH 03/11] fix: fail when serializing a skipped enum variant

As documented, rather than silently writing nothing.
---
 static-xml-derive/src/serialize.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/static-xml-derive/src/serialize.rs b/static-xml-derive/src/serialize.rs
index 3fd1479..52678c0 100644
--- a/static-xml-derive/src/serialize.rs
+++ b/static-xml-derive/src/serialize.rs
@@ -128,8 +128,9 @@ fn do_enum(_errors: &Errors, enum_: &ElementEnum) -> TokenStream {
         }
     }).collect();
     if enum_.has_skipped_variants {
+        let msg = format!("{} variant is skipped, so can't be serialized", ident);
         match_arms.push(quote! {
-            _ => {}
+            _ => return Err(::static_xml::ser::Error(#msg.to_owned()))
         });
     }
     let write_namespaces = write_namespaces(&enum_.attr);
-- 
2.43.0


From 97c83e8eb6578540d1c56a8484476455f43465fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:00 +0000
Subject: [PATCH 04/11] fix: pass unknown elements on after an enum has been
 initialized

The visitor consumed elements naming none of its variants, so a later
flattened field never saw them.
---
 static-xml-derive/src/deserialize.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/static-xml-derive/src/deserialize.rs b/static-xml-derive/src/deserialize.rs
index 56b864e..e6ccfed 100644
--- a/static-xml-derive/src/deserialize.rs
+++ b/static-xml-derive/src/deserialize.rs
@@ -424,7 +424,7 @@ fn do_enum(enum_: &ElementEnum) -> TokenStream {
                             &ELEMENTS[expected_i],
                         ));
                     }
-                    return Ok(None);
+                    return Ok(Some(child));
                 }
                 self.out.write(match element_i {
                     #(#uninitialized_match_arms,)*
-- 
2.43.0


From 88a7c49bc860fb15b8489c5491927605c52b0019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:39 +0000
Subject: [PATCH 05/11] fix: support skipped variants when deriving Deserialize
 for an enum

The generated match was not exhaustive, so such a type didn't compile.
---
 static-xml-derive/src/deserialize.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/static-xml-derive/src/deserialize.rs b/static-xml-derive/src/deserialize.rs
index e6ccfed..c703073 100644
--- a/static-xml-derive/src/deserialize.rs
+++ b/static-xml-derive/src/deserialize.rs
@@ -341,7 +341,7 @@ fn do_enum(enum_: &ElementEnum) -> TokenStream {
         .iter()
         .map(|v| v.name.quote_expanded())
         .collect();
-    let initialized_match_arms: Vec<TokenStream> = enum_
+    let mut initialized_match_arms: Vec<TokenStream> = enum_
         .variants
         .iter()
         .enumerate()
@@ -370,6 +370,11 @@ fn do_enum(enum_: &ElementEnum) -> TokenStream {
             }
         })
         .collect();
+    if enum_.has_skipped_variants {
+        initialized_match_arms.push(quote! {
+            _ => unreachable!("skipped variants are never deserialized")
+        });
+    }
     let uninitialized_match_arms: Vec<TokenStream> = enum_
         .variants
         .iter()
-- 
2.43.0


From 464a625bdc99d9a270cfb87a01157ededc8e6316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:44 +0000
Subject: [PATCH 06/11] fix: sort enum variants as they are looked up

An undeclared namespace and an explicitly empty one are the same when
looking up an element, so must be the same when sorting.
---
 static-xml-derive/src/common.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/static-xml-derive/src/common.rs b/static-xml-derive/src/common.rs
index c1b2c96..9861c46 100644
--- a/static-xml-derive/src/common.rs
+++ b/static-xml-derive/src/common.rs
@@ -651,12 +651,7 @@ impl<'a> ElementEnum<'a> {
                 })
             })
             .collect();
-        variants.sort_by(|a, b| {
-            a.name
-                .namespace
-                .cmp(&b.name.namespace)
-                .then_with(|| a.name.local_name.cmp(&b.name.local_name))
-        });
+        variants.sort_by(|a, b| a.name.expanded().cmp(&b.name.expanded()));
         ElementEnum {
             input,
             attr,
-- 
2.43.0


From 6aaca8912bbbd26e9e50ed7dac55b203b824a82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:17 +0000
Subject: [PATCH 07/11] fix: leave r# out of names derived from raw identifiers

---
 static-xml-derive/src/common.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/static-xml-derive/src/common.rs b/static-xml-derive/src/common.rs
index 9861c46..64fa3f9 100644
--- a/static-xml-derive/src/common.rs
+++ b/static-xml-derive/src/common.rs
@@ -6,7 +6,7 @@ use std::{cell::RefCell, collections::BTreeMap};
 use proc_macro2::TokenStream;
 use quote::{quote, quote_spanned, ToTokens};
 use static_xml::{de::WhiteSpace, ExpandedNameRef};
-use syn::{DeriveInput, Fields, Lit, LitStr, Meta, MetaNameValue, NestedMeta};
+use syn::{ext::IdentExt, DeriveInput, Fields, Lit, LitStr, Meta, MetaNameValue, NestedMeta};
 
 // See serde/serde_derive/src/internals/attr.rs and yaserde_derive/src/common/field.rs
 
@@ -195,7 +195,7 @@ impl<'a> TextEnum<'a> {
                         ));
                     }
                     TextVariantMode::Known {
-                        text: text.unwrap_or_else(|| v.ident.to_string()),
+                        text: text.unwrap_or_else(|| v.ident.unraw().to_string()),
                     }
                 };
                 RestrictionVariant { inner: v, mode }
@@ -267,7 +267,7 @@ impl<'a> Name<'a> {
     fn from_ident(ident: &syn::Ident) -> Name {
         Name {
             ident,
-            local_name: ident.to_string(),
+            local_name: ident.unraw().to_string(),
             prefix: None,
             namespace: None,
         }
-- 
2.43.0


From ea5a637db923fc8259f0399eb235b43286615abc Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:54:40 +0000
Subject: [PATCH 08/11] fix: report duplicate static_xml items

---
 static-xml-derive/src/common.rs | 74 ++++++++++++++++++++++++++-------
 1 file changed, 60 insertions(+), 14 deletions(-)

diff --git a/static-xml-derive/src/common.rs b/static-xml-derive/src/common.rs
index 64fa3f9..e467746 100644
--- a/static-xml-derive/src/common.rs
+++ b/static-xml-derive/src/common.rs
@@ -80,7 +80,7 @@ pub(crate) struct TextAttr {
 
 impl TextAttr {
     pub(crate) fn new(errors: &Errors, input: &DeriveInput) -> Self {
-        let mut whitespace = WhiteSpace::Preserve;
+        let mut whitespace = None;
         let mut mode = None;
         for item in get_meta_items(errors, &input.attrs) {
             match &item {
@@ -106,7 +106,10 @@ impl TextAttr {
                 i => errors.push(syn::Error::new_spanned(i, "item not understood")),
             }
         }
-        Self { whitespace, mode }
+        Self {
+            whitespace: whitespace.unwrap_or(WhiteSpace::Preserve),
+            mode,
+        }
     }
 }
 
@@ -156,10 +159,16 @@ impl<'a> TextEnum<'a> {
                 let mut unknown = false;
                 for item in get_meta_items(errors, &v.attrs) {
                     match &item {
-                        NestedMeta::Meta(Meta::Path(p)) if p.is_ident("unknown") => unknown = true,
+                        NestedMeta::Meta(Meta::Path(p)) if p.is_ident("unknown") => {
+                            set_flag(errors, p, &mut unknown)
+                        }
                         NestedMeta::Meta(Meta::NameValue(nv @ MetaNameValue { path, .. }))
                             if path.is_ident("rename") =>
                         {
+                            if text.is_some() {
+                                errors.push(syn::Error::new_spanned(nv, "redundant rename"));
+                                continue;
+                            }
                             with_lit_str(errors, nv, &mut |l| text = Some(l.value()));
                         }
                         i => errors.push(syn::Error::new_spanned(i, "item not understood")),
@@ -261,6 +270,7 @@ pub(crate) struct Name<'a> {
     pub(crate) local_name: String,
     pub(crate) prefix: Option<String>,
     pub(crate) namespace: Option<String>,
+    renamed: bool,
 }
 
 impl<'a> Name<'a> {
@@ -270,9 +280,21 @@ impl<'a> Name<'a> {
             local_name: ident.unraw().to_string(),
             prefix: None,
             namespace: None,
+            renamed: false,
         }
     }
 
+    /// Sets the local name from the `rename` name-value pair `nv`, adding an error if that has
+    /// been done before.
+    fn rename(&mut self, errors: &Errors, nv: &MetaNameValue) {
+        if self.renamed {
+            errors.push(syn::Error::new_spanned(nv, "redundant rename"));
+            return;
+        }
+        self.renamed = true;
+        with_lit_str(errors, nv, &mut |l| self.local_name = l.value());
+    }
+
     pub(crate) fn expanded(&self) -> ExpandedNameRef {
         ExpandedNameRef {
             namespace: self.namespace.as_deref().unwrap_or(""),
@@ -386,8 +408,12 @@ impl<'a> ElementAttr<'a> {
                 NestedMeta::Meta(Meta::NameValue(nv)) => {
                     if let Some(id) = nv.path.get_ident() {
                         if id == "rename" {
-                            with_lit_str(errors, &nv, &mut |l| name.local_name = l.value());
+                            name.rename(errors, &nv);
                         } else if id == "prefix" {
+                            if prefix_nv.is_some() {
+                                errors.push(syn::Error::new_spanned(nv, "redundant prefix"));
+                                continue;
+                            }
                             // Defer evaluation until we have all the namespaces.
                             prefix_nv = Some(nv);
                         } else if id == "namespace" {
@@ -542,15 +568,23 @@ impl<'a> ElementField<'a> {
         let mut name = Name::from_ident(ident);
         for item in get_meta_items(errors, &inner.attrs) {
             match &item {
-                NestedMeta::Meta(Meta::Path(p)) if p.is_ident("attribute") => attribute = true,
-                NestedMeta::Meta(Meta::Path(p)) if p.is_ident("default") => default = true,
+                NestedMeta::Meta(Meta::Path(p)) if p.is_ident("attribute") => {
+                    set_flag(errors, p, &mut attribute)
+                }
+                NestedMeta::Meta(Meta::Path(p)) if p.is_ident("default") => {
+                    set_flag(errors, p, &mut default)
+                }
                 // TODO: also allow explicit defaults.
-                NestedMeta::Meta(Meta::Path(p)) if p.is_ident("flatten") => flatten = true,
-                NestedMeta::Meta(Meta::Path(p)) if p.is_ident("text") => text = true,
+                NestedMeta::Meta(Meta::Path(p)) if p.is_ident("flatten") => {
+                    set_flag(errors, p, &mut flatten)
+                }
+                NestedMeta::Meta(Meta::Path(p)) if p.is_ident("text") => {
+                    set_flag(errors, p, &mut text)
+                }
                 NestedMeta::Meta(Meta::NameValue(nv @ MetaNameValue { ref path, .. }))
                     if path.is_ident("rename") =>
                 {
-                    with_lit_str(errors, nv, &mut |l| name.local_name = l.value());
+                    name.rename(errors, nv);
                 }
                 NestedMeta::Meta(Meta::NameValue(nv @ MetaNameValue { path, .. }))
                     if path.is_ident("prefix") =>
@@ -627,7 +661,7 @@ impl<'a> ElementEnum<'a> {
                         NestedMeta::Meta(Meta::NameValue(nv @ MetaNameValue { ref path, .. }))
                             if path.is_ident("rename") =>
                         {
-                            with_lit_str(errors, nv, &mut |l| name.local_name = l.value());
+                            name.rename(errors, nv);
                         }
                         NestedMeta::Meta(Meta::NameValue(nv @ MetaNameValue { ref path, .. }))
                             if path.is_ident("prefix") =>
@@ -679,15 +713,27 @@ pub(crate) fn with_lit_str(
     }
 }
 
+/// Sets a flag named by the single word `path`, adding an error if it has been set before.
+pub(crate) fn set_flag(errors: &Errors, path: &syn::Path, flag: &mut bool) {
+    if *flag {
+        errors.push(syn::Error::new_spanned(path, "redundant item"));
+    }
+    *flag = true;
+}
+
 pub(crate) fn set_whitespace(
     errors: &Errors,
-    whitespace: &mut static_xml::de::WhiteSpace,
+    whitespace: &mut Option<static_xml::de::WhiteSpace>,
     name_value: &MetaNameValue,
 ) {
+    if whitespace.is_some() {
+        errors.push(syn::Error::new_spanned(name_value, "redundant whitespace"));
+        return;
+    }
     with_lit_str(errors, name_value, &mut |l| match l.value().as_str() {
-        "preserve" => *whitespace = WhiteSpace::Preserve,
-        "replace" => *whitespace = WhiteSpace::Replace,
-        "collapse" => *whitespace = WhiteSpace::Collapse,
+        "preserve" => *whitespace = Some(WhiteSpace::Preserve),
+        "replace" => *whitespace = Some(WhiteSpace::Replace),
+        "collapse" => *whitespace = Some(WhiteSpace::Collapse),
         _ => errors.push(syn::Error::new_spanned(
             l,
             "expected preserve, replace, or collapse",
-- 
2.43.0


From 0d726bb1b03f5342fa8546022a75267dc8e8e92e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:55:08 +0000
Subject: [PATCH 09/11] fix: report what the derive macros don't support
 instead of panicking or ignoring it

---
 static-xml-derive/src/common.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/static-xml-derive/src/common.rs b/static-xml-derive/src/common.rs
index e467746..3728469 100644
--- a/static-xml-derive/src/common.rs
+++ b/static-xml-derive/src/common.rs
@@ -320,15 +320,19 @@ impl Namespaces {
         with_lit_str(errors, nv, &mut |l| {
             let value = l.value();
             if let Some((prefix_untrimmed, url_untrimmed)) = value.split_once(": ") {
-                if prefix_untrimmed.starts_with("xml") {
-                    let prefix = prefix_untrimmed.trim();
+                let prefix = prefix_untrimmed.trim();
+                if prefix.starts_with("xml") {
                     let url = url_untrimmed.trim();
                     if prefix == "xml" && url == "http://www.w3.org/XML/1998/namespace" {
                         return;
                     }
-                    todo!("unsupported special namespace combo prefix={prefix:?} url={url:?}")
+                    errors.push(syn::Error::new_spanned(
+                        nv,
+                        format!("can't assign reserved prefix {:?} to {:?}", prefix, url),
+                    ));
+                    return;
                 }
-                self.add_internal(errors, nv, prefix_untrimmed.trim(), url_untrimmed);
+                self.add_internal(errors, nv, prefix, url_untrimmed);
             } else {
                 self.add_internal(errors, nv, "", &value);
             }
@@ -491,6 +495,14 @@ impl<'a> ElementStruct<'a> {
                 _ => {}
             }
         }
+        if let Some(i) = text_field_pos {
+            // TODO: implement in `Deserialize` and `Serialize`.
+            errors.push(syn::Error::new_spanned(
+                &fields[i].inner.ident,
+                "text fields are not supported yet",
+            ));
+            return Err(());
+        }
         sorted_attributes.sort_by_key(|&p| fields[p].name.expanded());
         sorted_elements.sort_by_key(|&p| fields[p].name.expanded());
         for (i, &p) in sorted_attributes.iter().enumerate() {
-- 
2.43.0


From 7fe2f8e1b56ca5a9ccdb8bbe02f660b78dd474ab Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:55:09 +0000
Subject: [PATCH 10/11] fix: report static_xml items where none is meaningful

---
 static-xml-derive/src/common.rs | 48 ++++++++++++++++++++++++++++-----
 1 file changed, 42 insertions(+), 6 deletions(-)

diff --git a/static-xml-derive/src/common.rs b/static-xml-derive/src/common.rs
index 3728469..1157f59 100644
--- a/static-xml-derive/src/common.rs
+++ b/static-xml-derive/src/common.rs
@@ -6,7 +6,7 @@ use std::{cell::RefCell, collections::BTreeMap};
 use proc_macro2::TokenStream;
 use quote::{quote, quote_spanned, ToTokens};
 use static_xml::{de::WhiteSpace, ExpandedNameRef};
-use syn::{ext::IdentExt, DeriveInput, Fields, Lit, LitStr, Meta, MetaNameValue, NestedMeta};
+use syn::{ext::IdentExt, Data, DeriveInput, Fields, Lit, LitStr, Meta, MetaNameValue, NestedMeta};
 
 // See serde/serde_derive/src/internals/attr.rs and yaserde_derive/src/common/field.rs
 
@@ -106,6 +106,23 @@ impl TextAttr {
                 i => errors.push(syn::Error::new_spanned(i, "item not understood")),
             }
         }
+        if matches!(mode, Some(TextMode::Std)) {
+            // Nothing below the top level is looked at.
+            match &input.data {
+                Data::Struct(s) => reject_field_attrs(errors, &s.fields),
+                Data::Enum(e) => {
+                    for v in &e.variants {
+                        reject_attrs(errors, &v.attrs);
+                        reject_field_attrs(errors, &v.fields);
+                    }
+                }
+                Data::Union(u) => {
+                    for f in &u.fields.named {
+                        reject_attrs(errors, &f.attrs);
+                    }
+                }
+            }
+        }
         Self {
             whitespace: whitespace.unwrap_or(WhiteSpace::Preserve),
             mode,
@@ -174,6 +191,7 @@ impl<'a> TextEnum<'a> {
                         i => errors.push(syn::Error::new_spanned(i, "item not understood")),
                     }
                 }
+                reject_field_attrs(errors, &v.fields);
                 let mode = if unknown {
                     if text.is_some() {
                         errors.push(syn::Error::new_spanned(
@@ -222,9 +240,8 @@ impl<'a> TextEnum<'a> {
             .variants
             .iter()
             .filter_map(|v| {
-                for i in get_meta_items(errors, &v.attrs) {
-                    errors.push(syn::Error::new_spanned(i, "item not understood"));
-                }
+                reject_attrs(errors, &v.attrs);
+                reject_field_attrs(errors, &v.fields);
                 match single_unnamed_field(&v.fields) {
                     None => {
                         errors.push(syn::Error::new_spanned(
@@ -551,6 +568,20 @@ pub(crate) fn get_meta_items<'a>(errors: &Errors, attrs: &[syn::Attribute]) -> V
     out
 }
 
+/// Adds an error for each `static_xml` item in `attrs`, where none is meaningful.
+pub(crate) fn reject_attrs(errors: &Errors, attrs: &[syn::Attribute]) {
+    for i in get_meta_items(errors, attrs) {
+        errors.push(syn::Error::new_spanned(i, "item not understood"));
+    }
+}
+
+/// Adds an error for each `static_xml` item on any of the given fields, where none is meaningful.
+pub(crate) fn reject_field_attrs(errors: &Errors, fields: &Fields) {
+    for f in fields {
+        reject_attrs(errors, &f.attrs);
+    }
+}
+
 /// Mode for a field within an `ElementStruct`.
 #[derive(Copy, Clone, Debug)]
 pub(crate) enum ElementFieldMode {
@@ -668,6 +699,7 @@ impl<'a> ElementEnum<'a> {
             .iter()
             .filter_map(|v| {
                 let mut name = Name::from_ident(&v.ident);
+                let mut skip = false;
                 for item in get_meta_items(errors, &v.attrs) {
                     match &item {
                         NestedMeta::Meta(Meta::NameValue(nv @ MetaNameValue { ref path, .. }))
@@ -681,12 +713,16 @@ impl<'a> ElementEnum<'a> {
                             attr.namespaces.process_prefix(errors, nv, &mut name);
                         }
                         NestedMeta::Meta(Meta::Path(p)) if p.is_ident("skip") => {
-                            has_skipped_variants = true;
-                            return None;
+                            set_flag(errors, p, &mut skip)
                         }
                         i => errors.push(syn::Error::new_spanned(i, "item not understood")),
                     }
                 }
+                reject_field_attrs(errors, &v.fields);
+                if skip {
+                    has_skipped_variants = true;
+                    return None;
+                }
                 let ty = optional_unnamed_field(errors, &v.ident, &v.fields)
                     .ok()?
                     .map(|f| &f.ty);
-- 
2.43.0


From f151e999571f3bdfbb4dcefe1359651755db4200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:06 +0000
Subject: [PATCH 11/11] fix: derive macros no longer panic when syn cannot
 parse the declaration

parse_macro_input! returns early; the Errors made before it were dropped without
take_compile_errors, which hid syn's error behind "proc-macro derive panicked".
---
 static-xml-derive/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/static-xml-derive/src/lib.rs b/static-xml-derive/src/lib.rs
index 2a2f4f3..d308f11 100644
--- a/static-xml-derive/src/lib.rs
+++ b/static-xml-derive/src/lib.rs
@@ -19,8 +19,8 @@ fn derive(
     input: proc_macro::TokenStream,
     f: fn(&Errors, syn::DeriveInput) -> Result<proc_macro2::TokenStream, ()>,
 ) -> proc_macro::TokenStream {
-    let errors = Errors::new();
     let input = parse_macro_input!(input as DeriveInput);
+    let errors = Errors::new();
     let out = f(&errors, input).unwrap_or_default();
     let errors = errors.take_compile_errors();
     proc_macro::TokenStream::from(quote! {
-- 
2.43.0

