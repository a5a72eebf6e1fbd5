From 4d29866c9616c44545f61ed4ae765ed90eb048dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:13 +0000
Subject: [PATCH 01/33] fix: bool schema calls z.boolean(), z.bool() does not
 exist

---
 core/src/build_ins.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/build_ins.rs b/core/src/build_ins.rs
index fc5ad9a..c04b278 100644
--- a/core/src/build_ins.rs
+++ b/core/src/build_ins.rs
@@ -143,7 +143,7 @@ impl_primitive!("number", isize, "z.number().finite().int()");
 impl_primitive!("number", f32, "z.number()");
 impl_primitive!("number", f64, "z.number()");
 
-impl_primitive!("boolean", bool, "z.bool()");
+impl_primitive!("boolean", bool, "z.boolean()");
 impl_primitive!("string", char, "z.string().length(1)");
 impl_primitive!("null", (), "z.null()");
 
-- 
2.43.0


From de599995666b3c6bb9fd0e25371e0d0ae782efeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:48 +0000
Subject: [PATCH 02/33] fix: built-in generics refer to their parameters
 instead of expanding them

Expanding the parameter's type definition (or, for wrappers and tuples, its
schema) never terminates for recursive types and loses the reference to the
exported type.
---
 core/src/build_ins.rs | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/core/src/build_ins.rs b/core/src/build_ins.rs
index c04b278..1cef26b 100644
--- a/core/src/build_ins.rs
+++ b/core/src/build_ins.rs
@@ -1,3 +1,4 @@
+use crate::InlinedType;
 use crate::TsTypeDef;
 use crate::ZodType;
 
@@ -48,7 +49,7 @@ macro_rules! impl_tuples {
             /// [T1, T2, ... ]
             /// ```
             fn type_def() -> TsTypeDef {
-                TsTypeDef::Type(format!("[{}]", vec![$($i::type_def().to_string()),*].join(", ")))
+                TsTypeDef::Type(format!("[{}]", vec![$($i::inline().to_string()),*].join(", ")))
             }
 
 
@@ -57,7 +58,7 @@ macro_rules! impl_tuples {
             /// z.tuple([T1, T2, ... ])
             /// ```
             fn schema() -> String {
-                format!("z.tuple([{}])", vec![$($i::schema()),*].join(", "))
+                format!("z.tuple([{}])", vec![$($i::inline_schema()),*].join(", "))
             }
         }
     };
@@ -87,6 +88,13 @@ macro_rules! impl_wrapper {
                 T::schema()
             }
 
+            fn inline_schema() -> String {
+                T::inline_schema()
+            }
+
+            fn inline() -> InlinedType {
+                T::inline()
+            }
         }
     };
 }
@@ -173,7 +181,7 @@ impl<T: ZodType> ZodType for Vec<T> {
     /// Array<T>
     /// ```
     fn type_def() -> TsTypeDef {
-        TsTypeDef::Type(format!("Array<{}>", T::type_def()))
+        TsTypeDef::Type(format!("Array<{}>", T::inline()))
     }
 
     /// ```ts
@@ -191,7 +199,7 @@ impl<T: ZodType> ZodType for std::collections::HashSet<T> {
     /// Set<T>
     /// ```
     fn type_def() -> TsTypeDef {
-        TsTypeDef::Type(format!("Set<{}>", T::type_def()))
+        TsTypeDef::Type(format!("Set<{}>", T::inline()))
     }
 
     /// ```ts
@@ -209,7 +217,7 @@ impl<K: ZodType, V: ZodType> ZodType for std::collections::HashMap<K, V> {
     /// Map<K, V>
     /// ```
     fn type_def() -> TsTypeDef {
-        TsTypeDef::Type(format!("Map<{}, {}>", K::type_def(), V::type_def()))
+        TsTypeDef::Type(format!("Map<{}, {}>", K::inline(), V::inline()))
     }
 
     /// ```ts
@@ -228,7 +236,7 @@ impl<T: ZodType> ZodType for Option<T> {
     /// ```
     fn type_def() -> TsTypeDef {
         // Todo
-        TsTypeDef::Type(format!("({} | undefined)", T::type_def()))
+        TsTypeDef::Type(format!("({} | undefined)", T::inline()))
     }
 
     /// ```ts
@@ -248,8 +256,8 @@ impl<T: ZodType, E: ZodType> ZodType for Result<T, E> {
     fn type_def() -> TsTypeDef {
         TsTypeDef::Type(format!(
             "{{ Ok: {} }} | {{ Err: {} }}",
-            T::type_def(),
-            E::type_def()
+            T::inline(),
+            E::inline()
         ))
     }
 
-- 
2.43.0


From 90df87e7e63e3be1d2e8cb9346230957bf2f5273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:54 +0000
Subject: [PATCH 03/33] fix: PhantomData is null on the wire

---
 core/src/build_ins.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/core/src/build_ins.rs b/core/src/build_ins.rs
index 1cef26b..486d85c 100644
--- a/core/src/build_ins.rs
+++ b/core/src/build_ins.rs
@@ -168,13 +168,30 @@ impl_wrapper!(impl<T: ZodType> ZodType for std::cell::Cell<T>);
 impl_wrapper!(impl<T: ZodType> ZodType for std::cell::RefCell<T>);
 impl_wrapper!(impl<T: ZodType> ZodType for std::sync::Mutex<T>);
 impl_wrapper!(impl<T: ZodType> ZodType for std::sync::Weak<T>);
-impl_wrapper!(impl<T: ZodType> ZodType for std::marker::PhantomData<T>);
 
 impl_shadow!("HashSet", "HashSet&lt;T,+RandomState&gt;", std::collections::HashSet<T>; impl<T: ZodType> ZodType for std::collections::BTreeSet<T>);
 impl_shadow!("HashMap", "HashMap&lt;K,+V,+RandomState&gt;", std::collections::HashMap<K, V>; impl<K: ZodType, V: ZodType> ZodType for std::collections::BTreeMap<K, V>);
 
 impl_shadow!("Vec", "Vec&lt;T&gt;", Vec<T>; impl<T: ZodType, const N: usize> ZodType for [T; N]);
 
+impl<T: ZodType> ZodType for std::marker::PhantomData<T> {
+    /// ```ts
+    /// // TS-type
+    /// null
+    /// ```
+    fn type_def() -> TsTypeDef {
+        TsTypeDef::Type(String::from("null"))
+    }
+
+    /// ```ts
+    /// // zod schema
+    /// z.null()
+    /// ```
+    fn schema() -> String {
+        String::from("z.null()")
+    }
+}
+
 impl<T: ZodType> ZodType for Vec<T> {
     /// ```ts
     /// // TS-type
-- 
2.43.0


From ab50fbe201bc2779a80f0ceb47da8679041bd04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:54 +0000
Subject: [PATCH 04/33] fix: types converted with from/try_from refer to
 themselves by their own name

Referring to the source type expands it at every use, which does not
terminate when the source type mentions the converted type.
---
 derive/src/impl_enum/mod.rs | 14 ++++++++++----
 derive/src/impl_struct.rs   |  5 ++++-
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/derive/src/impl_enum/mod.rs b/derive/src/impl_enum/mod.rs
index 46c122e..774b3ec 100644
--- a/derive/src/impl_enum/mod.rs
+++ b/derive/src/impl_enum/mod.rs
@@ -76,19 +76,25 @@ impl<'a> Enum<'a> {
             quote! {
                 impl #zod::ZodType for #ident {
                     fn schema() -> String {
-                        <#t as #zod::ZodType>::schema()
+                        <#t as #zod::ZodType>::inline_schema()
                     }
 
                     fn inline_schema() -> String {
-                        <#t as #zod::ZodType>::inline_schema()
+                        format!("z.lazy(() => {}.{})",
+                            <#ns_path as #zod::Namespace>::NAME,
+                            #name
+                        )
                     }
 
                     fn type_def() -> #zod::TsTypeDef {
-                        <#t as #zod::ZodType>::type_def()
+                        #zod::TsTypeDef::Type(<#t as #zod::ZodType>::inline().to_string())
                     }
 
                     fn inline() -> #zod::InlinedType {
-                        <#t as #zod::ZodType>::inline()
+                        #zod::InlinedType::Ref {
+                            ns_name: <#ns_path as #zod::Namespace>::NAME,
+                            name: #name
+                        }
                     }
 
                     fn docs() -> Option<&'static str> {
diff --git a/derive/src/impl_struct.rs b/derive/src/impl_struct.rs
index 75def9d..295b4b1 100644
--- a/derive/src/impl_struct.rs
+++ b/derive/src/impl_struct.rs
@@ -109,7 +109,10 @@ impl<'a> Struct<'a> {
                     }
 
                     fn inline() -> #zod::InlinedType {
-                        <#t as #zod::ZodType>::inline()
+                        #zod::InlinedType::Ref {
+                            ns_name: <#ns_path as #zod::Namespace>::NAME,
+                            name: #name
+                        }
                     }
 
                     fn docs() -> Option<&'static str> {
-- 
2.43.0


From b42eeb34ba921532dc5f90690827e469201592ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:38 +0000
Subject: [PATCH 05/33] fix: tuple structs and structs with flattened fields
 are not interfaces

'export interface X [..]' and 'export interface X {..} & Y' are no TypeScript.
---
 derive/src/impl_struct.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/derive/src/impl_struct.rs b/derive/src/impl_struct.rs
index 295b4b1..ced5a3f 100644
--- a/derive/src/impl_struct.rs
+++ b/derive/src/impl_struct.rs
@@ -126,9 +126,11 @@ impl<'a> Struct<'a> {
 
             }
         } else {
-            let interface_or_type = match (self.fields.len() == 1, self.style, self.transparent) {
-                (_, Style::Unit, _) | (true, Style::Tuple, _) | (_, _, true) => quote!(Type),
-                _ => quote!(Interface),
+            // only a plain object type can be the body of an interface
+            let has_flat_fields = self.fields.iter().any(|f| f.flatten);
+            let interface_or_type = match (self.style, self.transparent, has_flat_fields) {
+                (Style::Struct, false, false) => quote!(Interface),
+                _ => quote!(Type),
             };
 
             quote! {
-- 
2.43.0


From 92586e022732b3098ad927274416b591d11f7796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:06 +0000
Subject: [PATCH 06/33] fix: a tuple with skipped fields stays a tuple

serde drops the skipped positions but keeps the array, only tuples declared
with exactly one field are read without one.
---
 derive/src/impl_enum/field.rs                 | 12 +++++++++++-
 derive/src/impl_enum/variant/tuple_variant.rs |  8 ++++----
 derive/src/impl_struct.rs                     |  9 +++++++--
 3 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/derive/src/impl_enum/field.rs b/derive/src/impl_enum/field.rs
index 2166cd2..bb159bc 100644
--- a/derive/src/impl_enum/field.rs
+++ b/derive/src/impl_enum/field.rs
@@ -8,6 +8,7 @@ use syn::spanned::Spanned;
 /// represents the fields inside a variant
 pub struct VariantFields<'a> {
     inner: Vec<VariantField<'a>>,
+    newtype: bool,
 }
 
 impl<'a> VariantFields<'a> {
@@ -41,8 +42,17 @@ impl<'a> VariantFields<'a> {
             })
             .collect();
 
-        Self { inner }
+        Self {
+            inner,
+            newtype: variant.fields.len() == 1,
+        }
+    }
+
+    /// exactly one field is declared, skipped or not
+    pub fn is_newtype(&self) -> bool {
+        self.newtype
     }
+
     pub fn len(&self) -> usize {
         self.inner.len()
     }
diff --git a/derive/src/impl_enum/variant/tuple_variant.rs b/derive/src/impl_enum/variant/tuple_variant.rs
index b20a29a..ccc7f2f 100644
--- a/derive/src/impl_enum/variant/tuple_variant.rs
+++ b/derive/src/impl_enum/variant/tuple_variant.rs
@@ -17,7 +17,7 @@ pub struct TupleVariant<'a> {
 impl<'a> TupleVariant<'a> {
     pub fn expand_schema(&self) -> TokenStream {
         let inner = match self.fields.len() {
-            0 => {
+            0 if self.fields.is_newtype() => {
                 // may occur if fields are skipped. In this case we handle it like a unit variant
                 return UnitVariant {
                     span: self.span,
@@ -26,7 +26,7 @@ impl<'a> TupleVariant<'a> {
                 }
                 .expand_schema();
             }
-            1 => self
+            1 if self.fields.is_newtype() => self
                 .fields
                 .expand_schema()
                 .into_iter()
@@ -67,7 +67,7 @@ impl<'a> TupleVariant<'a> {
 
         let inner = match expanded_fields.len() {
             // may occur if fields are skipped. In this case we handle it like a unit variant
-            0 => {
+            0 if self.fields.is_newtype() => {
                 return UnitVariant {
                     span: self.span,
                     tag: self.tag,
@@ -75,7 +75,7 @@ impl<'a> TupleVariant<'a> {
                 }
                 .expand_type_defs()
             }
-            1 => expanded_fields
+            1 if self.fields.is_newtype() => expanded_fields
                 .first()
                 .expect("exactly one variant")
                 .clone(),
diff --git a/derive/src/impl_struct.rs b/derive/src/impl_struct.rs
index ced5a3f..fe33be3 100644
--- a/derive/src/impl_struct.rs
+++ b/derive/src/impl_struct.rs
@@ -32,6 +32,9 @@ pub fn expand(
 
     let style = fields.style;
 
+    // skipping a field does not turn a tuple into a newtype
+    let newtype = fields.len() == 1;
+
     let fields = fields
         .iter()
         .zip(fields_ast.iter().map(|f| &f.attrs))
@@ -59,6 +62,7 @@ pub fn expand(
         ident,
         fields,
         style,
+        newtype,
         from_ty,
     };
 
@@ -73,6 +77,7 @@ struct Struct<'a> {
     name: String,
     fields: Vec<StructField<'a>>,
     style: Style,
+    newtype: bool,
     from_ty: Option<syn::Type>,
 }
 
@@ -182,7 +187,7 @@ impl<'a> Struct<'a> {
 
             (false, Style::Tuple) => match fields.len() {
                 0 => unreachable!("handled by darling"),
-                1 => fields
+                1 if self.newtype => fields
                     .into_iter()
                     .next()
                     .or_else(|| flat_fields.into_iter().next())
@@ -225,7 +230,7 @@ impl<'a> Struct<'a> {
 
             (false, Style::Tuple) => match fields.len() {
                 0 => unreachable!("handled by darling"),
-                1 => fields
+                1 if self.newtype => fields
                     .into_iter()
                     .next()
                     .or_else(|| flat_fields.into_iter().next())
-- 
2.43.0


From eef2a0d740e9d45fc0a491a7c3b2f0527595a3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:11 +0000
Subject: [PATCH 07/33] fix: fields are optional when the whole container has a
 default

---
 derive/src/impl_struct.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/derive/src/impl_struct.rs b/derive/src/impl_struct.rs
index fe33be3..2a9ba43 100644
--- a/derive/src/impl_struct.rs
+++ b/derive/src/impl_struct.rs
@@ -21,6 +21,9 @@ pub fn expand(
 ) -> proc_macro2::TokenStream {
     let transparent = serde_ast.attrs.transparent();
 
+    // `#[serde(default)]` on the container applies to every field
+    let container_default = !serde_ast.attrs.default().is_none();
+
     let ident = input.ident;
     let name = serde_ast.attrs.name().deserialize_name();
     let ns_path = input.namespace;
@@ -42,7 +45,7 @@ pub fn expand(
         .map(|(args::StructField { ty, ident }, attrs)| StructField {
             ty,
             name: ident.as_ref().map(|_| attrs.name().deserialize_name()),
-            optional: !attrs.default().is_none(),
+            optional: container_default || !attrs.default().is_none(),
             transparent,
             flatten: attrs.flatten(),
         })
-- 
2.43.0


From e6aa0b9f5f7ec01ef0be3e169e888121933c584e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:47 +0000
Subject: [PATCH 08/33] fix: a transparent struct is described by its
 transparent field

---
 derive/src/impl_struct.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/derive/src/impl_struct.rs b/derive/src/impl_struct.rs
index 2a9ba43..21a83f0 100644
--- a/derive/src/impl_struct.rs
+++ b/derive/src/impl_struct.rs
@@ -42,6 +42,8 @@ pub fn expand(
         .iter()
         .zip(fields_ast.iter().map(|f| &f.attrs))
         .filter(|(_, attrs)| !attrs.skip_deserializing())
+        // a transparent struct consists of a single field, not necessarily the first one
+        .filter(|(_, attrs)| !transparent || attrs.transparent())
         .map(|(args::StructField { ty, ident }, attrs)| StructField {
             ty,
             name: ident.as_ref().map(|_| attrs.name().deserialize_name()),
-- 
2.43.0


From c1ad12766dc06c1a6f9c3a220dd0eafb71f23c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:32 +0000
Subject: [PATCH 09/33] fix: newtype variants of internally tagged enums carry
 the tag

serde merges the tag into the value of the only field. Since such a variant
is no plain object zod cannot discriminate on the tag.
---
 derive/src/impl_enum/mod.rs                   |  9 +++++++++
 derive/src/impl_enum/variant/mod.rs           | 13 ++++++++++++-
 derive/src/impl_enum/variant/tuple_variant.rs | 12 ++++++++++--
 3 files changed, 31 insertions(+), 3 deletions(-)

diff --git a/derive/src/impl_enum/mod.rs b/derive/src/impl_enum/mod.rs
index 774b3ec..02ab138 100644
--- a/derive/src/impl_enum/mod.rs
+++ b/derive/src/impl_enum/mod.rs
@@ -166,6 +166,15 @@ impl<'a> Enum<'a> {
                             format!("z.union([{}])", variants.join(", "))
                         }
                     }
+                    // zod can only discriminate between plain objects
+                    TagType::Internal { .. }
+                        if self.variants.iter().any(Variant::is_tagged_newtype) =>
+                    {
+                        quote! {
+                            let variants: ::std::vec::Vec<String> = vec![#(#expanded_variant_schemas),*];
+                            format!("z.union([{}])", variants.join(", "))
+                        }
+                    }
                     TagType::Internal { tag } | TagType::Adjacent { tag, .. } => {
                         quote! {
                             let variants: ::std::vec::Vec<String> = vec![#(#expanded_variant_schemas),*];
diff --git a/derive/src/impl_enum/variant/mod.rs b/derive/src/impl_enum/variant/mod.rs
index 3fccd76..8069b53 100644
--- a/derive/src/impl_enum/variant/mod.rs
+++ b/derive/src/impl_enum/variant/mod.rs
@@ -10,7 +10,7 @@ use super::args;
 use super::field;
 use darling::ast::Style;
 use proc_macro2::TokenStream;
-use serde_derive_internals::ast;
+use serde_derive_internals::{ast, attr::TagType};
 
 /// represents a single enum variant
 pub enum Variant<'a> {
@@ -48,6 +48,17 @@ impl<'a> Variant<'a> {
         }
     }
 
+    /// a newtype variant of an internally tagged enum is no plain object: the tag is merged into the
+    /// value of the only field
+    pub fn is_tagged_newtype(&self) -> bool {
+        match self {
+            Variant::Tuple(tuple) => {
+                matches!(tuple.tag, TagType::Internal { .. }) && tuple.fields.len() > 0
+            }
+            _ => false,
+        }
+    }
+
     /// expand a single variant of an enum into a zod schema
     pub fn expand_schema(&self) -> TokenStream {
         match self {
diff --git a/derive/src/impl_enum/variant/tuple_variant.rs b/derive/src/impl_enum/variant/tuple_variant.rs
index ccc7f2f..d071015 100644
--- a/derive/src/impl_enum/variant/tuple_variant.rs
+++ b/derive/src/impl_enum/variant/tuple_variant.rs
@@ -47,9 +47,13 @@ impl<'a> TupleVariant<'a> {
         let span = self.span;
 
         match self.tag {
-            TagType::External | TagType::Internal { .. } => {
+            TagType::External => {
                 quote_spanned! {span =>  format!("z.object({{ {}: {} }})", #name, #inner) }
             }
+            // the tag is merged into the only field
+            TagType::Internal { tag } => {
+                quote_spanned! {span =>  format!("z.intersection(z.object({{ {}: z.literal(\"{}\") }}), {})", #tag, #name, #inner) }
+            }
             TagType::Adjacent { tag, content } => {
                 quote_spanned! {span =>  format!("z.object({{ {}: z.literal(\"{}\"), {}: {} }})", #tag, #name, #content, #inner) }
             }
@@ -91,9 +95,13 @@ impl<'a> TupleVariant<'a> {
         };
 
         match tag_type {
-            TagType::External | TagType::Internal { .. } => {
+            TagType::External => {
                 quote_spanned! {span =>  format!("{{ {}: {} }}", #name, #inner) }
             }
+            // the tag is merged into the only field
+            TagType::Internal { tag } => {
+                quote_spanned! {span =>  format!("{{ {}: \"{}\" }} & ({})", #tag, #name, #inner) }
+            }
             TagType::Adjacent { tag, content } => {
                 quote_spanned! {span =>  format!("{{ {}: \"{}\", {}: {} }}", #tag, #name, #content, #inner) }
             }
-- 
2.43.0


From a06fdc9f4d984aebd4f10ae7ee2f6da83fac7e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:38 +0000
Subject: [PATCH 10/33] fix: names that are no identifiers are quoted and
 escaped

rename_all = "kebab-case" and free-form renames produced invalid TypeScript.
---
 derive/src/impl_enum/field.rs                 |  4 ++--
 derive/src/impl_enum/mod.rs                   |  3 ++-
 .../src/impl_enum/variant/struct_variant.rs   | 11 ++++++++--
 derive/src/impl_enum/variant/tuple_variant.rs | 13 ++++++++----
 derive/src/impl_enum/variant/unit_variant.rs  |  9 ++++++--
 derive/src/impl_struct.rs                     |  6 ++++--
 derive/src/lib.rs                             |  1 +
 derive/src/ts.rs                              | 21 +++++++++++++++++++
 8 files changed, 55 insertions(+), 13 deletions(-)
 create mode 100644 derive/src/ts.rs

diff --git a/derive/src/impl_enum/field.rs b/derive/src/impl_enum/field.rs
index bb159bc..d9637e8 100644
--- a/derive/src/impl_enum/field.rs
+++ b/derive/src/impl_enum/field.rs
@@ -1,4 +1,4 @@
-use crate::{args::EnumField, get_zod};
+use crate::{args::EnumField, get_zod, ts};
 
 use darling::ast::Style;
 use proc_macro2::TokenStream;
@@ -31,7 +31,7 @@ impl<'a> VariantFields<'a> {
                         }),
                         Style::Struct => VariantField::Named(NamedField {
                             enum_field,
-                            name: f.attrs.name().deserialize_name(),
+                            name: ts::key(&f.attrs.name().deserialize_name()),
                             optional: !f.attrs.default().is_none(),
                         }),
                         Style::Unit => unreachable!(),
diff --git a/derive/src/impl_enum/mod.rs b/derive/src/impl_enum/mod.rs
index 02ab138..6c9f85e 100644
--- a/derive/src/impl_enum/mod.rs
+++ b/derive/src/impl_enum/mod.rs
@@ -1,7 +1,7 @@
 mod field;
 mod variant;
 
-use crate::{docs::RustDocs, expand_type_registration, impl_inventory};
+use crate::{docs::RustDocs, expand_type_registration, impl_inventory, ts};
 use variant::Variant;
 
 use super::args;
@@ -176,6 +176,7 @@ impl<'a> Enum<'a> {
                         }
                     }
                     TagType::Internal { tag } | TagType::Adjacent { tag, .. } => {
+                        let tag = ts::escape(tag);
                         quote! {
                             let variants: ::std::vec::Vec<String> = vec![#(#expanded_variant_schemas),*];
                             format!("z.discriminatedUnion(\"{}\", [{}])", #tag, variants.join(", "))
diff --git a/derive/src/impl_enum/variant/struct_variant.rs b/derive/src/impl_enum/variant/struct_variant.rs
index 6eeabab..f65b03c 100644
--- a/derive/src/impl_enum/variant/struct_variant.rs
+++ b/derive/src/impl_enum/variant/struct_variant.rs
@@ -1,4 +1,5 @@
 use super::field;
+use crate::ts;
 use proc_macro2::TokenStream;
 use quote::{quote, quote_spanned};
 use serde_derive_internals::{ast, attr::TagType};
@@ -35,15 +36,18 @@ impl<'a> StructVariant<'a> {
 
         let span = self.ident.span();
         let name = self.attrs.name().deserialize_name();
+        let (key, name) = (ts::key(&name), ts::escape(&name));
 
         match self.serde_ast.attrs.tag() {
             TagType::External => {
-                quote_spanned! {span =>  format!("z.object({{ {}: z.object({{ {} }}) }})", #name, #inner) }
+                quote_spanned! {span =>  format!("z.object({{ {}: z.object({{ {} }}) }})", #key, #inner) }
             }
             TagType::Internal { tag } => {
+                let tag = ts::key(tag);
                 quote_spanned! {span =>  format!("z.object({{ {}: z.literal(\"{}\"), {} }})", #tag, #name, #inner) }
             }
             TagType::Adjacent { tag, content } => {
+                let (tag, content) = (ts::key(tag), ts::key(content));
                 quote_spanned! {span =>  format!("z.object({{ {}: z.literal(\"{}\"), {}: z.object({{ {} }}) }})", #tag, #name, #content, #inner) }
             }
             TagType::None => {
@@ -56,6 +60,7 @@ impl<'a> StructVariant<'a> {
         let expanded_fields = self.fields.expand_type_defs();
         let span = self.ident.span();
         let name = self.attrs.name().deserialize_name();
+        let (key, name) = (ts::key(&name), ts::escape(&name));
 
         let inner = match expanded_fields.len() {
             0 => unreachable!("Empty tuple structs are handled by darling"),
@@ -77,15 +82,17 @@ impl<'a> StructVariant<'a> {
         match self.serde_ast.attrs.tag() {
             // `A{ num: usize, s: String }` -> `{ A: { num: number, s: string } }`
             TagType::External => {
-                quote_spanned! {span =>  format!("{{ {}: {{ {} }} }}", #name, #inner) }
+                quote_spanned! {span =>  format!("{{ {}: {{ {} }} }}", #key, #inner) }
             }
             // `A{ num: usize, s: String }` -> `{ type: "A", num: number, s: string }`
             TagType::Internal { tag } => {
+                let tag = ts::key(tag);
                 quote_spanned! {span =>  format!("{{ {}: \"{}\", {} }}", #tag, #name, #inner) }
             }
 
             // `A{ num: usize, s: String }` -> `{ type: "A", content: { num: number, s: string }}`
             TagType::Adjacent { tag, content } => {
+                let (tag, content) = (ts::key(tag), ts::key(content));
                 quote_spanned! {span =>  format!("{{ {}: \"{}\", {}: {{ {} }} }}", #tag, #name, #content, #inner) }
             }
             // `A{ num: usize, s: String }` -> `{ num: number, s: string }`
diff --git a/derive/src/impl_enum/variant/tuple_variant.rs b/derive/src/impl_enum/variant/tuple_variant.rs
index d071015..ab11a8a 100644
--- a/derive/src/impl_enum/variant/tuple_variant.rs
+++ b/derive/src/impl_enum/variant/tuple_variant.rs
@@ -1,5 +1,6 @@
 use super::field;
 use super::UnitVariant;
+use crate::ts;
 use proc_macro2::Span;
 use proc_macro2::TokenStream;
 use quote::{quote, quote_spanned};
@@ -43,18 +44,20 @@ impl<'a> TupleVariant<'a> {
                 }
             }
         };
-        let name = &self.name;
+        let (key, name) = (ts::key(&self.name), ts::escape(&self.name));
         let span = self.span;
 
         match self.tag {
             TagType::External => {
-                quote_spanned! {span =>  format!("z.object({{ {}: {} }})", #name, #inner) }
+                quote_spanned! {span =>  format!("z.object({{ {}: {} }})", #key, #inner) }
             }
             // the tag is merged into the only field
             TagType::Internal { tag } => {
+                let tag = ts::key(tag);
                 quote_spanned! {span =>  format!("z.intersection(z.object({{ {}: z.literal(\"{}\") }}), {})", #tag, #name, #inner) }
             }
             TagType::Adjacent { tag, content } => {
+                let (tag, content) = (ts::key(tag), ts::key(content));
                 quote_spanned! {span =>  format!("z.object({{ {}: z.literal(\"{}\"), {}: {} }})", #tag, #name, #content, #inner) }
             }
             TagType::None => {
@@ -67,7 +70,7 @@ impl<'a> TupleVariant<'a> {
         let expanded_fields = self.fields.expand_type_defs();
         let span = self.span;
         let tag_type = self.tag;
-        let name = &self.name;
+        let (key, name) = (ts::key(&self.name), ts::escape(&self.name));
 
         let inner = match expanded_fields.len() {
             // may occur if fields are skipped. In this case we handle it like a unit variant
@@ -96,13 +99,15 @@ impl<'a> TupleVariant<'a> {
 
         match tag_type {
             TagType::External => {
-                quote_spanned! {span =>  format!("{{ {}: {} }}", #name, #inner) }
+                quote_spanned! {span =>  format!("{{ {}: {} }}", #key, #inner) }
             }
             // the tag is merged into the only field
             TagType::Internal { tag } => {
+                let tag = ts::key(tag);
                 quote_spanned! {span =>  format!("{{ {}: \"{}\" }} & ({})", #tag, #name, #inner) }
             }
             TagType::Adjacent { tag, content } => {
+                let (tag, content) = (ts::key(tag), ts::key(content));
                 quote_spanned! {span =>  format!("{{ {}: \"{}\", {}: {} }}", #tag, #name, #content, #inner) }
             }
             TagType::None => {
diff --git a/derive/src/impl_enum/variant/unit_variant.rs b/derive/src/impl_enum/variant/unit_variant.rs
index 59efcfc..a1e0794 100644
--- a/derive/src/impl_enum/variant/unit_variant.rs
+++ b/derive/src/impl_enum/variant/unit_variant.rs
@@ -1,3 +1,4 @@
+use crate::ts;
 use proc_macro2::{Span, TokenStream};
 use quote::quote_spanned;
 use serde_derive_internals::attr::TagType;
@@ -12,15 +13,17 @@ pub struct UnitVariant<'a> {
 
 impl<'a> UnitVariant<'a> {
     pub fn expand_schema(&self) -> TokenStream {
-        let name = &self.name;
+        let name = ts::escape(&self.name);
         match self.tag {
             TagType::External => {
                 quote_spanned!(self.span => format!("z.literal(\"{}\")", #name))
             }
             TagType::Internal { tag } => {
+                let tag = ts::key(tag);
                 quote_spanned!(self.span=> format!("z.object({{ {}: z.literal(\"{}\") }})", #tag, #name))
             }
             TagType::Adjacent { tag, .. } => {
+                let tag = ts::key(tag);
                 quote_spanned!(self.span=> format!("z.object({{ {}: z.literal(\"{}\") }})", #tag, #name))
             }
             TagType::None => {
@@ -31,15 +34,17 @@ impl<'a> UnitVariant<'a> {
 
     /// Example `A`  ->  `"A"`
     pub fn expand_type_defs(&self) -> TokenStream {
-        let name = &self.name;
+        let name = ts::escape(&self.name);
         match self.tag {
             TagType::External => {
                 quote_spanned!(self.span => format!("\"{}\"", #name))
             }
             TagType::Internal { tag } => {
+                let tag = ts::key(tag);
                 quote_spanned!(self.span => format!("{{ {}: \"{}\" }}", #tag, #name))
             }
             TagType::Adjacent { tag, .. } => {
+                let tag = ts::key(tag);
                 quote_spanned!(self.span => format!("{{ {}: \"{}\" }}", #tag, #name))
             }
             TagType::None => {
diff --git a/derive/src/impl_struct.rs b/derive/src/impl_struct.rs
index 21a83f0..4d91940 100644
--- a/derive/src/impl_struct.rs
+++ b/derive/src/impl_struct.rs
@@ -1,4 +1,4 @@
-use crate::{docs::RustDocs, expand_type_registration, get_zod, impl_inventory};
+use crate::{docs::RustDocs, expand_type_registration, get_zod, impl_inventory, ts};
 
 use super::args;
 use darling::ast::{Fields, Style};
@@ -46,7 +46,9 @@ pub fn expand(
         .filter(|(_, attrs)| !transparent || attrs.transparent())
         .map(|(args::StructField { ty, ident }, attrs)| StructField {
             ty,
-            name: ident.as_ref().map(|_| attrs.name().deserialize_name()),
+            name: ident
+                .as_ref()
+                .map(|_| ts::key(&attrs.name().deserialize_name())),
             optional: container_default || !attrs.default().is_none(),
             transparent,
             flatten: attrs.flatten(),
diff --git a/derive/src/lib.rs b/derive/src/lib.rs
index bff2bac..e78555a 100644
--- a/derive/src/lib.rs
+++ b/derive/src/lib.rs
@@ -12,6 +12,7 @@ mod impl_enum;
 mod impl_inventory;
 mod impl_namespace;
 mod impl_struct;
+mod ts;
 
 use darling::{ast::Data, FromDeriveInput};
 use docs::RustDocs;
diff --git a/derive/src/ts.rs b/derive/src/ts.rs
new file mode 100644
index 0000000..2d6cbf2
--- /dev/null
+++ b/derive/src/ts.rs
@@ -0,0 +1,21 @@
+//! Names in generated TypeScript code
+
+/// A name as object key: quoted unless it is an identifier.
+pub(crate) fn key(name: &str) -> String {
+    let is_ident = !name.starts_with(|c: char| c.is_ascii_digit())
+        && !name.is_empty()
+        && name
+            .chars()
+            .all(|c| c.is_ascii_alphanumeric() || c == '_' || c == '$');
+
+    if is_ident {
+        name.to_string()
+    } else {
+        format!("\"{}\"", escape(name))
+    }
+}
+
+/// A name as content of a string literal.
+pub(crate) fn escape(name: &str) -> String {
+    name.escape_debug().to_string()
+}
-- 
2.43.0


From 241cd5a4660bd7985f3c2d2aa1de9b1b31a6475e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:43 +0000
Subject: [PATCH 11/33] fix: docs containing */ do not end the generated
 comment

---
 derive/src/docs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/derive/src/docs.rs b/derive/src/docs.rs
index 11c5002..6887a1f 100644
--- a/derive/src/docs.rs
+++ b/derive/src/docs.rs
@@ -42,7 +42,7 @@ impl ToTokens for RustDocs {
                 let docs = format!(
                     "/**\n{}*/\n",
                     docs.lines()
-                        .map(|line| format!("* {}\n", line))
+                        .map(|line| format!("* {}\n", line.replace("*/", "*\\/")))
                         .collect::<String>()
                 );
                 tokens.extend(quote!(#docs))
-- 
2.43.0


From 13cf80c616bfc38f25c527d076229cf43707ea57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:10 +0000
Subject: [PATCH 12/33] fix: a client that disconnects during a call does not
 panic the server

---
 derive/src/rpc/impl_rpc.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/derive/src/rpc/impl_rpc.rs b/derive/src/rpc/impl_rpc.rs
index c280c72..f97cfd8 100644
--- a/derive/src/rpc/impl_rpc.rs
+++ b/derive/src/rpc/impl_rpc.rs
@@ -168,9 +168,8 @@ pub fn expand_req_variant_impl_method(
         ident.span() =>
         let res = ctx.#ident(#(#expanded_args),*).await;
 
-        sender
-            .unbounded_send(#__private::Response::method(id, res))
-            .unwrap();
+        // the caller may be gone by now
+        let _ = sender.unbounded_send(#__private::Response::method(id, res));
         None
     }
 }
-- 
2.43.0


From 1895622326d7427b611af37b35d6ae9226399b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:16 +0000
Subject: [PATCH 13/33] fix: starting a stream under a used id stops the
 replaced stream

---
 derive/src/rpc/backend_impl.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/derive/src/rpc/backend_impl.rs b/derive/src/rpc/backend_impl.rs
index 2922009..cdd39df 100644
--- a/derive/src/rpc/backend_impl.rs
+++ b/derive/src/rpc/backend_impl.rs
@@ -56,7 +56,10 @@ fn expand_backend_impl(
                         match #__private::serde_json::from_value::<#req_ident>(value) {
                             ::std::result::Result::<_, _>::Ok(evt) => {
                                 if let Some(jh) = evt.call(id, self, sender).await {
-                                    subscribers.insert(id, jh);
+                                    // a replaced stream could never be cancelled again
+                                    if let Some(replaced) = subscribers.insert(id, jh) {
+                                        replaced.abort();
+                                    }
                                 }
                             }
                             ::std::result::Result::<_, _>::Err(err) => {
-- 
2.43.0


From fdd4d7bb51dcdab042aab90abeb242b78005a467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:22 +0000
Subject: [PATCH 14/33] fix: methods without arguments can be called

---
 derive/src/rpc/impl_rpc.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/derive/src/rpc/impl_rpc.rs b/derive/src/rpc/impl_rpc.rs
index f97cfd8..1f8cdbf 100644
--- a/derive/src/rpc/impl_rpc.rs
+++ b/derive/src/rpc/impl_rpc.rs
@@ -130,6 +130,13 @@ pub fn expand_req_variant_decl(item: &args::RpcItem) -> TokenStream {
     let ident = &item.ident;
     let arg_types = item.arg_types.iter().map(|RpcArg { ty, .. }| quote!(#ty,));
 
+    if item.arg_types.is_empty() {
+        // the client sends `[]` which serde does not accept for `()`
+        return quote! {
+            #ident { args: [(); 0] }
+        };
+    }
+
     quote! {
         #ident { args: (#(#arg_types)*) }
     }
-- 
2.43.0


From d8e6a975ea33fcd2f230c97563c56657be4772da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:18 +0000
Subject: [PATCH 15/33] fix: requests for renamed namespaces are dispatched by
 their name

The generated client sends the name of the namespace, the server expected the
identifier of its type.
---
 derive/src/rpc/backend_impl.rs | 34 +++++++++++++++++++++++++++++++---
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/derive/src/rpc/backend_impl.rs b/derive/src/rpc/backend_impl.rs
index cdd39df..da63d81 100644
--- a/derive/src/rpc/backend_impl.rs
+++ b/derive/src/rpc/backend_impl.rs
@@ -53,7 +53,7 @@ fn expand_backend_impl(
             ) {
                 match req {
                     #__private::Request::Exec { id, value } => {
-                        match #__private::serde_json::from_value::<#req_ident>(value) {
+                        match #req_ident::from_value(value) {
                             ::std::result::Result::<_, _>::Ok(evt) => {
                                 if let Some(jh) = evt.call(id, self, sender).await {
                                     // a replaced stream could never be cancelled again
@@ -82,18 +82,46 @@ fn expand_backend_impl(
 
 pub fn expand_req_enum(ident: &Ident, fields: &Fields<BackendField>) -> TokenStream {
     let __private = get_private();
+    let zod = get_zod();
     let req_variants = fields.iter().map(|f| {
         let ty = &f.ty;
         let variant_ident = variant_ident_from_ty(ty);
         quote_spanned!(ty.span() => #variant_ident(<#ty as #__private::codegen::RpcNamespace>::Req))
     });
+
+    // clients know a namespace by its name, which may differ from the identifier of the type
+    let from_value_arms = fields.iter().map(|f| {
+        let ty = &f.ty;
+        let variant_ident = variant_ident_from_ty(ty);
+        quote_spanned! { ty.span() =>
+            ::std::option::Option::Some(name) if name == <#ty as #zod::Namespace>::NAME => {
+                #__private::serde_json::from_value::<<#ty as #__private::codegen::RpcNamespace>::Req>(value)
+                    .map(Self::#variant_ident)
+            }
+        }
+    });
+
     quote! {
 
-        #[derive(#__private::serde::Deserialize, Debug)]
-        #[serde(tag = "namespace")]
+        #[derive(Debug)]
         enum #ident {
             #(#req_variants),*
         }
+
+        impl #ident {
+            fn from_value(
+                value: #__private::serde_json::Value,
+            ) -> ::std::result::Result<Self, #__private::serde_json::Error> {
+                match value.get("namespace").and_then(|name| name.as_str()) {
+                    #(#from_value_arms)*
+                    _ => ::std::result::Result::Err(
+                        <#__private::serde_json::Error as #__private::serde::de::Error>::custom(
+                            "missing or unknown namespace",
+                        ),
+                    ),
+                }
+            }
+        }
     }
 }
 
-- 
2.43.0


From 555ce4222ac459c2431bd0229d23f12e290bfd6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:40 +0000
Subject: [PATCH 16/33] fix: every connection has its own table of running
 streams

With one table per backend, equal stream ids of different connections collided:
a connection could replace or cancel the streams of another.
---
 src/rpc/servers/proxy.rs | 60 ++++++++++++++++++++++++++++++++--------
 1 file changed, 49 insertions(+), 11 deletions(-)

diff --git a/src/rpc/servers/proxy.rs b/src/rpc/servers/proxy.rs
index 4f61970..95e6e18 100644
--- a/src/rpc/servers/proxy.rs
+++ b/src/rpc/servers/proxy.rs
@@ -1,13 +1,28 @@
+use std::sync::Arc;
+
 use futures::{
     channel::mpsc::{unbounded, UnboundedReceiver, UnboundedSender},
+    lock::Mutex,
     SinkExt, Stream, StreamExt,
 };
 use pin_project_lite::pin_project;
-use zod_core::rpc::{server::Backend, Request, Response};
+use zod_core::rpc::{
+    server::{Backend, SubscriberMap},
+    Request, Response,
+};
+
+/// The running streams of a single connection. Stream ids are only unique per connection.
+type Subscribers = Arc<Mutex<SubscriberMap>>;
+
+type ProxyRequest = (
+    Result<Request, Response>,
+    UnboundedSender<Response>,
+    Subscribers,
+);
 
 #[derive(Clone, Debug)]
 pub struct BackendProxy {
-    tx: UnboundedSender<(Result<Request, Response>, UnboundedSender<Response>)>,
+    tx: UnboundedSender<ProxyRequest>,
 }
 
 impl BackendProxy {
@@ -15,13 +30,15 @@ impl BackendProxy {
     where
         T: Backend + Send + 'static,
     {
-        let (tx, mut rx) = unbounded();
-        let mut subscribers = Default::default();
+        let (tx, mut rx) = unbounded::<ProxyRequest>();
 
         tokio::spawn(async move {
-            while let Some((result, mut res)) = rx.next().await {
+            while let Some((result, mut res, subscribers)) = rx.next().await {
                 match result {
-                    Ok(req) => backend.handle_request(req, res, &mut subscribers).await,
+                    Ok(req) => {
+                        let mut subscribers = subscribers.lock().await;
+                        backend.handle_request(req, res, &mut subscribers).await
+                    }
                     Err(err) => {
                         if let Err(err) = res.send(err).await {
                             tracing::warn!(?err);
@@ -39,32 +56,50 @@ impl BackendProxy {
             tx: self.tx.clone(),
             res_tx,
             res_rx,
+            subscribers: Default::default(),
         }
     }
 }
 
 pub struct ProxyConnection {
-    tx: UnboundedSender<(Result<Request, Response>, UnboundedSender<Response>)>,
+    tx: UnboundedSender<ProxyRequest>,
     res_tx: UnboundedSender<Response>,
     res_rx: UnboundedReceiver<Response>,
+    subscribers: Subscribers,
 }
 
 impl ProxyConnection {
     pub fn split(self) -> (ProxyTx, ProxyRx) {
-        let ProxyConnection { tx, res_tx, res_rx } = self;
-        (ProxyTx { tx, res_tx }, ProxyRx { res_rx })
+        let ProxyConnection {
+            tx,
+            res_tx,
+            res_rx,
+            subscribers,
+        } = self;
+
+        let proxy_tx = ProxyTx {
+            tx,
+            res_tx,
+            subscribers: subscribers.clone(),
+        };
+        let proxy_rx = ProxyRx {
+            res_rx,
+            _subscribers: subscribers,
+        };
+        (proxy_tx, proxy_rx)
     }
 }
 
 pub struct ProxyTx {
-    tx: UnboundedSender<(Result<Request, Response>, UnboundedSender<Response>)>,
+    tx: UnboundedSender<ProxyRequest>,
     res_tx: UnboundedSender<Response>,
+    subscribers: Subscribers,
 }
 
 impl ProxyTx {
     pub fn send(&self, req: Result<Request, Response>) -> Result<(), ClientError> {
         self.tx
-            .unbounded_send((req, self.res_tx.clone()))
+            .unbounded_send((req, self.res_tx.clone(), self.subscribers.clone()))
             .map_err(|_| ClientError::Disconnected)
     }
 }
@@ -73,6 +108,9 @@ pin_project! {
     pub struct ProxyRx {
         #[pin]
         res_rx: UnboundedReceiver<Response>,
+
+        // streams run as long as one half of the connection exists
+        _subscribers: Subscribers,
     }
 }
 
-- 
2.43.0


From 8e0fc8543e1bf068af2d58c8edcd473f6b0c4305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:16 +0000
Subject: [PATCH 17/33] fix: raw identifiers of methods and arguments are
 emitted without r#

---
 derive/src/rpc/args.rs     | 4 ++--
 derive/src/rpc/impl_rpc.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/derive/src/rpc/args.rs b/derive/src/rpc/args.rs
index 7226b12..d74c31a 100644
--- a/derive/src/rpc/args.rs
+++ b/derive/src/rpc/args.rs
@@ -1,7 +1,7 @@
 use darling::{ast::Data, FromDeriveInput, FromField};
 use proc_macro_error::{abort, abort_call_site};
 use quote::format_ident;
-use syn::{parse_quote, Ident, ImplItem, ImplItemMethod, ItemImpl, Type};
+use syn::{ext::IdentExt, parse_quote, Ident, ImplItem, ImplItemMethod, ItemImpl, Type};
 
 #[derive(FromDeriveInput)]
 pub struct BackendInput {
@@ -121,7 +121,7 @@ impl RpcItem {
                 syn::FnArg::Typed(t) => Some(RpcArg {
                     ty: t.ty.clone(),
                     name: match t.pat.as_ref() {
-                        syn::Pat::Ident(ident) => ident.ident.to_string(),
+                        syn::Pat::Ident(ident) => ident.ident.unraw().to_string(),
                         _ => abort_call_site!("Expected an ident, got {:?}", t.pat),
                     },
                 }),
diff --git a/derive/src/rpc/impl_rpc.rs b/derive/src/rpc/impl_rpc.rs
index 1f8cdbf..dd1f380 100644
--- a/derive/src/rpc/impl_rpc.rs
+++ b/derive/src/rpc/impl_rpc.rs
@@ -2,7 +2,7 @@ use proc_macro2::TokenStream;
 
 use proc_macro_error::abort;
 use quote::{quote, quote_spanned};
-use syn::{Ident, Type};
+use syn::{ext::IdentExt, Ident, Type};
 
 use crate::rpc::args::{self, RpcArg, RpcInput, RpcItemKind};
 use crate::{get_private, get_private_spanned, get_zod};
@@ -61,7 +61,7 @@ pub fn expand(input: RpcInput) -> TokenStream {
 pub fn expand_inventory_submit(ns_ident: &Ident, item: &args::RpcItem) -> TokenStream {
     let __private = get_private();
     let zod = get_zod();
-    let name = item.ident.to_string();
+    let name = item.ident.unraw().to_string();
 
     let args = item
         .arg_types
-- 
2.43.0


From eae0d15e0b38bc6c236d4cd2080ad7d0205eef2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:25 +0000
Subject: [PATCH 18/33] fix: arguments of generated functions do not hide what
 the function body uses

---
 core/src/rpc/codegen/mod.rs | 87 ++++++++++++++++++++++++++++++++++---
 1 file changed, 81 insertions(+), 6 deletions(-)

diff --git a/core/src/rpc/codegen/mod.rs b/core/src/rpc/codegen/mod.rs
index ec4b5da..0e7aad0 100644
--- a/core/src/rpc/codegen/mod.rs
+++ b/core/src/rpc/codegen/mod.rs
@@ -47,9 +47,78 @@ pub enum RpcMember {
 
 inventory::collect!(RpcMember);
 
-fn create_phantom_arg_names(args: &[RpcArgument]) -> String {
-    let phantom_arg_names = args.iter().map(|arg| arg.name).collect::<Vec<_>>();
+/// Names that are no valid parameters in TypeScript or that the generated functions refer to.
+const RESERVED_ARG_NAMES: &[&str] = &[
+    "arguments",
+    "await",
+    "break",
+    "case",
+    "catch",
+    "class",
+    "const",
+    "continue",
+    "debugger",
+    "default",
+    "delete",
+    "do",
+    "else",
+    "enum",
+    "eval",
+    "export",
+    "extends",
+    "false",
+    "finally",
+    "for",
+    "function",
+    "if",
+    "implements",
+    "import",
+    "in",
+    "instanceof",
+    "interface",
+    "let",
+    "new",
+    "null",
+    "package",
+    "private",
+    "protected",
+    "public",
+    "request",
+    "return",
+    "static",
+    "subscribe",
+    "super",
+    "switch",
+    "this",
+    "throw",
+    "true",
+    "try",
+    "typeof",
+    "var",
+    "void",
+    "while",
+    "with",
+    "yield",
+    "z",
+];
+
+/// The names of the parameters of a generated function
+fn param_names(args: &[RpcArgument]) -> Vec<String> {
+    let mut names = Vec::<String>::new();
+    for arg in args {
+        let mut name = arg.name.to_string();
+        while RESERVED_ARG_NAMES.contains(&name.as_str())
+            || names.contains(&name)
+            || (name != arg.name && args.iter().any(|other| other.name == name))
+        {
+            name.push('_');
+        }
+        names.push(name);
+    }
+    names
+}
 
+fn create_phantom_arg_names(phantom_arg_names: &[String]) -> String {
     if phantom_arg_names.is_empty() {
         String::new()
     } else {
@@ -70,13 +139,16 @@ impl RpcMember {
                 let args = (args)();
                 let res = (res)();
 
+                let param_names = param_names(&args);
+
                 let arg_fields = args
                     .iter()
-                    .map(|arg| format!("{}: {}", arg.name, arg.type_def))
+                    .zip(&param_names)
+                    .map(|(arg, name)| format!("{}: {}", name, arg.type_def))
                     .collect::<Vec<_>>()
                     .join(",");
 
-                let phantom_arg_names = create_phantom_arg_names(&args);
+                let phantom_arg_names = create_phantom_arg_names(&param_names);
 
                 let arg_zod = args
                     .iter()
@@ -105,13 +177,16 @@ impl RpcMember {
                 let args = (args)();
                 let res = (res)();
 
+                let param_names = param_names(&args);
+
                 let arg_fields = args
                     .iter()
-                    .map(|arg| format!("{}: {}", arg.name, arg.type_def))
+                    .zip(&param_names)
+                    .map(|(arg, name)| format!("{}: {}", name, arg.type_def))
                     .collect::<Vec<_>>()
                     .join(",");
 
-                let phantom_arg_names = create_phantom_arg_names(&args);
+                let phantom_arg_names = create_phantom_arg_names(&param_names);
 
                 let arg_zod = args
                     .iter()
-- 
2.43.0


From 135c88183d8fc57a9417b4ca3487e62b7dcb4a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:30 +0000
Subject: [PATCH 19/33] fix: client promises are rejected when the server
 answers with an error

---
 src/rpc/clients/static/websocket_client.ts | 31 ++++++++++++++++------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/rpc/clients/static/websocket_client.ts b/src/rpc/clients/static/websocket_client.ts
index 453c28e..14ec133 100644
--- a/src/rpc/clients/static/websocket_client.ts
+++ b/src/rpc/clients/static/websocket_client.ts
@@ -4,6 +4,9 @@ const WS_ADDR = "ws://localhost:8000/ws";
 
 const reopenTimeouts = [100, 200, 1000, 3000];
 
+// id of the call, its data or the error it failed with
+type Answer = [id: number, data: unknown, error?: { data: unknown }];
+
 function websocketStore(url: string) {
   let initialValue: unknown = undefined;
   let socket: WebSocket | undefined;
@@ -11,7 +14,7 @@ function websocketStore(url: string) {
   let reopenTimeoutHandler: any;
   let reopenCount = 0;
 
-  const subscriptions = new Set<([id, data]: [number, unknown]) => void>();
+  const subscriptions = new Set<(answer: Answer) => void>();
 
   function reopenTimeout() {
     const n = reopenCount;
@@ -57,7 +60,6 @@ function websocketStore(url: string) {
       const res = JSON.parse(event.data);
       console.trace({ response: res });
 
-      // TODO
       if ("method" in res) {
         initialValue = [res.method.id, res.method.data];
         subscriptions.forEach((subscription) =>
@@ -68,6 +70,11 @@ function websocketStore(url: string) {
         subscriptions.forEach((subscription) =>
           subscription(initialValue as any)
         );
+      } else if ("error" in res) {
+        initialValue = [res.error.id, undefined, res.error];
+        subscriptions.forEach((subscription) =>
+          subscription(initialValue as any)
+        );
       }
     };
 
@@ -109,7 +116,7 @@ function websocketStore(url: string) {
     send(value: string) {
       open_and_send(value);
     },
-    subscribe(subscription: (value: [number, unknown]) => void) {
+    subscribe(subscription: (answer: Answer) => void) {
       subscriptions.add(subscription);
       return () => {
         subscriptions.delete(subscription);
@@ -154,9 +161,13 @@ export function subscribe<T>(
 
   let store = {
     subscribe(cb: (value: T) => void) {
-      return CONNECTION.subscribe(([res_id, data]) => {
+      return CONNECTION.subscribe(([res_id, data, error]) => {
         if (res_id == id) {
-          cb(data as T);
+          if (error) {
+            console.error(error.data);
+          } else {
+            cb(data as T);
+          }
         }
       });
     },
@@ -174,13 +185,13 @@ export async function request<T>(
   args: IArguments
 ): Promise<T> {
   let unsubscribe: () => void | undefined;
-  let promise = new Promise((resolve: (_: T) => void, _) => {
+  let promise = new Promise((resolve: (_: T) => void, reject) => {
     req_id += 1;
     let id = req_id;
     let request = { req_id, namespace, method, args: [...args] };
     let start = performance.now();
 
-    unsubscribe = CONNECTION.subscribe(([res_id, data]: [number, any]) => {
+    unsubscribe = CONNECTION.subscribe(([res_id, data, error]) => {
       if (res_id == id) {
         console.log("Exec Response", {
           req_id,
@@ -188,7 +199,11 @@ export async function request<T>(
           response: data,
           exec_duration_ms: performance.now() - start,
         });
-        resolve(data);
+        if (error) {
+          reject(error.data);
+        } else {
+          resolve(data as T);
+        }
       }
     });
 
-- 
2.43.0


From 1250ea785c73c48ea4213ab4d586ccbf938eff12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:57 +0000
Subject: [PATCH 20/33] fix: maps and sets in arguments are sent as objects and
 arrays

---
 src/rpc/clients/static/websocket_client.ts | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/rpc/clients/static/websocket_client.ts b/src/rpc/clients/static/websocket_client.ts
index 14ec133..ea96de4 100644
--- a/src/rpc/clients/static/websocket_client.ts
+++ b/src/rpc/clients/static/websocket_client.ts
@@ -147,7 +147,16 @@ function execute({
   method: string;
   args: any[];
 }): string {
-  return JSON.stringify({ exec: { id: req_id, method, namespace, args } });
+  return JSON.stringify(
+    { exec: { id: req_id, method, namespace, args } },
+    // JSON knows neither maps nor sets
+    (_, value) =>
+      value instanceof Map
+        ? Object.fromEntries(value)
+        : value instanceof Set
+        ? [...value]
+        : value
+  );
 }
 
 export function subscribe<T>(
-- 
2.43.0


From 2bf1c840f39fe3b9d43b964287b88b402767efee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:57 +0000
Subject: [PATCH 21/33] fix: closing the store of a stream cancels the stream

---
 src/rpc/clients/static/websocket_client.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rpc/clients/static/websocket_client.ts b/src/rpc/clients/static/websocket_client.ts
index ea96de4..a41f127 100644
--- a/src/rpc/clients/static/websocket_client.ts
+++ b/src/rpc/clients/static/websocket_client.ts
@@ -180,7 +180,9 @@ export function subscribe<T>(
         }
       });
     },
-    close() {},
+    close() {
+      CONNECTION.send(JSON.stringify({ cancelStream: { id } }));
+    },
   };
 
   CONNECTION.send(execute(req));
-- 
2.43.0


From f2680794ecd2c808297c19ecc6d0296603eb8014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:02 +0000
Subject: [PATCH 22/33] fix: closing a connection does not affect the next one

The late close event of the previous socket closed the socket of a call made
in the meantime, which then never settled.
---
 src/rpc/clients/static/websocket_client.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rpc/clients/static/websocket_client.ts b/src/rpc/clients/static/websocket_client.ts
index a41f127..c1029db 100644
--- a/src/rpc/clients/static/websocket_client.ts
+++ b/src/rpc/clients/static/websocket_client.ts
@@ -30,8 +30,11 @@ function websocketStore(url: string) {
     }
 
     if (socket) {
+      // events of this socket do not concern the next one
+      socket.onopen = socket.onerror = socket.onclose = null;
       socket.close();
       socket = undefined;
+      openPromise = undefined;
     }
   }
 
-- 
2.43.0


From c32bd002ebe269b59ec03b64f026d0ae56a382fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:06 +0000
Subject: [PATCH 23/33] fix: messages are kept until a connection can be opened

A failing attempt to open the connection dropped them.
---
 src/rpc/clients/static/websocket_client.ts | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/rpc/clients/static/websocket_client.ts b/src/rpc/clients/static/websocket_client.ts
index c1029db..2bc5ffc 100644
--- a/src/rpc/clients/static/websocket_client.ts
+++ b/src/rpc/clients/static/websocket_client.ts
@@ -14,6 +14,9 @@ function websocketStore(url: string) {
   let reopenTimeoutHandler: any;
   let reopenCount = 0;
 
+  // messages to be sent once the connection is open
+  const pending: string[] = [];
+
   const subscriptions = new Set<(answer: Answer) => void>();
 
   function reopenTimeout() {
@@ -41,7 +44,10 @@ function websocketStore(url: string) {
   function reopen() {
     close();
     if (subscriptions.size > 0) {
-      reopenTimeoutHandler = setTimeout(() => open(), reopenTimeout());
+      reopenTimeoutHandler = setTimeout(
+        () => open().catch(() => {}),
+        reopenTimeout()
+      );
     }
   }
 
@@ -102,15 +108,18 @@ function websocketStore(url: string) {
         reopenCount = 0;
         resolve(undefined);
         openPromise = undefined;
+        pending.splice(0).forEach((value) => open_and_send(value));
       };
     });
     return openPromise;
   }
 
   const open_and_send = (value: string) => {
-    if (!socket || socket.readyState !== WebSocket.OPEN)
-      open().then(() => open_and_send(value));
-    else {
+    if (!socket || socket.readyState !== WebSocket.OPEN) {
+      // kept if the connection cannot be opened now, see reopen
+      pending.push(value);
+      open().catch(() => {});
+    } else {
       socket.send(value);
     }
   };
-- 
2.43.0


From 48ac0f2714004a027a6655b4f3809ff2d2eac6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:27 +0000
Subject: [PATCH 24/33] fix: a connection that is still closing does not affect
 the next one

---
 src/rpc/clients/static/websocket_client.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rpc/clients/static/websocket_client.ts b/src/rpc/clients/static/websocket_client.ts
index 2bc5ffc..2a6e20d 100644
--- a/src/rpc/clients/static/websocket_client.ts
+++ b/src/rpc/clients/static/websocket_client.ts
@@ -62,6 +62,9 @@ function websocketStore(url: string) {
       return openPromise;
     }
 
+    // the previous socket may still be closing
+    close();
+
     console.debug("creating a new socket");
     socket = new WebSocket(url);
 
-- 
2.43.0


From c5cc94a1d7f15617233cd7a9fe858e71e8491e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:43 +0000
Subject: [PATCH 25/33] fix: flattened fields of struct variants are merged
 into the variant

---
 derive/src/impl_enum/field.rs                 | 52 ++++++++++++++++-
 derive/src/impl_enum/mod.rs                   |  4 +-
 derive/src/impl_enum/variant/mod.rs           | 12 ++--
 .../src/impl_enum/variant/struct_variant.rs   | 58 ++++++++++++-------
 4 files changed, 97 insertions(+), 29 deletions(-)

diff --git a/derive/src/impl_enum/field.rs b/derive/src/impl_enum/field.rs
index d9637e8..0e376e9 100644
--- a/derive/src/impl_enum/field.rs
+++ b/derive/src/impl_enum/field.rs
@@ -33,6 +33,7 @@ impl<'a> VariantFields<'a> {
                             enum_field,
                             name: ts::key(&f.attrs.name().deserialize_name()),
                             optional: !f.attrs.default().is_none(),
+                            flatten: f.attrs.flatten(),
                         }),
                         Style::Unit => unreachable!(),
                     })
@@ -57,12 +58,38 @@ impl<'a> VariantFields<'a> {
         self.inner.len()
     }
 
+    pub fn has_flattened(&self) -> bool {
+        self.inner.iter().any(|f| f.is_flattened())
+    }
+
+    /// all fields but the flattened ones
     pub fn expand_type_defs(&self) -> Vec<TokenStream> {
-        self.inner.iter().map(|f| f.expand_type_def()).collect()
+        let fields = self.inner.iter().filter(|f| !f.is_flattened());
+        fields.map(|f| f.expand_type_def()).collect()
     }
 
+    /// all fields but the flattened ones
     pub fn expand_schema(&self) -> Vec<TokenStream> {
-        self.inner.iter().map(|f| f.expand_schema()).collect()
+        let fields = self.inner.iter().filter(|f| !f.is_flattened());
+        fields.map(|f| f.expand_schema()).collect()
+    }
+
+    /// merges the types of the flattened fields into the type of an object
+    pub fn merge_type_defs(&self, object: TokenStream) -> TokenStream {
+        let flattened = self.inner.iter().filter(|f| f.is_flattened());
+        flattened.fold(object, |object, f| {
+            let flattened = f.expand_type_def();
+            quote!(format!("{} & ({})", #object, #flattened))
+        })
+    }
+
+    /// merges the schemas of the flattened fields into the schema of an object
+    pub fn merge_schema(&self, object: TokenStream) -> TokenStream {
+        let flattened = self.inner.iter().filter(|f| f.is_flattened());
+        flattened.fold(object, |object, f| {
+            let flattened = f.expand_schema();
+            quote!(format!("z.intersection({}, {})", #object, #flattened))
+        })
     }
 }
 
@@ -72,6 +99,10 @@ enum VariantField<'a> {
 }
 
 impl<'a> VariantField<'a> {
+    fn is_flattened(&self) -> bool {
+        matches!(self, VariantField::Named(NamedField { flatten: true, .. }))
+    }
+
     fn expand_type_def(&self) -> TokenStream {
         match self {
             VariantField::Named(inner) => inner.expand_type_def(),
@@ -90,6 +121,7 @@ struct NamedField<'a> {
     enum_field: &'a EnumField,
     name: String,
     optional: bool,
+    flatten: bool,
 }
 
 struct TupleField<'a> {
@@ -98,12 +130,24 @@ struct TupleField<'a> {
 }
 
 impl<'a> NamedField<'a> {
+    /// a flattened field is described by its type alone
+    fn as_tuple_field(&self) -> TupleField<'a> {
+        TupleField {
+            enum_field: self.enum_field,
+            optional: self.optional,
+        }
+    }
+
     fn expand_type_def(&'a self) -> TokenStream {
         let zod = get_zod();
         let ty = &self.enum_field.ty;
         let span = self.enum_field.ty.span();
         let name = &self.name;
 
+        if self.flatten {
+            return self.as_tuple_field().expand_type_def();
+        }
+
         if self.optional {
             quote_spanned!(span => format!("{}?: {} | undefined", #name, <#ty as #zod::ZodType>::inline()))
         } else {
@@ -112,6 +156,10 @@ impl<'a> NamedField<'a> {
     }
 
     fn expand_schema(&self) -> TokenStream {
+        if self.flatten {
+            return self.as_tuple_field().expand_schema();
+        }
+
         let zod = get_zod();
         let name = &self.name;
         let ty = &self.enum_field.ty;
diff --git a/derive/src/impl_enum/mod.rs b/derive/src/impl_enum/mod.rs
index 6c9f85e..f12bb8a 100644
--- a/derive/src/impl_enum/mod.rs
+++ b/derive/src/impl_enum/mod.rs
@@ -167,9 +167,7 @@ impl<'a> Enum<'a> {
                         }
                     }
                     // zod can only discriminate between plain objects
-                    TagType::Internal { .. }
-                        if self.variants.iter().any(Variant::is_tagged_newtype) =>
-                    {
+                    TagType::Internal { .. } if self.variants.iter().any(Variant::is_merged) => {
                         quote! {
                             let variants: ::std::vec::Vec<String> = vec![#(#expanded_variant_schemas),*];
                             format!("z.union([{}])", variants.join(", "))
diff --git a/derive/src/impl_enum/variant/mod.rs b/derive/src/impl_enum/variant/mod.rs
index 8069b53..09f2b2e 100644
--- a/derive/src/impl_enum/variant/mod.rs
+++ b/derive/src/impl_enum/variant/mod.rs
@@ -48,14 +48,18 @@ impl<'a> Variant<'a> {
         }
     }
 
-    /// a newtype variant of an internally tagged enum is no plain object: the tag is merged into the
-    /// value of the only field
-    pub fn is_tagged_newtype(&self) -> bool {
+    /// a variant of an internally tagged enum is no plain object if the tag is merged into the
+    /// value of its only unnamed field or if it has flattened fields
+    pub fn is_merged(&self) -> bool {
         match self {
             Variant::Tuple(tuple) => {
                 matches!(tuple.tag, TagType::Internal { .. }) && tuple.fields.len() > 0
             }
-            _ => false,
+            Variant::Struct(strukt) => {
+                matches!(strukt.serde_ast.attrs.tag(), TagType::Internal { .. })
+                    && strukt.fields.has_flattened()
+            }
+            Variant::Unit(_) => false,
         }
     }
 
diff --git a/derive/src/impl_enum/variant/struct_variant.rs b/derive/src/impl_enum/variant/struct_variant.rs
index f65b03c..ff9f9f7 100644
--- a/derive/src/impl_enum/variant/struct_variant.rs
+++ b/derive/src/impl_enum/variant/struct_variant.rs
@@ -16,18 +16,18 @@ pub struct StructVariant<'a> {
 
 impl<'a> StructVariant<'a> {
     pub fn expand_schema(&self) -> TokenStream {
-        let inner = match self.fields.len() {
-            0 => unreachable!("Empty tuple structs are handled by darling"),
-            1 => {
-                let inner = self.fields.expand_schema();
-                inner.first().expect("one field").clone()
+        let expanded_fields = self.fields.expand_schema();
+
+        let inner = match expanded_fields.len() {
+            0 if !self.fields.has_flattened() => {
+                unreachable!("Empty tuple structs are handled by darling")
             }
+            1 => expanded_fields.first().expect("one field").clone(),
 
             _ => {
-                let inner = self.fields.expand_schema();
                 quote! {
                     {
-                        let inner: std::vec::Vec<String> = vec![#(#inner),*];
+                        let inner: std::vec::Vec<String> = vec![#(#expanded_fields),*];
                         inner.join(", ")
                     }
                 }
@@ -40,19 +40,27 @@ impl<'a> StructVariant<'a> {
 
         match self.serde_ast.attrs.tag() {
             TagType::External => {
-                quote_spanned! {span =>  format!("z.object({{ {}: z.object({{ {} }}) }})", #key, #inner) }
+                let content = self
+                    .fields
+                    .merge_schema(quote!(format!("z.object({{ {} }})", #inner)));
+                quote_spanned! {span =>  format!("z.object({{ {}: {} }})", #key, #content) }
             }
             TagType::Internal { tag } => {
                 let tag = ts::key(tag);
-                quote_spanned! {span =>  format!("z.object({{ {}: z.literal(\"{}\"), {} }})", #tag, #name, #inner) }
+                self.fields.merge_schema(
+                    quote_spanned! {span =>  format!("z.object({{ {}: z.literal(\"{}\"), {} }})", #tag, #name, #inner) },
+                )
             }
             TagType::Adjacent { tag, content } => {
                 let (tag, content) = (ts::key(tag), ts::key(content));
-                quote_spanned! {span =>  format!("z.object({{ {}: z.literal(\"{}\"), {}: z.object({{ {} }}) }})", #tag, #name, #content, #inner) }
-            }
-            TagType::None => {
-                quote_spanned! {span =>  format!("z.object({{ {} }})", #inner) }
+                let inner = self
+                    .fields
+                    .merge_schema(quote!(format!("z.object({{ {} }})", #inner)));
+                quote_spanned! {span =>  format!("z.object({{ {}: z.literal(\"{}\"), {}: {} }})", #tag, #name, #content, #inner) }
             }
+            TagType::None => self
+                .fields
+                .merge_schema(quote_spanned! {span =>  format!("z.object({{ {} }})", #inner) }),
         }
     }
 
@@ -63,7 +71,9 @@ impl<'a> StructVariant<'a> {
         let (key, name) = (ts::key(&name), ts::escape(&name));
 
         let inner = match expanded_fields.len() {
-            0 => unreachable!("Empty tuple structs are handled by darling"),
+            0 if !self.fields.has_flattened() => {
+                unreachable!("Empty tuple structs are handled by darling")
+            }
             1 => expanded_fields
                 .first()
                 .expect("exactly one variant")
@@ -82,23 +92,31 @@ impl<'a> StructVariant<'a> {
         match self.serde_ast.attrs.tag() {
             // `A{ num: usize, s: String }` -> `{ A: { num: number, s: string } }`
             TagType::External => {
-                quote_spanned! {span =>  format!("{{ {}: {{ {} }} }}", #key, #inner) }
+                let content = self
+                    .fields
+                    .merge_type_defs(quote!(format!("{{ {} }}", #inner)));
+                quote_spanned! {span =>  format!("{{ {}: {} }}", #key, #content) }
             }
             // `A{ num: usize, s: String }` -> `{ type: "A", num: number, s: string }`
             TagType::Internal { tag } => {
                 let tag = ts::key(tag);
-                quote_spanned! {span =>  format!("{{ {}: \"{}\", {} }}", #tag, #name, #inner) }
+                self.fields.merge_type_defs(
+                    quote_spanned! {span =>  format!("{{ {}: \"{}\", {} }}", #tag, #name, #inner) },
+                )
             }
 
             // `A{ num: usize, s: String }` -> `{ type: "A", content: { num: number, s: string }}`
             TagType::Adjacent { tag, content } => {
                 let (tag, content) = (ts::key(tag), ts::key(content));
-                quote_spanned! {span =>  format!("{{ {}: \"{}\", {}: {{ {} }} }}", #tag, #name, #content, #inner) }
+                let inner = self
+                    .fields
+                    .merge_type_defs(quote!(format!("{{ {} }}", #inner)));
+                quote_spanned! {span =>  format!("{{ {}: \"{}\", {}: {} }}", #tag, #name, #content, #inner) }
             }
             // `A{ num: usize, s: String }` -> `{ num: number, s: string }`
-            TagType::None => {
-                quote_spanned! {span =>  format!("{{ {} }}", #inner) }
-            }
+            TagType::None => self
+                .fields
+                .merge_type_defs(quote_spanned! {span =>  format!("{{ {} }}", #inner) }),
         }
     }
 }
-- 
2.43.0


From cb8aba829a833fb691d9e78e51d70420f86038fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:45 +0000
Subject: [PATCH 26/33] fix: types of one namespace with the same exported name
 do not compile

---
 derive/src/impl_enum/mod.rs |  2 +-
 derive/src/impl_struct.rs   |  2 +-
 derive/src/lib.rs           | 19 ++++++++++++++++---
 3 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/derive/src/impl_enum/mod.rs b/derive/src/impl_enum/mod.rs
index f12bb8a..895f0a0 100644
--- a/derive/src/impl_enum/mod.rs
+++ b/derive/src/impl_enum/mod.rs
@@ -69,7 +69,7 @@ impl<'a> Enum<'a> {
         let docs = &self.docs;
         let schema = self.expand_schema();
         let type_def = self.expand_typ_defs();
-        let type_register = expand_type_registration(ident, ns_path);
+        let type_register = expand_type_registration(ident, ns_path, name);
         let inventory = impl_inventory::expand(ident, ns_path, name);
 
         if let Some(t) = &self.from_ty {
diff --git a/derive/src/impl_struct.rs b/derive/src/impl_struct.rs
index 4d91940..1fdfeec 100644
--- a/derive/src/impl_struct.rs
+++ b/derive/src/impl_struct.rs
@@ -97,7 +97,7 @@ impl<'a> Struct<'a> {
         let name = &self.name;
         let docs = &self.docs;
 
-        let type_register = expand_type_registration(ident, ns_path);
+        let type_register = expand_type_registration(ident, ns_path, name);
         let inventory = impl_inventory::expand(ident, ns_path, name);
 
         let zod = get_zod();
diff --git a/derive/src/lib.rs b/derive/src/lib.rs
index e78555a..c350838 100644
--- a/derive/src/lib.rs
+++ b/derive/src/lib.rs
@@ -176,15 +176,28 @@ fn format_ident_for_registration(p: &syn::Path) -> syn::Path {
     }
 }
 
-/// Prevent duplicate interfaces
-fn expand_type_registration(ident: &Ident, ns_path: &Path) -> proc_macro2::TokenStream {
+/// Prevent duplicate interfaces. Types of one namespace must not be exported under the same name.
+fn expand_type_registration(
+    ident: &Ident,
+    ns_path: &Path,
+    name: &str,
+) -> proc_macro2::TokenStream {
     let register_path = format_ident_for_registration(ns_path);
 
+    // not every exported name is an identifier
+    let name = match syn::parse_str::<Ident>(name) {
+        Ok(_) => Ident::new(name, ident.span()),
+        Err(_) => {
+            let hex: String = name.bytes().map(|b| format!("{b:02x}")).collect();
+            Ident::new(&format!("__zod_{hex}"), ident.span())
+        }
+    };
+
     quote_spanned! {ident.span() =>
         impl #register_path {
             #[allow(dead_code)]
             #[allow(non_upper_case_globals)]
-            const #ident: () = ();
+            const #name: () = ();
         }
     }
 }
-- 
2.43.0


From 1456eb0693caa8b8e584fb00f3914862677795ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:07 +0000
Subject: [PATCH 27/33] fix: methods with names reserved in TypeScript break
 the generated code

---
 core/src/rpc/codegen/mod.rs | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/core/src/rpc/codegen/mod.rs b/core/src/rpc/codegen/mod.rs
index 0e7aad0..85d317d 100644
--- a/core/src/rpc/codegen/mod.rs
+++ b/core/src/rpc/codegen/mod.rs
@@ -47,8 +47,8 @@ pub enum RpcMember {
 
 inventory::collect!(RpcMember);
 
-/// Names that are no valid parameters in TypeScript or that the generated functions refer to.
-const RESERVED_ARG_NAMES: &[&str] = &[
+/// Names that are no valid identifiers in TypeScript or that the generated functions refer to.
+const RESERVED_NAMES: &[&str] = &[
     "arguments",
     "await",
     "break",
@@ -102,12 +102,25 @@ const RESERVED_ARG_NAMES: &[&str] = &[
     "z",
 ];
 
+/// The name of a generated function
+fn fn_name(ns_name: &str, name: &str) -> String {
+    let mut out = name.to_string();
+    while RESERVED_NAMES.contains(&out.as_str())
+        || (out != name
+            && inventory::iter::<RpcMember>()
+                .any(|other| other.ns_name() == ns_name && other.name() == out))
+    {
+        out.push('_');
+    }
+    out
+}
+
 /// The names of the parameters of a generated function
 fn param_names(args: &[RpcArgument]) -> Vec<String> {
     let mut names = Vec::<String>::new();
     for arg in args {
         let mut name = arg.name.to_string();
-        while RESERVED_ARG_NAMES.contains(&name.as_str())
+        while RESERVED_NAMES.contains(&name.as_str())
             || names.contains(&name)
             || (name != arg.name && args.iter().any(|other| other.name == name))
         {
@@ -139,6 +152,7 @@ impl RpcMember {
                 let args = (args)();
                 let res = (res)();
 
+                let fn_name = fn_name(ns_name, name);
                 let param_names = param_names(&args);
 
                 let arg_fields = args
@@ -159,7 +173,7 @@ impl RpcMember {
                 format!(
                     "
                     // @ts-ignore
-                    export async function {name}({arg_fields}): Promise<{res}> {{
+                    export async function {fn_name}({arg_fields}): Promise<{res}> {{
                     {phantom_arg_names}
 
                     z.tuple([{arg_zod}]).parse([...arguments]);
@@ -177,6 +191,7 @@ impl RpcMember {
                 let args = (args)();
                 let res = (res)();
 
+                let fn_name = fn_name(ns_name, name);
                 let param_names = param_names(&args);
 
                 let arg_fields = args
@@ -197,7 +212,7 @@ impl RpcMember {
                 format!(
                     "
                     // @ts-ignore
-                    export function {name}({arg_fields}): Store<{res}> {{
+                    export function {fn_name}({arg_fields}): Store<{res}> {{
                     {phantom_arg_names}
 
                     z.tuple([{arg_zod}]).parse([...arguments]);
@@ -208,6 +223,13 @@ impl RpcMember {
         }
     }
 
+    pub fn name(&self) -> &str {
+        match self {
+            RpcMember::Method { name, .. } => name,
+            RpcMember::Stream { name, .. } => name,
+        }
+    }
+
     pub fn ns_name(&self) -> &str {
         match self {
             RpcMember::Method { ns_name, .. } => ns_name,
-- 
2.43.0


From f0be5c909d76ca6db1b29f8c284c866e3ba8d794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:34 +0000
Subject: [PATCH 28/33] fix: parameters named like a namespace hide the types
 of the namespace

---
 core/src/rpc/codegen/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/src/rpc/codegen/mod.rs b/core/src/rpc/codegen/mod.rs
index 85d317d..ac67ba4 100644
--- a/core/src/rpc/codegen/mod.rs
+++ b/core/src/rpc/codegen/mod.rs
@@ -115,12 +115,18 @@ fn fn_name(ns_name: &str, name: &str) -> String {
     out
 }
 
+/// References to types begin with the name of a namespace, which no parameter must hide.
+fn is_namespace_name(name: &str) -> bool {
+    inventory::iter::<crate::NamespaceMemberDefinition>().any(|def| def.namespace() == name)
+}
+
 /// The names of the parameters of a generated function
 fn param_names(args: &[RpcArgument]) -> Vec<String> {
     let mut names = Vec::<String>::new();
     for arg in args {
         let mut name = arg.name.to_string();
         while RESERVED_NAMES.contains(&name.as_str())
+            || is_namespace_name(&name)
             || names.contains(&name)
             || (name != arg.name && args.iter().any(|other| other.name == name))
         {
-- 
2.43.0


From c8be947ccc6066166447f0bfff670a51ea558f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:26 +0000
Subject: [PATCH 29/33] fix: missing values in maps are sent as null

---
 src/rpc/clients/static/websocket_client.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rpc/clients/static/websocket_client.ts b/src/rpc/clients/static/websocket_client.ts
index 2a6e20d..7a1e39c 100644
--- a/src/rpc/clients/static/websocket_client.ts
+++ b/src/rpc/clients/static/websocket_client.ts
@@ -164,10 +164,10 @@ function execute({
 }): string {
   return JSON.stringify(
     { exec: { id: req_id, method, namespace, args } },
-    // JSON knows neither maps nor sets
+    // JSON knows neither maps nor sets, and leaves out undefined values of objects
     (_, value) =>
       value instanceof Map
-        ? Object.fromEntries(value)
+        ? Object.fromEntries([...value].map(([k, v]) => [k, v ?? null]))
         : value instanceof Set
         ? [...value]
         : value
-- 
2.43.0


From dde49e2b8fb149940a6d550fc667ff9eedcf6e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:29 +0000
Subject: [PATCH 30/33] fix: the type of a Result is not enclosed, flattening
 it adds fields to the first alternative only

---
 core/src/build_ins.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/build_ins.rs b/core/src/build_ins.rs
index 486d85c..a0f543c 100644
--- a/core/src/build_ins.rs
+++ b/core/src/build_ins.rs
@@ -268,11 +268,11 @@ impl<T: ZodType> ZodType for Option<T> {
 impl<T: ZodType, E: ZodType> ZodType for Result<T, E> {
     /// ```ts
     /// // TS-type
-    /// { Ok: T } | { Err: E }
+    /// ({ Ok: T } | { Err: E })
     /// ```
     fn type_def() -> TsTypeDef {
         TsTypeDef::Type(format!(
-            "{{ Ok: {} }} | {{ Err: {} }}",
+            "({{ Ok: {} }} | {{ Err: {} }})",
             T::inline(),
             E::inline()
         ))
-- 
2.43.0


From b8feaa9870b0f69f5d06fe0a8e95c80daac004de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:59 +0000
Subject: [PATCH 31/33] fix: raw identifiers of namespaces are exported without
 r#

---
 derive/src/impl_namespace.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/derive/src/impl_namespace.rs b/derive/src/impl_namespace.rs
index 629d944..5cc3d7d 100644
--- a/derive/src/impl_namespace.rs
+++ b/derive/src/impl_namespace.rs
@@ -1,13 +1,13 @@
 use crate::{args, format_ident_for_registration, get_zod};
 use quote::quote;
-use syn::parse_quote;
+use syn::{ext::IdentExt, parse_quote};
 
 pub fn expand(
     input: args::NamespaceInput,
     docs: crate::docs::RustDocs,
 ) -> proc_macro2::TokenStream {
     let ident = input.ident;
-    let name = input.name.unwrap_or_else(|| ident.to_string());
+    let name = input.name.unwrap_or_else(|| ident.unraw().to_string());
     let (impl_generics, ty_generics, where_clause) = input.generics.split_for_impl();
 
     let p = parse_quote!(#ident);
-- 
2.43.0


From b7ad2fa1da9531ce11b00a8be4b4cc2fc0218bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:41 +0000
Subject: [PATCH 32/33] fix: characters beyond U+FFFF are rejected by the
 schema of char

---
 core/src/build_ins.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/build_ins.rs b/core/src/build_ins.rs
index a0f543c..b576e6e 100644
--- a/core/src/build_ins.rs
+++ b/core/src/build_ins.rs
@@ -152,7 +152,7 @@ impl_primitive!("number", f32, "z.number()");
 impl_primitive!("number", f64, "z.number()");
 
 impl_primitive!("boolean", bool, "z.boolean()");
-impl_primitive!("string", char, "z.string().length(1)");
+impl_primitive!("string", char, "z.string().regex(/^[^\\ud800-\\udfff]$/u)");
 impl_primitive!("null", (), "z.null()");
 
 impl_tuples!(
-- 
2.43.0


From 93a01f276275287b7e671517e23592993ad562a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:41 +0000
Subject: [PATCH 33/33] fix: weak pointers are described as if their target
 were never dropped

---
 core/src/build_ins.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/src/build_ins.rs b/core/src/build_ins.rs
index b576e6e..7a94f94 100644
--- a/core/src/build_ins.rs
+++ b/core/src/build_ins.rs
@@ -167,13 +167,15 @@ impl_wrapper!(impl<T: ZodType + ToOwned> ZodType for std::borrow::Cow<'static, T
 impl_wrapper!(impl<T: ZodType> ZodType for std::cell::Cell<T>);
 impl_wrapper!(impl<T: ZodType> ZodType for std::cell::RefCell<T>);
 impl_wrapper!(impl<T: ZodType> ZodType for std::sync::Mutex<T>);
-impl_wrapper!(impl<T: ZodType> ZodType for std::sync::Weak<T>);
 
 impl_shadow!("HashSet", "HashSet&lt;T,+RandomState&gt;", std::collections::HashSet<T>; impl<T: ZodType> ZodType for std::collections::BTreeSet<T>);
 impl_shadow!("HashMap", "HashMap&lt;K,+V,+RandomState&gt;", std::collections::HashMap<K, V>; impl<K: ZodType, V: ZodType> ZodType for std::collections::BTreeMap<K, V>);
 
 impl_shadow!("Vec", "Vec&lt;T&gt;", Vec<T>; impl<T: ZodType, const N: usize> ZodType for [T; N]);
 
+// a weak pointer to a dropped value is nothing
+impl_shadow!("Option", "Option&lt;T&gt;", Option<T>; impl<T: ZodType> ZodType for std::sync::Weak<T>);
+
 impl<T: ZodType> ZodType for std::marker::PhantomData<T> {
     /// ```ts
     /// // TS-type
-- 
2.43.0

