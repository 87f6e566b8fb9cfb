From 5932954e8c00e5293cd81fd79aeeab812297017e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:21 +0000
Subject: [PATCH 01/45] fix: use the name without r# for raw identifier
 variants

---
 parse-display-derive/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse-display-derive/src/lib.rs b/parse-display-derive/src/lib.rs
index 2d47b5e..f0f58ba 100644
--- a/parse-display-derive/src/lib.rs
+++ b/parse-display-derive/src/lib.rs
@@ -617,7 +617,7 @@ impl DisplayStyle {
             }
         }
 
-        let s = ident.to_string();
+        let s = ident.unraw().to_string();
         let (line_head, word_head, normal, sep) = match self {
             DisplayStyle::None => {
                 return s;
-- 
2.43.0


From 13477ddfe2eaba6281d834117f7e99ab86229c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:21 +0000
Subject: [PATCH 02/45] fix: let #[from_str(with)] take precedence over
 #[display(with)] in any order

---
 parse-display-derive/src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/parse-display-derive/src/lib.rs b/parse-display-derive/src/lib.rs
index f0f58ba..e2a3650 100644
--- a/parse-display-derive/src/lib.rs
+++ b/parse-display-derive/src/lib.rs
@@ -383,6 +383,7 @@ struct FromStrArgs {
 struct HelperAttributes {
     format: Option<DisplayFormat>,
     with: Option<Expr>,
+    with_from_str: Option<Expr>,
     opt: Flag,
     style: Option<DisplayStyle>,
     bound_display: Option<Vec<Bound>>,
@@ -403,6 +404,7 @@ impl HelperAttributes {
         let mut hattrs = Self {
             format: None,
             with: None,
+            with_from_str: None,
             opt: Flag::NONE,
             style: None,
             bound_display: None,
@@ -427,6 +429,9 @@ impl HelperAttributes {
                 hattrs.set_from_str_args(a.parse_args()?);
             }
         }
+        if let Some(with) = hattrs.with_from_str.take() {
+            hattrs.with = Some(with);
+        }
         Ok(hattrs)
     }
     fn set_display_args(&mut self, args: DisplayArgs) -> Result<()> {
@@ -463,7 +468,7 @@ impl HelperAttributes {
         }
         self.regex_infer |= args.regex_infer.value();
         if let Some(with) = args.with {
-            self.with = Some(with);
+            self.with_from_str = Some(with);
         }
         if let Some(new) = args.new {
             self.new_expr = Some(new);
-- 
2.43.0


From 790d9a80247e7c498ed99caabd838f82e2bae44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:47 +0000
Subject: [PATCH 03/45] fix: allow FromStr for an enum with a variant named Err

---
 parse-display-derive/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse-display-derive/src/lib.rs b/parse-display-derive/src/lib.rs
index e2a3650..890e45b 100644
--- a/parse-display-derive/src/lib.rs
+++ b/parse-display-derive/src/lib.rs
@@ -267,7 +267,7 @@ fn derive_from_str_for_enum(input: &DeriveInput, data: &DataEnum) -> Result<Toke
         &wheres,
         quote! {
             type Err = #crate_path::ParseError;
-            fn from_str(s: &str) -> ::core::result::Result<Self, Self::Err> {
+            fn from_str(s: &str) -> ::core::result::Result<Self, #crate_path::ParseError> {
                 #warnings
                 #match_body
                 #({ #bodys })*
-- 
2.43.0


From cd734d0f711e78acb1375205a480e8fe45a51f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:47 +0000
Subject: [PATCH 04/45] fix: separate nested field names by a dot in parse
 errors

---
 parse-display-derive/src/parser_builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse-display-derive/src/parser_builder.rs b/parse-display-derive/src/parser_builder.rs
index 7086605..9038502 100644
--- a/parse-display-derive/src/parser_builder.rs
+++ b/parse-display-derive/src/parser_builder.rs
@@ -569,7 +569,7 @@ impl<'a> FieldEntry<'a> {
             }
         }
         for (keys, idx) in &self.deep_captures {
-            let field_name = key.to_string() + &join(keys, ".");
+            let field_name = format!("{key}.{}", join(keys, "."));
             let expr = build_parse_capture_expr(
                 &field_name,
                 capture_index(*idx, names),
-- 
2.43.0


From fcc2080d21f1cbd7e0cdb9fb0ad8da6c4e788622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:47 +0000
Subject: [PATCH 05/45] fix: report a missing format as an error instead of
 panicking in derive(FromStr)

---
 parse-display-derive/src/lib.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/parse-display-derive/src/lib.rs b/parse-display-derive/src/lib.rs
index 890e45b..268f3ae 100644
--- a/parse-display-derive/src/lib.rs
+++ b/parse-display-derive/src/lib.rs
@@ -999,10 +999,16 @@ impl VarBase<'_> {
         const ERROR_MESSAGE_FOR_VARIANT: &str = "`#[display(\"format\")]` or `#[from_str(regex = \"regex\")]` is required except unit variant.";
         Ok(match self {
             VarBase::Struct { data, .. } => {
-                DisplayFormat::from_newtype_struct(data).expect(ERROR_MESSAGE_FOR_STRUCT)
+                let Some(format) = DisplayFormat::from_newtype_struct(data) else {
+                    bail!(data.fields.span(), "{ERROR_MESSAGE_FOR_STRUCT}");
+                };
+                format
             }
             VarBase::Variant { variant, .. } => {
-                DisplayFormat::from_unit_variant(variant)?.expect(ERROR_MESSAGE_FOR_VARIANT)
+                let Some(format) = DisplayFormat::from_unit_variant(variant)? else {
+                    bail!(variant.span(), "{ERROR_MESSAGE_FOR_VARIANT}");
+                };
+                format
             }
             VarBase::Field { field, .. } => DisplayFormat::parse("{}", field.span())?,
             VarBase::FieldSome { ty, .. } => DisplayFormat::parse("{}", ty.span())?,
-- 
2.43.0


From 21fe26b7613d7aae1e69155109ff889f12f905b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:11 +0000
Subject: [PATCH 06/45] fix: report a field captured twice as an error instead
 of panicking

---
 parse-display-derive/src/parser_builder.rs | 49 ++++++++++++----------
 1 file changed, 27 insertions(+), 22 deletions(-)

diff --git a/parse-display-derive/src/parser_builder.rs b/parse-display-derive/src/parser_builder.rs
index 9038502..6173aab 100644
--- a/parse-display-derive/src/parser_builder.rs
+++ b/parse-display-derive/src/parser_builder.rs
@@ -109,7 +109,7 @@ impl<'a> ParserBuilder<'a> {
             sub_keys = &keys[1..];
         }
         let field = field_of(&mut self.fields, field_key, span)?;
-        Ok(field.set_capture(sub_keys, &mut self.capture_next))
+        field.set_capture(field_key, sub_keys, &mut self.capture_next, span)
     }
 
     fn push_regex(
@@ -339,7 +339,10 @@ impl<'a> ParserBuilder<'a> {
         let re;
         match &self.parse_format {
             ParseFormat::Hirs(hirs) => {
-                re = Regex::new(&to_regex_string(hirs)).unwrap();
+                re = match Regex::new(&to_regex_string(hirs)) {
+                    Ok(re) => re,
+                    Err(e) => bail!(self.span, "{e}"),
+                };
                 for (index, name) in re.capture_names().enumerate() {
                     if let Some(name) = name {
                         names.insert(name, index);
@@ -511,28 +514,30 @@ impl<'a> FieldEntry<'a> {
             crate_path,
         })
     }
-    #[allow(clippy::collapsible_else_if)]
-    fn set_capture(&mut self, keys: &[FieldKey], capture_next: &mut usize) -> String {
-        let idx = if keys.is_empty() {
-            if let Some(idx) = self.capture {
-                idx
-            } else {
-                let idx = *capture_next;
-                self.capture = Some(idx);
-                *capture_next += 1;
-                idx
-            }
+    fn set_capture(
+        &mut self,
+        key: &FieldKey,
+        keys: &[FieldKey],
+        capture_next: &mut usize,
+        span: Span,
+    ) -> Result<String> {
+        let idx = *capture_next;
+        *capture_next += 1;
+        let old = if keys.is_empty() {
+            self.capture.replace(idx)
         } else {
-            if let Some(&idx) = self.deep_captures.get(keys) {
-                idx
-            } else {
-                let idx = *capture_next;
-                self.deep_captures.insert(keys.to_vec(), idx);
-                *capture_next += 1;
-                idx
-            }
+            self.deep_captures.insert(keys.to_vec(), idx)
         };
-        capture_name(idx)
+        if old.is_some() {
+            let mut keys = keys.to_vec();
+            keys.insert(0, key.clone());
+            bail!(
+                span,
+                "field `{}` is used more than once in the format.",
+                join(&keys, ".")
+            );
+        }
+        Ok(capture_name(idx))
     }
     fn capture_index(&self, names: &HashMap<&str, usize>) -> Option<usize> {
         Some(capture_index(self.capture?, names))
-- 
2.43.0


From a73c49f47ce89d5c21c6503769c3e836fd2919d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:04 +0000
Subject: [PATCH 07/45] fix: report a regex that is refused only by its
 translation as an error

---
 parse-display-derive/src/parser_builder.rs | 12 ++++++++----
 parse-display-derive/src/regex_utils.rs    | 11 +++++++----
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/parse-display-derive/src/parser_builder.rs b/parse-display-derive/src/parser_builder.rs
index 6173aab..7267c4a 100644
--- a/parse-display-derive/src/parser_builder.rs
+++ b/parse-display-derive/src/parser_builder.rs
@@ -171,8 +171,12 @@ impl<'a> ParserBuilder<'a> {
         if has_capture_empty {
             if let VarBase::Variant { variant, style, .. } = vb {
                 let value = style.apply(&variant.ident);
-                self.parse_format
-                    .push_hir(to_hir_with_expand(&text, CAPTURE_NAME_EMPTY, &value));
+                self.parse_format.push_hir(to_hir_with_expand(
+                    &text,
+                    CAPTURE_NAME_EMPTY,
+                    &value,
+                    s.span(),
+                )?);
                 return Ok(());
             }
             bail!(
@@ -189,7 +193,7 @@ impl<'a> ParserBuilder<'a> {
                 text = format!("(?<{name}>{text})");
             }
         }
-        self.parse_format.push_hir(to_hir(&text));
+        self.parse_format.push_hir(to_hir(&text, s.span())?);
         Ok(())
     }
     fn push_format(
@@ -235,7 +239,7 @@ impl<'a> ParserBuilder<'a> {
                             }
                         }
                     }
-                    self.parse_format.push_hir(to_hir(&f));
+                    self.parse_format.push_hir(to_hir(&f, format.span)?);
                 }
             }
         }
diff --git a/parse-display-derive/src/regex_utils.rs b/parse-display-derive/src/regex_utils.rs
index 35849f1..0d947dc 100644
--- a/parse-display-derive/src/regex_utils.rs
+++ b/parse-display-derive/src/regex_utils.rs
@@ -1,11 +1,14 @@
+use proc_macro2::Span;
 use regex::{Captures, Regex};
 use regex_syntax::ast::Ast;
 use regex_syntax::hir::Hir;
 
-pub fn to_hir(s: &str) -> Hir {
-    regex_syntax::Parser::new().parse(s).unwrap()
+pub fn to_hir(s: &str, span: Span) -> syn::Result<Hir> {
+    regex_syntax::Parser::new()
+        .parse(s)
+        .map_err(|e| syn::Error::new(span, e))
 }
-pub fn to_hir_with_expand(s: &str, name: &str, value: &str) -> Hir {
+pub fn to_hir_with_expand(s: &str, name: &str, value: &str, span: Span) -> syn::Result<Hir> {
     let mut ast = to_ast(s);
     expand_capture(&mut ast, |group_name| {
         if group_name == name {
@@ -18,7 +21,7 @@ pub fn to_hir_with_expand(s: &str, name: &str, value: &str) -> Hir {
 
     regex_syntax::hir::translate::Translator::new()
         .translate(&s, &ast)
-        .unwrap()
+        .map_err(|e| syn::Error::new(span, e))
 }
 
 fn to_ast(s: &str) -> Ast {
-- 
2.43.0


From f2ebbcc9a278322ab48e809bd580224410db4272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:04 +0000
Subject: [PATCH 08/45] fix: accept regexes whose capture names differ only by
 . and _ or start with an index

---
 parse-display-derive/src/parser_builder.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/parse-display-derive/src/parser_builder.rs b/parse-display-derive/src/parser_builder.rs
index 7267c4a..e9cd120 100644
--- a/parse-display-derive/src/parser_builder.rs
+++ b/parse-display-derive/src/parser_builder.rs
@@ -125,7 +125,7 @@ impl<'a> ParserBuilder<'a> {
             s.len() % 2 == 1
         }
 
-        let regex_number = regex!("^[0-9]+$");
+        let regex_number = regex!("^[0-9]");
         let regex_capture = regex!(r"(?<esc>\\*)\(\?(?<p>P?)<(?<key>[_0-9a-zA-Z.]*)>");
 
         let text = s.value();
@@ -135,12 +135,8 @@ impl<'a> ParserBuilder<'a> {
                 return c[0].to_owned();
             }
             let key = &c[IDX_KEY];
-            let key = if key.is_empty() {
-                "self".into()
-            } else {
-                key.replace('.', "_")
-            };
-            let key = regex_number.replace(&key, "_$0");
+            let key = if key.is_empty() { "self" } else { key };
+            let key = regex_number.replace(key, "_$0");
             format!("{esc}(?<{key}>")
         });
         if let Err(e) = regex_syntax::ast::parse::Parser::new().parse(&text_debug) {
-- 
2.43.0


From ac44f425cd13299ba50f5b1497a698ebbcaaecee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:05 +0000
Subject: [PATCH 09/45] fix: let {x} in a field's format name the sub-field
 when parsing, as it does when displaying

---
 parse-display-derive/src/parser_builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse-display-derive/src/parser_builder.rs b/parse-display-derive/src/parser_builder.rs
index e9cd120..fd158bf 100644
--- a/parse-display-derive/src/parser_builder.rs
+++ b/parse-display-derive/src/parser_builder.rs
@@ -212,7 +212,7 @@ impl<'a> ParserBuilder<'a> {
                             continue;
                         }
                     }
-                    if keys.len() == 1 {
+                    if keys.len() == 1 && !matches!(vb, VarBase::Field { .. }) {
                         self.push_field(vb, &keys[0], format.span)?;
                         continue;
                     }
-- 
2.43.0


From df208a7f0806f13c01c3ee2c825aed9c8e1430fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:05 +0000
Subject: [PATCH 10/45] fix: support raw identifier fields with
 #[from_str(new)]

---
 parse-display-derive/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse-display-derive/src/lib.rs b/parse-display-derive/src/lib.rs
index 268f3ae..a7aa148 100644
--- a/parse-display-derive/src/lib.rs
+++ b/parse-display-derive/src/lib.rs
@@ -1142,7 +1142,7 @@ impl FieldKey {
     }
     fn new_arg_var(&self) -> Ident {
         match self {
-            Self::Named(s) => parse_str(s),
+            Self::Named(s) => parse_str(&format!("r#{s}")),
             Self::Unnamed(idx) => parse_str(&format!("_{idx}")),
         }
         .unwrap()
-- 
2.43.0


From a8911c8b4b6ac33e10836d941150744c632dccbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:36 +0000
Subject: [PATCH 11/45] fix: keep local variables of the generated code apart
 from fields and items named like them

---
 parse-display-derive/src/lib.rs            | 18 ++++----
 parse-display-derive/src/parser_builder.rs | 48 ++++++++++++++--------
 parse-display-derive/src/syn_utils.rs      |  7 +++-
 3 files changed, 47 insertions(+), 26 deletions(-)

diff --git a/parse-display-derive/src/lib.rs b/parse-display-derive/src/lib.rs
index a7aa148..cf1ffe6 100644
--- a/parse-display-derive/src/lib.rs
+++ b/parse-display-derive/src/lib.rs
@@ -68,15 +68,16 @@ fn derive_display_for_struct(input: &DeriveInput, data: &DataStruct) -> Result<T
     };
     let write = format
         .format_args(&vb, &None, &mut bounds, &cx)?
-        .build_write(quote!(f))?;
+        .build_write(local_ident("f").to_token_stream())?;
     let trait_path = parse_quote!(::core::fmt::Display);
     let wheres = bounds.build_wheres(&trait_path);
+    let f = local_ident("f");
     impl_trait_result(
         input,
         &trait_path,
         &wheres,
         quote! {
-            fn fmt(&self, f: &mut ::core::fmt::Formatter) -> ::core::fmt::Result {
+            fn fmt(&self, #f: &mut ::core::fmt::Formatter) -> ::core::fmt::Result {
                 #write
             }
         },
@@ -130,7 +131,7 @@ fn derive_display_for_enum(input: &DeriveInput, data: &DataEnum) -> Result<Token
                 &mut bounds.child(hattrs_variant.bound_display),
                 cx,
             )?
-            .build_write(quote!(f))?;
+            .build_write(local_ident("f").to_token_stream())?;
         Ok(quote! {
             & Self::#variant_ident #fields => {
                 #write
@@ -149,8 +150,9 @@ fn derive_display_for_enum(input: &DeriveInput, data: &DataEnum) -> Result<Token
         arms.push(make_arm(&hattrs, variant, &mut bounds, &cx)?);
     }
     let trait_path = parse_quote!(::core::fmt::Display);
+    let f = local_ident("f");
     let contents = quote! {
-        fn fmt(&self, f: &mut ::core::fmt::Formatter) -> ::core::fmt::Result {
+        fn fmt(&self, #f: &mut ::core::fmt::Formatter) -> ::core::fmt::Result {
             match self {
                 #(#arms)*
             }
@@ -175,6 +177,7 @@ fn derive_from_str_for_struct(input: &DeriveInput, data: &DataStruct) -> Result<
     let crate_path = &hattrs.crate_path;
     let warnings = hattrs.deprecated_default_fields_warnings();
     let trait_path = parse_quote!(::core::str::FromStr);
+    let s = local_ident("s");
     let body = p.build_from_str_body(parse_quote!(Self))?;
     let generics = GenericParamSet::new(&input.generics);
     let mut bounds = Bounds::from_data(hattrs.bound_from_str_resolved());
@@ -187,7 +190,7 @@ fn derive_from_str_for_struct(input: &DeriveInput, data: &DataStruct) -> Result<
         &wheres,
         quote! {
             type Err = #crate_path::ParseError;
-            fn from_str(s: &str) -> ::core::result::Result<Self, Self::Err> {
+            fn from_str(#s: &str) -> ::core::result::Result<Self, Self::Err> {
                 #warnings
                 #body
             }
@@ -217,6 +220,7 @@ fn derive_from_str_for_enum(input: &DeriveInput, data: &DataEnum) -> Result<Toke
     }
     let crate_path = &hattrs_enum.crate_path;
     let trait_path = parse_quote!(::core::str::FromStr);
+    let s = local_ident("s");
     let mut bounds = Bounds::from_data(hattrs_enum.bound_from_str_resolved());
     let generics = GenericParamSet::new(&input.generics);
     let mut bodys = Vec::new();
@@ -250,7 +254,7 @@ fn derive_from_str_for_enum(input: &DeriveInput, data: &DataEnum) -> Result<Toke
         quote! {}
     } else {
         quote! {
-            match s {
+            match #s {
                 #(#arms,)*
                 _ => { }
             }
@@ -267,7 +271,7 @@ fn derive_from_str_for_enum(input: &DeriveInput, data: &DataEnum) -> Result<Toke
         &wheres,
         quote! {
             type Err = #crate_path::ParseError;
-            fn from_str(s: &str) -> ::core::result::Result<Self, #crate_path::ParseError> {
+            fn from_str(#s: &str) -> ::core::result::Result<Self, #crate_path::ParseError> {
                 #warnings
                 #match_body
                 #({ #bodys })*
diff --git a/parse-display-derive/src/parser_builder.rs b/parse-display-derive/src/parser_builder.rs
index fd158bf..5a1291e 100644
--- a/parse-display-derive/src/parser_builder.rs
+++ b/parse-display-derive/src/parser_builder.rs
@@ -314,13 +314,14 @@ impl<'a> ParserBuilder<'a> {
         match &self.parse_format {
             ParseFormat::Hirs(_) => {
                 let fn_ident: Ident = format_ident!("parse_variant");
+                let s = local_ident("s");
                 let crate_path = self.crate_path;
                 let code = self.build_from_str_body(constructor)?;
                 let code = quote! {
-                    let #fn_ident = |s: &str| -> ::core::result::Result<Self, #crate_path::ParseError> {
+                    let #fn_ident = |#s: &str| -> ::core::result::Result<Self, #crate_path::ParseError> {
                         #code
                     };
-                    if let ::core::result::Result::Ok(value) = #fn_ident(s) {
+                    if let ::core::result::Result::Ok(value) = #fn_ident(#s) {
                         return ::core::result::Result::Ok(value);
                     }
                 };
@@ -367,15 +368,16 @@ impl<'a> ParserBuilder<'a> {
             });
             code
         } else if self.use_default {
+            let value = local_ident("value");
             let mut setters = Vec::new();
             for (key, field) in &self.fields {
-                let left_expr = quote! { value . #key };
+                let left_expr = quote! { #value . #key };
                 setters.push(field.build_setters(&names, key, left_expr, true)?);
             }
             quote! {
-                let mut value = <Self as ::core::default::Default>::default();
+                let mut #value = <Self as ::core::default::Default>::default();
                 #(#setters)*
-                return ::core::result::Result::Ok(value);
+                return ::core::result::Result::Ok(#value);
             }
         } else {
             let ps = match &self.source {
@@ -405,6 +407,7 @@ impl<'a> ParserBuilder<'a> {
         let crate_path = self.crate_path;
         let mut with = Vec::new();
         let helpers = quote!( #crate_path::helpers );
+        let p = local_ident("p");
         let mut debug_asserts = Vec::new();
         for (
             index,
@@ -422,7 +425,7 @@ impl<'a> ParserBuilder<'a> {
             let msg =
                 format!("The regex for the field `{key}` varies depending on the type parameter.");
             debug_asserts.push(quote_spanned! {expr.span()=>
-                ::core::debug_assert_eq!(&p.ss[#index], &#helpers::to_regex::<#ty, _>(&#expr), #msg);
+                ::core::debug_assert_eq!(&#p.ss[#index], &#helpers::to_regex::<#ty, _>(&#expr), #msg);
             });
         }
         Ok(ParserInit {
@@ -432,6 +435,7 @@ impl<'a> ParserBuilder<'a> {
     }
     fn build_parse_code(&self, constructor: Path) -> Result<TokenStream> {
         let code = self.build_construct_code(constructor)?;
+        let s = local_ident("s");
         Ok(match &self.parse_format {
             ParseFormat::Hirs(hirs) => {
                 let ParserInit {
@@ -439,18 +443,23 @@ impl<'a> ParserBuilder<'a> {
                     debug_asserts,
                 } = self.build_parser_init(&hirs_with_start_end(hirs))?;
                 let crate_path = self.crate_path;
+                let p = local_ident("p");
+                let c = local_ident("c");
                 quote! {
-                    static PARSER: ::std::sync::OnceLock<#crate_path::helpers::Parser> = ::std::sync::OnceLock::new();
                     #[allow(clippy::trivial_regex)]
-                    let p = PARSER.get_or_init(|| #expr);
+                    let #p = {
+                        static PARSER: ::std::sync::OnceLock<#crate_path::helpers::Parser> = ::std::sync::OnceLock::new();
+                        &PARSER
+                    }
+                    .get_or_init(|| #expr);
                     #(#debug_asserts)*
-                    if let ::core::option::Option::Some(c) = p.re.captures(&s) {
+                    if let ::core::option::Option::Some(#c) = #p.re.captures(&#s) {
                          #code
                     }
                 }
             }
-            ParseFormat::String(s) => quote! {
-                if s == #s {
+            ParseFormat::String(value) => quote! {
+                if #s == #value {
                     #code
                 }
             },
@@ -594,13 +603,14 @@ impl<'a> FieldEntry<'a> {
     ) -> Result<TokenStream> {
         if let Some(mut expr) = self.build_expr(names, key)? {
             if !self.deep_captures.is_empty() {
-                let setters = self.build_setters(names, key, quote!(field_value), false)?;
+                let field_value = local_ident("field_value");
+                let setters = self.build_setters(names, key, quote!(#field_value), false)?;
                 let ty = &self.source.ty;
                 expr = quote! {
                     {
-                        let mut field_value : #ty = #expr;
+                        let mut #field_value : #ty = #expr;
                         #setters
-                        field_value
+                        #field_value
                     }
                 };
             }
@@ -674,21 +684,23 @@ fn build_parse_capture_expr(
     crate_path: &Path,
 ) -> Result<TokenStream> {
     let msg = format!("field `{field_name}` parse failed.");
+    let c = local_ident("c");
     let e = if let Some(field) = field {
         if field.hattrs.opt.value() {
-            let e = str_expr_to_parse_capture_expr(quote!(s), field, crate_path);
+            let s = local_ident("s");
+            let e = str_expr_to_parse_capture_expr(quote!(#s), field, crate_path);
             quote! {
-                c.get(#capture_index).map(|m| m.as_str()).map(|s| #e).transpose()
+                #c.get(#capture_index).map(|m| m.as_str()).map(|#s| #e).transpose()
             }
         } else {
             str_expr_to_parse_capture_expr(
-                quote!(c.get(#capture_index).map_or("", |m| m.as_str())),
+                quote!(#c.get(#capture_index).map_or("", |m| m.as_str())),
                 field,
                 crate_path,
             )
         }
     } else {
-        quote!(c.get(#capture_index).map_or("", |m| m.as_str()).parse())
+        quote!(#c.get(#capture_index).map_or("", |m| m.as_str()).parse())
     };
     Ok(quote! {
         #e.map_err(|e| #crate_path::ParseError::with_message(#msg))?
diff --git a/parse-display-derive/src/syn_utils.rs b/parse-display-derive/src/syn_utils.rs
index b11b4e6..13afffe 100644
--- a/parse-display-derive/src/syn_utils.rs
+++ b/parse-display-derive/src/syn_utils.rs
@@ -1,4 +1,4 @@
-use proc_macro2::TokenStream;
+use proc_macro2::{Span, TokenStream};
 use quote::{ToTokens, quote, quote_spanned};
 use std::collections::HashSet;
 use syn::{
@@ -81,6 +81,11 @@ impl GenericParamSet {
     }
 }
 
+/// Creates the name of a local variable of the generated code that cannot collide with names written by the user.
+pub fn local_ident(name: &str) -> Ident {
+    Ident::new(name, Span::mixed_site())
+}
+
 pub enum Quotable<T> {
     Direct(T),
     Quoted { s: LitStr, args: ArgsOf<T> },
-- 
2.43.0


From bab4d302edb9e22732b5420e2fa1502473d0247b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:07 +0000
Subject: [PATCH 12/45] fix: apply with and regex_infer of an opt field to the
 inner type when parsing

---
 parse-display-derive/src/parser_builder.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/parse-display-derive/src/parser_builder.rs b/parse-display-derive/src/parser_builder.rs
index 5a1291e..0a85b3d 100644
--- a/parse-display-derive/src/parser_builder.rs
+++ b/parse-display-derive/src/parser_builder.rs
@@ -14,7 +14,7 @@ use std::{
     mem,
 };
 use syn::{
-    DataStruct, Expr, Field, Fields, Ident, LitStr, Path, Result, Variant, parse_quote,
+    DataStruct, Expr, Field, Fields, Ident, LitStr, Path, Result, Type, Variant, parse_quote,
     spanned::Spanned,
 };
 
@@ -227,7 +227,9 @@ impl<'a> ParserBuilder<'a> {
                                 VarBase::Struct { .. } => {}
                                 VarBase::Variant { .. } => {}
                                 VarBase::Field { field, key, .. } => {
-                                    self.with.push(With::new(c, key, with_expr, &field.ty));
+                                    let ty =
+                                        self.fields.get(key).map_or(&field.ty, |f| f.value_ty());
+                                    self.with.push(With::new(c, key, with_expr, ty));
                                 }
                                 VarBase::FieldSome { key, ty } => {
                                     self.with.push(With::new(c, key, with_expr, ty));
@@ -548,6 +550,15 @@ impl<'a> FieldEntry<'a> {
         }
         Ok(capture_name(idx))
     }
+    /// The type of the value obtained from the captured string. (`T` for `Option<T>` with `#[display(opt)]`)
+    fn value_ty(&self) -> &Type {
+        let ty = &self.source.ty;
+        if self.hattrs.opt.value() {
+            get_option_element(ty).unwrap_or(ty)
+        } else {
+            ty
+        }
+    }
     fn capture_index(&self, names: &HashMap<&str, usize>) -> Option<usize> {
         Some(capture_index(self.capture?, names))
     }
@@ -712,7 +723,7 @@ fn str_expr_to_parse_capture_expr(
     crate_path: &Path,
 ) -> TokenStream {
     if let Some(with) = &field.hattrs.with {
-        let ty = &field.source.ty;
+        let ty = field.value_ty();
         let expr = quote! {
             #crate_path::helpers::parse_with::<#ty, _>(#with, #str_expr)
         };
-- 
2.43.0


From f22376c51789be7c0db103296a40bf584ae0db9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:40 +0000
Subject: [PATCH 13/45] fix: apply format parameters to the inner value of an
 opt field

---
 parse-display-derive/src/lib.rs |  3 ++-
 parse-display/src/helpers.rs    | 33 +++++++++++++++++++++------------
 2 files changed, 23 insertions(+), 13 deletions(-)

diff --git a/parse-display-derive/src/lib.rs b/parse-display-derive/src/lib.rs
index cf1ffe6..af4d9af 100644
--- a/parse-display-derive/src/lib.rs
+++ b/parse-display-derive/src/lib.rs
@@ -937,12 +937,13 @@ impl VarBase<'_> {
                 cx,
             )?;
             let ident = key.binding_var();
+            let tr = Ident::new(format_spec.format_type.trait_name(), Span::call_site());
             Ok(quote! {
                 (
                     #crate_path::helpers::OptionFormatHelper::<#inner_ty, _> {
                         value: &#in_expr,
                         f: |#ident : &#inner_ty, #formatter_ident : &mut ::core::fmt::Formatter| {
-                             ::core::write!(#formatter_ident, "{}", #out_expr)
+                             ::core::fmt::#tr::fmt(&#out_expr, #formatter_ident)
                         },
                         none_value: "",
                     }
diff --git a/parse-display/src/helpers.rs b/parse-display/src/helpers.rs
index 5659cba..775eec2 100644
--- a/parse-display/src/helpers.rs
+++ b/parse-display/src/helpers.rs
@@ -1,5 +1,5 @@
 use ::core::{
-    fmt::{self, Display, Formatter},
+    fmt::{self, Formatter},
     ops::Fn,
 };
 
@@ -43,18 +43,27 @@ pub struct OptionFormatHelper<'a, T, F> {
     pub f: F,
     pub none_value: &'a str,
 }
-impl<'a, T, F> Display for OptionFormatHelper<'a, T, F>
-where
-    F: Fn(&'a T, &mut Formatter) -> fmt::Result,
-{
-    fn fmt(&self, f: &mut Formatter) -> fmt::Result {
-        if let Some(value) = self.value {
-            (self.f)(value, f)
-        } else {
-            Formatter::write_str(f, self.none_value)
-        }
-    }
+macro_rules! impl_option_format_helper {
+    ($($trait_name:ident),*) => {
+        $(
+            impl<'a, T, F> fmt::$trait_name for OptionFormatHelper<'a, T, F>
+            where
+                F: Fn(&'a T, &mut Formatter) -> fmt::Result,
+            {
+                fn fmt(&self, f: &mut Formatter) -> fmt::Result {
+                    if let Some(value) = self.value {
+                        (self.f)(value, f)
+                    } else {
+                        Formatter::write_str(f, self.none_value)
+                    }
+                }
+            }
+        )*
+    };
 }
+impl_option_format_helper!(
+    Display, Debug, Octal, LowerHex, UpperHex, Pointer, Binary, LowerExp, UpperExp
+);
 
 #[deprecated(
     note = "`#[from_str(default_fields)]` will be removed in a future version. Use `#[from_str(default)]` instead."
-- 
2.43.0


From ddfec6fa53cd68035c260464585fe1f7c617b17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:10 +0000
Subject: [PATCH 14/45] fix: name everything from std by its full path in the
 generated code

---
 parse-display-derive/src/lib.rs            | 10 +++++-----
 parse-display-derive/src/parser_builder.rs |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/parse-display-derive/src/lib.rs b/parse-display-derive/src/lib.rs
index af4d9af..10cf153 100644
--- a/parse-display-derive/src/lib.rs
+++ b/parse-display-derive/src/lib.rs
@@ -204,7 +204,7 @@ fn derive_from_str_for_struct(input: &DeriveInput, data: &DataStruct) -> Result<
             &parse_quote!(#crate_path::FromStrRegex),
             &wheres,
             quote! {
-                fn from_str_regex() -> String {
+                fn from_str_regex() -> ::std::string::String {
                     #body
                 }
             },
@@ -286,7 +286,7 @@ fn derive_from_str_for_enum(input: &DeriveInput, data: &DataEnum) -> Result<Toke
                 .map(|s| escape(&s.unwrap()))
                 .collect::<Vec<_>>();
             let s = fmts.join("|");
-            quote! { #s.into() }
+            quote! { ::std::string::ToString::to_string(#s) }
         } else {
             let fmts = regex_fmts
                 .into_iter()
@@ -296,7 +296,7 @@ fn derive_from_str_for_enum(input: &DeriveInput, data: &DataEnum) -> Result<Toke
                 })
                 .collect::<Vec<_>>();
             let fmt = fmts.join("|");
-            quote! { format!(#fmt, #(#regex_args,)*) }
+            quote! { ::std::format!(#fmt, #(#regex_args,)*) }
         };
 
         ts.extend(impl_trait(
@@ -304,7 +304,7 @@ fn derive_from_str_for_enum(input: &DeriveInput, data: &DataEnum) -> Result<Toke
             &parse_quote!(#crate_path::FromStrRegex),
             &wheres,
             quote! {
-                fn from_str_regex() -> String {
+                fn from_str_regex() -> ::std::string::String {
                     #body
                 }
             },
@@ -971,7 +971,7 @@ impl VarBase<'_> {
     ) -> Result<TokenStream> {
         if let Some(format) = format {
             let args = format.format_args(self, with, bounds, cx)?;
-            Ok(quote! { format_args!(#args) })
+            Ok(quote! { ::core::format_args!(#args) })
         } else {
             self.format_arg("", format_spec, span, with, bounds, cx)
         }
diff --git a/parse-display-derive/src/parser_builder.rs b/parse-display-derive/src/parser_builder.rs
index 0a85b3d..73b3b71 100644
--- a/parse-display-derive/src/parser_builder.rs
+++ b/parse-display-derive/src/parser_builder.rs
@@ -307,7 +307,7 @@ impl<'a> ParserBuilder<'a> {
             }
             ParseFormat::String(s) => {
                 let s = escape(s);
-                Ok(quote! { #s.into() })
+                Ok(quote! { ::std::string::ToString::to_string(#s) })
             }
         }
     }
-- 
2.43.0


From b696c2853ddaff3775693042856daa57c9bde3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:35 +0000
Subject: [PATCH 15/45] fix: report invalid names in a field path as an error
 instead of panicking

---
 parse-display-derive/src/lib.rs            | 30 ++++++++++++++++++----
 parse-display-derive/src/parser_builder.rs |  4 +--
 2 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/parse-display-derive/src/lib.rs b/parse-display-derive/src/lib.rs
index 10cf153..ea577b4 100644
--- a/parse-display-derive/src/lib.rs
+++ b/parse-display-derive/src/lib.rs
@@ -854,7 +854,7 @@ impl VarBase<'_> {
         bounds: &mut Bounds,
         cx: &CodeContext,
     ) -> Result<TokenStream> {
-        let keys = FieldKey::from_str_deep(arg);
+        let keys = FieldKey::from_str_deep(arg, span)?;
         if keys.is_empty() {
             if matches!(self, VarBase::Struct { .. } | VarBase::Variant { .. })
                 && format_spec.format_type != FormatType::Display
@@ -1102,12 +1102,32 @@ impl FieldKey {
     fn from_ident(ident: &Ident) -> FieldKey {
         Self::from_string(ident.to_string())
     }
-    fn from_str_deep(s: &str) -> Vec<FieldKey> {
+    fn from_str_deep(s: &str, span: Span) -> Result<Vec<FieldKey>> {
         if s.is_empty() {
-            Vec::new()
-        } else {
-            s.split('.').map(Self::from_str).collect()
+            return Ok(Vec::new());
         }
+        s.split('.')
+            .map(|s| {
+                let key = Self::from_str(s);
+                let is_valid = match &key {
+                    FieldKey::Named(s) => {
+                        let is_reserved =
+                            matches!(s.as_str(), "_" | "self" | "Self" | "super" | "crate");
+                        let ident_str = format!("_{s}");
+                        !is_reserved
+                            && !s.starts_with(|c: char| c.is_ascii_digit())
+                            && parse_str::<Ident>(&ident_str).is_ok_and(|ident| ident == ident_str)
+                    }
+                    FieldKey::Unnamed(idx) => {
+                        s.bytes().all(|b| b.is_ascii_digit()) && u32::try_from(*idx).is_ok()
+                    }
+                };
+                if !is_valid {
+                    bail!(span, "invalid field name `{s}`.");
+                }
+                Ok(key)
+            })
+            .collect()
     }
     fn from_fields_named(fields: &FieldsNamed) -> impl Iterator<Item = (FieldKey, &Field)> {
         fields
diff --git a/parse-display-derive/src/parser_builder.rs b/parse-display-derive/src/parser_builder.rs
index 73b3b71..477c596 100644
--- a/parse-display-derive/src/parser_builder.rs
+++ b/parse-display-derive/src/parser_builder.rs
@@ -153,7 +153,7 @@ impl<'a> ParserBuilder<'a> {
             }
             has_capture = true;
             let cp = &c[IDX_P];
-            let keys = FieldKey::from_str_deep(&c[IDX_KEY]);
+            let keys = FieldKey::from_str_deep(&c[IDX_KEY], s.span())?;
             let name = self.set_capture(vb, &keys, s.span())?;
             if name == CAPTURE_NAME_EMPTY {
                 if !cp.is_empty() {
@@ -205,7 +205,7 @@ impl<'a> ParserBuilder<'a> {
                 DisplayFormatPart::EscapedBeginBracket => self.push_str("{"),
                 DisplayFormatPart::EscapedEndBracket => self.push_str("}"),
                 DisplayFormatPart::Var { arg, .. } => {
-                    let keys = FieldKey::from_str_deep(arg);
+                    let keys = FieldKey::from_str_deep(arg, format.span)?;
                     if let VarBase::Variant { variant, style, .. } = vb {
                         if keys.is_empty() {
                             self.push_str(&style.apply(&variant.ident));
-- 
2.43.0


From 31e1aab99ca3a6323739f446329f111f16ccdbe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:46 +0000
Subject: [PATCH 16/45] fix: try the following variants when new refuses a
 literal variant

---
 parse-display-derive/src/parser_builder.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/parse-display-derive/src/parser_builder.rs b/parse-display-derive/src/parser_builder.rs
index 477c596..71ee2d6 100644
--- a/parse-display-derive/src/parser_builder.rs
+++ b/parse-display-derive/src/parser_builder.rs
@@ -331,7 +331,12 @@ impl<'a> ParserBuilder<'a> {
             }
             ParseFormat::String(s) => {
                 let code = self.build_construct_code(constructor)?;
-                let code = quote! { #s  => { #code }};
+                let code = if self.new_expr.is_some() {
+                    // `new` may refuse the value, then the following arms must be tried.
+                    quote! { #s if { #code false } => { } }
+                } else {
+                    quote! { #s  => { #code }}
+                };
                 Ok(ParseVariantCode::MatchArm(code))
             }
         }
-- 
2.43.0


From 430fd080bfd86f8dd38d7f048b99b05707668ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:23 +0000
Subject: [PATCH 17/45] fix: match infinity and signed nan in the regex of f32
 and f64

---
 parse-display/src/from_str_regex.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse-display/src/from_str_regex.rs b/parse-display/src/from_str_regex.rs
index c7a3c12..b9a278c 100644
--- a/parse-display/src/from_str_regex.rs
+++ b/parse-display/src/from_str_regex.rs
@@ -185,7 +185,7 @@ impl FromStrRegex for NonZero<isize> {
 }
 
 fn regex_f() -> String {
-    r"(?i:[+-]?([0-9]+\.?|[0-9]*\.[0-9]+)(e[+-]?[0-9]+)?|[+-]?inf|nan)".into()
+    r"(?i:[+-]?([0-9]+\.?|[0-9]*\.[0-9]+)(e[+-]?[0-9]+)?|[+-]?(inf|infinity|nan))".into()
 }
 impl FromStrRegex for f32 {
     fn from_str_regex() -> String {
-- 
2.43.0


From 681ca92fdf0394b86aad08d4c1ab1dfe6cdd30c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:23 +0000
Subject: [PATCH 18/45] fix: match a leading plus sign in the regex of integer
 types

---
 parse-display/src/from_str_regex.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parse-display/src/from_str_regex.rs b/parse-display/src/from_str_regex.rs
index b9a278c..e5378de 100644
--- a/parse-display/src/from_str_regex.rs
+++ b/parse-display/src/from_str_regex.rs
@@ -47,7 +47,7 @@ impl FromStrRegex for bool {
 }
 
 fn regex_uint() -> String {
-    r"[0-9]+".into()
+    r"\+?[0-9]+".into()
 }
 impl FromStrRegex for u8 {
     fn from_str_regex() -> String {
@@ -116,7 +116,7 @@ impl FromStrRegex for NonZero<usize> {
 }
 
 fn regex_sint() -> String {
-    r"-?[0-9]+".into()
+    r"[+-]?[0-9]+".into()
 }
 
 impl FromStrRegex for i8 {
-- 
2.43.0


From 550fbc38cde1b40b071edf34f1f7cf9fc2c02e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:33 +0000
Subject: [PATCH 19/45] fix: do not take group-like text in a character class
 or comment of a regex for a group

---
 parse-display-derive/src/parser_builder.rs | 32 +++++++++++++---------
 parse-display-derive/src/regex_utils.rs    | 14 ++++++++++
 2 files changed, 33 insertions(+), 13 deletions(-)

diff --git a/parse-display-derive/src/parser_builder.rs b/parse-display-derive/src/parser_builder.rs
index 71ee2d6..5add735 100644
--- a/parse-display-derive/src/parser_builder.rs
+++ b/parse-display-derive/src/parser_builder.rs
@@ -121,36 +121,42 @@ impl<'a> ParserBuilder<'a> {
         const IDX_ESC: usize = 1;
         const IDX_P: usize = 2;
         const IDX_KEY: usize = 3;
-        fn is_escaped(s: &str) -> bool {
-            s.len() % 2 == 1
-        }
 
         let regex_number = regex!("^[0-9]");
         let regex_capture = regex!(r"(?<esc>\\*)\(\?(?<p>P?)<(?<key>[_0-9a-zA-Z.]*)>");
 
         let text = s.value();
-        let text_debug = regex_capture.replace_all(&text, |c: &Captures| {
+        let mut starts_debug = Vec::new();
+        let mut end = 0;
+        let mut text_debug = String::new();
+        for c in regex_capture.captures_iter(&text) {
+            let m = c.get(0).unwrap();
             let esc = &c[IDX_ESC];
-            if is_escaped(esc) {
-                return c[0].to_owned();
-            }
             let key = &c[IDX_KEY];
             let key = if key.is_empty() { "self" } else { key };
             let key = regex_number.replace(key, "_$0");
-            format!("{esc}(?<{key}>")
-        });
-        if let Err(e) = regex_syntax::ast::parse::Parser::new().parse(&text_debug) {
-            bail!(s.span(), "{e}")
+            text_debug.push_str(&text[end..m.start()]);
+            text_debug.push_str(esc);
+            starts_debug.push(text_debug.len());
+            text_debug.push_str(&format!("(?<{key}>"));
+            end = m.end();
         }
+        text_debug.push_str(&text[end..]);
+        let starts = match regex_syntax::ast::parse::Parser::new().parse(&text_debug) {
+            Ok(ast) => named_group_starts(ast),
+            Err(e) => bail!(s.span(), "{e}"),
+        };
+        // Text that looks like a named group may be something else (escaped, or in a character class or comment).
+        let mut is_group = starts_debug.iter().map(|start| starts.contains(start));
 
         let mut has_capture = false;
         let mut has_capture_empty = false;
         let mut p = "";
         let mut text = try_replace_all(regex_capture, &text, |c: &Captures| -> Result<String> {
-            let esc = &c[IDX_ESC];
-            if is_escaped(esc) {
+            if !is_group.next().unwrap() {
                 return Ok(c[0].to_owned());
             }
+            let esc = &c[IDX_ESC];
             has_capture = true;
             let cp = &c[IDX_P];
             let keys = FieldKey::from_str_deep(&c[IDX_KEY], s.span())?;
diff --git a/parse-display-derive/src/regex_utils.rs b/parse-display-derive/src/regex_utils.rs
index 0d947dc..bdd3e00 100644
--- a/parse-display-derive/src/regex_utils.rs
+++ b/parse-display-derive/src/regex_utils.rs
@@ -82,6 +82,20 @@ fn expand_capture(ast: &mut Ast, mut f: impl FnMut(&str) -> Option<Ast>) {
         true
     });
 }
+/// The offsets of the opening parentheses of the named groups.
+pub fn named_group_starts(mut ast: Ast) -> Vec<usize> {
+    use regex_syntax::ast::GroupKind;
+    let mut starts = Vec::new();
+    replace_ast(&mut ast, &mut |ast| {
+        if let Ast::Group(g) = ast {
+            if let GroupKind::CaptureName { .. } = g.kind {
+                starts.push(g.span.start.offset);
+            }
+        }
+        true
+    });
+    starts
+}
 pub fn try_replace_all<R: AsRef<str>, E>(
     regex: &Regex,
     text: &str,
-- 
2.43.0


From a5a843d4d1da6a9a48bdbe394d8de8cf066d569d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:29 +0000
Subject: [PATCH 20/45] fix: do not let . in a field's regex match a newline
 only because the field has a format

---
 parse-display-derive/src/parser_builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse-display-derive/src/parser_builder.rs b/parse-display-derive/src/parser_builder.rs
index 5add735..f8e187a 100644
--- a/parse-display-derive/src/parser_builder.rs
+++ b/parse-display-derive/src/parser_builder.rs
@@ -226,7 +226,7 @@ impl<'a> ParserBuilder<'a> {
                     let mut f = format!("(?<{c}>(?s:.*?))");
                     if keys.is_empty() {
                         if let Some(regex) = regex {
-                            f = format!("(?<{c}>(?s:{regex}))");
+                            f = format!("(?<{c}>{regex})");
                         }
                         if let Some(with_expr) = with {
                             match vb {
-- 
2.43.0


From 0265b22d4d29c9878609302e0b936e89bb73c23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:22 +0000
Subject: [PATCH 21/45] fix: accept a newline as the fill character of a format
 spec

---
 parse-display-derive/src/format_syntax.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse-display-derive/src/format_syntax.rs b/parse-display-derive/src/format_syntax.rs
index 226b7f5..0f80f7b 100644
--- a/parse-display-derive/src/format_syntax.rs
+++ b/parse-display-derive/src/format_syntax.rs
@@ -96,7 +96,7 @@ impl<'a> FormatSpec<'a> {
     pub fn parse(s: &'a str) -> std::result::Result<Self, FormatParseError> {
         let re = regex!(
             "^\
-             ((?<fill>.)?\
+             ((?<fill>(?s:.))?\
              (?<align>[<>^]))??\
              (?<sign>[+-])?\
              (?<is_alternate>#)?\
-- 
2.43.0


From 72e49d2cd21532bf679661651cea09b28e88a185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:42 +0000
Subject: [PATCH 22/45] fix: refuse an invalid format spec in derive(FromStr),
 as derive(Display) does

---
 parse-display-derive/src/parser_builder.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parse-display-derive/src/parser_builder.rs b/parse-display-derive/src/parser_builder.rs
index f8e187a..6803777 100644
--- a/parse-display-derive/src/parser_builder.rs
+++ b/parse-display-derive/src/parser_builder.rs
@@ -1,6 +1,7 @@
 use crate::{
     Bounds, DisplayFormat, DisplayFormatPart, DisplayStyle, FieldKey, HelperAttributes, VarBase,
-    With, field_map, get_option_element, join, regex_utils::*, set_span, syn_utils::*,
+    With, field_map, format_syntax::FormatSpec, get_option_element, join, regex_utils::*, set_span,
+    syn_utils::*,
 };
 use proc_macro2::{Span, TokenStream};
 use quote::{format_ident, quote, quote_spanned};
@@ -210,7 +211,8 @@ impl<'a> ParserBuilder<'a> {
                 DisplayFormatPart::Str(s) => self.push_str(s),
                 DisplayFormatPart::EscapedBeginBracket => self.push_str("{"),
                 DisplayFormatPart::EscapedEndBracket => self.push_str("}"),
-                DisplayFormatPart::Var { arg, .. } => {
+                DisplayFormatPart::Var { arg, format_spec } => {
+                    FormatSpec::parse_with_span(format_spec, format.span)?;
                     let keys = FieldKey::from_str_deep(arg, format.span)?;
                     if let VarBase::Variant { variant, style, .. } = vb {
                         if keys.is_empty() {
-- 
2.43.0


From c80eeca4fe356f55b64166e90540eaa8d90c4990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:41 +0000
Subject: [PATCH 23/45] fix: refuse {} in the format of a struct in
 derive(FromStr), as derive(Display) does

---
 parse-display-derive/src/parser_builder.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/parse-display-derive/src/parser_builder.rs b/parse-display-derive/src/parser_builder.rs
index 6803777..4d51b5b 100644
--- a/parse-display-derive/src/parser_builder.rs
+++ b/parse-display-derive/src/parser_builder.rs
@@ -1,6 +1,10 @@
 use crate::{
     Bounds, DisplayFormat, DisplayFormatPart, DisplayStyle, FieldKey, HelperAttributes, VarBase,
-    With, field_map, format_syntax::FormatSpec, get_option_element, join, regex_utils::*, set_span,
+    With, field_map,
+    format_syntax::{FormatSpec, FormatType},
+    get_option_element, join,
+    regex_utils::*,
+    set_span,
     syn_utils::*,
 };
 use proc_macro2::{Span, TokenStream};
@@ -212,8 +216,14 @@ impl<'a> ParserBuilder<'a> {
                 DisplayFormatPart::EscapedBeginBracket => self.push_str("{"),
                 DisplayFormatPart::EscapedEndBracket => self.push_str("}"),
                 DisplayFormatPart::Var { arg, format_spec } => {
-                    FormatSpec::parse_with_span(format_spec, format.span)?;
+                    let format_spec = FormatSpec::parse_with_span(format_spec, format.span)?;
                     let keys = FieldKey::from_str_deep(arg, format.span)?;
+                    if keys.is_empty()
+                        && matches!(vb, VarBase::Struct { .. })
+                        && format_spec.format_type == FormatType::Display
+                    {
+                        bail!(format.span, "{{}} is not allowed in struct format.");
+                    }
                     if let VarBase::Variant { variant, style, .. } = vb {
                         if keys.is_empty() {
                             self.push_str(&style.apply(&variant.ident));
-- 
2.43.0


From c72938bc1d4a82084429776ee9568d7e0b093ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:32 +0000
Subject: [PATCH 24/45] fix: refuse #[from_str(default)] on a variant, as on an
 enum

---
 parse-display-derive/src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parse-display-derive/src/lib.rs b/parse-display-derive/src/lib.rs
index ea577b4..9ba36a1 100644
--- a/parse-display-derive/src/lib.rs
+++ b/parse-display-derive/src/lib.rs
@@ -236,6 +236,12 @@ fn derive_from_str_for_enum(input: &DeriveInput, data: &DataEnum) -> Result<Toke
                 .deprecated_default_fields_warning_spans
                 .iter(),
         );
+        if let Some(span) = hattrs_variant.default_self {
+            bail!(
+                span,
+                "`#[from_str(default)]` cannot be specified for variant."
+            );
+        }
         if hattrs_variant.ignore.value() {
             continue;
         }
-- 
2.43.0


From 8545b7762037f155e771e4e6f0fd9a79605aaa34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:49 +0000
Subject: [PATCH 25/45] fix: support enums without variants in derive(Display)

---
 parse-display-derive/src/lib.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/parse-display-derive/src/lib.rs b/parse-display-derive/src/lib.rs
index 9ba36a1..171627a 100644
--- a/parse-display-derive/src/lib.rs
+++ b/parse-display-derive/src/lib.rs
@@ -151,9 +151,15 @@ fn derive_display_for_enum(input: &DeriveInput, data: &DataEnum) -> Result<Token
     }
     let trait_path = parse_quote!(::core::fmt::Display);
     let f = local_ident("f");
+    let value = if arms.is_empty() {
+        // A reference is always considered inhabited.
+        quote! { *self }
+    } else {
+        quote! { self }
+    };
     let contents = quote! {
         fn fmt(&self, #f: &mut ::core::fmt::Formatter) -> ::core::fmt::Result {
-            match self {
+            match #value {
                 #(#arms)*
             }
         }
-- 
2.43.0


From 124fd050562737cd50a0c4dfcce8dfb4dbe39170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:27 +0000
Subject: [PATCH 26/45] fix: accept a field's regex that ends in a comment

---
 parse-display-derive/src/parser_builder.rs | 17 ++++++++++-------
 parse-display-derive/src/regex_utils.rs    |  9 ++++++++-
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/parse-display-derive/src/parser_builder.rs b/parse-display-derive/src/parser_builder.rs
index 4d51b5b..a296d89 100644
--- a/parse-display-derive/src/parser_builder.rs
+++ b/parse-display-derive/src/parser_builder.rs
@@ -157,7 +157,7 @@ impl<'a> ParserBuilder<'a> {
         let mut has_capture = false;
         let mut has_capture_empty = false;
         let mut p = "";
-        let mut text = try_replace_all(regex_capture, &text, |c: &Captures| -> Result<String> {
+        let text = try_replace_all(regex_capture, &text, |c: &Captures| -> Result<String> {
             if !is_group.next().unwrap() {
                 return Ok(c[0].to_owned());
             }
@@ -197,7 +197,9 @@ impl<'a> ParserBuilder<'a> {
                     return self.push_format(format, vb, None, Some(&text));
                 }
                 let name = self.set_capture(vb, &[], s.span())?;
-                text = format!("(?<{name}>{text})");
+                let hir = to_hir_with_capture(&text, name, s.span())?;
+                self.parse_format.push_hir(hir);
+                return Ok(());
             }
         }
         self.parse_format.push_hir(to_hir(&text, s.span())?);
@@ -235,10 +237,10 @@ impl<'a> ParserBuilder<'a> {
                         continue;
                     }
                     let c = self.set_capture(vb, &keys, format.span)?;
-                    let mut f = format!("(?<{c}>(?s:.*?))");
+                    let mut f = "(?s:.*?)";
                     if keys.is_empty() {
                         if let Some(regex) = regex {
-                            f = format!("(?<{c}>{regex})");
+                            f = regex;
                         }
                         if let Some(with_expr) = with {
                             match vb {
@@ -247,15 +249,16 @@ impl<'a> ParserBuilder<'a> {
                                 VarBase::Field { field, key, .. } => {
                                     let ty =
                                         self.fields.get(key).map_or(&field.ty, |f| f.value_ty());
-                                    self.with.push(With::new(c, key, with_expr, ty));
+                                    self.with.push(With::new(c.clone(), key, with_expr, ty));
                                 }
                                 VarBase::FieldSome { key, ty } => {
-                                    self.with.push(With::new(c, key, with_expr, ty));
+                                    self.with.push(With::new(c.clone(), key, with_expr, ty));
                                 }
                             }
                         }
                     }
-                    self.parse_format.push_hir(to_hir(&f, format.span)?);
+                    let hir = to_hir_with_capture(f, c, format.span)?;
+                    self.parse_format.push_hir(hir);
                 }
             }
         }
diff --git a/parse-display-derive/src/regex_utils.rs b/parse-display-derive/src/regex_utils.rs
index bdd3e00..0c50853 100644
--- a/parse-display-derive/src/regex_utils.rs
+++ b/parse-display-derive/src/regex_utils.rs
@@ -1,13 +1,20 @@
 use proc_macro2::Span;
 use regex::{Captures, Regex};
 use regex_syntax::ast::Ast;
-use regex_syntax::hir::Hir;
+use regex_syntax::hir::{Capture, Hir};
 
 pub fn to_hir(s: &str, span: Span) -> syn::Result<Hir> {
     regex_syntax::Parser::new()
         .parse(s)
         .map_err(|e| syn::Error::new(span, e))
 }
+pub fn to_hir_with_capture(s: &str, name: String, span: Span) -> syn::Result<Hir> {
+    Ok(Hir::capture(Capture {
+        index: 1,
+        name: Some(name.into()),
+        sub: Box::new(to_hir(s, span)?),
+    }))
+}
 pub fn to_hir_with_expand(s: &str, name: &str, value: &str, span: Span) -> syn::Result<Hir> {
     let mut ast = to_ast(s);
     expand_capture(&mut ast, |group_name| {
-- 
2.43.0


From 7d78b3ca7c8b835aeee506dfe43857cdb97c0f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:54 +0000
Subject: [PATCH 27/45] fix: take groups with non-ASCII names in a regex for
 the fields they name

---
 parse-display-derive/src/parser_builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse-display-derive/src/parser_builder.rs b/parse-display-derive/src/parser_builder.rs
index a296d89..b1aeb52 100644
--- a/parse-display-derive/src/parser_builder.rs
+++ b/parse-display-derive/src/parser_builder.rs
@@ -128,7 +128,7 @@ impl<'a> ParserBuilder<'a> {
         const IDX_KEY: usize = 3;
 
         let regex_number = regex!("^[0-9]");
-        let regex_capture = regex!(r"(?<esc>\\*)\(\?(?<p>P?)<(?<key>[_0-9a-zA-Z.]*)>");
+        let regex_capture = regex!(r"(?<esc>\\*)\(\?(?<p>P?)<(?<key>[\w.\[\]]*)>");
 
         let text = s.value();
         let mut starts_debug = Vec::new();
-- 
2.43.0


From d857405c5d62e2abf498b6d0a3022ba4b85ce689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:32 +0000
Subject: [PATCH 28/45] fix: require FromStrRegex of the type of a generic
 field with regex_infer

---
 parse-display-derive/src/parser_builder.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/parse-display-derive/src/parser_builder.rs b/parse-display-derive/src/parser_builder.rs
index b1aeb52..22a7f89 100644
--- a/parse-display-derive/src/parser_builder.rs
+++ b/parse-display-derive/src/parser_builder.rs
@@ -517,7 +517,8 @@ impl<'a> ParserBuilder<'a> {
         }
         for (index, field) in self.fields.values().enumerate() {
             let mut bounds = bounds.child(field.hattrs.bound_from_str_resolved());
-            if bounds.can_extend && field.capture.is_some() && field.hattrs.with.is_none() {
+            let is_default_format = field.hattrs.with.is_none() || field.is_regex_infer;
+            if bounds.can_extend && field.capture.is_some() && is_default_format {
                 let mut ty = &field.source.ty;
                 if field.hattrs.opt.value() {
                     if let Some(opt_ty) = get_option_element(ty) {
@@ -528,7 +529,14 @@ impl<'a> ParserBuilder<'a> {
                     }
                 }
                 if generics.contains_in_type(ty) {
-                    bounds.ty.push(ty.clone());
+                    if field.is_regex_infer {
+                        let crate_path = self.crate_path;
+                        bounds
+                            .pred
+                            .push(parse_quote!(#ty : #crate_path::FromStrRegex));
+                    } else {
+                        bounds.ty.push(ty.clone());
+                    }
                 }
             }
         }
@@ -538,12 +546,14 @@ impl<'a> ParserBuilder<'a> {
 impl<'a> FieldEntry<'a> {
     fn new(source: &'a Field, regex_infer: bool, crate_path: &'a Path) -> Result<Self> {
         let mut hattrs = HelperAttributes::from(&source.attrs, true)?;
-        if (regex_infer || hattrs.regex_infer) && hattrs.with.is_none() {
+        let is_regex_infer = (regex_infer || hattrs.regex_infer) && hattrs.with.is_none();
+        if is_regex_infer {
             hattrs.with = Some(parse_quote!(#crate_path::helpers::RegexInfer));
         };
         let use_default = hattrs.default_self.is_some();
         Ok(Self {
             hattrs,
+            is_regex_infer,
             deep_captures: BTreeMap::new(),
             capture: None,
             use_default,
@@ -769,6 +779,7 @@ fn capture_index(idx: usize, names: &HashMap<&str, usize>) -> usize {
 
 struct FieldEntry<'a> {
     hattrs: HelperAttributes,
+    is_regex_infer: bool,
     deep_captures: BTreeMap<Vec<FieldKey>, usize>,
     source: &'a Field,
     capture: Option<usize>,
-- 
2.43.0


From 31059fee9bfb6bf2363ddc14a40931bdf18666db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:42 +0000
Subject: [PATCH 29/45] fix: parse generic fields with regex_infer by the regex
 of their own type parameters

---
 parse-display-derive/src/lib.rs            | 10 ++---
 parse-display-derive/src/parser_builder.rs | 47 +++++++++++++++++++---
 parse-display/src/helpers_std.rs           | 23 ++++++++++-
 3 files changed, 69 insertions(+), 11 deletions(-)

diff --git a/parse-display-derive/src/lib.rs b/parse-display-derive/src/lib.rs
index 171627a..d59c0fb 100644
--- a/parse-display-derive/src/lib.rs
+++ b/parse-display-derive/src/lib.rs
@@ -179,15 +179,15 @@ pub fn derive_from_str(input: proc_macro::TokenStream) -> proc_macro::TokenStrea
 }
 fn derive_from_str_for_struct(input: &DeriveInput, data: &DataStruct) -> Result<TokenStream> {
     let hattrs = HelperAttributes::from(&input.attrs, true)?;
-    let p = ParserBuilder::from_struct(&hattrs, data)?;
+    let generics = GenericParamSet::new(&input.generics);
+    let p = ParserBuilder::from_struct(&hattrs, data, &generics)?;
     let crate_path = &hattrs.crate_path;
     let warnings = hattrs.deprecated_default_fields_warnings();
     let trait_path = parse_quote!(::core::str::FromStr);
     let s = local_ident("s");
     let body = p.build_from_str_body(parse_quote!(Self))?;
-    let generics = GenericParamSet::new(&input.generics);
     let mut bounds = Bounds::from_data(hattrs.bound_from_str_resolved());
-    p.build_bounds(&generics, &mut bounds)?;
+    p.build_bounds(&mut bounds)?;
     let wheres = bounds.build_wheres(&trait_path);
     let mut ts = TokenStream::new();
     ts.extend(impl_trait(
@@ -253,9 +253,9 @@ fn derive_from_str_for_enum(input: &DeriveInput, data: &DataEnum) -> Result<Toke
         }
         let variant_ident = &variant.ident;
         let constructor = parse_quote!(Self::#variant_ident);
-        let p = ParserBuilder::from_variant(&hattrs_variant, &hattrs_enum, variant)?;
+        let p = ParserBuilder::from_variant(&hattrs_variant, &hattrs_enum, variant, &generics)?;
         let mut bounds = bounds.child(hattrs_variant.bound_from_str_resolved());
-        p.build_bounds(&generics, &mut bounds)?;
+        p.build_bounds(&mut bounds)?;
         match p.build_parse_variant_code(constructor)? {
             ParseVariantCode::MatchArm(arm) => arms.push(arm),
             ParseVariantCode::Statement(body) => bodys.push(body),
diff --git a/parse-display-derive/src/parser_builder.rs b/parse-display-derive/src/parser_builder.rs
index 22a7f89..7020149 100644
--- a/parse-display-derive/src/parser_builder.rs
+++ b/parse-display-derive/src/parser_builder.rs
@@ -32,11 +32,17 @@ pub(crate) struct ParserBuilder<'a> {
     use_default: bool,
     span: Span,
     new_expr: Option<Expr>,
+    generics: &'a GenericParamSet,
     crate_path: &'a Path,
 }
 
 impl<'a> ParserBuilder<'a> {
-    fn new(source: &'a Fields, regex_infer: bool, crate_path: &'a Path) -> Result<Self> {
+    fn new(
+        source: &'a Fields,
+        regex_infer: bool,
+        generics: &'a GenericParamSet,
+        crate_path: &'a Path,
+    ) -> Result<Self> {
         let mut fields = BTreeMap::new();
         for (key, field) in field_map(source) {
             fields.insert(key, FieldEntry::new(field, regex_infer, crate_path)?);
@@ -50,11 +56,21 @@ impl<'a> ParserBuilder<'a> {
             use_default: false,
             span: Span::call_site(),
             new_expr: None,
+            generics,
             crate_path,
         })
     }
-    pub fn from_struct(hattrs: &'a HelperAttributes, data: &'a DataStruct) -> Result<Self> {
-        let mut s = Self::new(&data.fields, hattrs.regex_infer, &hattrs.crate_path)?;
+    pub fn from_struct(
+        hattrs: &'a HelperAttributes,
+        data: &'a DataStruct,
+        generics: &'a GenericParamSet,
+    ) -> Result<Self> {
+        let mut s = Self::new(
+            &data.fields,
+            hattrs.regex_infer,
+            generics,
+            &hattrs.crate_path,
+        )?;
         let vb = VarBase::Struct { data };
         s.new_expr.clone_from(&hattrs.new_expr);
         s.apply_attrs(hattrs)?;
@@ -65,10 +81,12 @@ impl<'a> ParserBuilder<'a> {
         hattrs_variant: &HelperAttributes,
         hattrs_enum: &'a HelperAttributes,
         variant: &'a Variant,
+        generics: &'a GenericParamSet,
     ) -> Result<Self> {
         let mut s = Self::new(
             &variant.fields,
             hattrs_enum.regex_infer || hattrs_variant.regex_infer,
+            generics,
             &hattrs_enum.crate_path,
         )?;
         let vb = VarBase::Variant {
@@ -437,6 +455,8 @@ impl<'a> ParserBuilder<'a> {
         let helpers = quote!( #crate_path::helpers );
         let p = local_ident("p");
         let mut debug_asserts = Vec::new();
+        let mut regexes = Vec::new();
+        let mut is_generic_infer = false;
         for (
             index,
             With {
@@ -447,9 +467,16 @@ impl<'a> ParserBuilder<'a> {
             },
         ) in self.with.iter().enumerate()
         {
+            regexes.push(quote_spanned! {expr.span()=>
+                #helpers::to_regex::<#ty, _>(&#expr)
+            });
             with.push(quote_spanned! {expr.span()=>
                 (#capture, #helpers::to_ast::<#ty, _>(&#expr))
             });
+            if self.fields[key].is_regex_infer && self.generics.contains_in_type(ty) {
+                is_generic_infer = true;
+                continue;
+            }
             let msg =
                 format!("The regex for the field `{key}` varies depending on the type parameter.");
             debug_asserts.push(quote_spanned! {expr.span()=>
@@ -459,6 +486,7 @@ impl<'a> ParserBuilder<'a> {
         Ok(ParserInit {
             expr: quote!(#helpers::Parser::new(#regex, &mut [#(#with,)*])),
             debug_asserts,
+            regexes: is_generic_infer.then_some(regexes),
         })
     }
     fn build_parse_code(&self, constructor: Path) -> Result<TokenStream> {
@@ -469,10 +497,16 @@ impl<'a> ParserBuilder<'a> {
                 let ParserInit {
                     expr,
                     debug_asserts,
+                    regexes,
                 } = self.build_parser_init(&hirs_with_start_end(hirs))?;
                 let crate_path = self.crate_path;
                 let p = local_ident("p");
                 let c = local_ident("c");
+                let select = regexes.map(|regexes| {
+                    quote! {
+                        let #p = #p.select(&[#(#regexes,)*], || #expr);
+                    }
+                });
                 quote! {
                     #[allow(clippy::trivial_regex)]
                     let #p = {
@@ -481,6 +515,7 @@ impl<'a> ParserBuilder<'a> {
                     }
                     .get_or_init(|| #expr);
                     #(#debug_asserts)*
+                    #select
                     if let ::core::option::Option::Some(#c) = #p.re.captures(&#s) {
                          #code
                     }
@@ -511,7 +546,7 @@ impl<'a> ParserBuilder<'a> {
         Ok(())
     }
 
-    pub fn build_bounds(&self, generics: &GenericParamSet, bounds: &mut Bounds) -> Result<()> {
+    pub fn build_bounds(&self, bounds: &mut Bounds) -> Result<()> {
         if !bounds.can_extend {
             return Ok(());
         }
@@ -528,7 +563,7 @@ impl<'a> ParserBuilder<'a> {
                         bail!(ty.span(), "field `{key}` is not a option type.");
                     }
                 }
-                if generics.contains_in_type(ty) {
+                if self.generics.contains_in_type(ty) {
                     if field.is_regex_infer {
                         let crate_path = self.crate_path;
                         bounds
@@ -722,6 +757,8 @@ impl Default for ParseFormat {
 struct ParserInit {
     expr: TokenStream,
     debug_asserts: Vec<TokenStream>,
+    /// The regexes that the parser must have been built from, if they depend on the type parameters.
+    regexes: Option<Vec<TokenStream>>,
 }
 
 fn build_parse_capture_expr(
diff --git a/parse-display/src/helpers_std.rs b/parse-display/src/helpers_std.rs
index 688374f..c6d299c 100644
--- a/parse-display/src/helpers_std.rs
+++ b/parse-display/src/helpers_std.rs
@@ -1,5 +1,6 @@
 use core::mem;
 use std::collections::HashMap;
+use std::sync::OnceLock;
 use std::{borrow::Cow, fmt};
 
 use regex::Regex;
@@ -61,6 +62,7 @@ pub struct Parser {
     pub re: Regex,
     pub re_str: String,
     pub ss: Vec<Option<String>>,
+    next: OnceLock<Box<Parser>>,
 }
 impl Parser {
     #[track_caller]
@@ -102,7 +104,26 @@ impl Parser {
         })
         .unwrap();
         let re_str = ast.to_string();
-        Self { re, re_str, ss }
+        let next = OnceLock::new();
+        Self {
+            re,
+            re_str,
+            ss,
+            next,
+        }
+    }
+
+    /// Returns the parser built from the regexes `ss`, which is built by `new` if it is not there yet.
+    pub fn select(&self, ss: &[Option<String>], new: impl Fn() -> Self) -> &Self {
+        let mut p = self;
+        let mut is_new = false;
+        while p.ss != ss && !is_new {
+            p = p.next.get_or_init(|| {
+                is_new = true;
+                Box::new(new())
+            });
+        }
+        p
     }
 }
 
-- 
2.43.0


From 88f7592c4c78bb27dbde213eb4bf6cbd10124ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:04 +0000
Subject: [PATCH 30/45] fix: accept opt on an Option type that comes from a
 macro_rules fragment

---
 parse-display-derive/src/syn_utils.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parse-display-derive/src/syn_utils.rs b/parse-display-derive/src/syn_utils.rs
index 13afffe..188023f 100644
--- a/parse-display-derive/src/syn_utils.rs
+++ b/parse-display-derive/src/syn_utils.rs
@@ -184,6 +184,11 @@ pub fn dump_if(dump: bool, ts: &TokenStream) {
 }
 
 pub fn get_arguments_of<'a>(ty: &'a Type, ns: &[&[&str]], name: &str) -> Option<&'a PathArguments> {
+    let mut ty = ty;
+    // A type that comes from a `$t:ty` of `macro_rules!` is wrapped in a group.
+    while let Type::Group(group) = ty {
+        ty = &group.elem;
+    }
     if let Type::Path(ty) = ty {
         if ty.qself.is_some() {
             return None;
-- 
2.43.0


From bcd1248db6d544364b8b48b9510c4c49731ad8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:20 +0000
Subject: [PATCH 31/45] fix: keep local variables of the generated code apart
 from constants and statics named like them

---
 parse-display-derive/src/parser_builder.rs | 11 ++++++-----
 parse-display-derive/src/syn_utils.rs      |  4 +++-
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/parse-display-derive/src/parser_builder.rs b/parse-display-derive/src/parser_builder.rs
index 7020149..0d7bc1c 100644
--- a/parse-display-derive/src/parser_builder.rs
+++ b/parse-display-derive/src/parser_builder.rs
@@ -8,7 +8,7 @@ use crate::{
     syn_utils::*,
 };
 use proc_macro2::{Span, TokenStream};
-use quote::{format_ident, quote, quote_spanned};
+use quote::{quote, quote_spanned};
 use regex::{Captures, Regex};
 use regex_syntax::{
     escape,
@@ -19,7 +19,7 @@ use std::{
     mem,
 };
 use syn::{
-    DataStruct, Expr, Field, Fields, Ident, LitStr, Path, Result, Type, Variant, parse_quote,
+    DataStruct, Expr, Field, Fields, LitStr, Path, Result, Type, Variant, parse_quote,
     spanned::Spanned,
 };
 
@@ -354,7 +354,8 @@ impl<'a> ParserBuilder<'a> {
     pub fn build_parse_variant_code(&self, constructor: Path) -> Result<ParseVariantCode> {
         match &self.parse_format {
             ParseFormat::Hirs(_) => {
-                let fn_ident: Ident = format_ident!("parse_variant");
+                let fn_ident = local_ident("parse_variant");
+                let value = local_ident("value");
                 let s = local_ident("s");
                 let crate_path = self.crate_path;
                 let code = self.build_from_str_body(constructor)?;
@@ -362,8 +363,8 @@ impl<'a> ParserBuilder<'a> {
                     let #fn_ident = |#s: &str| -> ::core::result::Result<Self, #crate_path::ParseError> {
                         #code
                     };
-                    if let ::core::result::Result::Ok(value) = #fn_ident(#s) {
-                        return ::core::result::Result::Ok(value);
+                    if let ::core::result::Result::Ok(#value) = #fn_ident(#s) {
+                        return ::core::result::Result::Ok(#value);
                     }
                 };
                 Ok(ParseVariantCode::Statement(code))
diff --git a/parse-display-derive/src/syn_utils.rs b/parse-display-derive/src/syn_utils.rs
index 188023f..bc9842c 100644
--- a/parse-display-derive/src/syn_utils.rs
+++ b/parse-display-derive/src/syn_utils.rs
@@ -82,8 +82,10 @@ impl GenericParamSet {
 }
 
 /// Creates the name of a local variable of the generated code that cannot collide with names written by the user.
+///
+/// Hygiene does not keep it apart from constants, statics and unit structs, so it also has a prefix.
 pub fn local_ident(name: &str) -> Ident {
-    Ident::new(name, Span::mixed_site())
+    Ident::new(&format!("__{name}"), Span::mixed_site())
 }
 
 pub enum Quotable<T> {
-- 
2.43.0


From 692173d3d43d5c1ba53cc7ee83ea82253f634462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:27 +0000
Subject: [PATCH 32/45] fix: do not take a user's type named str for the
 primitive in derive(FromStr)

---
 parse-display-derive/src/lib.rs            | 4 ++--
 parse-display-derive/src/parser_builder.rs | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/parse-display-derive/src/lib.rs b/parse-display-derive/src/lib.rs
index d59c0fb..ada53fa 100644
--- a/parse-display-derive/src/lib.rs
+++ b/parse-display-derive/src/lib.rs
@@ -196,7 +196,7 @@ fn derive_from_str_for_struct(input: &DeriveInput, data: &DataStruct) -> Result<
         &wheres,
         quote! {
             type Err = #crate_path::ParseError;
-            fn from_str(#s: &str) -> ::core::result::Result<Self, Self::Err> {
+            fn from_str(#s: &::core::primitive::str) -> ::core::result::Result<Self, Self::Err> {
                 #warnings
                 #body
             }
@@ -283,7 +283,7 @@ fn derive_from_str_for_enum(input: &DeriveInput, data: &DataEnum) -> Result<Toke
         &wheres,
         quote! {
             type Err = #crate_path::ParseError;
-            fn from_str(#s: &str) -> ::core::result::Result<Self, #crate_path::ParseError> {
+            fn from_str(#s: &::core::primitive::str) -> ::core::result::Result<Self, #crate_path::ParseError> {
                 #warnings
                 #match_body
                 #({ #bodys })*
diff --git a/parse-display-derive/src/parser_builder.rs b/parse-display-derive/src/parser_builder.rs
index 0d7bc1c..7f42a8e 100644
--- a/parse-display-derive/src/parser_builder.rs
+++ b/parse-display-derive/src/parser_builder.rs
@@ -360,7 +360,7 @@ impl<'a> ParserBuilder<'a> {
                 let crate_path = self.crate_path;
                 let code = self.build_from_str_body(constructor)?;
                 let code = quote! {
-                    let #fn_ident = |#s: &str| -> ::core::result::Result<Self, #crate_path::ParseError> {
+                    let #fn_ident = |#s: &::core::primitive::str| -> ::core::result::Result<Self, #crate_path::ParseError> {
                         #code
                     };
                     if let ::core::result::Result::Ok(#value) = #fn_ident(#s) {
-- 
2.43.0


From f4454d9617666b2783a0235c85e2594cac5a514d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:02 +0000
Subject: [PATCH 33/45] fix: keep closure parameters of the generated code
 apart from items named like them

---
 parse-display-derive/src/lib.rs            |  2 +-
 parse-display-derive/src/parser_builder.rs | 19 +++++++++++--------
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/parse-display-derive/src/lib.rs b/parse-display-derive/src/lib.rs
index ada53fa..0b8eea4 100644
--- a/parse-display-derive/src/lib.rs
+++ b/parse-display-derive/src/lib.rs
@@ -938,7 +938,7 @@ impl VarBase<'_> {
             };
             let crate_path = cx.crate_path;
             let in_expr = self.field_expr(key);
-            let formatter_ident = Ident::new("_formatter", Span::call_site());
+            let formatter_ident = local_ident("formatter");
             let vb = VarBase::FieldSome { key, ty: inner_ty };
             let out_expr = vb.format_arg_from_some_format(
                 hattrs.format,
diff --git a/parse-display-derive/src/parser_builder.rs b/parse-display-derive/src/parser_builder.rs
index 7f42a8e..82a73ec 100644
--- a/parse-display-derive/src/parser_builder.rs
+++ b/parse-display-derive/src/parser_builder.rs
@@ -408,9 +408,10 @@ impl<'a> ParserBuilder<'a> {
                 code.extend(quote! { let #var = #expr; });
             }
             let crate_path = self.crate_path;
+            let value = local_ident("value");
             code.extend(quote! {
-                if let ::core::result::Result::Ok(value) = #crate_path::IntoResult::into_result(#new_expr) {
-                    return ::core::result::Result::Ok(value);
+                if let ::core::result::Result::Ok(#value) = #crate_path::IntoResult::into_result(#new_expr) {
+                    return ::core::result::Result::Ok(#value);
                 }
             });
             code
@@ -770,25 +771,27 @@ fn build_parse_capture_expr(
 ) -> Result<TokenStream> {
     let msg = format!("field `{field_name}` parse failed.");
     let c = local_ident("c");
-    let e = if let Some(field) = field {
+    let m = local_ident("m");
+    let e = local_ident("e");
+    let value = if let Some(field) = field {
         if field.hattrs.opt.value() {
             let s = local_ident("s");
-            let e = str_expr_to_parse_capture_expr(quote!(#s), field, crate_path);
+            let value = str_expr_to_parse_capture_expr(quote!(#s), field, crate_path);
             quote! {
-                #c.get(#capture_index).map(|m| m.as_str()).map(|#s| #e).transpose()
+                #c.get(#capture_index).map(|#m| #m.as_str()).map(|#s| #value).transpose()
             }
         } else {
             str_expr_to_parse_capture_expr(
-                quote!(#c.get(#capture_index).map_or("", |m| m.as_str())),
+                quote!(#c.get(#capture_index).map_or("", |#m| #m.as_str())),
                 field,
                 crate_path,
             )
         }
     } else {
-        quote!(#c.get(#capture_index).map_or("", |m| m.as_str()).parse())
+        quote!(#c.get(#capture_index).map_or("", |#m| #m.as_str()).parse())
     };
     Ok(quote! {
-        #e.map_err(|e| #crate_path::ParseError::with_message(#msg))?
+        #value.map_err(|#e| #crate_path::ParseError::with_message(#msg))?
     })
 }
 fn str_expr_to_parse_capture_expr(
-- 
2.43.0


From 6f4189292c3f3cfbff5ce4dcf5ea4863437d80b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:29 +0000
Subject: [PATCH 34/45] fix: resolve self in the generated code also when the
 format comes from a macro_rules fragment

---
 parse-display-derive/src/lib.rs            | 12 +++++++++++-
 parse-display-derive/src/parser_builder.rs |  5 ++---
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/parse-display-derive/src/lib.rs b/parse-display-derive/src/lib.rs
index 0b8eea4..52de0b8 100644
--- a/parse-display-derive/src/lib.rs
+++ b/parse-display-derive/src/lib.rs
@@ -770,7 +770,7 @@ impl DisplayFormat {
                         let crate_path = &cx.crate_path;
                         expr = quote!(#crate_path::helpers::fmt_pointer(#expr));
                     }
-                    expr = set_span(expr, self.span);
+                    expr = locate_at(expr, self.span);
                     format_args.push(expr);
                 }
             }
@@ -1239,6 +1239,16 @@ fn set_span(ts: TokenStream, span: Span) -> TokenStream {
         .collect()
 }
 
+/// Changes where the tokens are reported, but not how their names are resolved.
+fn locate_at(ts: TokenStream, span: Span) -> TokenStream {
+    ts.into_iter()
+        .map(|mut ts| {
+            ts.set_span(ts.span().located_at(span));
+            ts
+        })
+        .collect()
+}
+
 fn unref_ty(ty: &Type) -> Type {
     if let Type::Reference(ty) = ty {
         unref_ty(&ty.elem)
diff --git a/parse-display-derive/src/parser_builder.rs b/parse-display-derive/src/parser_builder.rs
index 82a73ec..f0ae341 100644
--- a/parse-display-derive/src/parser_builder.rs
+++ b/parse-display-derive/src/parser_builder.rs
@@ -2,9 +2,8 @@ use crate::{
     Bounds, DisplayFormat, DisplayFormatPart, DisplayStyle, FieldKey, HelperAttributes, VarBase,
     With, field_map,
     format_syntax::{FormatSpec, FormatType},
-    get_option_element, join,
+    get_option_element, join, locate_at,
     regex_utils::*,
-    set_span,
     syn_utils::*,
 };
 use proc_macro2::{Span, TokenStream};
@@ -804,7 +803,7 @@ fn str_expr_to_parse_capture_expr(
         let expr = quote! {
             #crate_path::helpers::parse_with::<#ty, _>(#with, #str_expr)
         };
-        set_span(expr, with.span())
+        locate_at(expr, with.span())
     } else {
         quote!(#str_expr.parse())
     }
-- 
2.43.0


From 5f322b4546482ce1064990cee0b9308f7417c023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:40 +0000
Subject: [PATCH 35/45] fix: do not let fields with new hide items used by the
 attributes of following fields

---
 parse-display-derive/src/parser_builder.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/parse-display-derive/src/parser_builder.rs b/parse-display-derive/src/parser_builder.rs
index f0ae341..cbd0582 100644
--- a/parse-display-derive/src/parser_builder.rs
+++ b/parse-display-derive/src/parser_builder.rs
@@ -400,20 +400,21 @@ impl<'a> ParserBuilder<'a> {
         }
 
         let code = if let Some(new_expr) = &self.new_expr {
-            let mut code = TokenStream::new();
+            let mut vars = Vec::new();
+            let mut exprs = Vec::new();
             for (key, field) in &self.fields {
-                let expr = field.build_field_init_expr(&names, key, self.span)?;
-                let var = key.new_arg_var();
-                code.extend(quote! { let #var = #expr; });
+                exprs.push(field.build_field_init_expr(&names, key, self.span)?);
+                vars.push(key.new_arg_var());
             }
             let crate_path = self.crate_path;
             let value = local_ident("value");
-            code.extend(quote! {
+            quote! {
+                // The variables must not be visible to the expressions of the following fields.
+                let (#(#vars,)*) = (#(#exprs,)*);
                 if let ::core::result::Result::Ok(#value) = #crate_path::IntoResult::into_result(#new_expr) {
                     return ::core::result::Result::Ok(#value);
                 }
-            });
-            code
+            }
         } else if self.use_default {
             let value = local_ident("value");
             let mut setters = Vec::new();
-- 
2.43.0


From cf595da168994f00ddba91a4e1d8ddaa1eff4086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:44 +0000
Subject: [PATCH 36/45] fix: let new see fields named by a macro_rules fragment

---
 parse-display-derive/src/parser_builder.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parse-display-derive/src/parser_builder.rs b/parse-display-derive/src/parser_builder.rs
index cbd0582..7a8a8de 100644
--- a/parse-display-derive/src/parser_builder.rs
+++ b/parse-display-derive/src/parser_builder.rs
@@ -404,7 +404,10 @@ impl<'a> ParserBuilder<'a> {
             let mut exprs = Vec::new();
             for (key, field) in &self.fields {
                 exprs.push(field.build_field_init_expr(&names, key, self.span)?);
-                vars.push(key.new_arg_var());
+                vars.push(match &field.source.ident {
+                    Some(ident) => ident.clone(),
+                    None => key.new_arg_var(),
+                });
             }
             let crate_path = self.crate_path;
             let value = local_ident("value");
-- 
2.43.0


From ae1d81b92bbddc6912fec41aae53fa3fe92fc28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:23 +0000
Subject: [PATCH 37/45] fix: let a refused release request change nothing

The manifests, the lock file and the documents were already written when
the changelog (or git, or the date) turned out to refuse the request.
---
 .../scripts/prepare_release.rs                | 48 ++++++++++++-------
 1 file changed, 32 insertions(+), 16 deletions(-)

diff --git a/.codex/skills/prepare-release/scripts/prepare_release.rs b/.codex/skills/prepare-release/scripts/prepare_release.rs
index 877e1fb..a4da374 100644
--- a/.codex/skills/prepare-release/scripts/prepare_release.rs
+++ b/.codex/skills/prepare-release/scripts/prepare_release.rs
@@ -60,29 +60,52 @@ fn run() -> Result<(), String> {
         return Err("version must be explicit x.y.z, for example 0.11.0".to_owned());
     }
 
+    // Goes through the whole update first, so that a refused request changes nothing.
+    let (changed, derive_changed) = update_files(&root, &current_version, &version, true)?;
+    if !dry_run {
+        update_files(&root, &current_version, &version, false)?;
+    }
+
+    let mode = if dry_run { "Would update" } else { "Updated" };
+    println!("{mode} release files for parse-display {version}.");
+    println!("parse-display-derive changed since previous version commit: {derive_changed}");
+    for path in changed {
+        println!("{}", relative_slash(&root, &path));
+    }
+
+    Ok(())
+}
+
+fn update_files(
+    root: &Path,
+    current_version: &str,
+    version: &str,
+    dry_run: bool,
+) -> Result<(Vec<PathBuf>, bool), String> {
+    let parse_display_manifest = root.join("parse-display").join("Cargo.toml");
     let derive_manifest = root.join("parse-display-derive").join("Cargo.toml");
     let lockfile = root.join("Cargo.lock");
 
     let previous_version = previous_changelog_version(&root.join("CHANGELOG.md"))?;
-    let derive_changed = derive_changed_since_last_version(&root)?;
+    let derive_changed = derive_changed_since_last_version(root)?;
 
     let mut changed = Vec::new();
-    set_package_version(&parse_display_manifest, &version, dry_run, &mut changed)?;
-    set_lock_package_version(&lockfile, "parse-display", &version, dry_run, &mut changed)?;
-    update_docs(&root, &current_version, &version, dry_run, &mut changed)?;
+    set_package_version(&parse_display_manifest, version, dry_run, &mut changed)?;
+    set_lock_package_version(&lockfile, "parse-display", version, dry_run, &mut changed)?;
+    update_docs(root, current_version, version, dry_run, &mut changed)?;
 
     if derive_changed {
-        set_package_version(&derive_manifest, &version, dry_run, &mut changed)?;
+        set_package_version(&derive_manifest, version, dry_run, &mut changed)?;
         set_parse_display_derive_dependency(
             &parse_display_manifest,
-            &version,
+            version,
             dry_run,
             &mut changed,
         )?;
         set_lock_package_version(
             &lockfile,
             "parse-display-derive",
-            &version,
+            version,
             dry_run,
             &mut changed,
         )?;
@@ -91,7 +114,7 @@ fn run() -> Result<(), String> {
     update_changelog(
         &root.join("CHANGELOG.md"),
         &previous_version,
-        &version,
+        version,
         dry_run,
         &mut changed,
     )?;
@@ -99,14 +122,7 @@ fn run() -> Result<(), String> {
     changed.sort();
     changed.dedup();
 
-    let mode = if dry_run { "Would update" } else { "Updated" };
-    println!("{mode} release files for parse-display {version}.");
-    println!("parse-display-derive changed since previous version commit: {derive_changed}");
-    for path in changed {
-        println!("{}", relative_slash(&root, &path));
-    }
-
-    Ok(())
+    Ok((changed, derive_changed))
 }
 
 fn is_version(value: &str) -> bool {
-- 
2.43.0


From 638eeea96d2b925ce24a0e53fded2f6177f26bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:37 +0000
Subject: [PATCH 38/45] fix: leave documents without a version reference alone
 when preparing a release

Every .md and .rs file was rewritten with a single newline at its end and
without carriage returns, whether or not it named the version.
---
 .codex/skills/prepare-release/scripts/prepare_release.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/.codex/skills/prepare-release/scripts/prepare_release.rs b/.codex/skills/prepare-release/scripts/prepare_release.rs
index a4da374..5171470 100644
--- a/.codex/skills/prepare-release/scripts/prepare_release.rs
+++ b/.codex/skills/prepare-release/scripts/prepare_release.rs
@@ -369,8 +369,7 @@ fn update_doc_text(text: &str, old_version: &str, version: &str) -> String {
     let docs_after = format!("docs.rs/parse-display/{version}/");
     let mut in_deprecated_section = false;
 
-    let lines = text
-        .lines()
+    text.split_inclusive('\n')
         .map(|line| {
             let doc_line = markdown_text(line);
             if doc_line.starts_with("## ") {
@@ -384,9 +383,7 @@ fn update_doc_text(text: &str, old_version: &str, version: &str) -> String {
             }
             line
         })
-        .collect::<Vec<_>>();
-
-    finish(lines)
+        .collect()
 }
 
 fn markdown_text(line: &str) -> &str {
-- 
2.43.0


From 531d661ea958b741a822b3c9a1bf74ebccf3a149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:14 +0000
Subject: [PATCH 39/45] fix: give enums without a variant to parse a regex that
 matches nothing

---
 parse-display-derive/src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/parse-display-derive/src/lib.rs b/parse-display-derive/src/lib.rs
index 52de0b8..ddc6943 100644
--- a/parse-display-derive/src/lib.rs
+++ b/parse-display-derive/src/lib.rs
@@ -297,7 +297,12 @@ fn derive_from_str_for_enum(input: &DeriveInput, data: &DataEnum) -> Result<Toke
                 .into_iter()
                 .map(|s| escape(&s.unwrap()))
                 .collect::<Vec<_>>();
-            let s = fmts.join("|");
+            let s = if fmts.is_empty() {
+                // No variant can be parsed, so the regex must not match anything, not even the empty string.
+                r"[^\s\S]".to_string()
+            } else {
+                fmts.join("|")
+            };
             quote! { ::std::string::ToString::to_string(#s) }
         } else {
             let fmts = regex_fmts
-- 
2.43.0


From dcd39927ad386eff7b0f18d9ccbf9878fe3ad509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:57 +0000
Subject: [PATCH 40/45] fix: an optional repetition in a regex is not turned
 into a lazy one

---
 parse-display-derive/src/regex_utils.rs | 34 +++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/parse-display-derive/src/regex_utils.rs b/parse-display-derive/src/regex_utils.rs
index 0c50853..b171125 100644
--- a/parse-display-derive/src/regex_utils.rs
+++ b/parse-display-derive/src/regex_utils.rs
@@ -1,7 +1,7 @@
 use proc_macro2::Span;
 use regex::{Captures, Regex};
 use regex_syntax::ast::Ast;
-use regex_syntax::hir::{Capture, Hir};
+use regex_syntax::hir::{Capture, Hir, HirKind, Literal, Repetition};
 
 pub fn to_hir(s: &str, span: Span) -> syn::Result<Hir> {
     regex_syntax::Parser::new()
@@ -45,7 +45,37 @@ pub fn hirs_with_start_end(hirs: &[Hir]) -> Vec<Hir> {
     hs
 }
 pub fn to_regex_string(hirs: &[Hir]) -> String {
-    Hir::concat(hirs.to_vec()).to_string()
+    expand_optional_repetition(Hir::concat(hirs.to_vec())).to_string()
+}
+/// Replaces `(?:x+)?` with `(?:x+|)`, because the former is converted to the string `x+?`.
+fn expand_optional_repetition(hir: Hir) -> Hir {
+    let to_vec = |hirs: Vec<Hir>| hirs.into_iter().map(expand_optional_repetition).collect();
+    match hir.into_kind() {
+        HirKind::Empty => Hir::empty(),
+        HirKind::Literal(Literal(bytes)) => Hir::literal(bytes),
+        HirKind::Class(class) => Hir::class(class),
+        HirKind::Look(look) => Hir::look(look),
+        HirKind::Repetition(rep) => {
+            let sub = expand_optional_repetition(*rep.sub);
+            let is_optional = rep.min == 0 && rep.max == Some(1);
+            if is_optional && matches!(sub.kind(), HirKind::Repetition(_)) {
+                Hir::alternation(if rep.greedy {
+                    vec![sub, Hir::empty()]
+                } else {
+                    vec![Hir::empty(), sub]
+                })
+            } else {
+                let sub = Box::new(sub);
+                Hir::repetition(Repetition { sub, ..rep })
+            }
+        }
+        HirKind::Capture(capture) => {
+            let sub = Box::new(expand_optional_repetition(*capture.sub));
+            Hir::capture(Capture { sub, ..capture })
+        }
+        HirKind::Concat(hirs) => Hir::concat(to_vec(hirs)),
+        HirKind::Alternation(hirs) => Hir::alternation(to_vec(hirs)),
+    }
 }
 
 fn replace_asts(asts: &mut Vec<Ast>, f: &mut impl FnMut(&mut Ast) -> bool) {
-- 
2.43.0


From a3675e17d2b301c3d1f291bbc2189495fceddf74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:46 +0000
Subject: [PATCH 41/45] fix: do not limit the size of the regex that inferred
 patterns make together

---
 parse-display/src/helpers_std.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/parse-display/src/helpers_std.rs b/parse-display/src/helpers_std.rs
index c6d299c..eb754cb 100644
--- a/parse-display/src/helpers_std.rs
+++ b/parse-display/src/helpers_std.rs
@@ -3,7 +3,7 @@ use std::collections::HashMap;
 use std::sync::OnceLock;
 use std::{borrow::Cow, fmt};
 
-use regex::Regex;
+use regex::{Regex, RegexBuilder};
 use regex_syntax::ast::{Ast, Flags, GroupKind};
 
 use crate::{ANY_REGEX, DisplayFormat, FromStrFormat, FromStrRegex};
@@ -90,7 +90,11 @@ impl Parser {
             Ok(true)
         })
         .unwrap();
-        let re = Regex::new(&ast.to_string()).unwrap();
+        // The derive macro checks the size of each pattern, but not of the pattern they make together.
+        let re = RegexBuilder::new(&ast.to_string())
+            .size_limit(usize::MAX)
+            .build()
+            .unwrap();
         replace_ast(&mut ast, &mut |ast| {
             if let Ast::Group(g) = ast {
                 if let GroupKind::CaptureName { .. } = &g.kind {
-- 
2.43.0


From 72a72177737d442eca99d7c9b2ce14eb2e043ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:21 +0000
Subject: [PATCH 42/45] fix: deriving for a deprecated type is not a use of it
 to be warned about

---
 parse-display-derive/src/syn_utils.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parse-display-derive/src/syn_utils.rs b/parse-display-derive/src/syn_utils.rs
index bc9842c..1b2e16b 100644
--- a/parse-display-derive/src/syn_utils.rs
+++ b/parse-display-derive/src/syn_utils.rs
@@ -150,7 +150,9 @@ pub fn impl_trait(
     wheres: &[WherePredicate],
     contents: TokenStream,
 ) -> TokenStream {
-    let ty = &input.ident;
+    // An identifier of the user would be reported if the type is deprecated.
+    let mut ty = input.ident.clone();
+    ty.set_span(Span::call_site().located_at(ty.span()));
     let (impl_g, ty_g, where_clause) = input.generics.split_for_impl();
     let mut wheres = wheres.to_vec();
     if let Some(where_clause) = where_clause {
-- 
2.43.0


From 77bce4ce896a6af2644fa3baefe8d1fd4ce8f4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:21 +0000
Subject: [PATCH 43/45] fix: what a type allows is allowed for the impls
 derived for it

---
 parse-display-derive/src/syn_utils.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parse-display-derive/src/syn_utils.rs b/parse-display-derive/src/syn_utils.rs
index 1b2e16b..f3400fa 100644
--- a/parse-display-derive/src/syn_utils.rs
+++ b/parse-display-derive/src/syn_utils.rs
@@ -163,8 +163,12 @@ pub fn impl_trait(
     } else {
         quote! { where #(#wheres,)*}
     };
+    // As with the standard derives, what the type allows is allowed for its impls,
+    // which repeat the generics and the types of the fields.
+    let allows = input.attrs.iter().filter(|a| a.path().is_ident("allow"));
     quote! {
         #[automatically_derived]
+        #(#allows)*
         impl #impl_g #trait_path for #ty #ty_g #where_clause {
             #contents
         }
-- 
2.43.0


From 0b2d36b9f991bc04de6aacee5228d4addbf38675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:36 +0000
Subject: [PATCH 44/45] fix: report deprecated default_fields after an argument
 that has a value

---
 parse-display-derive/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse-display-derive/src/lib.rs b/parse-display-derive/src/lib.rs
index ddc6943..cb41ce3 100644
--- a/parse-display-derive/src/lib.rs
+++ b/parse-display-derive/src/lib.rs
@@ -524,7 +524,7 @@ impl HelperAttributes {
                     .push(meta.path.span());
             }
             if meta.input.peek(Token![=]) {
-                meta.value()?.parse::<TokenStream>()?;
+                meta.value()?.parse::<Expr>()?;
             } else if meta.input.peek(syn::token::Paren) {
                 let content;
                 syn::parenthesized!(content in meta.input);
-- 
2.43.0


From e02299bae2bfe155698d0218a2e47f792959e8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:43 +0000
Subject: [PATCH 45/45] fix: a group of a regex that never takes part in a
 match does not make the derive panic

---
 parse-display-derive/src/parser_builder.rs | 28 ++++++++++------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/parse-display-derive/src/parser_builder.rs b/parse-display-derive/src/parser_builder.rs
index 7a8a8de..8844942 100644
--- a/parse-display-derive/src/parser_builder.rs
+++ b/parse-display-derive/src/parser_builder.rs
@@ -635,18 +635,15 @@ impl<'a> FieldEntry<'a> {
             ty
         }
     }
-    fn capture_index(&self, names: &HashMap<&str, usize>) -> Option<usize> {
-        Some(capture_index(self.capture?, names))
-    }
     fn build_expr(
         &self,
         names: &HashMap<&str, usize>,
         key: &FieldKey,
     ) -> Result<Option<TokenStream>> {
-        if let Some(capture_index) = self.capture_index(names) {
+        if let Some(capture) = self.capture {
             Ok(Some(build_parse_capture_expr(
                 &key.to_string(),
-                capture_index,
+                capture_index(capture, names),
                 Some(self),
                 self.crate_path,
             )?))
@@ -768,7 +765,7 @@ struct ParserInit {
 
 fn build_parse_capture_expr(
     field_name: &str,
-    capture_index: usize,
+    capture_index: Option<usize>,
     field: Option<&FieldEntry>,
     crate_path: &Path,
 ) -> Result<TokenStream> {
@@ -776,22 +773,22 @@ fn build_parse_capture_expr(
     let c = local_ident("c");
     let m = local_ident("m");
     let e = local_ident("e");
+    let text = match capture_index {
+        Some(index) => quote!(#c.get(#index).map(|#m| #m.as_str())),
+        None => quote!(::core::option::Option::None::<&::core::primitive::str>),
+    };
     let value = if let Some(field) = field {
         if field.hattrs.opt.value() {
             let s = local_ident("s");
             let value = str_expr_to_parse_capture_expr(quote!(#s), field, crate_path);
             quote! {
-                #c.get(#capture_index).map(|#m| #m.as_str()).map(|#s| #value).transpose()
+                #text.map(|#s| #value).transpose()
             }
         } else {
-            str_expr_to_parse_capture_expr(
-                quote!(#c.get(#capture_index).map_or("", |#m| #m.as_str())),
-                field,
-                crate_path,
-            )
+            str_expr_to_parse_capture_expr(quote!(#text.unwrap_or("")), field, crate_path)
         }
     } else {
-        quote!(#c.get(#capture_index).map_or("", |#m| #m.as_str()).parse())
+        quote!(#text.unwrap_or("").parse())
     };
     Ok(quote! {
         #value.map_err(|#e| #crate_path::ParseError::with_message(#msg))?
@@ -817,8 +814,9 @@ const CAPTURE_NAME_EMPTY: &str = "empty";
 fn capture_name(idx: usize) -> String {
     format!("value_{idx}")
 }
-fn capture_index(idx: usize, names: &HashMap<&str, usize>) -> usize {
-    names[capture_name(idx).as_str()]
+/// `None` if the group never takes part in a match and the regex is simplified to one without it, like `(?<a>x){0}`.
+fn capture_index(idx: usize, names: &HashMap<&str, usize>) -> Option<usize> {
+    names.get(capture_name(idx).as_str()).copied()
 }
 
 struct FieldEntry<'a> {
-- 
2.43.0

