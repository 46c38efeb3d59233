From d5b306e7c9179fe8dd05d1855abb1b1ee16b4b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:34 +0000
Subject: [PATCH 01/12] fix: keep `self` in restricted visibilities of
 annotated items

The receiver-replacing visitor also visited visibilities, so `pub(self)`
on an annotated type or one of its fields was rewritten to `pub(__self)`
and failed to compile.
---
 pin-project-internal/src/utils.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pin-project-internal/src/utils.rs b/pin-project-internal/src/utils.rs
index 2e66247..76c3228 100644
--- a/pin-project-internal/src/utils.rs
+++ b/pin-project-internal/src/utils.rs
@@ -330,6 +330,9 @@ impl VisitMut for ReplaceReceiver<'_> {
         }
     }
 
+    // `self` in `pub(self)` and `pub(in self::path)` is a module, not a receiver.
+    fn visit_visibility_mut(&mut self, _vis: &mut Visibility) {}
+
     fn visit_item_mut(&mut self, item: &mut Item) {
         match item {
             // Visit `macro_rules!` because locally defined macros can refer to `self`.
-- 
2.43.0


From c320984ee7ca4bc00d8cb7a4ad23138b486767a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:31 +0000
Subject: [PATCH 02/12] fix: keep `self::` paths in macro calls in pinned_drop
 bodies

`self` in macro arguments was always taken for the receiver, so
`assert!(self::check())` was rewritten to `__self::check()` and failed to
compile, unlike in any other position or in an ordinary method.
---
 pin-project-internal/src/utils.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pin-project-internal/src/utils.rs b/pin-project-internal/src/utils.rs
index 76c3228..46dd107 100644
--- a/pin-project-internal/src/utils.rs
+++ b/pin-project-internal/src/utils.rs
@@ -233,6 +233,10 @@ impl ReplaceReceiver<'_> {
         let mut iter = tokens.clone().into_iter().peekable();
         while let Some(tt) = iter.next() {
             match tt {
+                TokenTree::Ident(ident) if ident == "self" && is_path_sep(&iter) => {
+                    // `self::path` refers to the module.
+                    out.push(TokenTree::Ident(ident));
+                }
                 TokenTree::Ident(mut ident) => {
                     modified |= prepend_underscore_to_self(&mut ident);
                     if ident == "Self" {
@@ -356,6 +360,13 @@ impl VisitMut for ReplaceReceiver<'_> {
     }
 }
 
+/// Returns `true` if the next tokens are `::`.
+fn is_path_sep(iter: &(impl Iterator<Item = TokenTree> + Clone)) -> bool {
+    let mut iter = iter.clone();
+    let mut is_colon = || matches!(iter.next(), Some(TokenTree::Punct(p)) if p.as_char() == ':');
+    is_colon() && is_colon()
+}
+
 fn contains_fn(tokens: TokenStream) -> bool {
     tokens.into_iter().any(|tt| match tt {
         TokenTree::Ident(ident) => ident == "fn",
-- 
2.43.0


From 10c39a8cd295c0d4b6a2d7d0cf078f170594a360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:14 +0000
Subject: [PATCH 03/12] fix: accept `Self` patterns and struct expressions in
 macro calls in pinned_drop bodies

`matches!(&*self, Self::Variant(..))` expanded to the unstable
`<Type<T>>::Variant(..)` and `Self { .. }` to `Type<T> { .. }` without
turbofish, so both failed to compile although the same code is fine in an
ordinary method.
---
 pin-project-internal/src/utils.rs | 47 +++++++++++++------------------
 1 file changed, 20 insertions(+), 27 deletions(-)

diff --git a/pin-project-internal/src/utils.rs b/pin-project-internal/src/utils.rs
index 46dd107..6eb0c1a 100644
--- a/pin-project-internal/src/utils.rs
+++ b/pin-project-internal/src/utils.rs
@@ -2,8 +2,8 @@
 
 use std::mem;
 
-use proc_macro2::{Group, Spacing, Span, TokenStream, TokenTree};
-use quote::{ToTokens, quote, quote_spanned};
+use proc_macro2::{Group, Span, TokenStream, TokenTree};
+use quote::{ToTokens, quote};
 use syn::{
     Attribute, ExprPath, ExprStruct, Generics, Ident, Item, Lifetime, LifetimeParam, Macro,
     PatStruct, PatTupleStruct, Path, PathArguments, PredicateType, QSelf, Result, Token, Type,
@@ -214,13 +214,7 @@ impl ReplaceReceiver<'_> {
 
         let self_ty = self.self_ty(first.ident.span());
         let variant = mem::replace(path, self_ty.path);
-        for segment in &mut path.segments {
-            if let PathArguments::AngleBracketed(bracketed) = &mut segment.arguments {
-                if bracketed.colon2_token.is_none() && !bracketed.args.is_empty() {
-                    bracketed.colon2_token = Some(<Token![::]>::default());
-                }
-            }
-        }
+        insert_turbofish(path);
         if variant.segments.len() > 1 {
             path.segments.push_punct(<Token![::]>::default());
             path.segments.extend(variant.segments.into_pairs().skip(1));
@@ -230,7 +224,7 @@ impl ReplaceReceiver<'_> {
     fn visit_token_stream(&self, tokens: &mut TokenStream) -> bool {
         let mut out = vec![];
         let mut modified = false;
-        let mut iter = tokens.clone().into_iter().peekable();
+        let mut iter = tokens.clone().into_iter();
         while let Some(tt) = iter.next() {
             match tt {
                 TokenTree::Ident(ident) if ident == "self" && is_path_sep(&iter) => {
@@ -241,23 +235,11 @@ impl ReplaceReceiver<'_> {
                     modified |= prepend_underscore_to_self(&mut ident);
                     if ident == "Self" {
                         modified = true;
-                        let self_ty = self.self_ty(ident.span());
-                        match iter.peek() {
-                            Some(TokenTree::Punct(p))
-                                if p.as_char() == ':' && p.spacing() == Spacing::Joint =>
-                            {
-                                let next = iter.next().unwrap();
-                                match iter.peek() {
-                                    Some(TokenTree::Punct(p)) if p.as_char() == ':' => {
-                                        let span = ident.span();
-                                        out.extend(quote_spanned!(span=> <#self_ty>));
-                                    }
-                                    _ => out.extend(quote!(#self_ty)),
-                                }
-                                out.push(next);
-                            }
-                            _ => out.extend(quote!(#self_ty)),
-                        }
+                        // With the turbofish syntax, the path is valid as a type, an expression,
+                        // and a pattern, also if it is followed by `::Variant(..)` or `{ .. }`.
+                        let mut self_ty = self.self_ty(ident.span());
+                        insert_turbofish(&mut self_ty.path);
+                        out.extend(quote!(#self_ty));
                     } else {
                         out.push(TokenTree::Ident(ident));
                     }
@@ -360,6 +342,17 @@ impl VisitMut for ReplaceReceiver<'_> {
     }
 }
 
+/// `Path<T>` -> `Path::<T>`
+fn insert_turbofish(path: &mut Path) {
+    for segment in &mut path.segments {
+        if let PathArguments::AngleBracketed(bracketed) = &mut segment.arguments {
+            if bracketed.colon2_token.is_none() && !bracketed.args.is_empty() {
+                bracketed.colon2_token = Some(<Token![::]>::default());
+            }
+        }
+    }
+}
+
 /// Returns `true` if the next tokens are `::`.
 fn is_path_sep(iter: &(impl Iterator<Item = TokenTree> + Clone)) -> bool {
     let mut iter = iter.clone();
-- 
2.43.0


From 4ec9955861370b15e9e64dc18fdf79f30c104e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:38 +0000
Subject: [PATCH 04/12] fix: choose a projection lifetime name that no field
 type declares

`for<'pin> fn(&'pin u8)` (or `dyn for<'pin> Fn(&'pin u8)`) as a field type
collided with the generated `'pin` lifetime, so the item did not compile (E0496).
---
 pin-project-internal/src/pin_project/derive.rs | 15 +++++++++------
 pin-project-internal/src/utils.rs              |  7 +++++--
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/pin-project-internal/src/pin_project/derive.rs b/pin-project-internal/src/pin_project/derive.rs
index 5cbfa8d..dfac02d 100644
--- a/pin-project-internal/src/pin_project/derive.rs
+++ b/pin-project-internal/src/pin_project/derive.rs
@@ -20,6 +20,10 @@ use crate::utils::{
 pub(super) fn parse_derive(input: TokenStream) -> Result<TokenStream> {
     let mut input: Item = syn::parse2(input)?;
 
+    let mut lifetime_name = String::from("'pin");
+    determine_lifetime_name(&mut lifetime_name, &mut input);
+    let lifetime = Lifetime::new(&lifetime_name, Span::call_site());
+
     let mut cx;
     let mut generate = GenerateTokens::default();
 
@@ -30,7 +34,8 @@ pub(super) fn parse_derive(input: TokenStream) -> Result<TokenStream> {
             let self_ty = parse_quote!(#ident #ty_generics);
             let mut visitor = ReplaceReceiver(&self_ty);
             visitor.visit_item_struct_mut(input);
-            cx = Context::new(&input.attrs, &input.vis, &input.ident, &mut input.generics, Struct)?;
+            let generics = &mut input.generics;
+            cx = Context::new(&input.attrs, &input.vis, &input.ident, generics, lifetime, Struct)?;
             parse_struct(&mut cx, &input.fields, &mut generate)?;
         }
         Item::Enum(input) => {
@@ -39,7 +44,8 @@ pub(super) fn parse_derive(input: TokenStream) -> Result<TokenStream> {
             let self_ty = parse_quote!(#ident #ty_generics);
             let mut visitor = ReplaceReceiver(&self_ty);
             visitor.visit_item_enum_mut(input);
-            cx = Context::new(&input.attrs, &input.vis, &input.ident, &mut input.generics, Enum)?;
+            let generics = &mut input.generics;
+            cx = Context::new(&input.attrs, &input.vis, &input.ident, generics, lifetime, Enum)?;
             parse_enum(&mut cx, input.brace_token, &input.variants, &mut generate)?;
         }
         _ => bail!(input, "#[pin_project] attribute may only be used on structs or enums"),
@@ -196,6 +202,7 @@ impl<'a> Context<'a> {
         vis: &'a Visibility,
         ident: &'a Ident,
         generics: &'a mut Generics,
+        lifetime: Lifetime,
         kind: TypeKind,
     ) -> Result<Self> {
         let Args { pinned_drop, unpin_impl, project, project_ref, project_replace } =
@@ -209,10 +216,6 @@ impl<'a> Context<'a> {
             bail!(name, "name `{}` is the same as the original type name", name);
         }
 
-        let mut lifetime_name = String::from("'pin");
-        determine_lifetime_name(&mut lifetime_name, generics);
-        let lifetime = Lifetime::new(&lifetime_name, Span::call_site());
-
         let ty_generics = generics.split_for_impl().1;
         let ty_generics_as_generics = parse_quote!(#ty_generics);
         let mut proj_generics = generics.clone();
diff --git a/pin-project-internal/src/utils.rs b/pin-project-internal/src/utils.rs
index 6eb0c1a..f343c0f 100644
--- a/pin-project-internal/src/utils.rs
+++ b/pin-project-internal/src/utils.rs
@@ -25,7 +25,10 @@ macro_rules! parse_quote_spanned {
 
 /// Determines the lifetime names. Ensure it doesn't overlap with any existing
 /// lifetime names.
-pub(crate) fn determine_lifetime_name(lifetime_name: &mut String, generics: &mut Generics) {
+///
+/// This looks at the whole item, because lifetime names may also be declared in
+/// field types (e.g., `for<'pin> fn(&'pin u8)`).
+pub(crate) fn determine_lifetime_name(lifetime_name: &mut String, item: &mut Item) {
     struct CollectLifetimes(Vec<String>);
 
     impl VisitMut for CollectLifetimes {
@@ -37,7 +40,7 @@ pub(crate) fn determine_lifetime_name(lifetime_name: &mut String, generics: &mut
     debug_assert!(lifetime_name.starts_with('\''));
 
     let mut lifetimes = CollectLifetimes(vec![]);
-    lifetimes.visit_generics_mut(generics);
+    visit_mut::visit_item_mut(&mut lifetimes, item);
 
     while lifetimes.0.iter().any(|name| name.starts_with(&**lifetime_name)) {
         lifetime_name.push('_');
-- 
2.43.0


From 9f9b4488ba4e377a6c8369f14c5a2f687ec737f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:01 +0000
Subject: [PATCH 05/12] fix: report an error for macro calls in a
 #[pinned_drop] impl

They hit `unreachable!` and the attribute panicked.
---
 pin-project-internal/src/pinned_drop.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pin-project-internal/src/pinned_drop.rs b/pin-project-internal/src/pinned_drop.rs
index 0264dad..3d2088b 100644
--- a/pin-project-internal/src/pinned_drop.rs
+++ b/pin-project-internal/src/pinned_drop.rs
@@ -93,7 +93,8 @@ fn validate_impl(item: &ItemImpl) -> Result<()> {
             validate_sig(&method.sig)?;
             if i == 0 { Ok(()) } else { bail!(method, "duplicate definitions with name `drop`") }
         }
-        _ => unreachable!("unexpected ImplItem"),
+        // Macro calls (`mac!{}`) and items syn does not know (e.g., `fn drop(..);`).
+        item => bail!(item, "only the method `drop` is allowed in an impl of `PinnedDrop`"),
     })
 }
 
-- 
2.43.0


From 3a6f9ea9936318e71e468ca134f64c6d66e7c020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:04 +0000
Subject: [PATCH 06/12] fix: report an error if another macro replaces the
 generated #[pin] attribute

The args were unwrapped, so the derive panicked.
---
 pin-project-internal/src/pin_project/args.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pin-project-internal/src/pin_project/args.rs b/pin-project-internal/src/pin_project/args.rs
index 00593dc..65d23e4 100644
--- a/pin-project-internal/src/pin_project/args.rs
+++ b/pin-project-internal/src/pin_project/args.rs
@@ -54,8 +54,11 @@ pub(super) fn parse_args(attrs: &[Attribute]) -> Result<Args> {
         };
         bail!(span, "duplicate #[pin] attribute");
     }
-    // This `unwrap` only fails if another macro removes `#[pin]` and inserts own `#[pin]`.
-    syn::parse2(prev.1.unwrap())
+    match prev {
+        (_, Some(args)) => syn::parse2(args),
+        // This only happens if another macro removes `#[pin]` and inserts own `#[pin]`.
+        (attr, None) => bail!(attr, "#[pin_project] attribute has been removed"),
+    }
 }
 
 pub(super) struct Args {
-- 
2.43.0


From 0584f2d797aa79a1cecea9e0edd5173bbad02001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:48 +0000
Subject: [PATCH 07/12] fix: accept an unsized pinned field in a type with
 lifetime parameters

The struct generated for the Unpin impl had its lifetime fields after the
pinned ones, so `struct S<'a, T: ?Sized> { r: &'a u8, #[pin] t: T }` did not
compile (E0277).
---
 pin-project-internal/src/pin_project/derive.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pin-project-internal/src/pin_project/derive.rs b/pin-project-internal/src/pin_project/derive.rs
index dfac02d..5d68e31 100644
--- a/pin-project-internal/src/pin_project/derive.rs
+++ b/pin-project-internal/src/pin_project/derive.rs
@@ -828,8 +828,9 @@ fn make_unpin_impl(cx: &Context<'_>) -> TokenStream {
                         #lifetime, (#(_pin_project::__private::PhantomData<#type_params>),*)
                     >,
 
-                    #(#fields,)*
+                    // The last pinned field may be unsized, so it must come last.
                     #(#lifetime_fields,)*
+                    #(#fields,)*
                 }
 
                 impl #impl_generics _pin_project::__private::Unpin for #orig_ident #ty_generics
-- 
2.43.0


From 13c3df4ca57c0a49b5b3ab985884f7e89b156ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:22 +0000
Subject: [PATCH 08/12] fix: keep the expansion of `Self::item` in macro calls
 that cannot be patterns

Follow-up of "accept `Self` patterns and struct expressions in macro calls":
only paths that may be patterns or struct expressions need the turbofish.
---
 pin-project-internal/src/utils.rs | 37 ++++++++++++++++++++++++++-----
 1 file changed, 31 insertions(+), 6 deletions(-)

diff --git a/pin-project-internal/src/utils.rs b/pin-project-internal/src/utils.rs
index f343c0f..a4cedc8 100644
--- a/pin-project-internal/src/utils.rs
+++ b/pin-project-internal/src/utils.rs
@@ -2,8 +2,8 @@
 
 use std::mem;
 
-use proc_macro2::{Group, Span, TokenStream, TokenTree};
-use quote::{ToTokens, quote};
+use proc_macro2::{Delimiter, Group, Span, TokenStream, TokenTree};
+use quote::{ToTokens, quote, quote_spanned};
 use syn::{
     Attribute, ExprPath, ExprStruct, Generics, Ident, Item, Lifetime, LifetimeParam, Macro,
     PatStruct, PatTupleStruct, Path, PathArguments, PredicateType, QSelf, Result, Token, Type,
@@ -238,11 +238,19 @@ impl ReplaceReceiver<'_> {
                     modified |= prepend_underscore_to_self(&mut ident);
                     if ident == "Self" {
                         modified = true;
-                        // With the turbofish syntax, the path is valid as a type, an expression,
-                        // and a pattern, also if it is followed by `::Variant(..)` or `{ .. }`.
                         let mut self_ty = self.self_ty(ident.span());
-                        insert_turbofish(&mut self_ty.path);
-                        out.extend(quote!(#self_ty));
+                        if may_be_pattern(&iter) {
+                            // `<Type>::Variant(..)` is not allowed in patterns, but with the
+                            // turbofish syntax the path is valid as a type, an expression,
+                            // and a pattern.
+                            insert_turbofish(&mut self_ty.path);
+                            out.extend(quote!(#self_ty));
+                        } else if is_path_sep(&iter) {
+                            let span = ident.span();
+                            out.extend(quote_spanned!(span=> <#self_ty>));
+                        } else {
+                            out.extend(quote!(#self_ty));
+                        }
                     } else {
                         out.push(TokenTree::Ident(ident));
                     }
@@ -363,6 +371,23 @@ fn is_path_sep(iter: &(impl Iterator<Item = TokenTree> + Clone)) -> bool {
     is_colon() && is_colon()
 }
 
+/// Returns `true` if the next tokens make the preceding `Self` a struct expression or pattern, or
+/// a call or tuple pattern with arguments: `{ .. }`, `(..)`, `::Variant { .. }`, `::Variant(..)`.
+fn may_be_pattern(iter: &(impl Iterator<Item = TokenTree> + Clone)) -> bool {
+    let mut iter = iter.clone();
+    if is_path_sep(&iter) && !matches!(iter.nth(2), Some(TokenTree::Ident(_))) {
+        return false;
+    }
+    match iter.next() {
+        Some(TokenTree::Group(group)) => match group.delimiter() {
+            Delimiter::Brace => true,
+            Delimiter::Parenthesis => !group.stream().is_empty(),
+            _ => false,
+        },
+        _ => false,
+    }
+}
+
 fn contains_fn(tokens: TokenStream) -> bool {
     tokens.into_iter().any(|tt| match tt {
         TokenTree::Ident(ident) => ident == "fn",
-- 
2.43.0


From 9a887f854eb1de2713ddabe887a925bf5ae33250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:00 +0000
Subject: [PATCH 09/12] fix: accept a `project_replace` argument that comes
 from a macro_rules macro

The signature of the generated method had the hygiene of the argument, so
`self` and `__replacement` were not found in its body (E0424, E0425).
---
 pin-project-internal/src/pin_project/derive.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pin-project-internal/src/pin_project/derive.rs b/pin-project-internal/src/pin_project/derive.rs
index 5d68e31..b52eb27 100644
--- a/pin-project-internal/src/pin_project/derive.rs
+++ b/pin-project-internal/src/pin_project/derive.rs
@@ -989,6 +989,8 @@ fn make_proj_impl(
     });
     let mut project_replace = cx.project_replace.span().map(|span| {
         // It is enough to only set the span of the signature.
+        // The arguments must be visible from the body, so this should not change the hygiene.
+        let span = Span::call_site().located_at(span);
         let sig = quote_spanned! { span =>
             #vis fn project_replace(
                 self: _pin_project::__private::Pin<&mut Self>,
-- 
2.43.0


From af6ae1d4465186292a5079f9c6cdcbd553f1afad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:57 +0000
Subject: [PATCH 10/12] fix: treat raw identifiers in attributes like the plain
 names

rustc resolves #[r#pin] to the helper attribute #[pin], but the macro did not
recognise it and silently treated the field as not pinned. The same applied to
markers on variants, duplicated markers, and to #[r#repr(packed)].
---
 pin-project-internal/src/pin_project/args.rs   |  4 ++--
 pin-project-internal/src/pin_project/derive.rs |  6 +++---
 pin-project-internal/src/utils.rs              | 10 ++++++++--
 3 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/pin-project-internal/src/pin_project/args.rs b/pin-project-internal/src/pin_project/args.rs
index 65d23e4..88cdab8 100644
--- a/pin-project-internal/src/pin_project/args.rs
+++ b/pin-project-internal/src/pin_project/args.rs
@@ -9,7 +9,7 @@ use syn::{
 };
 
 use super::PIN;
-use crate::utils::{ParseBufferExt as _, SliceExt as _};
+use crate::utils::{ParseBufferExt as _, SliceExt as _, is_ident};
 
 pub(super) fn parse_args(attrs: &[Attribute]) -> Result<Args> {
     // `(__private(<args>))` -> `<args>`
@@ -32,7 +32,7 @@ pub(super) fn parse_args(attrs: &[Attribute]) -> Result<Args> {
         bail!(attr, "duplicate #[pin_project] attribute");
     }
 
-    let mut attrs = attrs.iter().filter(|attr| attr.path().is_ident(PIN));
+    let mut attrs = attrs.iter().filter(|attr| is_ident(attr.path(), PIN));
 
     let prev = if let Some(attr) = attrs.next() {
         (attr, syn::parse2::<Input>(attr.meta.require_list()?.tokens.clone())?.0)
diff --git a/pin-project-internal/src/pin_project/derive.rs b/pin-project-internal/src/pin_project/derive.rs
index b52eb27..04dbcc8 100644
--- a/pin-project-internal/src/pin_project/derive.rs
+++ b/pin-project-internal/src/pin_project/derive.rs
@@ -14,7 +14,7 @@ use super::{
 };
 use crate::utils::{
     ReplaceReceiver, SliceExt as _, Variants, determine_lifetime_name, determine_visibility,
-    insert_lifetime_and_bound,
+    insert_lifetime_and_bound, is_ident,
 };
 
 pub(super) fn parse_derive(input: TokenStream) -> Result<TokenStream> {
@@ -1047,9 +1047,9 @@ fn make_proj_impl(
 fn ensure_not_packed(orig: &OriginalType<'_>, fields: Option<&Fields>) -> Result<TokenStream> {
     for attr in orig.attrs {
         if let Meta::List(ref list) = attr.meta {
-            if list.path.is_ident("repr") {
+            if is_ident(&list.path, "repr") {
                 for repr in list.parse_args_with(Punctuated::<Meta, Token![,]>::parse_terminated)? {
-                    if repr.path().is_ident("packed") {
+                    if is_ident(repr.path(), "packed") {
                         let msg = if fields.is_none() {
                             // #[repr(packed)] cannot be apply on enums and will be rejected by rustc.
                             // However, we should not rely on the behavior of rustc that rejects this.
diff --git a/pin-project-internal/src/utils.rs b/pin-project-internal/src/utils.rs
index a4cedc8..1d7c4fd 100644
--- a/pin-project-internal/src/utils.rs
+++ b/pin-project-internal/src/utils.rs
@@ -8,6 +8,7 @@ use syn::{
     Attribute, ExprPath, ExprStruct, Generics, Ident, Item, Lifetime, LifetimeParam, Macro,
     PatStruct, PatTupleStruct, Path, PathArguments, PredicateType, QSelf, Result, Token, Type,
     TypeParamBound, TypePath, Variant, Visibility, WherePredicate,
+    ext::IdentExt as _,
     parse::{Parse, ParseBuffer, ParseStream},
     parse_quote,
     punctuated::Punctuated,
@@ -89,6 +90,11 @@ pub(crate) fn determine_visibility(vis: &Visibility) -> Visibility {
     }
 }
 
+/// Like `Path::is_ident`, but raw identifiers are the same name: `#[r#pin]` is `#[pin]`.
+pub(crate) fn is_ident(path: &Path, ident: &str) -> bool {
+    path.get_ident().map_or(false, |i| i.unraw() == ident)
+}
+
 pub(crate) fn respan<T>(node: &T, span: Span) -> T
 where
     T: ToTokens + Parse,
@@ -124,7 +130,7 @@ impl SliceExt for [Attribute] {
     fn position_exact(&self, ident: &str) -> Result<Option<usize>> {
         self.iter()
             .try_fold((0, None), |(i, mut prev), attr| {
-                if attr.path().is_ident(ident) {
+                if is_ident(attr.path(), ident) {
                     if prev.replace(i).is_some() {
                         bail!(attr, "duplicate #[{}] attribute", ident);
                     }
@@ -136,7 +142,7 @@ impl SliceExt for [Attribute] {
     }
 
     fn find(&self, ident: &str) -> Option<&Attribute> {
-        self.iter().position(|attr| attr.path().is_ident(ident)).map(|i| &self[i])
+        self.iter().position(|attr| is_ident(attr.path(), ident)).map(|i| &self[i])
     }
 }
 
-- 
2.43.0


From 04b22eaf164fe79d43f1b7030d5946fd40e3cc5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:46 +0000
Subject: [PATCH 11/12] fix: do not panic on `default fn drop` in a
 #[pinned_drop] impl

---
 pin-project-internal/src/pinned_drop.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pin-project-internal/src/pinned_drop.rs b/pin-project-internal/src/pinned_drop.rs
index 3d2088b..aaff9fa 100644
--- a/pin-project-internal/src/pinned_drop.rs
+++ b/pin-project-internal/src/pinned_drop.rs
@@ -191,6 +191,8 @@ fn expand_impl(item: &mut ItemImpl) {
         // Add a dummy `__drop_inner` function to prevent users call outer `__drop_inner`.
         drop_inner.block.stmts.insert(0, parse_quote!(fn #ident() {}));
         drop_inner.sig.ident = ident;
+        // `default` is only allowed on the method itself.
+        drop_inner.defaultness = None;
         drop_inner.sig.generics = item.generics.clone();
         let receiver = drop_inner.sig.receiver().expect("drop() should have a receiver").clone();
         let pat = Box::new(Pat::Ident(PatIdent {
-- 
2.43.0


From 6a8b63c1af7b44ba80915ee01886a0e3be975177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:12 +0000
Subject: [PATCH 12/12] fix: do not overflow the stack when the self type of a
 #[pinned_drop] impl contains `Self`

---
 pin-project-internal/src/utils.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pin-project-internal/src/utils.rs b/pin-project-internal/src/utils.rs
index 1d7c4fd..e57c269 100644
--- a/pin-project-internal/src/utils.rs
+++ b/pin-project-internal/src/utils.rs
@@ -296,16 +296,21 @@ impl VisitMut for ReplaceReceiver<'_> {
     fn visit_type_path_mut(&mut self, ty: &mut TypePath) {
         if ty.qself.is_none() {
             self.self_to_qself(&mut ty.qself, &mut ty.path);
+            // Do not visit the inserted receiver: it may (incorrectly) contain `Self` again.
+            self.visit_path_mut(&mut ty.path);
+        } else {
+            visit_mut::visit_type_path_mut(self, ty);
         }
-        visit_mut::visit_type_path_mut(self, ty);
     }
 
     // `Self::method` -> `<Receiver>::method`
     fn visit_expr_path_mut(&mut self, expr: &mut ExprPath) {
         if expr.qself.is_none() {
             self.self_to_qself(&mut expr.qself, &mut expr.path);
+            self.visit_path_mut(&mut expr.path);
+        } else {
+            visit_mut::visit_expr_path_mut(self, expr);
         }
-        visit_mut::visit_expr_path_mut(self, expr);
     }
 
     fn visit_expr_struct_mut(&mut self, expr: &mut ExprStruct) {
-- 
2.43.0

