From 22c835a0fa303c0517050a70da3c924e78fe3275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:34 +0000
Subject: [PATCH 01/17] fix: make the alloc feature compile without std

impls_alloc.rs used Box and Vec from the std prelude.
---
 funcmap/src/impls_alloc.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/funcmap/src/impls_alloc.rs b/funcmap/src/impls_alloc.rs
index 233d2cc..5b74c5f 100644
--- a/funcmap/src/impls_alloc.rs
+++ b/funcmap/src/impls_alloc.rs
@@ -72,8 +72,12 @@ mod binary_heap {
 
 /// Implementations for types in [`alloc::boxed`]
 mod boxed {
+    extern crate alloc;
+
     use crate::{FuncMap, TryFuncMap};
 
+    use alloc::boxed::Box;
+
     impl<A, B> FuncMap<A, B> for Box<A> {
         type Output = Box<B>;
 
@@ -354,7 +358,7 @@ mod vec {
 
     use crate::{FuncMap, TryFuncMap};
 
-    use alloc::vec;
+    use alloc::vec::{self, Vec};
 
     impl<A, B> FuncMap<A, B> for Vec<A> {
         type Output = Vec<B>;
-- 
2.43.0


From dd0bdaff2a93b80117c38f96f2c1f434435e400c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:12 +0000
Subject: [PATCH 02/17] fix: map one-element tuples to tuples

The mapped expression for a field of type (T,) was a parenthesized
expression, so the derived implementation did not compile.
---
 funcmap_derive/src/map.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funcmap_derive/src/map.rs b/funcmap_derive/src/map.rs
index 3ecf092..3b618f9 100644
--- a/funcmap_derive/src/map.rs
+++ b/funcmap_derive/src/map.rs
@@ -307,7 +307,7 @@ impl<'ast> Mapper<'ast> {
                     })
                     .collect::<Result<Vec<_>, _>>()?;
 
-                Ok(quote!((#(#mapped),*)))
+                Ok(quote!((#(#mapped,)*)))
             }
 
             Type::BareFn(..) => Err(syn::Error::new_spanned(
-- 
2.43.0


From fd4fc750164a6078c4d150250d00c4868bdc9f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:41 +0000
Subject: [PATCH 03/17] fix: support field types captured by macro_rules macros

A type captured as $t:ty reaches the derive macro wrapped in a group
without delimiters, which was rejected as an unsupported type.
---
 funcmap_derive/src/map.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/funcmap_derive/src/map.rs b/funcmap_derive/src/map.rs
index 3b618f9..3f7c27a 100644
--- a/funcmap_derive/src/map.rs
+++ b/funcmap_derive/src/map.rs
@@ -8,10 +8,9 @@ use crate::syn_ext::{DependencyOnType, IsTypish, SubsType};
 
 use proc_macro2::{Ident, Span, TokenStream};
 use quote::{quote, ToTokens};
-use syn::TypeParen;
 use syn::{
     parse_quote, punctuated::Pair, AngleBracketedGenericArguments, GenericArgument, Index, Path,
-    PathArguments, PathSegment, QSelf, Type, TypeArray, TypeParam, TypePath,
+    PathArguments, PathSegment, QSelf, Type, TypeArray, TypeGroup, TypeParam, TypeParen, TypePath,
 };
 
 /// Configuration of a mapping for a given type
@@ -117,7 +116,9 @@ impl<'ast> Mapper<'ast> {
                     .bind_expr(quote!(#crate_path::#trait_ident::#fn_ident(#mappable, #closure))))
             }
 
-            Type::Paren(TypeParen { elem: inner_ty, .. }) => self.map(mappable, inner_ty),
+            // a `Type::Group` results from a type captured by a `macro_rules!` macro
+            Type::Group(TypeGroup { elem: inner_ty, .. })
+            | Type::Paren(TypeParen { elem: inner_ty, .. }) => self.map(mappable, inner_ty),
 
             Type::Path(type_path) => {
                 let TypePath {
-- 
2.43.0


From a3ebb244303c0ab4bc3ce08969fb5041d4315eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:57 +0000
Subject: [PATCH 04/17] fix: treat raw identifiers like their plain
 counterparts

r#A and A are the same identifier, but generated type parameters could
collide with a raw one, and a parameter was not recognized when its
declaration and its uses differ in the r# prefix.
---
 funcmap_derive/src/derive.rs          |  8 +++++---
 funcmap_derive/src/ident_collector.rs |  5 +++--
 funcmap_derive/src/input.rs           |  6 +++---
 funcmap_derive/src/opts.rs            | 11 ++++++++---
 funcmap_derive/src/syn_ext.rs         | 25 ++++++++++++++++++++++---
 5 files changed, 41 insertions(+), 14 deletions(-)

diff --git a/funcmap_derive/src/derive.rs b/funcmap_derive/src/derive.rs
index 1d8014b..9d00150 100644
--- a/funcmap_derive/src/derive.rs
+++ b/funcmap_derive/src/derive.rs
@@ -10,7 +10,8 @@ use crate::map::Mapping;
 use crate::predicates::{UniquePredicates, UniqueTypeBounds};
 use crate::result::{self, Error, IteratorExt, ResultExt};
 use crate::syn_ext::{
-    IntoGenericArgument, IntoType, SubsType, WithoutAttrs, WithoutDefault, WithoutMaybeBounds,
+    IntoGenericArgument, IntoType, IsType, SubsType, WithoutAttrs, WithoutDefault,
+    WithoutMaybeBounds,
 };
 
 use proc_macro2::{Ident, Span, TokenStream};
@@ -165,8 +166,9 @@ pub(crate) fn try_derive(item: TokenStream, derivable: Derivable) -> Result<Toke
             {
                 let predicate = match predicate.clone().without_attrs() {
                     WherePredicate::Type(predicate_type)
-                        if predicate_type.bounded_ty
-                            == mapped_type_param.type_param.ident.clone().into_type() =>
+                        if predicate_type
+                            .bounded_ty
+                            .is_type(&mapped_type_param.type_param.ident) =>
                     {
                         WherePredicate::Type(predicate_type.without_maybe_bounds())
                     }
diff --git a/funcmap_derive/src/ident_collector.rs b/funcmap_derive/src/ident_collector.rs
index cdffcd3..cee3a0f 100644
--- a/funcmap_derive/src/ident_collector.rs
+++ b/funcmap_derive/src/ident_collector.rs
@@ -3,7 +3,7 @@
 use std::collections::HashSet;
 
 use proc_macro2::{Ident, Span};
-use syn::visit::Visit;
+use syn::{ext::IdentExt, visit::Visit};
 
 /// Collects unique identifiers for use in generated code
 #[derive(Debug, Default)]
@@ -83,7 +83,8 @@ impl VisitingIdentCollector {
 
 impl Visit<'_> for VisitingIdentCollector {
     fn visit_ident(&mut self, ident: &Ident) {
-        self.0.idents.insert(ident.to_string());
+        // `r#A` and `A` are the same identifier
+        self.0.idents.insert(ident.unraw().to_string());
     }
 }
 
diff --git a/funcmap_derive/src/input.rs b/funcmap_derive/src/input.rs
index cf436b4..f54f087 100644
--- a/funcmap_derive/src/input.rs
+++ b/funcmap_derive/src/input.rs
@@ -13,8 +13,8 @@ use std::{collections::HashSet, iter};
 use proc_macro2::Ident;
 use quote::ToTokens;
 use syn::{
-    visit::Visit, Data, DataEnum, DataStruct, DataUnion, DeriveInput, Field, GenericParam,
-    Generics, Path, Token, Type, TypeParam, Variant,
+    ext::IdentExt, visit::Visit, Data, DataEnum, DataStruct, DataUnion, DeriveInput, Field,
+    GenericParam, Generics, Path, Token, Type, TypeParam, Variant,
 };
 
 /// Input to a `funcmap` derive macro
@@ -155,7 +155,7 @@ impl TryFrom<DeriveInput> for FuncMapInput {
             .filter_map(|(marker_idx, (param_idx, param))| match param {
                 GenericParam::Type(type_param)
                     if mapped_type_param_idents.is_empty()
-                        || mapped_type_param_idents.contains(&type_param.ident) =>
+                        || mapped_type_param_idents.contains(&type_param.ident.unraw()) =>
                 {
                     Some(MappedTypeParam {
                         param_idx,
diff --git a/funcmap_derive/src/opts.rs b/funcmap_derive/src/opts.rs
index e633d27..c75d419 100755
--- a/funcmap_derive/src/opts.rs
+++ b/funcmap_derive/src/opts.rs
@@ -10,6 +10,7 @@ use indexmap::IndexSet;
 use proc_macro2::{Ident, TokenStream};
 use quote::ToTokens;
 use syn::{
+    ext::IdentExt,
     parenthesized,
     parse::{Parse, ParseStream, Parser},
     punctuated::Punctuated,
@@ -197,7 +198,7 @@ pub(crate) enum Param {
     /// A lifetime parameter
     Lifetime(Lifetime),
 
-    /// A type or const parameter
+    /// A type or const parameter (without `r#` prefix)
     TypeOrConst(Ident),
 }
 
@@ -206,7 +207,11 @@ impl Parse for Param {
         input
             .parse::<Lifetime>()
             .map(Self::Lifetime)
-            .or_else(|_| input.parse::<Ident>().map(Self::TypeOrConst))
+            .or_else(|_| {
+                input
+                    .parse::<Ident>()
+                    .map(|ident| Self::TypeOrConst(ident.unraw()))
+            })
             .map_err(|_| input.error("expected name of generic parameter"))
     }
 }
@@ -230,7 +235,7 @@ impl PartialEq<GenericParam> for Param {
                 Self::TypeOrConst(l),
                 GenericParam::Type(TypeParam { ident: r, .. })
                 | GenericParam::Const(ConstParam { ident: r, .. }),
-            ) => l == r,
+            ) => *l == r.unraw(),
             _ => false,
         }
     }
diff --git a/funcmap_derive/src/syn_ext.rs b/funcmap_derive/src/syn_ext.rs
index 0ee8b5a..c80c201 100644
--- a/funcmap_derive/src/syn_ext.rs
+++ b/funcmap_derive/src/syn_ext.rs
@@ -2,6 +2,7 @@
 
 use proc_macro2::{Ident, TokenStream};
 use quote::ToTokens;
+use syn::ext::IdentExt;
 use syn::fold::{self, Fold};
 use syn::punctuated::Punctuated;
 use syn::visit::{self, Visit};
@@ -15,7 +16,7 @@ pub(crate) trait DependencyOnType {
     /// Returns the dependency of `self` on a type named `type_ident`, if any
     ///
     /// The returned [`Ident`] may differ from `type_ident` only in its
-    /// [`Span`](proc_macro2::Span).
+    /// [`Span`](proc_macro2::Span) and in whether it has an `r#` prefix.
     ///
     /// Note that macros in type position are always considered to be
     /// independent of the given type.
@@ -60,7 +61,7 @@ impl<'ast> Visit<'ast> for DependencyOnTypeVisitor<'ast, '_> {
         match ty {
             Type::Path(TypePath { qself: None, path }) if path.leading_colon.is_none() => {
                 match path.segments.first() {
-                    Some(PathSegment { ident, .. }) if ident == self.type_ident => {
+                    Some(PathSegment { ident, .. }) if ident.unraw() == self.type_ident.unraw() => {
                         self.dependency = Some(ident);
                     }
                     _ => visit::visit_type(self, ty),
@@ -118,7 +119,7 @@ impl Fold for SubsTypeFolder<'_> {
         match &mut ty {
             Type::Path(TypePath { qself: None, path }) if path.leading_colon.is_none() => {
                 match path.segments.first_mut() {
-                    Some(PathSegment { ident, .. }) if ident == self.type_ident => {
+                    Some(PathSegment { ident, .. }) if ident.unraw() == self.type_ident.unraw() => {
                         *ident = self.subs_ident.clone();
                     }
                     _ => (),
@@ -166,6 +167,24 @@ impl IntoType for Ident {
     }
 }
 
+/// Extension trait for determining whether an AST node is a given type
+pub(crate) trait IsType {
+    /// Returns `true` if `self` is the type named `type_ident`, regardless of
+    /// any `r#` prefixes
+    fn is_type(&self, type_ident: &Ident) -> bool;
+}
+
+impl IsType for Type {
+    fn is_type(&self, type_ident: &Ident) -> bool {
+        match self {
+            Type::Path(TypePath { qself: None, path }) => path
+                .get_ident()
+                .map_or(false, |ident| ident.unraw() == type_ident.unraw()),
+            _ => false,
+        }
+    }
+}
+
 /// Extension trait for determining whether an AST node is "typish", i.e. if it
 /// may be syntactically indistinguishable from a type
 pub(crate) trait IsTypish {
-- 
2.43.0


From 48e17c9f547ef059e47733b6c9f6a9361c368274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:39 +0000
Subject: [PATCH 05/17] fix: keep generated type parameters apart from the
 crate path

With #[funcmap(crate = "A")], the path to the crate resolved to the
generated type parameter of the same name.
---
 funcmap_derive/src/input.rs | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/funcmap_derive/src/input.rs b/funcmap_derive/src/input.rs
index f54f087..1ede1ce 100644
--- a/funcmap_derive/src/input.rs
+++ b/funcmap_derive/src/input.rs
@@ -45,7 +45,7 @@ pub(crate) struct FuncMapMeta {
     pub(crate) crate_path: Path,
 
     /// [`IdentCollector`] where all identifiers that occur within the
-    /// definition of the type are already reserved
+    /// definition of the type or `crate_path` are already reserved
     pub(crate) ident_collector: IdentCollector,
 }
 
@@ -94,25 +94,25 @@ impl TryFrom<DeriveInput> for FuncMapInput {
     type Error = Error;
 
     fn try_from(derive_input: DeriveInput) -> Result<Self, Self::Error> {
-        let ident_collector = {
-            let mut ident_collector = IdentCollector::new_visiting();
-            ident_collector.visit_derive_input(&derive_input);
-            ident_collector.into_reserved()
-        };
+        let mut ident_collector = IdentCollector::new_visiting();
+        ident_collector.visit_derive_input(&derive_input);
 
         let opts: FuncMapOpts = derive_input.attrs.try_into()?;
 
-        let meta = FuncMapMeta {
-            crate_path: opts.crate_path.unwrap_or_else(|| {
-                let path = CRATE_IDENT.into();
+        let crate_path = opts.crate_path.unwrap_or_else(|| {
+            let path = CRATE_IDENT.into();
 
-                Path {
-                    leading_colon: Some(<Token![::]>::default()),
-                    ..path
-                }
-            }),
+            Path {
+                leading_colon: Some(<Token![::]>::default()),
+                ..path
+            }
+        });
+
+        ident_collector.visit_path(&crate_path);
 
-            ident_collector,
+        let meta = FuncMapMeta {
+            crate_path,
+            ident_collector: ident_collector.into_reserved(),
         };
 
         let mut mapped_type_param_idents = HashSet::new();
-- 
2.43.0


From 9cc7082d169f385dca638923b277c76f6b44e4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:42 +0000
Subject: [PATCH 06/17] fix: support enums with a variant named Output

Self::Output was ambiguous between the variant and the associated type.
---
 funcmap_derive/src/derive.rs | 46 +++++++++++++++++++++++++-----------
 1 file changed, 32 insertions(+), 14 deletions(-)

diff --git a/funcmap_derive/src/derive.rs b/funcmap_derive/src/derive.rs
index 9d00150..0b50f25 100644
--- a/funcmap_derive/src/derive.rs
+++ b/funcmap_derive/src/derive.rs
@@ -16,6 +16,7 @@ use crate::syn_ext::{
 
 use proc_macro2::{Ident, Span, TokenStream};
 use quote::{format_ident, quote, quote_spanned};
+use syn::ext::IdentExt;
 use syn::punctuated::Punctuated;
 use syn::{
     DeriveInput, GenericArgument, GenericParam, Member, Token, TypeParam, TypeParamBound,
@@ -93,6 +94,12 @@ pub(crate) fn try_derive(item: TokenStream, derivable: Derivable) -> Result<Toke
         }
     };
 
+    let has_output_variant = input
+        .variants
+        .iter()
+        .filter_map(|structish| structish.variant_ident.as_ref())
+        .any(|ident| ident.unraw() == OUTPUT_TYPE_IDENT);
+
     let impls: Vec<_> = input
         .mapped_type_params
         .into_iter()
@@ -150,13 +157,27 @@ pub(crate) fn try_derive(item: TokenStream, derivable: Derivable) -> Result<Toke
                 }
             });
 
-            let dst_args = all_params.iter().enumerate().map(|(param_idx, param)| {
-                if param_idx == mapped_type_param.param_idx {
-                    GenericArgument::Type(dst_type_ident.clone().into_type())
-                } else {
-                    param.clone().into_generic_argument()
-                }
-            });
+            let dst_args: Vec<_> = all_params
+                .iter()
+                .enumerate()
+                .map(|(param_idx, param)| {
+                    if param_idx == mapped_type_param.param_idx {
+                        GenericArgument::Type(dst_type_ident.clone().into_type())
+                    } else {
+                        param.clone().into_generic_argument()
+                    }
+                })
+                .collect();
+
+            // `Self::Output` is ambiguous if there is a variant named `Output`
+            let (output_type, output_expr_path) = if has_output_variant {
+                (quote!(#ident<#(#dst_args),*>), quote!(#ident))
+            } else {
+                (
+                    quote!(Self::#OUTPUT_TYPE_IDENT),
+                    quote!(Self::#OUTPUT_TYPE_IDENT),
+                )
+            };
 
             let mut unique_predicates = UniquePredicates::new();
 
@@ -241,11 +262,8 @@ pub(crate) fn try_derive(item: TokenStream, derivable: Derivable) -> Result<Toke
                 }
 
                 let (pat_path, output_path) = match variant_ident {
-                    Some(ident) => (
-                        quote!(Self::#ident),
-                        quote!(Self::#OUTPUT_TYPE_IDENT::#ident),
-                    ),
-                    None => (quote!(Self), quote!(Self::#OUTPUT_TYPE_IDENT)),
+                    Some(ident) => (quote!(Self::#ident), quote!(#output_expr_path::#ident)),
+                    None => (quote!(Self), output_expr_path.clone()),
                 };
 
                 arms.push(quote! {
@@ -273,7 +291,7 @@ pub(crate) fn try_derive(item: TokenStream, derivable: Derivable) -> Result<Toke
                         fn #FN_IDENT<#fn_type_ident>(
                             self,
                             mut #fn_var_ident: #fn_type_ident
-                        ) -> Self::#OUTPUT_TYPE_IDENT
+                        ) -> #output_type
                         where
                             #fn_type_ident: ::core::ops::FnMut(#src_type_ident) -> #dst_type_ident
                         {
@@ -299,7 +317,7 @@ pub(crate) fn try_derive(item: TokenStream, derivable: Derivable) -> Result<Toke
                         fn #FALLIBLE_FN_IDENT<#err_type_ident, #fn_type_ident>(
                             self,
                             mut #fn_var_ident: #fn_type_ident
-                        ) -> ::core::result::Result<Self::#OUTPUT_TYPE_IDENT, #err_type_ident>
+                        ) -> ::core::result::Result<#output_type, #err_type_ident>
                         where
                             #fn_type_ident:
                                 ::core::ops::FnMut(
-- 
2.43.0


From 8026c7b85531c72fdd467e990988257b4e0c4067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:47 +0000
Subject: [PATCH 07/17] fix: drop exactly the mapped elements when array
 mapping fails

---
 funcmap/src/array.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funcmap/src/array.rs b/funcmap/src/array.rs
index 81ad274..f26fffa 100644
--- a/funcmap/src/array.rs
+++ b/funcmap/src/array.rs
@@ -42,7 +42,7 @@ where
             let init_slice = unsafe { self.array_mut.get_unchecked_mut(..self.init_until_idx) };
 
             // SAFETY: by definition of `init_until_idx`, `init_slice` is fully initialized
-            let init_slice = unsafe { &mut *(init_slice as *mut [MaybeUninit<T>]).cast::<T>() };
+            let init_slice = unsafe { &mut *(init_slice as *mut [MaybeUninit<T>] as *mut [T]) };
 
             // SAFETY:
             // - `init_slice` is valid for dropping
-- 
2.43.0


From 9238fa6f839d50980554d30c2163a4ec541491ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:14 +0000
Subject: [PATCH 08/17] fix: disambiguate const arguments from types and
 variants of the same name

A const parameter named like a type or enum variant in scope (`Ok`, `None`
or a user's unit struct `N`) was passed to the type as a plain identifier in
derived implementations, which resolves to that type first.
---
 funcmap_derive/src/derive.rs | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/funcmap_derive/src/derive.rs b/funcmap_derive/src/derive.rs
index 0b50f25..83c1a67 100644
--- a/funcmap_derive/src/derive.rs
+++ b/funcmap_derive/src/derive.rs
@@ -19,8 +19,8 @@ use quote::{format_ident, quote, quote_spanned};
 use syn::ext::IdentExt;
 use syn::punctuated::Punctuated;
 use syn::{
-    DeriveInput, GenericArgument, GenericParam, Member, Token, TypeParam, TypeParamBound,
-    WherePredicate,
+    parse_quote, ConstParam, DeriveInput, GenericArgument, GenericParam, Member, Token, TypeParam,
+    TypeParamBound, WherePredicate,
 };
 
 /// Generates an implementation of `FuncMap` or `TryFuncMap` for a given item
@@ -78,7 +78,7 @@ pub(crate) fn try_derive(item: TokenStream, derivable: Derivable) -> Result<Toke
         let args = all_params
             .iter()
             .cloned()
-            .map(IntoGenericArgument::into_generic_argument);
+            .map(into_unambiguous_generic_argument);
 
         let trait_ident = derivable.no_drop_marker_trait_ident();
 
@@ -153,7 +153,7 @@ pub(crate) fn try_derive(item: TokenStream, derivable: Derivable) -> Result<Toke
                 if param_idx == mapped_type_param.param_idx {
                     GenericArgument::Type(src_type_ident.clone().into_type())
                 } else {
-                    param.clone().into_generic_argument()
+                    into_unambiguous_generic_argument(param.clone())
                 }
             });
 
@@ -164,7 +164,7 @@ pub(crate) fn try_derive(item: TokenStream, derivable: Derivable) -> Result<Toke
                     if param_idx == mapped_type_param.param_idx {
                         GenericArgument::Type(dst_type_ident.clone().into_type())
                     } else {
-                        param.clone().into_generic_argument()
+                        into_unambiguous_generic_argument(param.clone())
                     }
                 })
                 .collect();
@@ -340,6 +340,20 @@ pub(crate) fn try_derive(item: TokenStream, derivable: Derivable) -> Result<Toke
     })
 }
 
+/// Converts a generic parameter into a generic argument
+///
+/// Const arguments are put into braces because a plain identifier would be
+/// resolved as a type (or enum variant) of the same name if there is one in
+/// scope.
+fn into_unambiguous_generic_argument(param: GenericParam) -> GenericArgument {
+    match param {
+        GenericParam::Const(ConstParam { ident, .. }) => {
+            GenericArgument::Const(parse_quote!({ #ident }))
+        }
+        param => param.into_generic_argument(),
+    }
+}
+
 /// Substitutes a type with multiple other types within a collection of bounds
 ///
 /// Substitutes the type named `type_ident` with each of `subs_idents` within
-- 
2.43.0


From 305ccffc93be06f8e0fcd9352dfccfcda2ad56da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:32 +0000
Subject: [PATCH 09/17] fix: locate errors for malformed crate paths at the
 option

---
 funcmap_derive/src/opts.rs | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/funcmap_derive/src/opts.rs b/funcmap_derive/src/opts.rs
index c75d419..4f24e01 100755
--- a/funcmap_derive/src/opts.rs
+++ b/funcmap_derive/src/opts.rs
@@ -12,7 +12,7 @@ use quote::ToTokens;
 use syn::{
     ext::IdentExt,
     parenthesized,
-    parse::{Parse, ParseStream, Parser},
+    parse::{Parse, ParseStream},
     punctuated::Punctuated,
     Attribute, ConstParam, GenericParam, Lifetime, LifetimeParam, LitStr, Path, Token, TypeParam,
 };
@@ -156,19 +156,11 @@ impl Parse for ArgCrate {
     fn parse(input: ParseStream) -> syn::Result<Self> {
         input.parse::<Token![crate]>()?;
         input.parse::<Token![=]>()?;
-        Ok(Self(input.parse::<LitStr>()?.parse_with(PathParser)?))
-    }
-}
-
-/// Parser for [`Path`] producing errors spanned to the parsed tokens
-#[derive(Debug)]
-struct PathParser;
-
-impl Parser for PathParser {
-    type Output = Path;
-
-    fn parse2(self, tokens: TokenStream) -> syn::Result<Self::Output> {
-        syn::parse2(tokens.clone()).map_err(|_| syn::Error::new_spanned(tokens, "expected path"))
+        let value: LitStr = input.parse()?;
+        value
+            .parse()
+            .map(Self)
+            .map_err(|_| syn::Error::new(value.span(), "expected path"))
     }
 }
 
-- 
2.43.0


From 706d8dd85d8acfe56f549d3b4945ff969b0b5d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:02 +0000
Subject: [PATCH 10/17] fix: leave items local to constant expressions alone

---
 funcmap_derive/src/syn_ext.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/funcmap_derive/src/syn_ext.rs b/funcmap_derive/src/syn_ext.rs
index c80c201..038a751 100644
--- a/funcmap_derive/src/syn_ext.rs
+++ b/funcmap_derive/src/syn_ext.rs
@@ -7,7 +7,7 @@ use syn::fold::{self, Fold};
 use syn::punctuated::Punctuated;
 use syn::visit::{self, Visit};
 use syn::{
-    ConstParam, GenericArgument, GenericParam, LifetimeParam, PathSegment, PredicateType,
+    ConstParam, Expr, GenericArgument, GenericParam, LifetimeParam, PathSegment, PredicateType,
     TraitBound, TraitBoundModifier, Type, TypeParam, TypeParamBound, TypePath, WherePredicate,
 };
 
@@ -70,6 +70,10 @@ impl<'ast> Visit<'ast> for DependencyOnTypeVisitor<'ast, '_> {
             _ => visit::visit_type(self, ty),
         }
     }
+
+    // Constant expressions cannot refer to type parameters, so any equally named
+    // type in there belongs to an item that is local to the expression.
+    fn visit_expr(&mut self, _: &'ast Expr) {}
 }
 
 /// Extension trait for substituting one type with another in an AST node
@@ -130,6 +134,11 @@ impl Fold for SubsTypeFolder<'_> {
 
         fold::fold_type(self, ty)
     }
+
+    // see `DependencyOnTypeVisitor`
+    fn fold_expr(&mut self, expr: Expr) -> Expr {
+        expr
+    }
 }
 
 /// Extension trait for converting an AST node into a [`GenericArgument`]
-- 
2.43.0


From 15d2ba079c935736d17264565a821c807ed75363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:20 +0000
Subject: [PATCH 11/17] fix: keep predicates on associated types apart from
 generic where clauses

---
 funcmap_derive/src/predicates.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/funcmap_derive/src/predicates.rs b/funcmap_derive/src/predicates.rs
index 73048b9..6b9bea5 100644
--- a/funcmap_derive/src/predicates.rs
+++ b/funcmap_derive/src/predicates.rs
@@ -4,8 +4,8 @@ use crate::result::Error;
 
 use indexmap::{IndexMap, IndexSet};
 use syn::{
-    punctuated::Punctuated, BoundLifetimes, Lifetime, PredicateLifetime, PredicateType, Token,
-    Type, TypeParamBound, WhereClause, WherePredicate,
+    punctuated::Punctuated, BoundLifetimes, Lifetime, PredicateLifetime, PredicateType, QSelf,
+    Token, Type, TypeParamBound, TypePath, WhereClause, WherePredicate,
 };
 
 /// A set of unique type bounds
@@ -137,9 +137,21 @@ impl UniquePredicates {
         let for_types = self.for_types.into_iter().filter_map(|(lhs, rhs)| {
             let bounds = rhs.into_bounds();
 
+            // An unbound `<T>::Assoc` at the beginning of a `where` clause would be
+            // parsed as reserved syntax for generic `where` clauses.
+            let needs_binder = matches!(
+                lhs.bounded_ty,
+                Type::Path(TypePath {
+                    qself: Some(QSelf { as_token: None, .. }),
+                    ..
+                })
+            );
+
             (!bounds.is_empty()).then(|| {
                 WherePredicate::Type(PredicateType {
-                    lifetimes: lhs.lifetimes,
+                    lifetimes: lhs
+                        .lifetimes
+                        .or_else(|| needs_binder.then(BoundLifetimes::default)),
                     bounded_ty: lhs.bounded_ty,
                     colon_token: <Token![:]>::default(),
                     bounds,
-- 
2.43.0


From 38bbda753923c1c4a233c152aeb90fe81414e291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:50 +0000
Subject: [PATCH 12/17] fix: reject crate paths with generic arguments

---
 funcmap_derive/src/opts.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funcmap_derive/src/opts.rs b/funcmap_derive/src/opts.rs
index 4f24e01..e1d6e86 100755
--- a/funcmap_derive/src/opts.rs
+++ b/funcmap_derive/src/opts.rs
@@ -158,7 +158,7 @@ impl Parse for ArgCrate {
         input.parse::<Token![=]>()?;
         let value: LitStr = input.parse()?;
         value
-            .parse()
+            .parse_with(Path::parse_mod_style)
             .map(Self)
             .map_err(|_| syn::Error::new(value.span(), "expected path"))
     }
-- 
2.43.0


From d681fa1f366cedca56086f56efe89920f9fbb62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:57 +0000
Subject: [PATCH 13/17] fix: keep predicates on pointers to function pointers
 parsable

---
 funcmap_derive/src/predicates.rs | 33 +++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/funcmap_derive/src/predicates.rs b/funcmap_derive/src/predicates.rs
index 6b9bea5..698c273 100644
--- a/funcmap_derive/src/predicates.rs
+++ b/funcmap_derive/src/predicates.rs
@@ -3,9 +3,12 @@
 use crate::result::Error;
 
 use indexmap::{IndexMap, IndexSet};
+use proc_macro2::{Delimiter, TokenStream, TokenTree};
+use quote::ToTokens;
 use syn::{
-    punctuated::Punctuated, BoundLifetimes, Lifetime, PredicateLifetime, PredicateType, QSelf,
-    Token, Type, TypeParamBound, TypePath, WhereClause, WherePredicate,
+    punctuated::Punctuated, token::Paren, BoundLifetimes, Lifetime, PredicateLifetime,
+    PredicateType, QSelf, Token, Type, TypeParamBound, TypeParen, TypePath, WhereClause,
+    WherePredicate,
 };
 
 /// A set of unique type bounds
@@ -147,12 +150,22 @@ impl UniquePredicates {
                 })
             );
 
+            // An unparenthesized `&fn(): Trait` is not parsed as a predicate.
+            let bounded_ty = if ends_with_fn_without_output(lhs.bounded_ty.to_token_stream()) {
+                Type::Paren(TypeParen {
+                    paren_token: Paren::default(),
+                    elem: Box::new(lhs.bounded_ty),
+                })
+            } else {
+                lhs.bounded_ty
+            };
+
             (!bounds.is_empty()).then(|| {
                 WherePredicate::Type(PredicateType {
                     lifetimes: lhs
                         .lifetimes
                         .or_else(|| needs_binder.then(BoundLifetimes::default)),
-                    bounded_ty: lhs.bounded_ty,
+                    bounded_ty,
                     colon_token: <Token![:]>::default(),
                     bounds,
                 })
@@ -171,6 +184,20 @@ impl UniquePredicates {
     }
 }
 
+/// Returns `true` if the given tokens of a type end with a function pointer
+/// type that has no explicit return type
+fn ends_with_fn_without_output(ty: TokenStream) -> bool {
+    let mut tokens: Vec<_> = ty.into_iter().collect();
+
+    match (tokens.pop(), tokens.pop()) {
+        (Some(TokenTree::Group(group)), _) if group.delimiter() == Delimiter::None => {
+            ends_with_fn_without_output(group.stream())
+        }
+        (Some(TokenTree::Group(..)), Some(TokenTree::Ident(ident))) => ident == "fn",
+        _ => false,
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From e822271bacefefae47c0050d3e4d31133b2f01f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:34 +0000
Subject: [PATCH 14/17] fix: apply lints allowed for a type to its derived
 impls

---
 funcmap_derive/src/derive.rs |  2 ++
 funcmap_derive/src/input.rs  | 39 ++++++++++++++++++++++++++++++++----
 2 files changed, 37 insertions(+), 4 deletions(-)

diff --git a/funcmap_derive/src/derive.rs b/funcmap_derive/src/derive.rs
index 83c1a67..5d77b01 100644
--- a/funcmap_derive/src/derive.rs
+++ b/funcmap_derive/src/derive.rs
@@ -54,6 +54,7 @@ pub(crate) fn try_derive(item: TokenStream, derivable: Derivable) -> Result<Toke
     let ident = &input.ident;
     let all_params = &input.generics.params;
     let where_clause = &input.generics.where_clause;
+    let allow_attrs = &input.meta.allow_attrs;
 
     let attrs = quote! {
         #[allow(absolute_paths_not_starting_with_crate)]
@@ -66,6 +67,7 @@ pub(crate) fn try_derive(item: TokenStream, derivable: Derivable) -> Result<Toke
         #[allow(unused_qualifications)]
         #[allow(clippy::disallowed_method)]
         #[allow(clippy::disallowed_type)]
+        #(#allow_attrs)*
         #[automatically_derived]
     };
 
diff --git a/funcmap_derive/src/input.rs b/funcmap_derive/src/input.rs
index 1ede1ce..3ebf376 100644
--- a/funcmap_derive/src/input.rs
+++ b/funcmap_derive/src/input.rs
@@ -10,11 +10,11 @@ use crate::{
 
 use std::{collections::HashSet, iter};
 
-use proc_macro2::Ident;
-use quote::ToTokens;
+use proc_macro2::{Ident, TokenStream};
+use quote::{quote, ToTokens};
 use syn::{
-    ext::IdentExt, visit::Visit, Data, DataEnum, DataStruct, DataUnion, DeriveInput, Field,
-    GenericParam, Generics, Path, Token, Type, TypeParam, Variant,
+    ext::IdentExt, visit::Visit, Attribute, Data, DataEnum, DataStruct, DataUnion, DeriveInput,
+    Field, GenericParam, Generics, Meta, MetaList, Path, Token, Type, TypeParam, Variant,
 };
 
 /// Input to a `funcmap` derive macro
@@ -47,6 +47,33 @@ pub(crate) struct FuncMapMeta {
     /// [`IdentCollector`] where all identifiers that occur within the
     /// definition of the type or `crate_path` are already reserved
     pub(crate) ident_collector: IdentCollector,
+
+    /// Attributes allowing the lints that are allowed (or expected) for the
+    /// type or any part of its definition
+    ///
+    /// Generated implementations repeat parts of the definition of the type, so
+    /// they trigger the same lints.
+    pub(crate) allow_attrs: Vec<TokenStream>,
+}
+
+/// Collects attributes allowing the lints that are allowed (or expected)
+/// anywhere within the visited syntax tree
+#[derive(Debug, Default)]
+struct AllowAttrCollector {
+    allow_attrs: Vec<TokenStream>,
+}
+
+impl Visit<'_> for AllowAttrCollector {
+    fn visit_attribute(&mut self, attr: &Attribute) {
+        match &attr.meta {
+            Meta::List(MetaList { path, tokens, .. })
+                if path.is_ident("allow") || path.is_ident("expect") =>
+            {
+                self.allow_attrs.push(quote!(#[allow(#tokens)]));
+            }
+            _ => (),
+        }
+    }
 }
 
 /// Type parameter for which to derive a mapping
@@ -97,6 +124,9 @@ impl TryFrom<DeriveInput> for FuncMapInput {
         let mut ident_collector = IdentCollector::new_visiting();
         ident_collector.visit_derive_input(&derive_input);
 
+        let mut allow_attr_collector = AllowAttrCollector::default();
+        allow_attr_collector.visit_derive_input(&derive_input);
+
         let opts: FuncMapOpts = derive_input.attrs.try_into()?;
 
         let crate_path = opts.crate_path.unwrap_or_else(|| {
@@ -113,6 +143,7 @@ impl TryFrom<DeriveInput> for FuncMapInput {
         let meta = FuncMapMeta {
             crate_path,
             ident_collector: ident_collector.into_reserved(),
+            allow_attrs: allow_attr_collector.allow_attrs,
         };
 
         let mut mapped_type_param_idents = HashSet::new();
-- 
2.43.0


From dcd964a0e2e888cdb4a50e3d6db9f226cd99872c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:36 +0000
Subject: [PATCH 15/17] fix: substitute `Self` within generics of the type

---
 funcmap_derive/src/derive.rs  |  2 +-
 funcmap_derive/src/input.rs   | 37 ++++++++++++++++++++++-----------
 funcmap_derive/src/syn_ext.rs | 39 +++++++++++++++++++++++++++++++++--
 3 files changed, 63 insertions(+), 15 deletions(-)

diff --git a/funcmap_derive/src/derive.rs b/funcmap_derive/src/derive.rs
index 5d77b01..69bbbb6 100644
--- a/funcmap_derive/src/derive.rs
+++ b/funcmap_derive/src/derive.rs
@@ -347,7 +347,7 @@ pub(crate) fn try_derive(item: TokenStream, derivable: Derivable) -> Result<Toke
 /// Const arguments are put into braces because a plain identifier would be
 /// resolved as a type (or enum variant) of the same name if there is one in
 /// scope.
-fn into_unambiguous_generic_argument(param: GenericParam) -> GenericArgument {
+pub(crate) fn into_unambiguous_generic_argument(param: GenericParam) -> GenericArgument {
     match param {
         GenericParam::Const(ConstParam { ident, .. }) => {
             GenericArgument::Const(parse_quote!({ #ident }))
diff --git a/funcmap_derive/src/input.rs b/funcmap_derive/src/input.rs
index 3ebf376..92684c6 100644
--- a/funcmap_derive/src/input.rs
+++ b/funcmap_derive/src/input.rs
@@ -1,11 +1,12 @@
 //! Functionality for preparing the input to `funcmap` derive macros
 
 use crate::{
+    derive::into_unambiguous_generic_argument,
     ident::{CRATE_IDENT, TRAIT_IDENT},
     ident_collector::IdentCollector,
     opts::{self, FuncMapOpts, Param},
     result::{self, Error, IteratorExt, ResultExt},
-    syn_ext::{IsTypish, ToNonEmptyTokens},
+    syn_ext::{IsTypish, SubsSelf, ToNonEmptyTokens},
 };
 
 use std::{collections::HashSet, iter};
@@ -13,8 +14,9 @@ use std::{collections::HashSet, iter};
 use proc_macro2::{Ident, TokenStream};
 use quote::{quote, ToTokens};
 use syn::{
-    ext::IdentExt, visit::Visit, Attribute, Data, DataEnum, DataStruct, DataUnion, DeriveInput,
-    Field, GenericParam, Generics, Meta, MetaList, Path, Token, Type, TypeParam, Variant,
+    ext::IdentExt, parse_quote, visit::Visit, Attribute, Data, DataEnum, DataStruct, DataUnion,
+    DeriveInput, Field, GenericParam, Generics, Meta, MetaList, Path, Token, Type, TypeParam,
+    Variant,
 };
 
 /// Input to a `funcmap` derive macro
@@ -146,14 +148,27 @@ impl TryFrom<DeriveInput> for FuncMapInput {
             allow_attrs: allow_attr_collector.allow_attrs,
         };
 
+        // Within the generics, `Self` refers to the type before the mapping, so it
+        // depends on all type parameters.
+        let generics = {
+            let ident = &derive_input.ident;
+
+            let args = derive_input
+                .generics
+                .params
+                .iter()
+                .cloned()
+                .map(into_unambiguous_generic_argument);
+
+            let self_type = parse_quote!(#ident<#(#args),*>);
+            derive_input.generics.clone().subs_self(&self_type)
+        };
+
         let mut mapped_type_param_idents = HashSet::new();
         let mut result_builder = result::Builder::new();
 
         for param in opts.params {
-            match (
-                derive_input.generics.params.iter().find(|p| &&param == p),
-                param,
-            ) {
+            match (generics.params.iter().find(|p| &&param == p), param) {
                 (Some(GenericParam::Type(..)), Param::TypeOrConst(ident)) => {
                     mapped_type_param_idents.insert(ident);
                 }
@@ -176,8 +191,7 @@ impl TryFrom<DeriveInput> for FuncMapInput {
             }
         }
 
-        let mapped_type_params: Vec<_> = derive_input
-            .generics
+        let mapped_type_params: Vec<_> = generics
             .params
             .iter()
             .enumerate()
@@ -200,8 +214,7 @@ impl TryFrom<DeriveInput> for FuncMapInput {
 
         if mapped_type_params.is_empty() {
             result_builder.add_err(syn::Error::new_spanned(
-                derive_input
-                    .generics
+                generics
                     .to_non_empty_token_stream()
                     .unwrap_or_else(|| derive_input.ident.to_token_stream()),
                 "expected at least one type parameter, found none",
@@ -227,7 +240,7 @@ impl TryFrom<DeriveInput> for FuncMapInput {
         Ok(Self {
             meta,
             ident: derive_input.ident,
-            generics: derive_input.generics,
+            generics,
             mapped_type_params,
             variants,
         })
diff --git a/funcmap_derive/src/syn_ext.rs b/funcmap_derive/src/syn_ext.rs
index 038a751..7f80141 100644
--- a/funcmap_derive/src/syn_ext.rs
+++ b/funcmap_derive/src/syn_ext.rs
@@ -7,8 +7,9 @@ use syn::fold::{self, Fold};
 use syn::punctuated::Punctuated;
 use syn::visit::{self, Visit};
 use syn::{
-    ConstParam, Expr, GenericArgument, GenericParam, LifetimeParam, PathSegment, PredicateType,
-    TraitBound, TraitBoundModifier, Type, TypeParam, TypeParamBound, TypePath, WherePredicate,
+    ConstParam, Expr, GenericArgument, GenericParam, Generics, LifetimeParam, PathSegment,
+    PredicateType, TraitBound, TraitBoundModifier, Type, TypeParam, TypeParamBound, TypePath,
+    WherePredicate,
 };
 
 /// Extension trait for determining the dependency of an AST node on a type
@@ -141,6 +142,40 @@ impl Fold for SubsTypeFolder<'_> {
     }
 }
 
+/// Extension trait for replacing `Self` within the generics of a type
+pub(crate) trait SubsSelf {
+    /// Substitutes the type `Self` with `subs_type` within `self`
+    fn subs_self(self, subs_type: &Type) -> Self;
+}
+
+impl SubsSelf for Generics {
+    fn subs_self(self, subs_type: &Type) -> Self {
+        SubsSelfFolder { subs_type }.fold_generics(self)
+    }
+}
+
+/// Type implementing [`Fold`] for [`subs_self`](SubsSelf::subs_self)
+struct SubsSelfFolder<'a> {
+    subs_type: &'a Type,
+}
+
+impl Fold for SubsSelfFolder<'_> {
+    fn fold_type(&mut self, ty: Type) -> Type {
+        match &ty {
+            Type::Path(TypePath { qself: None, path }) if path.is_ident("Self") => {
+                self.subs_type.clone()
+            }
+            _ => fold::fold_type(self, ty),
+        }
+    }
+
+    // Constant expressions cannot refer to a generic `Self`, so any `Self` in
+    // there belongs to an item that is local to the expression.
+    fn fold_expr(&mut self, expr: Expr) -> Expr {
+        expr
+    }
+}
+
 /// Extension trait for converting an AST node into a [`GenericArgument`]
 pub(crate) trait IntoGenericArgument {
     /// Converts `self` into a [`GenericArgument`]
-- 
2.43.0


From 9db6b099f8e93ca6e8b0dfb0e8b3f71c1eefd7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:19 +0000
Subject: [PATCH 16/17] fix: reserve identifiers within macro invocations

---
 funcmap_derive/src/ident_collector.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/funcmap_derive/src/ident_collector.rs b/funcmap_derive/src/ident_collector.rs
index cee3a0f..922ad8b 100644
--- a/funcmap_derive/src/ident_collector.rs
+++ b/funcmap_derive/src/ident_collector.rs
@@ -2,8 +2,12 @@
 
 use std::collections::HashSet;
 
-use proc_macro2::{Ident, Span};
-use syn::{ext::IdentExt, visit::Visit};
+use proc_macro2::{Ident, Span, TokenStream, TokenTree};
+use syn::{
+    ext::IdentExt,
+    visit::{self, Visit},
+    Macro,
+};
 
 /// Collects unique identifiers for use in generated code
 #[derive(Debug, Default)]
@@ -79,6 +83,16 @@ impl VisitingIdentCollector {
     pub(crate) fn into_reserved(self) -> IdentCollector {
         self.0
     }
+
+    fn visit_tokens(&mut self, tokens: TokenStream) {
+        for token in tokens {
+            match token {
+                TokenTree::Group(group) => self.visit_tokens(group.stream()),
+                TokenTree::Ident(ident) => self.visit_ident(&ident),
+                TokenTree::Punct(_) | TokenTree::Literal(_) => {}
+            }
+        }
+    }
 }
 
 impl Visit<'_> for VisitingIdentCollector {
@@ -86,6 +100,12 @@ impl Visit<'_> for VisitingIdentCollector {
         // `r#A` and `A` are the same identifier
         self.0.idents.insert(ident.unraw().to_string());
     }
+
+    fn visit_macro(&mut self, mac: &Macro) {
+        // the tokens of a macro invocation are not part of the syntax tree
+        self.visit_tokens(mac.tokens.clone());
+        visit::visit_macro(self, mac);
+    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From ef5cddd7be5645ecceb41c9e64d84663cf4700eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:42:03 +0000
Subject: [PATCH 17/17] fix: reserve all letters in the presence of macro
 invocations

The expansion of a macro invocation within a const expression may refer to
items that are not mentioned in the definition, which must not be captured by
the generated type parameters.
---
 funcmap_derive/src/ident_collector.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/funcmap_derive/src/ident_collector.rs b/funcmap_derive/src/ident_collector.rs
index 922ad8b..33f070b 100644
--- a/funcmap_derive/src/ident_collector.rs
+++ b/funcmap_derive/src/ident_collector.rs
@@ -104,6 +104,8 @@ impl Visit<'_> for VisitingIdentCollector {
     fn visit_macro(&mut self, mac: &Macro) {
         // the tokens of a macro invocation are not part of the syntax tree
         self.visit_tokens(mac.tokens.clone());
+        // neither is its expansion, which may refer to items with any name
+        self.0.idents.extend(('A'..='Z').map(String::from));
         visit::visit_macro(self, mac);
     }
 }
-- 
2.43.0

