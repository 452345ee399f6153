From 0100c1da7856e44f72d973f6e471d361e329d90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:27 +0000
Subject: [PATCH 01/17] verif hook: build the macro as a library function under
 cfg(parsegen_verif)

---
 src/lib.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 4cd8ec4..09e8317 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,3 +1,6 @@
+// `parsegen_verif` is set by verification harnesses only, see `parser` below.
+#![allow(unexpected_cfgs)]
+
 #[macro_use]
 mod maplit;
 
@@ -17,11 +20,23 @@ mod lr_common;
 #[cfg(test)]
 mod test_grammars;
 
+#[cfg(not(parsegen_verif))]
 use proc_macro::TokenStream;
 
-#[proc_macro]
+// Verification hook: with `--cfg parsegen_verif` the crate is built as an ordinary library, and the
+// macro is an ordinary function from token stream to token stream.
+#[cfg(parsegen_verif)]
+use proc_macro2::TokenStream;
+
+#[cfg_attr(not(parsegen_verif), proc_macro)]
 pub fn parser(input: TokenStream) -> TokenStream {
+    #[cfg(not(parsegen_verif))]
     let parser = syn::parse_macro_input!(input as ast::Parser);
+    #[cfg(parsegen_verif)]
+    let parser: ast::Parser = match syn::parse2(input) {
+        Ok(parser) => parser,
+        Err(err) => return err.to_compile_error(),
+    };
 
     let mut non_terminals: Vec<ast::NonTerminal> = vec![];
     let mut token_enum: Option<ast::TokenEnum> = None;
-- 
2.43.0


From 5f859f4f51f2f8b97beedf6f53ff5849ff108a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:30 +0000
Subject: [PATCH 02/17] fix: include the first set of a nullable symbol in the
 first set of the production

A nullable non-terminal at the beginning of a production was skipped without
adding its terminals, so lookaheads were missing from the LR(1) items and
sentences were rejected.
---
 src/first.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/first.rs b/src/first.rs
index 3694540..00ffb35 100644
--- a/src/first.rs
+++ b/src/first.rs
@@ -75,15 +75,15 @@ pub fn generate_first_table<A>(grammar: &Grammar<A>) -> FirstTable {
                 for symbol in &production.symbols {
                     match &symbol.symbol {
                         Symbol::NonTerminal(nt) => {
-                            let FirstSet { empty, terminals } = table.get_first(*nt);
-                            if *empty {
-                                // Continue to the next symbol in the production
-                                continue;
-                            }
                             // TODO: clone below to avoid borrowck issues
-                            for terminal in terminals.clone() {
+                            let FirstSet { empty, terminals } = table.get_first(*nt).clone();
+                            for terminal in terminals {
                                 updated |= table.add_first(non_terminal_idx, terminal);
                             }
+                            if empty {
+                                // Continue to the next symbol in the production
+                                continue;
+                            }
                             continue 'production_loop;
                         }
                         Symbol::Terminal(terminal) => {
-- 
2.43.0


From babe10e093c9b96420618f108c036c1b783efc17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:53 +0000
Subject: [PATCH 03/17] fix: iterate first sets again when a non-terminal turns
 out to be nullable

The change of the empty flag at the end of a production was not recorded, so
the iteration could stop before users of the non-terminal had seen it.
---
 src/first.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/first.rs b/src/first.rs
index 00ffb35..5248494 100644
--- a/src/first.rs
+++ b/src/first.rs
@@ -94,7 +94,7 @@ pub fn generate_first_table<A>(grammar: &Grammar<A>) -> FirstTable {
                 }
                 // If we reached here then all symbols in the production are empty, so the
                 // non-terminal can be empty
-                table.set_empty(non_terminal_idx);
+                updated |= table.set_empty(non_terminal_idx);
             }
         }
     }
-- 
2.43.0


From c4aae5399ee2923584968ad5d61e6c8f3f4dd466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:10 +0000
Subject: [PATCH 04/17] fix: reject grammars in which accepting conflicts with
 a reduction

Accept silently replaced a reduction on end of input, so ambiguous grammars such
as `pub E = { E, "a" }` were accepted.
---
 src/lr_common.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lr_common.rs b/src/lr_common.rs
index 2c9e923..9c1d3ec 100644
--- a/src/lr_common.rs
+++ b/src/lr_common.rs
@@ -148,13 +148,19 @@ impl<A: fmt::Debug + Eq> LRTableBuilder<A> {
     }
 
     pub fn add_accept(&mut self, state: StateIdx) {
-        let _old = self
+        let old_action = self
             .table
             .action
             .entry(state)
             .or_default()
             .insert(None, LRAction::Accept);
-        // assert_eq!(old, None);
+
+        if let Some(LRAction::Reduce(nt_, p_, _)) = old_action {
+            panic!(
+                "({}, None): Overriding Reduce({}, {}) action with Accept",
+                state.0, nt_.0, p_.0
+            );
+        }
     }
 
     pub fn add_goto(&mut self, state: StateIdx, non_terminal_idx: NonTerminalIdx, next: StateIdx) {
-- 
2.43.0


From 298ab796a33386969971cead7b147c5409b362ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:36 +0000
Subject: [PATCH 05/17] fix: do not skip literals other than strings in
 productions

A number or character in place of a symbol was consumed while trying to parse it
as a string, and then silently ignored.
---
 src/ast.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ast.rs b/src/ast.rs
index 58e7768..db95a8e 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -397,9 +397,10 @@ impl Parse for Symbol {
 }
 
 fn symbol0(input: &ParseBuffer) -> syn::Result<Symbol> {
-    // TODO: No peek for LitStr?
-    if let Ok(str) = input.parse::<syn::LitStr>() {
-        return Ok(Symbol::Terminal(str));
+    // Parsing a `LitStr` consumes the token even if it turns out to be another kind of literal, so
+    // peek first
+    if input.peek(syn::LitStr) {
+        return Ok(Symbol::Terminal(input.parse::<syn::LitStr>()?));
     }
 
     if let Ok(ident) = input.parse::<syn::Ident>() {
-- 
2.43.0


From 10d18efd498325a2dda25b9e1dcb28bd34e2577f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:30 +0000
Subject: [PATCH 06/17] fix: reject grammars that declare a non-terminal more
 than once

The productions of all declarations were added to the last one, so references to
the name, or the entry point, silently meant another non-terminal.
---
 src/lower.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lower.rs b/src/lower.rs
index c22a550..184e583 100644
--- a/src/lower.rs
+++ b/src/lower.rs
@@ -27,6 +27,10 @@ pub fn lower(
     };
 
     for nt in &non_terminals {
+        if nt_indices.contains_key(&nt.name.to_string()) {
+            panic!("Non-terminal {} defined multiple times", nt.name);
+        }
+
         if nt.visibility.is_pub() {
             // For a `pub` non-terminal:
             //
-- 
2.43.0


From 11a53094ab585b2cfc442cfed3b29cd9feb95615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:23 +0000
Subject: [PATCH 07/17] fix: generate one-element tuple patterns as tuples

The pattern used to take the token apart was generated without the trailing
comma, so a one-element tuple pattern either did not compile or matched the
wrong thing.
---
 src/codegen.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/codegen.rs b/src/codegen.rs
index 1245dd8..8a4e2e0 100644
--- a/src/codegen.rs
+++ b/src/codegen.rs
@@ -436,7 +436,7 @@ fn generate_pattern_syn_with_idents_(pat: &Pattern, idents: &mut Vec<syn::Ident>
                 .map(|pat| generate_pattern_syn_with_idents_(pat, idents))
                 .collect();
 
-            quote!((#(#pats),*))
+            quote!((#(#pats,)*))
         }
 
         Pattern::Path(path) => quote!(#path),
-- 
2.43.0


From 433ca51fddf7452574433e34236d9d875a3b0db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:25 +0000
Subject: [PATCH 08/17] fix: match the token itself when classifying it, not a
 reference to it

Constants of the token type are valid token patterns, but are not matched
through a reference.
---
 src/codegen.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/codegen.rs b/src/codegen.rs
index 8a4e2e0..c2495a4 100644
--- a/src/codegen.rs
+++ b/src/codegen.rs
@@ -166,7 +166,7 @@ pub fn token_terminal_idx_fn(tokens: &TokenEnum) -> (syn::Ident, TokenStream) {
             #arg_name: &#type_name<#(#type_lifetimes),*>
         ) -> usize
         {
-            match #arg_name {
+            match *#arg_name {
                 #(#match_alts,)*
             }
         }
-- 
2.43.0


From b7c8a188406f7845eb98b5d729edd5fc327d864d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:20 +0000
Subject: [PATCH 09/17] fix: allow token types with lifetimes that no captured
 value or result uses

The lifetimes were then unused parameters of SemanticActionResult, and the
generated code did not compile.
---
 src/codegen.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/codegen.rs b/src/codegen.rs
index c2495a4..c2cd426 100644
--- a/src/codegen.rs
+++ b/src/codegen.rs
@@ -338,6 +338,15 @@ pub fn semantic_action_result_type<A>(
         }
     }
 
+    // Lifetimes of the token type may not be used in any of the variants above, which would make them
+    // unused parameters
+    if !token_lifetimes.is_empty() {
+        variants.push(quote!(
+            #[allow(dead_code)]
+            Lifetimes(::std::marker::PhantomData<(#(&#token_lifetimes (),)*)>)
+        ));
+    }
+
     let code = quote!(
         #[derive(Debug)]
         enum #semantic_action_result_type_name<#(#token_lifetimes),*> {
-- 
2.43.0


From bde4dee7142873322e07e705bc2b42bffc5a8afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:23 +0000
Subject: [PATCH 10/17] fix: do not shadow user types named E or R in generated
 code

A result type or token type with one of these names was taken for the generic
parameter of the generated functions, which then did not compile.
---
 src/lr_codegen.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/lr_codegen.rs b/src/lr_codegen.rs
index a1bb892..c9c5d38 100644
--- a/src/lr_codegen.rs
+++ b/src/lr_codegen.rs
@@ -98,13 +98,14 @@ pub fn generate_lr1_parser(grammar: Grammar<syn::Expr>, tokens: &TokenEnum) -> T
                 Span::call_site(),
             );
 
+            // Generic parameters are named so that they don't shadow types of the user
             quote!(
                 pub struct #non_terminal_name_id;
 
                 impl #non_terminal_name_id {
-                    pub fn parse<#(#token_lifetimes,)* E: Clone>(
-                        input: impl Iterator<Item=Result<#token_type<#(#token_lifetimes,)*>, E>>
-                    ) -> Result<#non_terminal_return_type, ParseError<E>>
+                    pub fn parse<#(#token_lifetimes,)* __E: Clone>(
+                        input: impl Iterator<Item=Result<#token_type<#(#token_lifetimes,)*>, __E>>
+                    ) -> Result<#non_terminal_return_type, ParseError<__E>>
                     {
                         parse_generic(
                             input,
@@ -171,12 +172,12 @@ pub fn generate_lr1_parser(grammar: Grammar<syn::Expr>, tokens: &TokenEnum) -> T
         // Maps terminals to their strings to be used in error messages
         #token_to_text_table
 
-        fn parse_generic<#(#token_lifetimes,)* R, E: Clone>(
-            mut input: impl Iterator<Item=Result<#token_type<#(#token_lifetimes),*>, E>>,
-            extract_value: fn(SemanticActionResult<#(#token_lifetimes),*>) -> R,
+        fn parse_generic<#(#token_lifetimes,)* __R, __E: Clone>(
+            mut input: impl Iterator<Item=Result<#token_type<#(#token_lifetimes),*>, __E>>,
+            extract_value: fn(SemanticActionResult<#(#token_lifetimes),*>) -> __R,
             init_state: u32,
             action_idx: usize,
-        ) -> Result<R, ParseError<E>>
+        ) -> Result<__R, ParseError<__E>>
         {
             let mut state_stack: Vec<u32> = vec![init_state];
             let mut value_stack: Vec<SemanticActionResult<#(#token_lifetimes),*>> = vec![];
-- 
2.43.0


From 2f25c9237203dc74fe37ee65aba0e810ca159289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:45 +0000
Subject: [PATCH 11/17] fix: accept raw identifiers as names of public
 non-terminals

---
 src/lr_codegen.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lr_codegen.rs b/src/lr_codegen.rs
index c9c5d38..91fa607 100644
--- a/src/lr_codegen.rs
+++ b/src/lr_codegen.rs
@@ -81,8 +81,9 @@ pub fn generate_lr1_parser(grammar: Grammar<syn::Expr>, tokens: &TokenEnum) -> T
         .map(|(non_terminal_idx, parser_state)| {
             let parser_state = u32::try_from(parser_state.as_usize()).unwrap();
             let non_terminal = grammar.get_non_terminal(non_terminal_idx);
-            let non_terminal_name_id =
-                syn::Ident::new(&non_terminal.non_terminal, Span::call_site());
+            // `parse_str` rather than `Ident::new`: the name may be a raw identifier
+            let non_terminal_name_id: syn::Ident =
+                syn::parse_str(&non_terminal.non_terminal).unwrap();
             let non_terminal_return_type = &non_terminal.return_ty;
             let action_idx = usize::from(
                 grammar
-- 
2.43.0


From 27a5e50fd74487ce006ae8507775e2657b9e7cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:46 +0000
Subject: [PATCH 12/17] fix: do not depend on prelude names in the scope of the
 macro invocation

---
 src/codegen.rs    |  4 ++--
 src/lr_codegen.rs | 33 +++++++++++++++++++++------------
 2 files changed, 23 insertions(+), 14 deletions(-)

diff --git a/src/codegen.rs b/src/codegen.rs
index c2cd426..78ea3ae 100644
--- a/src/codegen.rs
+++ b/src/codegen.rs
@@ -92,7 +92,7 @@ pub fn generate_semantic_action_table(
 
                         decls.push(quote!(
                             fn #fn_name<#(#token_lifetimes),*>(
-                                value_stack: &mut Vec<SemanticActionResult<#(#token_lifetimes),*>>
+                                value_stack: &mut ::std::vec::Vec<SemanticActionResult<#(#token_lifetimes),*>>
                             ) {
                                 #(#pop_code;)*
                                 value_stack.push(SemanticActionResult::#non_terminal_variant(#action));
@@ -120,7 +120,7 @@ pub fn generate_semantic_action_table(
 
     let n_fns = fn_names.len();
     decls.push(quote!(
-        static SEMANTIC_ACTIONS: [fn(&mut Vec<SemanticActionResult>); #n_fns] = [
+        static SEMANTIC_ACTIONS: [fn(&mut ::std::vec::Vec<SemanticActionResult>); #n_fns] = [
             #(#fn_names),*
         ];
     ));
diff --git a/src/lr_codegen.rs b/src/lr_codegen.rs
index 91fa607..184dea0 100644
--- a/src/lr_codegen.rs
+++ b/src/lr_codegen.rs
@@ -104,9 +104,9 @@ pub fn generate_lr1_parser(grammar: Grammar<syn::Expr>, tokens: &TokenEnum) -> T
                 pub struct #non_terminal_name_id;
 
                 impl #non_terminal_name_id {
-                    pub fn parse<#(#token_lifetimes,)* __E: Clone>(
-                        input: impl Iterator<Item=Result<#token_type<#(#token_lifetimes,)*>, __E>>
-                    ) -> Result<#non_terminal_return_type, ParseError<__E>>
+                    pub fn parse<#(#token_lifetimes,)* __E: ::std::clone::Clone>(
+                        input: impl ::std::iter::Iterator<Item=::std::result::Result<#token_type<#(#token_lifetimes,)*>, __E>>
+                    ) -> ::std::result::Result<#non_terminal_return_type, ParseError<__E>>
                     {
                         parse_generic(
                             input,
@@ -173,13 +173,18 @@ pub fn generate_lr1_parser(grammar: Grammar<syn::Expr>, tokens: &TokenEnum) -> T
         // Maps terminals to their strings to be used in error messages
         #token_to_text_table
 
-        fn parse_generic<#(#token_lifetimes,)* __R, __E: Clone>(
-            mut input: impl Iterator<Item=Result<#token_type<#(#token_lifetimes),*>, __E>>,
+        fn parse_generic<#(#token_lifetimes,)* __R, __E: ::std::clone::Clone>(
+            mut input: impl ::std::iter::Iterator<Item=::std::result::Result<#token_type<#(#token_lifetimes),*>, __E>>,
             extract_value: fn(SemanticActionResult<#(#token_lifetimes),*>) -> __R,
             init_state: u32,
             action_idx: usize,
-        ) -> Result<__R, ParseError<__E>>
+        ) -> ::std::result::Result<__R, ParseError<__E>>
         {
+            // The user's types may have the same names as these
+            use ::std::option::Option::{None, Some};
+            use ::std::result::Result::{Err, Ok};
+            use ::std::vec::Vec;
+
             let mut state_stack: Vec<u32> = vec![init_state];
             let mut value_stack: Vec<SemanticActionResult<#(#token_lifetimes),*>> = vec![];
 
@@ -346,9 +351,11 @@ fn generate_action_array<A>(
     // +1 for EOF
     let terminal_array_len = n_terminals + 1;
     quote!(
-        static ACTION: [[Option<LRAction>; #terminal_array_len]; #n_states] = [
-            #(#state_array),*
-        ];
+        static ACTION: [[::std::option::Option<LRAction>; #terminal_array_len]; #n_states] = {
+            #[allow(unused_imports)]
+            use ::std::option::Option::{None, Some};
+            [#(#state_array),*]
+        };
     )
 }
 
@@ -376,8 +383,10 @@ fn generate_goto_array(
     }
 
     quote!(
-        static GOTO: [[Option<u32>; #n_non_terminals]; #n_states] = [
-            #(#state_array),*
-        ];
+        static GOTO: [[::std::option::Option<u32>; #n_non_terminals]; #n_states] = {
+            #[allow(unused_imports)]
+            use ::std::option::Option::{None, Some};
+            [#(#state_array),*]
+        };
     )
 }
-- 
2.43.0


From f4d1105cc6bcb8a775bbc5971b78150c33abf7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:47 +0000
Subject: [PATCH 13/17] fix: allow public non-terminals with the names of local
 variables of the generated code

---
 src/lr_codegen.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/lr_codegen.rs b/src/lr_codegen.rs
index 184dea0..bc8a4cb 100644
--- a/src/lr_codegen.rs
+++ b/src/lr_codegen.rs
@@ -74,7 +74,7 @@ pub fn generate_lr1_parser(grammar: Grammar<syn::Expr>, tokens: &TokenEnum) -> T
         &semantic_action_result_type_name,
     );
 
-    // struct NonTerminal;
+    // struct NonTerminal {}
     // impl NonTerminal { fn parse() { ... } }
     let parser_structs: Vec<TokenStream> = nt_state_indices
         .into_iter()
@@ -99,9 +99,11 @@ pub fn generate_lr1_parser(grammar: Grammar<syn::Expr>, tokens: &TokenEnum) -> T
                 Span::call_site(),
             );
 
-            // Generic parameters are named so that they don't shadow types of the user
+            // Generic parameters are named so that they don't shadow types of the user. The struct
+            // is not a unit struct, which would also be a constant: local variables of the generated
+            // code could not have the same name as the non-terminal.
             quote!(
-                pub struct #non_terminal_name_id;
+                pub struct #non_terminal_name_id {}
 
                 impl #non_terminal_name_id {
                     pub fn parse<#(#token_lifetimes,)* __E: ::std::clone::Clone>(
-- 
2.43.0


From fef996c236d7373107c1c75898f4eb303ae565c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:49 +0000
Subject: [PATCH 14/17] fix: accept a raw identifier as the name of the token
 type

---
 src/codegen.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/codegen.rs b/src/codegen.rs
index 78ea3ae..4db250d 100644
--- a/src/codegen.rs
+++ b/src/codegen.rs
@@ -5,6 +5,7 @@ use crate::lr_common::{LRTable, StateIdx};
 
 use proc_macro2::{Span, TokenStream};
 use quote::quote;
+use syn::ext::IdentExt;
 
 #[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
 pub struct SemanticActionIdx(u16);
@@ -147,7 +148,7 @@ pub fn token_terminal_idx_fn(tokens: &TokenEnum) -> (syn::Ident, TokenStream) {
     } = tokens;
 
     let fn_name = syn::Ident::new(
-        &(type_name.to_string().to_lowercase() + "_terminal_idx"),
+        &(type_name.unraw().to_string().to_lowercase() + "_terminal_idx"),
         type_name.span(),
     );
     let arg_name = syn::Ident::new("token", type_name.span());
-- 
2.43.0


From 01e6f0eb314cab1f892df0485369a3ded492ac5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:50 +0000
Subject: [PATCH 15/17] fix: allow binders named value_stack

---
 src/codegen.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/codegen.rs b/src/codegen.rs
index 4db250d..177d55f 100644
--- a/src/codegen.rs
+++ b/src/codegen.rs
@@ -32,6 +32,9 @@ pub fn generate_semantic_action_table(
     let mut decls: Vec<TokenStream> = vec![];
     let mut fn_names: Vec<syn::Ident> = vec![];
 
+    // Hygienic, a binder may have the same name
+    let value_stack = syn::Ident::new("value_stack", Span::mixed_site());
+
     let non_terminals: Vec<NonTerminal<SemanticActionIdx>> = non_terminals
         .into_iter()
         .enumerate()
@@ -56,7 +59,7 @@ pub fn generate_semantic_action_table(
                         for BoundSymbol { binder, symbol: kind } in symbols.iter().rev() {
                             match binder {
                                 None => {
-                                    pop_code.push(quote!(value_stack.pop()));
+                                    pop_code.push(quote!(#value_stack.pop()));
                                 }
                                 Some(Name {
                                     mutable,
@@ -74,7 +77,7 @@ pub fn generate_semantic_action_table(
                                         ),
                                     };
                                     pop_code.push(quote!(
-                                        let #mut_ #name = value_stack.pop().unwrap().#extract_method()
+                                        let #mut_ #name = #value_stack.pop().unwrap().#extract_method()
                                     ));
                                 }
                             }
@@ -93,10 +96,10 @@ pub fn generate_semantic_action_table(
 
                         decls.push(quote!(
                             fn #fn_name<#(#token_lifetimes),*>(
-                                value_stack: &mut ::std::vec::Vec<SemanticActionResult<#(#token_lifetimes),*>>
+                                #value_stack: &mut ::std::vec::Vec<SemanticActionResult<#(#token_lifetimes),*>>
                             ) {
                                 #(#pop_code;)*
-                                value_stack.push(SemanticActionResult::#non_terminal_variant(#action));
+                                #value_stack.push(SemanticActionResult::#non_terminal_variant(#action));
                             }
                         ));
 
-- 
2.43.0


From fd1e144757d3ce150a832e0ec223ceb142805885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:22 +0000
Subject: [PATCH 16/17] fix: do not share value variants between types that
 only look the same

---
 src/codegen.rs | 49 +++++++++++++++++--------------------------------
 1 file changed, 17 insertions(+), 32 deletions(-)

diff --git a/src/codegen.rs b/src/codegen.rs
index 177d55f..a81c53d 100644
--- a/src/codegen.rs
+++ b/src/codegen.rs
@@ -1,5 +1,4 @@
 use crate::ast::{Conversion, FieldPattern, Name, Pattern, TokenEnum};
-use crate::collections::Map;
 use crate::grammar::{BoundSymbol, Grammar, NonTerminal, Production, Symbol, TerminalIdx};
 use crate::lr_common::{LRTable, StateIdx};
 
@@ -304,42 +303,28 @@ pub fn semantic_action_result_type<A>(
         ));
     }
 
-    // Generate variants for non-terminals. Non-terminals with same type use the same enum variant.
+    // Generate variants for non-terminals. Non-terminals do not share variants, even if their types look
+    // the same: `$crate::T` of two macros can be two types.
     let mut non_terminal_action_variant_names: Vec<usize> = vec![];
 
-    let mut non_terminal_ty_indices: Map<syn::Type, usize> = Default::default();
-    let mut i: usize = 0;
+    for (i, non_terminal) in grammar.non_terminals().iter().enumerate() {
+        let variant_id = syn::Ident::new(&format!("NonTerminal{}", i), Span::call_site());
 
-    for non_terminal in grammar.non_terminals().iter() {
-        match non_terminal_ty_indices
-            .get(&non_terminal.return_ty)
-            .copied()
-        {
-            Some(i) => {
-                non_terminal_action_variant_names.push(i);
-            }
-            None => {
-                let variant_id = syn::Ident::new(&format!("NonTerminal{}", i), Span::call_site());
-
-                let pattern_ty = &non_terminal.return_ty;
-                variants.push(quote!(#variant_id(#pattern_ty)));
-
-                let method_id = syn::Ident::new(&format!("non_terminal_{}", i), Span::call_site());
-                extraction_fns.push(quote!(
-                    fn #method_id(self) -> #pattern_ty {
-                        match self {
-                            Self::#variant_id(f) => f,
-                            _ => unreachable!("{:?}", self),
-                        }
-                    }
-                ));
+        let pattern_ty = &non_terminal.return_ty;
+        variants.push(quote!(#variant_id(#pattern_ty)));
 
-                non_terminal_action_variant_names.push(i);
-
-                non_terminal_ty_indices.insert(non_terminal.return_ty.clone(), i);
-                i += 1;
+        let method_id = syn::Ident::new(&format!("non_terminal_{}", i), Span::call_site());
+        extraction_fns.push(quote!(
+            #[allow(dead_code)]
+            fn #method_id(self) -> #pattern_ty {
+                match self {
+                    Self::#variant_id(f) => f,
+                    _ => unreachable!("{:?}", self),
+                }
             }
-        }
+        ));
+
+        non_terminal_action_variant_names.push(i);
     }
 
     // Lifetimes of the token type may not be used in any of the variants above, which would make them
-- 
2.43.0


From 522648f033fb8fd024445a155a578173c5f8a0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:36:30 +0000
Subject: [PATCH 17/17] fix: name the macros in the generated code by their
 full path

---
 src/codegen.rs    | 4 ++--
 src/lr_codegen.rs | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/codegen.rs b/src/codegen.rs
index a81c53d..541f076 100644
--- a/src/codegen.rs
+++ b/src/codegen.rs
@@ -297,7 +297,7 @@ pub fn semantic_action_result_type<A>(
             fn #method_id(self) -> (#(#pattern_types),*) {
                 match self {
                     Self::#variant_id(#(#field_ids),*) => (#(#field_ids),*),
-                    _ => unreachable!(),
+                    _ => ::std::unreachable!(),
                 }
             }
         ));
@@ -319,7 +319,7 @@ pub fn semantic_action_result_type<A>(
             fn #method_id(self) -> #pattern_ty {
                 match self {
                     Self::#variant_id(f) => f,
-                    _ => unreachable!("{:?}", self),
+                    _ => ::std::unreachable!("{:?}", self),
                 }
             }
         ));
diff --git a/src/lr_codegen.rs b/src/lr_codegen.rs
index bc8a4cb..c7f6133 100644
--- a/src/lr_codegen.rs
+++ b/src/lr_codegen.rs
@@ -187,8 +187,8 @@ pub fn generate_lr1_parser(grammar: Grammar<syn::Expr>, tokens: &TokenEnum) -> T
             use ::std::result::Result::{Err, Ok};
             use ::std::vec::Vec;
 
-            let mut state_stack: Vec<u32> = vec![init_state];
-            let mut value_stack: Vec<SemanticActionResult<#(#token_lifetimes),*>> = vec![];
+            let mut state_stack: Vec<u32> = ::std::vec![init_state];
+            let mut value_stack: Vec<SemanticActionResult<#(#token_lifetimes),*>> = ::std::vec![];
 
             let mut token = input.next();
 
@@ -221,7 +221,7 @@ pub fn generate_lr1_parser(grammar: Grammar<syn::Expr>, tokens: &TokenEnum) -> T
                         }
                         let state = *state_stack.last().unwrap() as usize;
                         match GOTO[state][non_terminal_idx as usize] {
-                            None => panic!("Stuck! (2)"),
+                            None => ::std::panic!("Stuck! (2)"),
                             Some(next_state) => state_stack.push(next_state),
                         }
                     }
-- 
2.43.0

