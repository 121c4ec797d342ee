From 84ae27400808e79b727366f5449bc6d30a278742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:29 +0000
Subject: [PATCH 01/28] fix: resolve an aliased built-in rule to its own type

---
 generator/src/typed/module.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/generator/src/typed/module.rs b/generator/src/typed/module.rs
index 7911490..a92340d 100644
--- a/generator/src/typed/module.rs
+++ b/generator/src/typed/module.rs
@@ -39,6 +39,8 @@ pub enum RuleGenerics {
     /// Defined rule in current module.
     Rule { argc: usize },
     BuiltIn {
+        /// Name of the generated type, which an alias does not change.
+        name: &'static str,
         /// Built-in rule that accepts nothing as argument.
         ///
         /// - Whether it requires lifetime specifier.
@@ -99,6 +101,7 @@ impl RuleGenerics {
                 }
             },
             Self::BuiltIn {
+                name,
                 direct,
                 slice,
                 callable,
@@ -106,6 +109,7 @@ impl RuleGenerics {
                 None => {
                     let (lifetime,) =
                         direct.ok_or_else(|| ModuleError::ExpectedArguments(rule_ref.clone()))?;
+                    let name = format_ident!("r#{}", name);
                     let typename = match lifetime {
                         true => quote! { #root::#generics::#name::<'i> },
                         false => quote! { #root::#generics::#name },
@@ -134,6 +138,7 @@ impl RuleGenerics {
                     if let Some(argc) = argc {
                         ModuleError::check_argc(argc, args.len(), rule_ref)?;
                     }
+                    let name = format_ident!("r#{}", name);
                     let typename = quote! { #root::#generics::#name::< #( #args, )* > };
                     let getter = GetterByName::from_rule(&typename, name_str);
                     Intermediate { typename, getter }
@@ -270,6 +275,7 @@ impl<'g> ModuleSystem<'g> {
                     Rc::new(
                         ModuleNode::Generics(
                             RuleGenerics::BuiltIn {
+                                name: core::stringify!($name),
                                 direct: None $( .or(Some(pest_direct! { $($direct)* })) )?,
                                 slice: None $( .or(Some(pest_slice! { $( $slice )* })) )?,
                                 callable: None $( .or(Some(pest_callable! { $( $callable )* })) )?,
-- 
2.43.0


From 86733b04d3619730e955b25b56e4f0f8ccef95c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:39 +0000
Subject: [PATCH 02/28] fix: let a grammar rule be named Option

---
 core/src/typed/traits.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/typed/traits.rs b/core/src/typed/traits.rs
index 200ae7a..86eeb0e 100644
--- a/core/src/typed/traits.rs
+++ b/core/src/typed/traits.rs
@@ -137,7 +137,7 @@ macro_rules! full_rule_struct {
                 input: $crate::Position<'i>,
                 stack: &mut $crate::Stack<$crate::Span<'i>>,
                 tracker: &mut $crate::typed::Tracker<'i, $Rule>,
-            ) -> Option<($crate::Position<'i>, Self)> {
+            ) -> $crate::std::Option<($crate::Position<'i>, Self)> {
                 tracker.record_option_during(
                     input,
                     |tracker| {
@@ -153,7 +153,7 @@ macro_rules! full_rule_struct {
                 input: $crate::Position<'i>,
                 stack: &mut $crate::Stack<$crate::Span<'i>>,
                 tracker: &mut $crate::typed::Tracker<'i, $Rule>,
-            ) -> Option<$crate::Position<'i>> {
+            ) -> $crate::std::Option<$crate::Position<'i>> {
                 tracker.record_empty_during::<Self>(
                     input,
                     |tracker| {
-- 
2.43.0


From e3b76780eaf64af5ebfbbc62734e9fbfa95d92a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:03 +0000
Subject: [PATCH 03/28] fix: let an imported grammar be named by a Rust keyword

---
 generator/src/typed/generator.rs |  4 ++--
 generator/src/typed/module.rs    |  3 ++-
 generator/src/types.rs           | 11 +++++++++--
 3 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/generator/src/typed/generator.rs b/generator/src/typed/generator.rs
index 6d21323..8e94dca 100644
--- a/generator/src/typed/generator.rs
+++ b/generator/src/typed/generator.rs
@@ -10,7 +10,7 @@ use crate::{
     config::collect_data,
     expr,
     typed::getter,
-    types::{option_type, pest},
+    types::{module_ident, option_type, pest},
 };
 use pest3_meta::{
     error::rename_meta_rule,
@@ -615,7 +615,7 @@ fn process_rules<'g>(
                 let mut child_mod_sys = ModuleSystem::new(global.clone());
                 new_prefix.push(name.clone());
                 let module = (
-                    format_ident!("{name}"),
+                    module_ident(name),
                     process_rules(
                         module,
                         &mut child_mod_sys,
diff --git a/generator/src/typed/module.rs b/generator/src/typed/module.rs
index a92340d..542656b 100644
--- a/generator/src/typed/module.rs
+++ b/generator/src/typed/module.rs
@@ -3,6 +3,7 @@ use super::{
     getter::GetterByName,
     output::generics,
 };
+use crate::types::module_ident;
 use pest3_core::unicode::unicode_property_names;
 use pest3_meta::parser::{ParseRule, Range};
 use proc_macro2::TokenStream;
@@ -67,7 +68,7 @@ impl RuleGenerics {
         let generics = generics();
         let name = format_ident!("r#{}", name_str);
         let current = rule_ref.path[0..rule_ref.path.len() - 1].iter().map(|sec| {
-            let sec = format_ident!("{}", sec);
+            let sec = module_ident(sec);
             quote! {#sec::rules::}
         });
         let res = match self {
diff --git a/generator/src/types.rs b/generator/src/types.rs
index 3f92720..e478440 100644
--- a/generator/src/types.rs
+++ b/generator/src/types.rs
@@ -1,5 +1,5 @@
-use proc_macro2::TokenStream;
-use quote::quote;
+use proc_macro2::{Ident, TokenStream};
+use quote::{format_ident, quote};
 
 pub fn pest() -> TokenStream {
     #[cfg(feature = "meta")]
@@ -18,3 +18,10 @@ pub fn option_type() -> TokenStream {
     let this = pest();
     quote! {#this::std::Option}
 }
+
+/// Identifier of the module generated for an imported grammar.
+///
+/// A Rust keyword is escaped, as it is a valid name in grammars.
+pub fn module_ident(name: &str) -> Ident {
+    syn::parse_str(name).unwrap_or_else(|_| format_ident!("r#{}", name))
+}
-- 
2.43.0


From b4a66c5088fc024f609f7473094142f0d2f7bea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:14 +0000
Subject: [PATCH 04/28] fix: let a custom rules module hold imported grammars

---
 generator/src/common.rs          |  8 ++++----
 generator/src/typed/generator.rs |  7 ++++---
 generator/src/typed/module.rs    | 15 +++++++++++----
 generator/src/typed/output.rs    |  2 +-
 4 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/generator/src/common.rs b/generator/src/common.rs
index a6abc27..79ebc23 100644
--- a/generator/src/common.rs
+++ b/generator/src/common.rs
@@ -40,7 +40,7 @@ pub(crate) fn generate_include(name: &Ident, paths: Vec<PathBuf>) -> TokenStream
     }
 }
 
-pub(crate) fn generate_rule_enum(module: &GrammarModule) -> TokenStream {
+pub(crate) fn generate_rule_enum(module: &GrammarModule, types: &TokenStream) -> TokenStream {
     let this = pest();
     let GrammarModule {
         rules,
@@ -68,7 +68,7 @@ pub(crate) fn generate_rule_enum(module: &GrammarModule) -> TokenStream {
         Import::File(name, module) => {
             let ident = format_ident!("r#{}", name);
             quote! {
-                #ident(rules::#ident::Rule),
+                #ident(#types::#ident::Rule),
             }
         }
     });
@@ -77,8 +77,8 @@ pub(crate) fn generate_rule_enum(module: &GrammarModule) -> TokenStream {
         Import::File(name, module) => {
             let ident = format_ident!("r#{}", name);
             quote! {
-                impl #this::typed::SuperRule<rules::#ident::Rule> for Rule {
-                    fn cvt_from(rule: rules::#ident::Rule) -> Self {
+                impl #this::typed::SuperRule<#types::#ident::Rule> for Rule {
+                    fn cvt_from(rule: #types::#ident::Rule) -> Self {
                         Self::#ident(rule)
                     }
                 }
diff --git a/generator/src/typed/generator.rs b/generator/src/typed/generator.rs
index 8e94dca..34770bc 100644
--- a/generator/src/typed/generator.rs
+++ b/generator/src/typed/generator.rs
@@ -3,7 +3,7 @@ use super::{
     config::Config,
     getter::GetterByName,
     module::{ModuleNode, ModuleSystem},
-    output::{generics, Output, Tracker},
+    output::{generics, types_mod, Output, Tracker},
 };
 use crate::{
     common::generate_include,
@@ -612,7 +612,8 @@ fn process_rules<'g>(
                 None
             }
             Import::File(name, module) => {
-                let mut child_mod_sys = ModuleSystem::new(global.clone());
+                let mut child_mod_sys =
+                    ModuleSystem::new(global.clone(), types_mod(config.rules_mod.as_deref()));
                 new_prefix.push(name.clone());
                 let module = (
                     module_ident(name),
@@ -832,7 +833,7 @@ fn generate_typed_pair_from_rule<'g>(
     global: Rc<ModuleNode<'g>>,
     tracker: &mut Tracker<'g>,
 ) -> TokenStream {
-    let mut mod_sys = ModuleSystem::new(global.clone());
+    let mut mod_sys = ModuleSystem::new(global.clone(), types_mod(config.rules_mod.as_deref()));
     let output = process_rules(
         module,
         &mut mod_sys,
diff --git a/generator/src/typed/module.rs b/generator/src/typed/module.rs
index 542656b..570ffb8 100644
--- a/generator/src/typed/module.rs
+++ b/generator/src/typed/module.rs
@@ -64,12 +64,13 @@ impl RuleGenerics {
         rule_ref: &RuleRef<'g>,
         args: Option<&ProcessedPathArgs<'g>>,
         root: &TokenStream,
+        types: &TokenStream,
     ) -> Result<Intermediate<'g>, ModuleError<'g>> {
         let generics = generics();
         let name = format_ident!("r#{}", name_str);
         let current = rule_ref.path[0..rule_ref.path.len() - 1].iter().map(|sec| {
             let sec = module_ident(sec);
-            quote! {#sec::rules::}
+            quote! {#sec::#types::}
         });
         let res = match self {
             Self::Rule { argc } => match (argc, args) {
@@ -173,6 +174,7 @@ impl<'g> ModuleNode<'g> {
         node: &'g str,
         rule_ref: &RuleRef<'g>,
         args: &Option<ProcessedPathArgs<'g>>,
+        types: &TokenStream,
     ) -> Result<Intermediate<'g>, ModuleError<'g>> {
         let res = match self {
             Self::Collection(_map) => Err(ModuleError::CollectionCannotBeCalled(rule_ref.clone()))?,
@@ -187,7 +189,9 @@ impl<'g> ModuleNode<'g> {
                 }
                 f(root)
             }
-            Self::Generics(generics) => generics.call(node, rule_ref, args.as_ref(), root)?,
+            Self::Generics(generics) => {
+                generics.call(node, rule_ref, args.as_ref(), root, types)?
+            }
         };
         Ok(res)
     }
@@ -238,6 +242,8 @@ impl<'g> ModuleNode<'g> {
 pub(crate) struct ModuleSystem<'g> {
     root: ModuleNode<'g>,
     pest: Rc<ModuleNode<'g>>,
+    /// Name of the module that contains generated types.
+    types: TokenStream,
 }
 
 impl<'g> ModuleSystem<'g> {
@@ -338,10 +344,10 @@ impl<'g> ModuleSystem<'g> {
         )]));
         root.into()
     }
-    pub fn new(pest: Rc<ModuleNode<'g>>) -> Self {
+    pub fn new(pest: Rc<ModuleNode<'g>>, types: TokenStream) -> Self {
         let root = ModuleNode::Collection(Default::default());
         // FIXME: make "pest" paths to refer to pest3 crate for the moment
-        Self { root, pest }
+        Self { root, pest, types }
     }
     pub fn insert(&mut self, node: ModuleNode<'g>, name: &'g str) -> Result<(), ModuleError<'g>> {
         self.root.alias(node.into(), name)
@@ -368,6 +374,7 @@ impl<'g> ModuleSystem<'g> {
             rule_ref.path.last().ok_or(ModuleError::EmptyPath)?,
             rule_ref,
             &rule_ref.args,
+            &self.types,
         )?;
         Ok(res)
     }
diff --git a/generator/src/typed/output.rs b/generator/src/typed/output.rs
index 27d16d9..1289194 100644
--- a/generator/src/typed/output.rs
+++ b/generator/src/typed/output.rs
@@ -206,7 +206,7 @@ impl<'g> Output<'g> {
         modules: Vec<(Ident, Self)>,
         rules_mod: Option<String>,
     ) -> Self {
-        let rule_enum = generate_rule_enum(module);
+        let rule_enum = generate_rule_enum(module, &types_mod(rules_mod.as_deref()));
         Self {
             content: Vec::new(),
             optional_trivia: None,
-- 
2.43.0


From 52a625d2131799fe7b8d0f06af07dcf5b788bdc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:11 +0000
Subject: [PATCH 05/28] fix: inline silent rules with arguments by capture-free
 substitution

---
 generator/src/typed/generator.rs | 200 ++++++++++++++++++-------------
 meta/src/parser.rs               |  45 ++++---
 2 files changed, 142 insertions(+), 103 deletions(-)

diff --git a/generator/src/typed/generator.rs b/generator/src/typed/generator.rs
index 34770bc..dd520be 100644
--- a/generator/src/typed/generator.rs
+++ b/generator/src/typed/generator.rs
@@ -26,6 +26,7 @@ use std::{
     fmt::Display,
     path::PathBuf,
     rc::Rc,
+    sync::Arc,
 };
 use syn::{DeriveInput, Generics};
 
@@ -847,100 +848,127 @@ fn generate_typed_pair_from_rule<'g>(
     quote! {#output}
 }
 
-fn collect_silent_rules_with_args<'a>(
-    path: Option<&'a str>,
-    module: &'a GrammarModule,
-) -> BTreeMap<Option<&'a str>, BTreeMap<&'a str, &'a ParseRule>> {
-    let mut result = BTreeMap::new();
-    result.insert(
-        path,
-        module
-            .rules
-            .iter()
-            .filter(|rule| rule.silent && !rule.args.is_empty())
-            .map(|rule| (rule.name.as_str(), rule))
-            .collect(),
-    );
-    module.imports.iter().for_each(|import| {
-        if let Import::File(path, module) = import {
-            result.extend(collect_silent_rules_with_args(Some(path), module));
+/// Silent rules with arguments, by their paths from the root module.
+type SilentRules = BTreeMap<Vec<String>, ParseRule>;
+
+fn collect_silent_rules_with_args(
+    prefix: &[String],
+    module: &GrammarModule,
+    result: &mut SilentRules,
+) {
+    let path = |name: &String| prefix.iter().chain([name]).cloned().collect::<Vec<_>>();
+    for rule in module.rules.iter() {
+        if rule.silent && !rule.args.is_empty() {
+            result.insert(path(&rule.name), rule.clone());
         }
-    });
+    }
+    for import in module.imports.iter() {
+        if let Import::File(name, module) = import {
+            collect_silent_rules_with_args(&path(name), module, result);
+        }
+    }
+}
 
-    result
+/// Inline silent rules with arguments which are called in `expr`.
+///
+/// - `expr` belongs to a rule in module `prefix`, which has arguments `params`.
+/// - `calls` are paths of the rules being inlined.
+fn inline_silent_calls(
+    expr: &mut ParseExpr,
+    prefix: &[String],
+    params: &[String],
+    silent_rules: &SilentRules,
+    calls: &mut Vec<Vec<String>>,
+) {
+    expr.for_each_path_mut(&mut |expr| {
+        let ParseExpr::Path(path, Some(PathArgs::Call(args))) = expr else {
+            return;
+        };
+        if path.len() == 1 && params.contains(&path[0]) {
+            return;
+        }
+        let full_path: Vec<_> = prefix.iter().chain(path.iter()).cloned().collect();
+        let Some(silent_rule) = silent_rules.get(&full_path) else {
+            return;
+        };
+        assert!(
+            silent_rule.args.len() == args.len(),
+            "Arguments count mismatch when inlining silent rule `{}`. Expected {}, found {}.",
+            silent_rule.name,
+            silent_rule.args.len(),
+            args.len()
+        );
+        assert!(
+            !calls.contains(&full_path),
+            "Silent rule `{}` with arguments calls itself, so it can't be inlined.",
+            silent_rule.name
+        );
+        let (_, module) = path.split_last().unwrap();
+        let (_, rule_prefix) = full_path.split_last().unwrap();
+        let mut new_expr = silent_rule.node.expr.clone();
+        calls.push(full_path.clone());
+        inline_silent_calls(
+            &mut new_expr,
+            rule_prefix,
+            &silent_rule.args,
+            silent_rules,
+            calls,
+        );
+        calls.pop();
+        new_expr.for_each_path_mut(&mut |expr| {
+            let ParseExpr::Path(path, path_args) = expr else {
+                return;
+            };
+            let arg = match path.as_slice() {
+                [name] => silent_rule.args.iter().position(|arg| arg == name),
+                _ => None,
+            };
+            match arg {
+                Some(index) => *expr = args[index].expr.clone(),
+                // Paths in an imported rule are relative to its module.
+                None if path[0] != "pest" => {
+                    path.splice(0..0, module.iter().cloned());
+                }
+                None => (),
+            }
+        });
+        *expr = new_expr;
+    });
 }
 
-fn inline_silent_rules_with_args(module: GrammarModule) -> GrammarModule {
-    let silent_rules = collect_silent_rules_with_args(None, &module);
-    let mut new_module = module.clone();
-    new_module
+fn inline_silent_rules_in(
+    module: &mut GrammarModule,
+    prefix: &mut Vec<String>,
+    silent_rules: &SilentRules,
+) {
+    module
         .rules
         .retain(|rule| !rule.silent || rule.args.is_empty());
-    for rule in new_module.rules.iter_mut() {
-        let mut nodes = vec![&mut rule.node];
-        while !nodes.is_empty() {
-            loop {
-                let mut replaced = false;
-
-                if let Some(node) = nodes.last_mut() {
-                    let mut replace_expr = None;
-                    if let ParseExpr::Path(path, args) = &node.expr {
-                        if let Some(PathArgs::Call(args)) = args {
-                            if let Some(rule_name) = path.last() {
-                                if let Some(silent_rule) = silent_rules
-                                    .iter()
-                                    .find_map(|(mod_path, rules)| rules.get(rule_name.as_str()))
-                                {
-                                    assert!(silent_rule.args.len() == args.len(), "Arguments count mismatch when inlining silent rule `{}`. Expected {}, found {}.", silent_rule.name, silent_rule.args.len(), args.len());
-                                    let mut new_expr = silent_rule.node.expr.clone();
-                                    for (arg, silent_arg_name) in
-                                        args.iter().zip(silent_rule.args.iter())
-                                    {
-                                        replaced |=
-                                            new_expr.replace(silent_arg_name.as_str(), &arg.expr);
-                                    }
-                                    if replaced {
-                                        replace_expr = Some(new_expr);
-                                    }
-                                }
-                            }
-                        }
-                    }
-                    if let Some(expr) = replace_expr {
-                        node.expr = expr;
-                    }
-                }
-                if !replaced {
-                    break;
-                }
-            }
-            let node = nodes.pop().unwrap();
-            match &mut node.expr {
-                ParseExpr::Seq(left, right, _) => {
-                    nodes.push(left);
-                    nodes.push(right);
-                }
-                ParseExpr::Choice(left, right) => {
-                    nodes.push(left);
-                    nodes.push(right);
-                }
-                ParseExpr::Opt(inner)
-                | ParseExpr::Rep(inner)
-                | ParseExpr::RepOnce(inner)
-                | ParseExpr::Separated(inner, _) => {
-                    nodes.push(inner);
-                }
-                ParseExpr::RepRange(inner, _) => {
-                    nodes.push(inner);
-                }
-                ParseExpr::PosPred(inner) | ParseExpr::NegPred(inner) => {
-                    nodes.push(inner);
-                }
-                _ => {}
-            }
+    for rule in module.rules.iter_mut() {
+        inline_silent_calls(
+            &mut rule.node.expr,
+            prefix,
+            &rule.args,
+            silent_rules,
+            &mut vec![],
+        );
+    }
+    for import in module.imports.iter_mut() {
+        if let Import::File(name, module) = import {
+            prefix.push(name.clone());
+            inline_silent_rules_in(Arc::make_mut(module), prefix, silent_rules);
+            prefix.pop();
         }
     }
-    new_module
+}
+
+fn inline_silent_rules_with_args(mut module: GrammarModule) -> GrammarModule {
+    let mut silent_rules = BTreeMap::new();
+    collect_silent_rules_with_args(&[], &module, &mut silent_rules);
+    if !silent_rules.is_empty() {
+        inline_silent_rules_in(&mut module, &mut vec![], &silent_rules);
+    }
+    module
 }
 
 /// Generate codes for Parser.
diff --git a/meta/src/parser.rs b/meta/src/parser.rs
index 5afb4ad..323e81c 100644
--- a/meta/src/parser.rs
+++ b/meta/src/parser.rs
@@ -215,11 +215,31 @@ pub enum ParseExpr {
 }
 
 impl ParseExpr {
+    /// Replace every reference to `arg_name` with `new_expr`.
+    ///
+    /// Returns whether there is such a reference.
     pub fn replace(&mut self, arg_name: &str, new_expr: &ParseExpr) -> bool {
+        let mut replaced = false;
+        self.for_each_path_mut(&mut |expr| {
+            if matches!(expr, Self::Path(p, None) if p.len() == 1 && p[0] == arg_name) {
+                *expr = new_expr.clone();
+                replaced = true;
+            }
+        });
+        replaced
+    }
+    /// Call `f` with each [`ParseExpr::Path`], after those in its arguments.
+    ///
+    /// What `f` puts in its place isn't visited.
+    pub fn for_each_path_mut(&mut self, f: &mut impl FnMut(&mut Self)) {
         match self {
-            Self::Path(p, None) if p.len() == 1 && p[0] == arg_name => {
-                *self = new_expr.clone();
-                true
+            Self::Path(_, args) => {
+                if let Some(PathArgs::Call(args)) = args {
+                    for arg in args {
+                        arg.expr.for_each_path_mut(f);
+                    }
+                }
+                f(self);
             }
             Self::PosPred(inner)
             | Self::NegPred(inner)
@@ -227,21 +247,12 @@ impl ParseExpr {
             | Self::Rep(inner)
             | Self::RepOnce(inner)
             | Self::RepRange(inner, _)
-            | Self::Separated(inner, _) => inner.expr.replace(arg_name, new_expr),
-            Self::Seq(lhs, rhs, _) => {
-                let replaced_lhs = lhs.expr.replace(arg_name, new_expr);
-                let replaced_rhs = rhs.expr.replace(arg_name, new_expr);
-                replaced_lhs || replaced_rhs
-            }
-            Self::Choice(lhs, rhs) => {
-                let replaced_lhs = lhs.expr.replace(arg_name, new_expr);
-                let replaced_rhs = rhs.expr.replace(arg_name, new_expr);
-                replaced_lhs || replaced_rhs
+            | Self::Separated(inner, _) => inner.expr.for_each_path_mut(f),
+            Self::Seq(lhs, rhs, _) | Self::Choice(lhs, rhs) => {
+                lhs.expr.for_each_path_mut(f);
+                rhs.expr.for_each_path_mut(f);
             }
-            Self::Path(_, Some(PathArgs::Call(args))) => args
-                .iter_mut()
-                .any(|arg| arg.expr.replace(arg_name, new_expr)),
-            _ => false,
+            Self::Str(_) | Self::Insens(_) | Self::Range(_, _) => (),
         }
     }
 }
-- 
2.43.0


From 54f8aa363465a14564175c2d74ed4639b925ec59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:14 +0000
Subject: [PATCH 06/28] fix: reject arguments given to an argument of a rule

---
 generator/src/typed/generator.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/generator/src/typed/generator.rs b/generator/src/typed/generator.rs
index dd520be..5e19c2a 100644
--- a/generator/src/typed/generator.rs
+++ b/generator/src/typed/generator.rs
@@ -333,6 +333,19 @@ fn get_trivia(expr: &ParseExpr) -> Trivia {
     }
 }
 
+/// An argument of a rule can't be called or sliced.
+fn check_no_arguments(name: &str, args: Option<&PathArgs>) {
+    let accepted = match args {
+        None => true,
+        Some(PathArgs::Call(args)) => args.is_empty(),
+        Some(PathArgs::Slice(_)) => false,
+    };
+    assert!(
+        accepted,
+        "Argument `{name}` of a rule doesn't accept arguments."
+    );
+}
+
 /// Returns type name.
 fn process_expr<'g>(
     expr: &'g ParseExpr,
@@ -372,6 +385,7 @@ fn process_expr<'g>(
         }
         ParseExpr::Path(prefix, args) => {
             if prefix.len() == 1 && rule_config.grammar.args.contains(&prefix[0]) {
+                check_no_arguments(&prefix[0], args.as_ref());
                 let ident = format_ident!("r#{}", prefix[0]);
                 let typename = quote! {#ident};
                 let getter = GetterByName::from_generics_arg(&prefix[0]);
@@ -924,7 +938,10 @@ fn inline_silent_calls(
                 _ => None,
             };
             match arg {
-                Some(index) => *expr = args[index].expr.clone(),
+                Some(index) => {
+                    check_no_arguments(&path[0], path_args.as_ref());
+                    *expr = args[index].expr.clone()
+                }
                 // Paths in an imported rule are relative to its module.
                 None if path[0] != "pest" => {
                     path.splice(0..0, module.iter().cloned());
-- 
2.43.0


From ff3c891065810e9c2e8d098df857eea0511a2c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:37 +0000
Subject: [PATCH 07/28] fix: take the content of a raw string written with
 pounds

---
 meta/src/parser.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/meta/src/parser.rs b/meta/src/parser.rs
index 323e81c..f76027d 100644
--- a/meta/src/parser.rs
+++ b/meta/src/parser.rs
@@ -644,11 +644,11 @@ fn parse_string(pair: Pair<'_, Rule>, span: &Span) -> Result<ParseNode, Error<Ru
 
 fn parse_raw_string(pair: Pair<'_, Rule>, span: &Span) -> ParseNode {
     let span = span.from_pest(pair.as_span());
-    let mut pairs = pair.into_inner();
-
-    pairs.next().unwrap(); // quote
-
-    let content = pairs.next().unwrap().as_str();
+    let content = pair
+        .into_inner()
+        .find(|pair| pair.as_rule() == Rule::inner_raw_str)
+        .unwrap()
+        .as_str();
     let expr = ParseExpr::Str(content.to_owned());
 
     ParseNode { expr, span }
-- 
2.43.0


From d5bcd4ff13851677235e264a20819dc83bda3b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:41 +0000
Subject: [PATCH 08/28] fix: keep a double quote written as a character

---
 meta/src/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/meta/src/parser.rs b/meta/src/parser.rs
index f76027d..3ab6366 100644
--- a/meta/src/parser.rs
+++ b/meta/src/parser.rs
@@ -889,7 +889,8 @@ fn parse_node(
 }
 
 fn string_content(pair: &Pair<'_, Rule>) -> Result<String, Error<Rule>> {
-    let string = unescape(pair.as_str()).ok_or(Error::new_from_span(
+    let string = pair.as_str();
+    let string = unescape(&string[1..string.len() - 1]).ok_or(Error::new_from_span(
         ErrorVariant::CustomError {
             message: "invalid string literal".to_string(),
         },
@@ -956,7 +957,6 @@ fn unescape(string: &str) -> Option<String> {
                 }
                 _ => return None,
             },
-            Some('"') => (),
             Some(c) => result.push(c),
             None => return Some(result),
         };
-- 
2.43.0


From 3a050dc950ae5e8d685fe97f887de2f45952deda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:46 +0000
Subject: [PATCH 09/28] fix: return errors in an imported grammar instead of
 panicking

---
 meta/src/parser.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/meta/src/parser.rs b/meta/src/parser.rs
index 3ab6366..bbce709 100644
--- a/meta/src/parser.rs
+++ b/meta/src/parser.rs
@@ -347,7 +347,12 @@ fn _parse<P: AsRef<Path>>(
                 };
                 let (mod_path, args) = parse_path_raw(path_pair, &span_path, &PrattParser::new())?;
                 if args.is_some() {
-                    todo!("import module node with arguments.")
+                    return Err(Error::new_from_span(
+                        ErrorVariant::CustomError {
+                            message: "cannot import a module with arguments".to_string(),
+                        },
+                        span_path2,
+                    ));
                 }
                 let (mut fs_path, mut alias) = (None, None);
                 for pair in pairs {
@@ -393,7 +398,12 @@ fn _parse<P: AsRef<Path>>(
                                     &path,
                                     cache,
                                 )
-                                .unwrap_or_else(|err| panic!("{}", err));
+                                .map_err(|err| {
+                                    match err.path() {
+                                        Some(_) => err,
+                                        None => err.with_path(&path.to_string_lossy()),
+                                    }
+                                })?;
                                 cache.insert(path, module.clone());
                                 dependencies.extend(module.dependencies.iter().cloned());
                                 module
-- 
2.43.0


From 83146703326ca1412dff323af17d60e607c2dd6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:13 +0000
Subject: [PATCH 10/28] fix: reject a grammar that imports itself

---
 meta/src/parser.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/meta/src/parser.rs b/meta/src/parser.rs
index bbce709..3eaaabb 100644
--- a/meta/src/parser.rs
+++ b/meta/src/parser.rs
@@ -310,6 +310,11 @@ fn mod_path_to_fs_path(root: &impl AsRef<Path>, mod_path: &[String]) -> PathBuf
     path.with_extension("pest")
 }
 
+/// Path that is the same for every way to name a file.
+fn file_id(path: &Path) -> PathBuf {
+    path.canonicalize().unwrap_or_else(|_| path.to_owned())
+}
+
 /// Imported modules.
 #[derive(Clone, Debug)]
 pub enum Import {
@@ -323,6 +328,7 @@ fn _parse<P: AsRef<Path>>(
     input: &str,
     root: &P,
     cache: &mut HashMap<PathBuf, Arc<GrammarModule>>,
+    importing: &mut Vec<PathBuf>,
 ) -> Result<Arc<GrammarModule>, Error<Rule>> {
     let mut res = GrammarModule::default();
     let GrammarModule {
@@ -384,6 +390,16 @@ fn _parse<P: AsRef<Path>>(
                             Some(module) => module.clone(),
                             None => {
                                 dependencies.insert(path.clone());
+                                let file = file_id(&path);
+                                if importing.contains(&file) {
+                                    return Err(Error::new_from_span(
+                                        ErrorVariant::CustomError {
+                                            message: format!("{path:?} imports itself"),
+                                        },
+                                        span_path2,
+                                    ));
+                                }
+                                importing.push(file);
                                 let module = _parse(
                                     &read_to_string(&path).map_err(|err| {
                                         Error::new_from_span(
@@ -397,6 +413,7 @@ fn _parse<P: AsRef<Path>>(
                                     })?,
                                     &path,
                                     cache,
+                                    importing,
                                 )
                                 .map_err(|err| {
                                     match err.path() {
@@ -404,6 +421,7 @@ fn _parse<P: AsRef<Path>>(
                                         None => err.with_path(&path.to_string_lossy()),
                                     }
                                 })?;
+                                importing.pop();
                                 cache.insert(path, module.clone());
                                 dependencies.extend(module.dependencies.iter().cloned());
                                 module
@@ -471,8 +489,9 @@ impl FromIterator<Arc<GrammarModule>> for GrammarModule {
 /// Parse a grammar file.
 pub fn parse<P: AsRef<Path>>(input: &str, root: &P) -> Result<Arc<GrammarModule>, Error<Rule>> {
     let mut cache = Default::default();
+    let mut importing = vec![file_id(root.as_ref())];
 
-    _parse(input, root, &mut cache)
+    _parse(input, root, &mut cache, &mut importing)
 }
 
 fn parse_rule(rule: Pair<'_, Rule>, path: PathBuf) -> Result<ParseRule, Error<Rule>> {
-- 
2.43.0


From d31094b276fe3bd322a74e2f1f816891de5b78cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:19 +0000
Subject: [PATCH 11/28] fix: don't take the start of a rule name for an alias
 of the import before it

---
 meta/src/grammar.pest | 4 +++-
 meta/src/parser.rs    | 1 +
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/meta/src/grammar.pest b/meta/src/grammar.pest
index 7aa7598..9be39c9 100644
--- a/meta/src/grammar.pest
+++ b/meta/src/grammar.pest
@@ -11,7 +11,9 @@ grammar_rules = _{
 	SOI ~ grammar_doc* ~ import* ~ grammar_rule ~ (import | grammar_rule)* ~ EOI
 }
 
-import = { "use " ~ path ~ ("in" ~ string)? ~ ("as" ~ identifier)? }
+import = { "use " ~ path ~ ("in" ~ string)? ~ (as_keyword ~ identifier)? }
+
+as_keyword = @{ "as" ~ !("_" | alpha_num) }
 
 grammar_rule = {
     rule_doc* ~
diff --git a/meta/src/parser.rs b/meta/src/parser.rs
index 3eaaabb..9cd196a 100644
--- a/meta/src/parser.rs
+++ b/meta/src/parser.rs
@@ -364,6 +364,7 @@ fn _parse<P: AsRef<Path>>(
                 for pair in pairs {
                     match pair.as_rule() {
                         Rule::string => fs_path = Some(string_content(&pair)?),
+                        Rule::as_keyword => (),
                         Rule::identifier => alias = Some(pair.as_str()),
                         _ => unreachable!(),
                     }
-- 
2.43.0


From 4611d5efbdb64880ba466a730af80686c343dcb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:11 +0000
Subject: [PATCH 12/28] fix: read the attributes box_rules_only_if_needed and
 no_getter

---
 generator/src/typed/attr.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/generator/src/typed/attr.rs b/generator/src/typed/attr.rs
index 16ea319..b739dc7 100644
--- a/generator/src/typed/attr.rs
+++ b/generator/src/typed/attr.rs
@@ -21,8 +21,10 @@ pub(crate) fn parse_derive(ast: DeriveInput) -> (Ident, Generics, Vec<GrammarSou
             config.no_span = get_bool(attr, "no_span");
         } else if path.is_ident("no_warnings") {
             config.no_warnings = get_bool(attr, "no_warnings");
-        } else if path.is_ident("box_all_rules") {
-            config.box_rules_only_if_needed = get_bool(attr, "box_all_rules");
+        } else if path.is_ident("box_rules_only_if_needed") {
+            config.box_rules_only_if_needed = get_bool(attr, "box_rules_only_if_needed");
+        } else if path.is_ident("no_getter") {
+            config.no_getter = get_bool(attr, "no_getter");
         } else if path.is_ident("rules_mod") {
             let value = get_string(attr, "rules_mod");
             if value.is_empty() {
-- 
2.43.0


From 3219e26e4cfad09e5547b076cba911da1d2d8d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:15 +0000
Subject: [PATCH 13/28] fix: name the accessor of an aliased Unicode property
 after the alias

---
 generator/src/typed/module.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/generator/src/typed/module.rs b/generator/src/typed/module.rs
index 570ffb8..ae74290 100644
--- a/generator/src/typed/module.rs
+++ b/generator/src/typed/module.rs
@@ -187,7 +187,9 @@ impl<'g> ModuleNode<'g> {
                 if !empty {
                     Err(ModuleError::UnexpectedArguments(rule_ref.clone()))?
                 }
-                f(root)
+                let Intermediate { typename, .. } = f(root);
+                let getter = GetterByName::from_rule(&typename, node);
+                Intermediate { typename, getter }
             }
             Self::Generics(generics) => {
                 generics.call(node, rule_ref, args.as_ref(), root, types)?
-- 
2.43.0


From ac7ab10f4df497504e0077238b5dfd6ee1aa7a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:38 +0000
Subject: [PATCH 14/28] fix: let a rule argument have the name of an imported
 grammar

---
 generator/src/typed/generator.rs | 17 ++++++++++++++---
 generator/src/typed/module.rs    |  5 +++++
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/generator/src/typed/generator.rs b/generator/src/typed/generator.rs
index 5e19c2a..db47548 100644
--- a/generator/src/typed/generator.rs
+++ b/generator/src/typed/generator.rs
@@ -130,12 +130,23 @@ impl<'g> ProcessedPathArgs<'g> {
 pub struct RuleRef<'g> {
     pub path: Vec<&'g str>,
     pub args: Option<ProcessedPathArgs<'g>>,
+    /// Whether an argument of the rule being defined has the name of the first module in the path.
+    pub shadowed: bool,
 }
 impl<'g> RuleRef<'g> {
     /// Create from a [Path](ParseExpr::Path).
-    fn new(path: &'g [String], args: Option<ProcessedPathArgs<'g>>) -> Self {
+    fn new(
+        path: &'g [String],
+        args: Option<ProcessedPathArgs<'g>>,
+        rule_config: &RuleConfig<'g>,
+    ) -> Self {
+        let shadowed = path.len() > 1 && rule_config.grammar.args.contains(&path[0]);
         let path = path.iter().map(String::as_str).collect::<Vec<_>>();
-        Self { path, args }
+        Self {
+            path,
+            args,
+            shadowed,
+        }
     }
 }
 impl<'g> Display for RuleRef<'g> {
@@ -402,7 +413,7 @@ fn process_expr<'g>(
                     root,
                 )
             });
-            let rule_ref = RuleRef::new(prefix, args);
+            let rule_ref = RuleRef::new(prefix, args, rule_config);
             mod_sys.resolve(&rule_ref, root).unwrap()
         }
         ParseExpr::PosPred(node) => {
diff --git a/generator/src/typed/module.rs b/generator/src/typed/module.rs
index ae74290..3920d9c 100644
--- a/generator/src/typed/module.rs
+++ b/generator/src/typed/module.rs
@@ -72,6 +72,11 @@ impl RuleGenerics {
             let sec = module_ident(sec);
             quote! {#sec::#types::}
         });
+        let current = rule_ref
+            .shadowed
+            .then(|| quote! {self::})
+            .into_iter()
+            .chain(current);
         let res = match self {
             Self::Rule { argc } => match (argc, args) {
                 (0, None) => {
-- 
2.43.0


From 9809fcb3774c670b87340c7ba9f16ed37fb32263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:56 +0000
Subject: [PATCH 15/28] fix: keep rules apart from arguments of the rule they
 are inlined into

---
 generator/src/typed/generator.rs | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/generator/src/typed/generator.rs b/generator/src/typed/generator.rs
index db47548..9026133 100644
--- a/generator/src/typed/generator.rs
+++ b/generator/src/typed/generator.rs
@@ -141,7 +141,12 @@ impl<'g> RuleRef<'g> {
         rule_config: &RuleConfig<'g>,
     ) -> Self {
         let shadowed = path.len() > 1 && rule_config.grammar.args.contains(&path[0]);
-        let path = path.iter().map(String::as_str).collect::<Vec<_>>();
+        // See `inline_silent_calls` for the empty section.
+        let path = path
+            .iter()
+            .map(String::as_str)
+            .filter(|section| !section.is_empty())
+            .collect::<Vec<_>>();
         Self {
             path,
             args,
@@ -721,8 +726,14 @@ fn collect_used_rule_without_trivia_into<'g>(
                 nodes.extend(args)
             }
             // Generics from another module is ignored.
-            if path.len() == 1 {
-                used.insert(&path[0]);
+            match path.as_slice() {
+                [name] => {
+                    used.insert(name);
+                }
+                [section, name] if section.is_empty() => {
+                    used.insert(name);
+                }
+                _ => (),
             }
         }
         ParseExpr::Separated(node, trivia) => {
@@ -896,6 +907,9 @@ fn collect_silent_rules_with_args(
 
 /// Inline silent rules with arguments which are called in `expr`.
 ///
+/// An inlined path to a rule that has the name of an argument in `params`
+/// gets an empty section in front, so that it isn't taken for that argument.
+///
 /// - `expr` belongs to a rule in module `prefix`, which has arguments `params`.
 /// - `calls` are paths of the rules being inlined.
 fn inline_silent_calls(
@@ -955,7 +969,13 @@ fn inline_silent_calls(
                 }
                 // Paths in an imported rule are relative to its module.
                 None if path[0] != "pest" => {
+                    if path[0].is_empty() {
+                        path.remove(0);
+                    }
                     path.splice(0..0, module.iter().cloned());
+                    if path.len() == 1 && params.contains(&path[0]) {
+                        path.insert(0, String::new());
+                    }
                 }
                 None => (),
             }
-- 
2.43.0


From f12981d6238b54284015b95776890669f0fd572b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:24 +0000
Subject: [PATCH 16/28] fix: refer to a rule inlined next to an argument of
 that name

---
 generator/src/typed/generator.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/generator/src/typed/generator.rs b/generator/src/typed/generator.rs
index 9026133..6dba541 100644
--- a/generator/src/typed/generator.rs
+++ b/generator/src/typed/generator.rs
@@ -130,7 +130,7 @@ impl<'g> ProcessedPathArgs<'g> {
 pub struct RuleRef<'g> {
     pub path: Vec<&'g str>,
     pub args: Option<ProcessedPathArgs<'g>>,
-    /// Whether an argument of the rule being defined has the name of the first module in the path.
+    /// Whether an argument of the rule being defined has the name of the first section in the path.
     pub shadowed: bool,
 }
 impl<'g> RuleRef<'g> {
@@ -140,8 +140,9 @@ impl<'g> RuleRef<'g> {
         args: Option<ProcessedPathArgs<'g>>,
         rule_config: &RuleConfig<'g>,
     ) -> Self {
-        let shadowed = path.len() > 1 && rule_config.grammar.args.contains(&path[0]);
         // See `inline_silent_calls` for the empty section.
+        let shadowed =
+            path.len() > 1 && (path[0].is_empty() || rule_config.grammar.args.contains(&path[0]));
         let path = path
             .iter()
             .map(String::as_str)
-- 
2.43.0


From 040f30649b4b0b21050abbdea99fb18b2cdbd4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:02 +0000
Subject: [PATCH 17/28] fix: accept a leading | before any alternative, in
 linear time

---
 meta/src/grammar.pest | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/meta/src/grammar.pest b/meta/src/grammar.pest
index 9be39c9..3e16963 100644
--- a/meta/src/grammar.pest
+++ b/meta/src/grammar.pest
@@ -38,17 +38,14 @@ arguments = { opening_paren ~ (identifier ~ (comma ~ identifier)* ~ comma?)? ~ c
 
 silent_modifier     = @{ "_" ~ !identifier }
 
-expression =  {
-    (choice_operator? ~ term ~ choice_operator)? ~
-    term ~ (infix_operator ~ term)*
-}
+expression =  { choice_operator? ~ term ~ (infix_operator ~ term)* }
 term       =  { prefix_operator* ~ node ~ postfix_operator* }
 node       = _{ opening_paren ~ expression ~ closing_paren | terminal }
 terminal   = _{ string | raw_string | insensitive_string | path | range }
 
 overridable_operator = _{ tilde_operator | caret_operator }
 prefix_operator      = _{ positive_predicate_operator | negative_predicate_operator }
-infix_operator       = _{ sequence_operator | tilde_operator | caret_operator | choice_operator }
+infix_operator       = _{ choice_operator | sequence_operator | tilde_operator | caret_operator }
 postfix_operator     = _{
     overridable_operator? ~ (
         optional_operator |
-- 
2.43.0


From 102fb3022c2c25b15e16edbb2ec19f4ea9aee111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:25 +0000
Subject: [PATCH 18/28] fix: refuse an unterminated nested comment in linear
 time

---
 meta/src/grammar.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meta/src/grammar.pest b/meta/src/grammar.pest
index 3e16963..70b3c7c 100644
--- a/meta/src/grammar.pest
+++ b/meta/src/grammar.pest
@@ -105,7 +105,7 @@ pound          = { "#" }
 newline    = _{ "\n" | "\r\n" }
 WHITESPACE = _{ " " | "\t" | newline }
 
-block_comment = _{ "/*" ~ (block_comment | !"*/" ~ ANY)* ~ "*/" }
+block_comment = _{ "/*" ~ (block_comment | !("/*" | "*/") ~ ANY)* ~ "*/" }
 COMMENT       = _{ block_comment | ("//" ~ !("/" | "!") ~ (!newline ~ ANY)*) ~ &(newline | EOI) }
 doc_content   = ${ (!newline ~ ANY)* }
 rule_doc      = ${ "///" ~ " "? ~ doc_content }
-- 
2.43.0


From 1050b4667dc1d5741c4685916c6debc5c4e3f82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:52 +0000
Subject: [PATCH 19/28] fix: list every file an imported grammar depends on,
 and read each once

---
 meta/src/parser.rs | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/meta/src/parser.rs b/meta/src/parser.rs
index 9cd196a..1b3709f 100644
--- a/meta/src/parser.rs
+++ b/meta/src/parser.rs
@@ -311,8 +311,21 @@ fn mod_path_to_fs_path(root: &impl AsRef<Path>, mod_path: &[String]) -> PathBuf
 }
 
 /// Path that is the same for every way to name a file.
+///
+/// Links to one file in several directories are several files, because imports
+/// are relative to the directory.
 fn file_id(path: &Path) -> PathBuf {
-    path.canonicalize().unwrap_or_else(|_| path.to_owned())
+    let Some(name) = path.file_name() else {
+        return path.to_owned();
+    };
+    let dir = match path.parent() {
+        Some(dir) if dir != Path::new("") => dir,
+        _ => Path::new("."),
+    };
+    match dir.canonicalize() {
+        Ok(dir) => dir.join(name),
+        Err(_) => path.to_owned(),
+    }
 }
 
 /// Imported modules.
@@ -385,13 +398,12 @@ fn _parse<P: AsRef<Path>>(
                     };
 
                     let path = fs_path;
+                    let file = file_id(&path);
 
                     let import = {
-                        let module = match cache.get(&path) {
+                        let module = match cache.get(&file) {
                             Some(module) => module.clone(),
                             None => {
-                                dependencies.insert(path.clone());
-                                let file = file_id(&path);
                                 if importing.contains(&file) {
                                     return Err(Error::new_from_span(
                                         ErrorVariant::CustomError {
@@ -400,7 +412,7 @@ fn _parse<P: AsRef<Path>>(
                                         span_path2,
                                     ));
                                 }
-                                importing.push(file);
+                                importing.push(file.clone());
                                 let module = _parse(
                                     &read_to_string(&path).map_err(|err| {
                                         Error::new_from_span(
@@ -423,11 +435,12 @@ fn _parse<P: AsRef<Path>>(
                                     }
                                 })?;
                                 importing.pop();
-                                cache.insert(path, module.clone());
-                                dependencies.extend(module.dependencies.iter().cloned());
+                                cache.insert(file, module.clone());
                                 module
                             }
                         };
+                        dependencies.insert(path);
+                        dependencies.extend(module.dependencies.iter().cloned());
                         Import::File(alias.to_owned(), module)
                     };
                     imports.push(import);
-- 
2.43.0


From b8cef1fe160c786cc3c9c629a834ad981f98f0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:59 +0000
Subject: [PATCH 20/28] fix: return None for a sub-span range that overflows

---
 core/src/span.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/span.rs b/core/src/span.rs
index 31ac3aa..dd79d0d 100644
--- a/core/src/span.rs
+++ b/core/src/span.rs
@@ -85,11 +85,11 @@ impl<'i> Span<'i> {
     pub fn get(&self, range: impl RangeBounds<usize>) -> Option<Span<'i>> {
         let start = match range.start_bound() {
             Bound::Included(offset) => *offset,
-            Bound::Excluded(offset) => *offset + 1,
+            Bound::Excluded(offset) => offset.checked_add(1)?,
             Bound::Unbounded => 0,
         };
         let end = match range.end_bound() {
-            Bound::Included(offset) => *offset + 1,
+            Bound::Included(offset) => offset.checked_add(1)?,
             Bound::Excluded(offset) => *offset,
             Bound::Unbounded => self.as_str().len(),
         };
-- 
2.43.0


From 33d407898772905cffbc9d220a7973c1be30bac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:59 +0000
Subject: [PATCH 21/28] fix: show a span or position on the line it is on

A span that starts in the first column was shown from the line before,
a position at the end of the text was not shown, and a span of the empty
text panicked.
---
 core/src/formatter.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/core/src/formatter.rs b/core/src/formatter.rs
index 2d32c22..60eacd5 100644
--- a/core/src/formatter.rs
+++ b/core/src/formatter.rs
@@ -155,6 +155,16 @@ impl<SF, MF, NF> FormatOption<SF, MF, NF> {
         }
         digit
     }
+    /// Lines of the whole `input`, including the empty line after the last line break.
+    fn lines<'s>(input: &'s Span<'_>) -> impl Iterator<Item = &'s str> {
+        let text = input.as_str();
+        let last = (text.is_empty() || text.ends_with('\n')).then_some("");
+        input.lines().chain(last)
+    }
+    /// Whether `col` is on the `line` rather than on the following one.
+    fn line_contains(line: &str, col: usize) -> bool {
+        col < line.len() || (col == line.len() && !line.ends_with('\n'))
+    }
     fn display_snippet_single_pos<Writer>(
         mut self,
         f: &mut Writer,
@@ -339,9 +349,9 @@ impl<SF, MF, NF> FormatOption<SF, MF, NF> {
         let mut end = None;
         let mut pos = 0usize;
         let input = Span::new(span.get_input(), 0, span.get_input().len()).unwrap();
-        let mut iter = input.lines().enumerate().peekable();
+        let mut iter = Self::lines(&input).enumerate().peekable();
         while let Some((index, line)) = iter.peek() {
-            if pos + line.len() >= span.start() {
+            if Self::line_contains(line, span.start() - pos) {
                 start = Some(Pos {
                     line: *index,
                     col: span.start() - pos,
@@ -363,8 +373,7 @@ impl<SF, MF, NF> FormatOption<SF, MF, NF> {
         }
         let start = start.unwrap();
         let end = end.unwrap();
-        let mut lines = input
-            .lines()
+        let mut lines = Self::lines(&input)
             .skip(start.line)
             .take(end.line - start.line + 1)
             .peekable();
@@ -418,9 +427,9 @@ impl<SF, MF, NF> FormatOption<SF, MF, NF> {
     {
         let mut pos = 0usize;
         let input = Span::new(position.input, 0, position.input.len()).unwrap();
-        let mut iter = input.lines().enumerate().peekable();
+        let mut iter = Self::lines(&input).enumerate().peekable();
         while let Some((index, line)) = iter.peek() {
-            if pos + line.len() > position.pos() {
+            if Self::line_contains(line, position.pos() - pos) {
                 let l = *index;
                 let c = position.pos() - pos;
                 let index_digit = Self::ceil_log10(l + 1);
-- 
2.43.0


From fb89fb261c6641c8243dd0c127e606dd23454b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:04 +0000
Subject: [PATCH 22/28] fix: never create a span that ends before it starts

---
 core/src/position.rs |  7 +++----
 core/src/span.rs     | 10 ----------
 2 files changed, 3 insertions(+), 14 deletions(-)

diff --git a/core/src/position.rs b/core/src/position.rs
index 328fd4e..a96624b 100644
--- a/core/src/position.rs
+++ b/core/src/position.rs
@@ -97,7 +97,7 @@ impl<'i> Position<'i> {
     ///
     /// # Panics
     ///
-    /// Panics if the positions come from different inputs.
+    /// Panics if the positions come from different inputs or if `other` precedes `self`.
     ///
     /// # Examples
     ///
@@ -115,10 +115,9 @@ impl<'i> Position<'i> {
         if ptr::eq(self.input, other.input)
         /* && self.input.get(self.pos..other.pos).is_some() */
         {
-            // This is safe because the pos field of a Position should always be a valid str index.
-            unsafe { span::Span::new_unchecked(self.input, self.pos, other.pos) }
+            span::Span::new(self.input, self.pos, other.pos)
+                .expect("span created from positions in the wrong order")
         } else {
-            // TODO: maybe a panic if self.pos < other.pos
             panic!("span created from positions from different inputs")
         }
     }
diff --git a/core/src/span.rs b/core/src/span.rs
index dd79d0d..004b61f 100644
--- a/core/src/span.rs
+++ b/core/src/span.rs
@@ -41,16 +41,6 @@ pub struct Span<'i> {
 }
 
 impl<'i> Span<'i> {
-    /// Create a new `Span` without checking invariants. (Checked with `debug_assertions`.)
-    ///
-    /// # Safety
-    ///
-    /// `input[start..end]` must be a valid subslice; that is, said indexing should not panic.
-    pub(crate) unsafe fn new_unchecked(input: &str, start: usize, end: usize) -> Span<'_> {
-        debug_assert!(input.get(start..end).is_some());
-        Span { input, start, end }
-    }
-
     /// Attempts to create a new span. Will return `None` if `input[start..end]` is an invalid index
     /// into `input`.
     ///
-- 
2.43.0


From f0a485af36c375b2abfa7e8b9673a158eb15b2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:11 +0000
Subject: [PATCH 23/28] fix: refuse names and arguments that are defined more
 than once

---
 generator/src/typed/generator.rs | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/generator/src/typed/generator.rs b/generator/src/typed/generator.rs
index 6dba541..7d4c567 100644
--- a/generator/src/typed/generator.rs
+++ b/generator/src/typed/generator.rs
@@ -1020,6 +1020,33 @@ fn inline_silent_rules_with_args(mut module: GrammarModule) -> GrammarModule {
     module
 }
 
+/// Check that every name in a module is defined only once,
+/// and so is every argument of a rule.
+fn check_names(module: &GrammarModule) {
+    let mut names = BTreeSet::new();
+    for import in module.imports.iter() {
+        let name = match import {
+            Import::Builtin(name, _) => name,
+            Import::File(name, module) => {
+                check_names(module);
+                name
+            }
+        };
+        assert!(names.insert(name), "`{name}` is defined more than once.");
+    }
+    for rule in module.rules.iter() {
+        let name = &rule.name;
+        assert!(names.insert(name), "`{name}` is defined more than once.");
+        let mut args = BTreeSet::new();
+        for arg in rule.args.iter() {
+            assert!(
+                args.insert(arg),
+                "Argument `{arg}` of rule `{name}` is defined more than once."
+            );
+        }
+    }
+}
+
 /// Generate codes for Parser.
 fn generate_typed(
     name: Ident,
@@ -1038,6 +1065,7 @@ fn generate_typed(
     };
     let mut tracker = Tracker::new();
     let global = ModuleSystem::make_global();
+    check_names(&module);
     let module = inline_silent_rules_with_args(module);
     let definition = generate_typed_pair_from_rule(&module, config, global, &mut tracker);
     let (impl_generics, ty_generics, where_clause) = generics.split_for_impl();
-- 
2.43.0


From cea78c4f09e184add5868863172e5fd223f14380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:08 +0000
Subject: [PATCH 24/28] fix: check silent rules with arguments that are never
 called

---
 generator/src/typed/generator.rs | 42 +++++++++++++++++++++++++++++++-
 1 file changed, 41 insertions(+), 1 deletion(-)

diff --git a/generator/src/typed/generator.rs b/generator/src/typed/generator.rs
index 7d4c567..8699efb 100644
--- a/generator/src/typed/generator.rs
+++ b/generator/src/typed/generator.rs
@@ -1047,6 +1047,45 @@ fn check_names(module: &GrammarModule) {
     }
 }
 
+/// Check what is referred to in silent rules with arguments,
+/// some of which may be never called, so that they won't be inlined.
+fn check_silent_rules_with_args<'g>(
+    module: &'g GrammarModule,
+    config: &Config,
+    global: Rc<ModuleNode<'g>>,
+) -> ModuleNode<'g> {
+    let mut mod_sys = ModuleSystem::new(global.clone(), types_mod(config.rules_mod.as_deref()));
+    for import in module.imports.iter() {
+        match import {
+            Import::Builtin(name, path) => mod_sys.alias(path, name).unwrap(),
+            Import::File(name, module) => {
+                let imported = check_silent_rules_with_args(module, config, global.clone());
+                mod_sys.insert(imported, name).unwrap();
+            }
+        }
+    }
+    for rule in module.rules.iter() {
+        match rule.name.as_str() {
+            "~" | "^" => {}
+            _ => mod_sys.insert_rule(rule).unwrap(),
+        }
+    }
+    for rule in module.rules.iter() {
+        if rule.silent && !rule.args.is_empty() {
+            process_expr(
+                &rule.node.expr,
+                &RuleConfig::from(rule),
+                &mut Tracker::new(),
+                &mut Output::new(module, vec![], config.rules_mod.clone()),
+                config,
+                &mod_sys,
+                &quote! {super},
+            );
+        }
+    }
+    mod_sys.take()
+}
+
 /// Generate codes for Parser.
 fn generate_typed(
     name: Ident,
@@ -1064,8 +1103,9 @@ fn generate_typed(
         quote!()
     };
     let mut tracker = Tracker::new();
-    let global = ModuleSystem::make_global();
     check_names(&module);
+    check_silent_rules_with_args(&module, config, ModuleSystem::make_global());
+    let global = ModuleSystem::make_global();
     let module = inline_silent_rules_with_args(module);
     let definition = generate_typed_pair_from_rule(&module, config, global, &mut tracker);
     let (impl_generics, ty_generics, where_clause) = generics.split_for_impl();
-- 
2.43.0


From 26fd23c705df90b29fcfb98d1f0364f7440f7d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:16 +0000
Subject: [PATCH 25/28] fix: an import with arguments that contain an operator
 panicked

---
 meta/src/parser.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/meta/src/parser.rs b/meta/src/parser.rs
index 1b3709f..a43a40d 100644
--- a/meta/src/parser.rs
+++ b/meta/src/parser.rs
@@ -364,7 +364,7 @@ fn _parse<P: AsRef<Path>>(
                     start: span_path2.start(),
                     end: span_path2.end(),
                 };
-                let (mod_path, args) = parse_path_raw(path_pair, &span_path, &PrattParser::new())?;
+                let (mod_path, args) = parse_path_raw(path_pair, &span_path, &expression_parser())?;
                 if args.is_some() {
                     return Err(Error::new_from_span(
                         ErrorVariant::CustomError {
@@ -561,11 +561,7 @@ fn parse_rule(rule: Pair<'_, Rule>, path: PathBuf) -> Result<ParseRule, Error<Ru
         skip(Rule::opening_brace, &mut pairs);
     }
 
-    let pratt_parser = PrattParser::new()
-        .op(Op::infix(Rule::choice_operator, Assoc::Right))
-        .op(Op::infix(Rule::sequence_operator, Assoc::Right)
-            | Op::infix(Rule::tilde_operator, Assoc::Right)
-            | Op::infix(Rule::caret_operator, Assoc::Right));
+    let pratt_parser = expression_parser();
     let node = parse_node(pairs.next().unwrap(), &span, &pratt_parser)?;
 
     if has_braces {
@@ -593,6 +589,14 @@ fn parse_prefix(pair: Pair<'_, Rule>, child: ParseNode) -> ParseNode {
     ParseNode { expr, span }
 }
 
+fn expression_parser() -> PrattParser<Rule> {
+    PrattParser::new()
+        .op(Op::infix(Rule::choice_operator, Assoc::Right))
+        .op(Op::infix(Rule::sequence_operator, Assoc::Right)
+            | Op::infix(Rule::tilde_operator, Assoc::Right)
+            | Op::infix(Rule::caret_operator, Assoc::Right))
+}
+
 fn parse_path_raw(
     pair: Pair<'_, Rule>,
     span: &Span,
-- 
2.43.0


From 37e662f16c031a4ec029c81ef6af63adc9f47bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:32 +0000
Subject: [PATCH 26/28] fix: take a name like _1 at the start of a rule without
 braces for a name

---
 meta/src/grammar.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meta/src/grammar.pest b/meta/src/grammar.pest
index 70b3c7c..bf8533b 100644
--- a/meta/src/grammar.pest
+++ b/meta/src/grammar.pest
@@ -36,7 +36,7 @@ closing_brack        = { "]" }
 
 arguments = { opening_paren ~ (identifier ~ (comma ~ identifier)* ~ comma?)? ~ closing_paren }
 
-silent_modifier     = @{ "_" ~ !identifier }
+silent_modifier     = @{ "_" ~ !("_" | alpha_num) }
 
 expression =  { choice_operator? ~ term ~ (infix_operator ~ term)* }
 term       =  { prefix_operator* ~ node ~ postfix_operator* }
-- 
2.43.0


From a910f7f04540d59968dc74f44d79b37270aeae3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:17 +0000
Subject: [PATCH 27/28] fix: push lists the pair of the rule it pushes

vec_children_pairs skipped a pushed rule's own pair and gave that rule's
children instead, unlike for_each_child_pair.
---
 core/src/typed/template/mod.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/core/src/typed/template/mod.rs b/core/src/typed/template/mod.rs
index fd9e713..fda3a74 100644
--- a/core/src/typed/template/mod.rs
+++ b/core/src/typed/template/mod.rs
@@ -959,9 +959,6 @@ impl<R: RuleType, T: PairContainer<R>> PairContainer<R> for push<T> {
     fn for_each_child_pair(&self, f: &mut impl FnMut(crate::token::Pair<R>)) {
         self.content.for_self_or_for_each_child_pair(f)
     }
-    fn vec_children_pairs(&self) -> Vec<crate::token::Pair<R>> {
-        self.content.vec_children_pairs()
-    }
 }
 
 /// Match `[START..END]` in top-to-bottom order of the stack.
-- 
2.43.0


From e972a658b68071b82f46e3a16d9f1c963be38b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:29 +0000
Subject: [PATCH 28/28] fix: imports of a grammar file were resolved by whether
 names end in .pest

A grammar file without that extension found its imports below a directory
named after the file, and a directory with it was skipped.
---
 generator/src/typed/generator.rs | 5 +++--
 meta/src/parser.rs               | 3 ---
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/generator/src/typed/generator.rs b/generator/src/typed/generator.rs
index 8699efb..59d97f4 100644
--- a/generator/src/typed/generator.rs
+++ b/generator/src/typed/generator.rs
@@ -1142,10 +1142,11 @@ pub fn derive_typed_parser(
     let module = data
         .iter()
         .map(|(input, root)| {
-            let mut root = root.clone().unwrap_or_else(|| {
+            // Imports in an inline grammar are relative to the manifest directory.
+            let root = root.clone().unwrap_or_else(|| {
                 PathBuf::from(std::env::var("CARGO_MANIFEST_DIR").unwrap_or(".".to_owned()))
+                    .join("_.rs")
             });
-            root.push("_.rs");
             match parser::parse(input, &root) {
                 Ok(pairs) => pairs,
                 Err(error) => panic!("error parsing \n{}", error.renamed_rules(rename_meta_rule)),
diff --git a/meta/src/parser.rs b/meta/src/parser.rs
index a43a40d..5f0a359 100644
--- a/meta/src/parser.rs
+++ b/meta/src/parser.rs
@@ -297,9 +297,6 @@ fn mod_path_to_fs_path(root: &impl AsRef<Path>, mod_path: &[String]) -> PathBuf
         .parent()
         .expect("Grammar file path cannot be root.")
         .to_owned();
-    if matches!(path.extension().map(|x| x.to_str()), Some(Some("pest"))) {
-        path.pop();
-    }
     for sec in mod_path {
         let sec = match sec.as_str() {
             "super" => "..",
-- 
2.43.0

