From cf9bdd8c7a55a1d7992cf83f32278aaa19cab25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:23 +0000
Subject: [PATCH 01/17] fix: refuse array sizes outside 1..=65535 instead of
 unwrapping them unchecked

---
 idlc_ast/src/pst.rs | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/idlc_ast/src/pst.rs b/idlc_ast/src/pst.rs
index dc7d305..676b3e8 100644
--- a/idlc_ast/src/pst.rs
+++ b/idlc_ast/src/pst.rs
@@ -54,6 +54,22 @@ macro_rules! ast_unwrap {
     }};
 }
 
+/// Inner pairs of `pair` that carry meaning. Comments are admitted between any two tokens and are
+/// not part of the syntax tree.
+fn significant(pair: Pair<'_, Rule>) -> impl Iterator<Item = Pair<'_, Rule>> {
+    pair.into_inner().filter(|x| x.as_rule() != Rule::COMMENT)
+}
+
+/// Number of elements of a bounded array. The grammar admits any digit string, the language only
+/// `1..=65535`.
+fn parse_array_len(pair: Pair<'_, Rule>) -> Count {
+    debug_assert_eq!(pair.as_rule(), Rule::bounded_array);
+    let size = ast_unwrap!(significant(pair).next()).as_str();
+    size.parse().unwrap_or_else(|e| {
+        idlc_errors::unrecoverable!("'{size}' isn't a valid array size [{e}]");
+    })
+}
+
 impl From<pest::Span<'_>> for Span {
     fn from(value: pest::Span) -> Self {
         Self {
@@ -190,8 +206,7 @@ impl From<Pair<'_, Rule>> for ParamTypeIn {
             match pair.as_rule() {
                 Rule::unbounded_array => Self::Array(r#type, None),
                 Rule::bounded_array => {
-                    let array_len: Count = ast_unwrap!(pair.into_inner().as_str().parse());
-                    Self::Array(r#type, Some(array_len))
+                    Self::Array(r#type, Some(parse_array_len(pair)))
                 }
                 _ => unreachable!(),
             }
@@ -215,8 +230,7 @@ impl From<Pair<'_, Rule>> for ParamTypeOut {
             match pair.as_rule() {
                 Rule::unbounded_array => Self::Array(r#type, None),
                 Rule::bounded_array => {
-                    let array_len: Count = ast_unwrap!(pair.into_inner().as_str().parse());
-                    Self::Array(r#type, Some(array_len))
+                    Self::Array(r#type, Some(parse_array_len(pair)))
                 }
                 _ => unreachable!(),
             }
@@ -264,8 +278,7 @@ fn parse_struct(pair: Pair<Rule>) -> Rc<Node> {
                 let next = ast_unwrap!(iter.next());
                 let (elem, ident) = match next.as_rule() {
                     Rule::bounded_array => {
-                        let array_len: Count =
-                            ast_unwrap!(next.clone().into_inner().as_str().parse());
+                        let array_len = parse_array_len(next.clone());
                         let ident = ast_unwrap!(iter.next()).as_str().to_string();
                         (array_len, ident)
                     }
-- 
2.43.0


From 0ec98e261c64a372eddf10e65b483d14f727fdcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:57 +0000
Subject: [PATCH 02/17] fix: ignore comments between the tokens of a
 declaration; keep documentation across ordinary comments

---
 idlc_ast/src/pst.rs | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/idlc_ast/src/pst.rs b/idlc_ast/src/pst.rs
index 676b3e8..2251bf0 100644
--- a/idlc_ast/src/pst.rs
+++ b/idlc_ast/src/pst.rs
@@ -100,11 +100,11 @@ impl InterfaceNode {
         match pair.as_rule() {
             Rule::error => Self::Error(Ident {
                 span: pair.as_span().into(),
-                ident: pair.into_inner().nth(1).unwrap().as_str().to_string(),
+                ident: ast_unwrap!(significant(pair).nth(1)).as_str().to_string(),
             }),
             Rule::r#const => Self::Const(parse_const(pair, allow_undefined_behavior)),
             Rule::function => {
-                let mut inner = pair.into_inner();
+                let mut inner = significant(pair);
                 let mut attributes = Vec::new();
                 let function_keyword = ast_unwrap!(inner.next());
                 for attribute in function_keyword.into_inner() {
@@ -155,7 +155,7 @@ impl<'a> From<Pair<'a, Rule>> for FunctionAttribute {
 
 impl<'a> From<Pair<'a, Rule>> for Param {
     fn from(value: Pair<'a, Rule>) -> Self {
-        let mut params = value.into_inner();
+        let mut params = significant(value);
         let mutability = ast_unwrap!(params.next()).as_str();
         let r#type = ast_unwrap!(params.next());
         let ident = ast_unwrap!(params.next()).into();
@@ -194,7 +194,7 @@ impl From<Pair<'_, Rule>> for Type {
 impl From<Pair<'_, Rule>> for ParamTypeIn {
     fn from(rule: Pair<Rule>) -> Self {
         debug_assert_eq!(rule.as_rule(), Rule::param_type);
-        let mut inner = rule.into_inner();
+        let mut inner = significant(rule);
         let r#type = Type::from(ast_unwrap!(inner.next()));
         if let Type::Custom(r#type) = &r#type {
             if r#type == "buffer" {
@@ -218,7 +218,7 @@ impl From<Pair<'_, Rule>> for ParamTypeIn {
 impl From<Pair<'_, Rule>> for ParamTypeOut {
     fn from(rule: Pair<Rule>) -> Self {
         debug_assert_eq!(rule.as_rule(), Rule::param_type);
-        let mut inner = rule.into_inner();
+        let mut inner = significant(rule);
         let r#type = Type::from(ast_unwrap!(inner.next()));
         if let Type::Custom(r#type) = &r#type {
             if r#type == "buffer" {
@@ -267,13 +267,13 @@ fn parse_include(pair: Pair<Rule>) -> Rc<Node> {
 }
 
 fn parse_struct(pair: Pair<Rule>) -> Rc<Node> {
-    let mut struct_pst = pair.into_inner().skip(1);
+    let mut struct_pst = significant(pair).skip(1);
     let ident: Ident = ast_unwrap!(struct_pst.next()).into();
     let mut fields = Vec::<StructField>::new();
     for rule in struct_pst {
         match rule.as_rule() {
             Rule::struct_field => {
-                let mut iter = rule.into_inner();
+                let mut iter = significant(rule);
                 let r#type = Type::from(ast_unwrap!(iter.next()));
                 let next = ast_unwrap!(iter.next());
                 let (elem, ident) = match next.as_rule() {
@@ -297,9 +297,6 @@ fn parse_struct(pair: Pair<Rule>) -> Rc<Node> {
                     val: (r#type, elem),
                 });
             }
-            Rule::COMMENT => {
-                // Currently unsupported for structs due to varying styles
-            }
             r => unreachable!("Unknown rule `{r:?}`"),
         }
     }
@@ -307,7 +304,7 @@ fn parse_struct(pair: Pair<Rule>) -> Rc<Node> {
 }
 
 fn parse_const(pair: Pair<Rule>, allow_undefined_behavior: bool) -> Const {
-    let mut inner = pair.into_inner().skip(1);
+    let mut inner = significant(pair).skip(1);
 
     let ty = ast_unwrap!(inner.next()).as_str();
     let ident = ast_unwrap!(inner.next()).into();
@@ -329,8 +326,10 @@ fn parse_const(pair: Pair<Rule>, allow_undefined_behavior: bool) -> Const {
 
 fn parse_interface(pair: Pair<Rule>, allow_undefined_behavior: bool) -> Rc<Node> {
     let span = Span::from(pair.as_span());
-    let mut interface = pair.into_inner().skip(1);
-    let mut pairs = ast_unwrap!(interface.next()).into_inner();
+    // Comments are kept here since documentation precedes the member it belongs to.
+    let mut interface = pair.into_inner();
+    let iname = ast_unwrap!(interface.find(|x| x.as_rule() == Rule::iname));
+    let mut pairs = significant(iname);
     let ident = ast_unwrap!(pairs.next()).as_str().to_string();
     let base = pairs
         .next()
@@ -350,7 +349,8 @@ fn parse_interface(pair: Pair<Rule>, allow_undefined_behavior: bool) -> Rc<Node>
                 iface_nodes.push(node);
             }
             Rule::COMMENT => {
-                comment = Documentation::try_from(rule).ok();
+                // Ordinary comments don't detach documentation from its member.
+                comment = Documentation::try_from(rule).ok().or(comment);
             }
             _ => unreachable!(),
         }
-- 
2.43.0


From 1e6f1585b537ea5702e130c12ef0aaeae65e5c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:23 +0000
Subject: [PATCH 03/17] fix: follow each included file's includes once and
 resolve includes to files only

---
 idlc_ast_passes/src/idl_store.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/idlc_ast_passes/src/idl_store.rs b/idlc_ast_passes/src/idl_store.rs
index ee7bb5f..716bde2 100644
--- a/idlc_ast_passes/src/idl_store.rs
+++ b/idlc_ast_passes/src/idl_store.rs
@@ -9,7 +9,7 @@ use crate::CompilerPass;
 
 use std::{
     cell::RefCell,
-    collections::HashMap,
+    collections::{HashMap, HashSet},
     path::{Path, PathBuf},
     rc::Rc,
 };
@@ -28,6 +28,8 @@ pub struct IDLStore {
     current: Option<PathBuf>,
     cycle: Option<Cycle<String>>,
     graph: Graph<String>,
+    /// Included files whose own includes have already been followed.
+    visited: HashSet<PathBuf>,
     include_paths: Vec<PathBuf>,
     allow_undefined_behavior: bool,
 }
@@ -52,12 +54,10 @@ impl Visitor<'_> for IDLStore {
             cano_path.display().to_string(),
         );
         self.cycle = self.graph.cycle();
-        if self.cycle.is_some() {
-            return;
+        if self.cycle.is_none() && self.visited.insert(cano_path.clone()) {
+            let inc_ast = self.get_or_insert(&cano_path);
+            walk_all(self, &inc_ast);
         }
-
-        let inc_ast = self.get_or_insert(&cano_path);
-        walk_all(self, &inc_ast);
         self.current = Some(current);
     }
 }
@@ -80,6 +80,7 @@ impl IDLStore {
             current: None,
             cycle: None,
             graph: Graph::new(),
+            visited: HashSet::new(),
             include_paths: include_paths.to_vec(),
             allow_undefined_behavior,
         }
@@ -117,7 +118,7 @@ impl IDLStore {
 
         for include_path in &self.include_paths {
             let possibility = include_path.join(path);
-            if possibility.exists() {
+            if possibility.is_file() {
                 let canonical = possibility.canonicalize().unwrap();
                 if first.is_none() {
                     first = Some(canonical.clone());
-- 
2.43.0


From 5473f0639d94392ac9e6702e2a417e27838f0f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:54 +0000
Subject: [PATCH 04/17] fix: refuse a constant named like a struct or interface

---
 idlc_ast_passes/src/idl_store.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/idlc_ast_passes/src/idl_store.rs b/idlc_ast_passes/src/idl_store.rs
index 716bde2..3e69dcc 100644
--- a/idlc_ast_passes/src/idl_store.rs
+++ b/idlc_ast_passes/src/idl_store.rs
@@ -156,6 +156,15 @@ impl IDLStore {
     fn gather_symbols_from_ast(ast: &Ast, map: &mut HashMap<Symbol, (Rc<Node>, PathBuf)>) {
         let tag = &ast.tag;
         for node in &ast.nodes {
+            // Constants share their namespace with structs and interfaces.
+            let taken = match node.as_ref() {
+                Node::Struct(Struct { ident, .. }) | Node::Interface(Interface { ident, .. }) => {
+                    map.contains_key(&Symbol::Const(ident.to_string()))
+                }
+                Node::Const(c) => map.contains_key(&Symbol::Struct(c.ident.to_string())),
+                _ => false,
+            };
+            assert!(!taken, "Duplicate symbol detected!");
             assert_eq!(
                 match node.as_ref() {
                     Node::Struct(s) => map.insert(
@@ -209,6 +218,14 @@ impl IDLStore {
         Rc::clone(self.ast_store.borrow().get(&include_path).unwrap())
     }
 
+    /// returns the ASTs of all files loaded so far, ordered by their path
+    pub fn asts(&self) -> Vec<Rc<Ast>> {
+        let store = self.ast_store.borrow();
+        let mut asts: Vec<_> = store.iter().collect();
+        asts.sort_by_key(|(path, _)| *path);
+        asts.into_iter().map(|(_, ast)| Rc::clone(ast)).collect()
+    }
+
     ///  inserts canonicalized path into the AST store along with its AST
     pub fn insert_canonical(&self, canonical: &Path, ast: &Ast) {
         Self::gather_symbols_from_ast(ast, &mut self.symbols.borrow_mut());
-- 
2.43.0


From eaf691df67c9aa282a6b284514dac5b031779898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:24 +0000
Subject: [PATCH 05/17] fix: apply all restrictions to every loaded file and
 from the library entry point; refuse two object arrays and small
 object-bearing struct arrays

---
 idlc/src/lib.rs                           | 23 ++++++++----
 idlc/src/main.rs                          | 43 +++++++++++++----------
 idlc_mir_passes/src/interface_verifier.rs | 17 ++++++++-
 3 files changed, 58 insertions(+), 25 deletions(-)

diff --git a/idlc/src/lib.rs b/idlc/src/lib.rs
index f4d5160..321290f 100644
--- a/idlc/src/lib.rs
+++ b/idlc/src/lib.rs
@@ -5,6 +5,7 @@ use idlc_ast_passes::{cycles, functions, idl_store::IDLStore, struct_verifier, C
 use idlc_codegen::{Descriptor, Generator};
 use idlc_errors::trace;
 use idlc_mir::mir;
+use idlc_mir_passes::{interface_verifier, MirCompilerPass};
 
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
 pub enum Language {
@@ -23,14 +24,24 @@ impl Language {
         trace!("Running `IncludeChecker` pass");
         idl_store.run_pass(&ast)?;
 
-        trace!("Running `FunctionDuplicateParam` pass");
-        functions::Functions::new().run_pass(&ast)?;
+        // Restrictions hold for every loaded file, not only for the main one.
+        let asts = idl_store.asts();
+        for ast in &asts {
+            trace!("Running `FunctionDuplicateParam` pass");
+            functions::Functions::new().run_pass(ast)?;
 
-        trace!("Running `CycleChecking` pass");
-        let struct_ordering = cycles::Cycles::new(&idl_store).run_pass(&ast)?;
+            trace!("Running `CycleChecking` pass");
+            let struct_ordering = cycles::Cycles::new(&idl_store).run_pass(ast)?;
 
-        trace!("Running `StructVerifier` pass");
-        struct_verifier::StructVerifier::run_pass(&idl_store, &struct_ordering)?;
+            trace!("Running `StructVerifier` pass");
+            struct_verifier::StructVerifier::run_pass(&idl_store, &struct_ordering)?;
+        }
+
+        trace!("Verifying interfaces");
+        for ast in &asts {
+            let mir = mir::parse_to_mir(ast, &mut idl_store);
+            interface_verifier::InterfaceVerifier::new(&mir).run_pass();
+        }
 
         let mir = mir::parse_to_mir(&ast, &mut idl_store);
 
diff --git a/idlc/src/main.rs b/idlc/src/main.rs
index 8b4bc25..ec6ede6 100644
--- a/idlc/src/main.rs
+++ b/idlc/src/main.rs
@@ -132,23 +132,27 @@ fn main() {
 
     timer::time!(check(idl_store.run_pass(&ast)), "`IncludeChecker` pass");
 
-    timer::time!(
-        check(idlc_ast_passes::functions::Functions::new().run_pass(&ast)),
-        "`FunctionDuplicateParam` pass"
-    );
-
-    let struct_ordering = timer::time!(
-        check(cycles::Cycles::new(&idl_store).run_pass(&ast)),
-        "`CycleCheck` pass"
-    );
-
-    timer::time!(
-        check(struct_verifier::StructVerifier::run_pass(
-            &idl_store,
-            &struct_ordering,
-        )),
-        "`StructVerifier` pass"
-    );
+    // Restrictions hold for every loaded file, not only for the main one.
+    let asts = idl_store.asts();
+    for ast in &asts {
+        timer::time!(
+            check(idlc_ast_passes::functions::Functions::new().run_pass(ast)),
+            "`FunctionDuplicateParam` pass"
+        );
+
+        let struct_ordering = timer::time!(
+            check(cycles::Cycles::new(&idl_store).run_pass(ast)),
+            "`CycleCheck` pass"
+        );
+
+        timer::time!(
+            check(struct_verifier::StructVerifier::run_pass(
+                &idl_store,
+                &struct_ordering,
+            )),
+            "`StructVerifier` pass"
+        );
+    }
 
     let mir = timer::time!(mir::parse_to_mir(&ast, &mut idl_store), "Mir");
     if dump == Some(Dumpable::Mir) {
@@ -157,7 +161,10 @@ fn main() {
     }
 
     trace!("Verifying interfaces");
-    interface_verifier::InterfaceVerifier::new(&mir).run_pass();
+    for ast in &asts {
+        let mir = mir::parse_to_mir(ast, &mut idl_store);
+        interface_verifier::InterfaceVerifier::new(&mir).run_pass();
+    }
 
     let marking_cnt = if args.marking.is_some() {
         std::fs::read_to_string(args.marking.unwrap()).expect("Failed to read marking file")
diff --git a/idlc_mir_passes/src/interface_verifier.rs b/idlc_mir_passes/src/interface_verifier.rs
index 5f44669..beb5411 100644
--- a/idlc_mir_passes/src/interface_verifier.rs
+++ b/idlc_mir_passes/src/interface_verifier.rs
@@ -65,10 +65,19 @@ impl<'mir> MirCompilerPass<'_> for InterfaceVerifier<'mir> {
                                                     );
                                                 }
 
+                                                if args_array_in {
+                                                    idlc_errors::unrecoverable!(
+                                                        "Interface `{}`, method `{}` has multiple input object arrays",
+                                                        src.ident, f.ident
+                                                    );
+                                                }
                                                 args_array_in = true;
                                             };
                                             if let Type::Struct(_) | Type::Primitive(_) = t {
-                                                if let Type::Struct(Struct::Big(s)) = t {
+                                                if let Type::Struct(
+                                                    Struct::Big(s) | Struct::Small(s),
+                                                ) = t
+                                                {
                                                     if s.contains_interfaces() {
                                                         idlc_errors::unrecoverable!(
                                                             "Struct with Object inside cannot be used as an array",
@@ -107,6 +116,12 @@ impl<'mir> MirCompilerPass<'_> for InterfaceVerifier<'mir> {
                                                         iface_name, f.ident
                                                     );
                                                 }
+                                                if args_array_out {
+                                                    idlc_errors::unrecoverable!(
+                                                        "Interface `{}`, method `{}` has multiple output object arrays",
+                                                        src.ident, f.ident
+                                                    );
+                                                }
                                                 args_array_out = true;
                                             };
                                             if let Type::Struct(_) | Type::Primitive(_) = t {
-- 
2.43.0


From 51f9c0043c1e0e492a66d966fa298c3bf604f5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:25 +0000
Subject: [PATCH 06/17] fix: refuse bounded arrays of buffer

---
 idlc_ast/src/pst.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/idlc_ast/src/pst.rs b/idlc_ast/src/pst.rs
index 2251bf0..147030a 100644
--- a/idlc_ast/src/pst.rs
+++ b/idlc_ast/src/pst.rs
@@ -198,6 +198,9 @@ impl From<Pair<'_, Rule>> for ParamTypeIn {
         let r#type = Type::from(ast_unwrap!(inner.next()));
         if let Type::Custom(r#type) = &r#type {
             if r#type == "buffer" {
+                if inner.next().is_some_and(|x| x.as_rule() == Rule::bounded_array) {
+                    idlc_errors::unrecoverable!("`buffer` cannot be a bounded array");
+                }
                 return Self::Value(Type::UntypedBuffer);
             }
         }
@@ -222,6 +225,9 @@ impl From<Pair<'_, Rule>> for ParamTypeOut {
         let r#type = Type::from(ast_unwrap!(inner.next()));
         if let Type::Custom(r#type) = &r#type {
             if r#type == "buffer" {
+                if inner.next().is_some_and(|x| x.as_rule() == Rule::bounded_array) {
+                    idlc_errors::unrecoverable!("`buffer` cannot be a bounded array");
+                }
                 return Self::Reference(Type::UntypedBuffer);
             }
         }
-- 
2.43.0


From 9116855ab4b267372a5c24fc987ae65f75be802b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:03 +0000
Subject: [PATCH 07/17] fix: refuse structs whose size overflows; follow each
 struct's fields once in the cycle pass

---
 idlc_ast_passes/src/cycles.rs          |  7 +++++--
 idlc_ast_passes/src/struct_verifier.rs | 13 ++++++++++++-
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/idlc_ast_passes/src/cycles.rs b/idlc_ast_passes/src/cycles.rs
index 6a54bc7..70a2ffa 100644
--- a/idlc_ast_passes/src/cycles.rs
+++ b/idlc_ast_passes/src/cycles.rs
@@ -1,7 +1,7 @@
 // Copyright (c) 2024, Qualcomm Innovation Center, Inc. All rights reserved.
 // SPDX-License-Identifier: BSD-3-Clause
 
-use std::rc::Rc;
+use std::{collections::HashSet, rc::Rc};
 
 use idlc_ast::{
     ast::Type,
@@ -14,6 +14,8 @@ pub struct Cycles<'ast> {
     struct_graph: Graph<String>,
     iface_graph: Graph<String>,
     idl_store: &'ast IDLStore,
+    /// Structs whose fields have already been followed.
+    visited: HashSet<String>,
 }
 
 impl<'ast> Cycles<'ast> {
@@ -22,6 +24,7 @@ impl<'ast> Cycles<'ast> {
             idl_store,
             struct_graph: Graph::new(),
             iface_graph: Graph::new(),
+            visited: HashSet::new(),
         }
     }
 
@@ -39,7 +42,7 @@ impl<'ast> Cycles<'ast> {
     }
 
     pub fn visit_struct_recurse(&mut self, r#struct: Rc<idlc_ast::Struct>) {
-        if self.struct_graph.cycle().is_some() {
+        if !self.visited.insert(r#struct.ident.to_string()) {
             return;
         }
 
diff --git a/idlc_ast_passes/src/struct_verifier.rs b/idlc_ast_passes/src/struct_verifier.rs
index 8e13ec7..16ae1d6 100644
--- a/idlc_ast_passes/src/struct_verifier.rs
+++ b/idlc_ast_passes/src/struct_verifier.rs
@@ -18,6 +18,9 @@ use crate::idl_store::IDLStore;
 type Size = usize;
 type Alignment = usize;
 
+/// No target language can lay out an object larger than this.
+const MAX_STRUCT_SIZE: Size = Size::MAX >> 3;
+
 #[derive(Debug, Clone, Copy)]
 pub struct StructVerifier;
 
@@ -36,6 +39,8 @@ pub enum Error {
         alignment: usize,
         size: usize,
     },
+    #[error("struct `{parent}` is too large for the target languages")]
+    StructTooLarge { parent: String },
     #[error("struct `{parent}` contains duplicate field names: `{names:?}`")]
     StructFieldSameName { parent: Ident, names: Vec<Ident> },
 }
@@ -78,7 +83,13 @@ impl StructVerifier {
                     });
                 }
 
-                size += i_size * count;
+                size = i_size
+                    .checked_mul(count)
+                    .and_then(|x| size.checked_add(x))
+                    .filter(|x| *x <= MAX_STRUCT_SIZE)
+                    .ok_or_else(|| Error::StructTooLarge {
+                        parent: r#struct.to_string(),
+                    })?;
                 alignment = alignment.max(i_alignment);
             }
 
-- 
2.43.0


From fe75405d4a16edcc62bbf06749f73fe583867921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:23 +0000
Subject: [PATCH 08/17] fix: lay out arguments in section order, convey every
 object held by structs, pack padded bundles and refuse more than 15 arguments
 of a kind

---
 idlc_ast/src/pst.rs                           | 18 ++--
 idlc_codegen/src/counts.rs                    | 14 +--
 idlc_codegen/src/functions.rs                 | 72 +++++++++-----
 idlc_codegen/src/serialization.rs             | 60 ++++++++++++
 .../src/interface/functions/implementation.rs | 69 +++++---------
 .../src/interface/functions/invoke.rs         | 95 +++++++------------
 .../src/interface/functions/serialization.rs  | 95 ++++++++++++++-----
 .../src/interface/functions/signature.rs      | 23 ++++-
 .../src/interface/functions/implementation.rs | 94 +++++++-----------
 .../src/interface/functions/invoke.rs         | 44 ++-------
 .../src/interface/functions/serialization.rs  | 35 +++++--
 .../src/interface/functions/signature.rs      | 35 +++++--
 .../src/interface/functions/implementation.rs | 75 +++++++--------
 .../src/interface/functions/invoke.rs         | 75 ++++++++-------
 .../src/interface/functions/serialization.rs  | 89 +++++++++++++++--
 .../src/interface/functions/signature.rs      |  6 --
 idlc_mir/src/mir.rs                           | 70 +++++++++++---
 idlc_mir_passes/src/interface_verifier.rs     | 51 ++++++++++
 18 files changed, 644 insertions(+), 376 deletions(-)

diff --git a/idlc_ast/src/pst.rs b/idlc_ast/src/pst.rs
index 147030a..5455d99 100644
--- a/idlc_ast/src/pst.rs
+++ b/idlc_ast/src/pst.rs
@@ -198,7 +198,10 @@ impl From<Pair<'_, Rule>> for ParamTypeIn {
         let r#type = Type::from(ast_unwrap!(inner.next()));
         if let Type::Custom(r#type) = &r#type {
             if r#type == "buffer" {
-                if inner.next().is_some_and(|x| x.as_rule() == Rule::bounded_array) {
+                if inner
+                    .next()
+                    .is_some_and(|x| x.as_rule() == Rule::bounded_array)
+                {
                     idlc_errors::unrecoverable!("`buffer` cannot be a bounded array");
                 }
                 return Self::Value(Type::UntypedBuffer);
@@ -208,9 +211,7 @@ impl From<Pair<'_, Rule>> for ParamTypeIn {
         if let Some(pair) = inner.next() {
             match pair.as_rule() {
                 Rule::unbounded_array => Self::Array(r#type, None),
-                Rule::bounded_array => {
-                    Self::Array(r#type, Some(parse_array_len(pair)))
-                }
+                Rule::bounded_array => Self::Array(r#type, Some(parse_array_len(pair))),
                 _ => unreachable!(),
             }
         } else {
@@ -225,7 +226,10 @@ impl From<Pair<'_, Rule>> for ParamTypeOut {
         let r#type = Type::from(ast_unwrap!(inner.next()));
         if let Type::Custom(r#type) = &r#type {
             if r#type == "buffer" {
-                if inner.next().is_some_and(|x| x.as_rule() == Rule::bounded_array) {
+                if inner
+                    .next()
+                    .is_some_and(|x| x.as_rule() == Rule::bounded_array)
+                {
                     idlc_errors::unrecoverable!("`buffer` cannot be a bounded array");
                 }
                 return Self::Reference(Type::UntypedBuffer);
@@ -235,9 +239,7 @@ impl From<Pair<'_, Rule>> for ParamTypeOut {
         if let Some(pair) = inner.next() {
             match pair.as_rule() {
                 Rule::unbounded_array => Self::Array(r#type, None),
-                Rule::bounded_array => {
-                    Self::Array(r#type, Some(parse_array_len(pair)))
-                }
+                Rule::bounded_array => Self::Array(r#type, Some(parse_array_len(pair))),
                 _ => unreachable!(),
             }
         } else {
diff --git a/idlc_codegen/src/counts.rs b/idlc_codegen/src/counts.rs
index 75a25b4..df510a2 100644
--- a/idlc_codegen/src/counts.rs
+++ b/idlc_codegen/src/counts.rs
@@ -9,8 +9,8 @@ pub struct Counter {
     pub input_objects: u8,
     pub output_objects: u8,
     pub output_buffers: u8,
-    pub total_bundled_input: u8,
-    pub total_bundled_output: u8,
+    pub total_bundled_input: u32,
+    pub total_bundled_output: u32,
 
     has_bundled_input: bool,
     has_bundled_output: bool,
@@ -34,15 +34,16 @@ impl super::functions::ParameterVisitor for Counter {
     }
 
     #[inline]
-    fn visit_input_small_struct(&mut self, _: &Ident, _: &StructInner) {
+    fn visit_input_small_struct(&mut self, _: &Ident, s: &StructInner) {
         self.has_bundled_input = true;
         self.total_bundled_input += 1;
+        self.input_objects += u8::try_from(s.object_count()).unwrap();
     }
 
     #[inline]
     fn visit_input_big_struct(&mut self, _: &Ident, s: &StructInner) {
         self.input_buffers += 1;
-        self.input_objects += u8::try_from(s.objects().len()).unwrap();
+        self.input_objects += u8::try_from(s.object_count()).unwrap();
     }
 
     #[inline]
@@ -71,15 +72,16 @@ impl super::functions::ParameterVisitor for Counter {
         self.total_bundled_output += 1;
     }
     #[inline]
-    fn visit_output_small_struct(&mut self, _: &Ident, _: &StructInner) {
+    fn visit_output_small_struct(&mut self, _: &Ident, s: &StructInner) {
         self.has_bundled_output = true;
         self.total_bundled_output += 1;
+        self.output_objects += u8::try_from(s.object_count()).unwrap();
     }
 
     #[inline]
     fn visit_output_big_struct(&mut self, _: &Ident, s: &StructInner) {
         self.output_buffers += 1;
-        self.output_objects += u8::try_from(s.objects().len()).unwrap();
+        self.output_objects += u8::try_from(s.object_count()).unwrap();
     }
 
     #[inline]
diff --git a/idlc_codegen/src/functions.rs b/idlc_codegen/src/functions.rs
index 313261c..594f930 100644
--- a/idlc_codegen/src/functions.rs
+++ b/idlc_codegen/src/functions.rs
@@ -21,6 +21,9 @@ pub trait ParameterVisitor {
     fn visit_input_object(&mut self, ident: &Ident, ty: Option<&str>) {}
     fn visit_input_object_array(&mut self, ident: &Ident, ty: Option<&str>, cnt: Count) {}
 
+    /// Object inside of the struct parameter `ident`, visited with the input objects.
+    fn visit_input_embedded_object(&mut self, ident: &Ident, path: &str) {}
+
     fn visit_output_primitive_buffer(&mut self, ident: &Ident, ty: Primitive) {}
     fn visit_output_untyped_buffer(&mut self, ident: &Ident) {
         self.visit_output_primitive_buffer(ident, Primitive::Uint8);
@@ -32,6 +35,8 @@ pub trait ParameterVisitor {
     fn visit_output_small_struct(&mut self, ident: &Ident, ty: &StructInner) {}
     fn visit_output_object(&mut self, ident: &Ident, ty: Option<&str>) {}
     fn visit_output_object_array(&mut self, ident: &Ident, ty: Option<&str>, cnt: Count) {}
+    /// Object inside of the struct parameter `ident`, visited with the output objects.
+    fn visit_output_embedded_object(&mut self, ident: &Ident, path: &str) {}
 }
 
 #[derive(Debug)]
@@ -39,6 +44,7 @@ enum Param<'a> {
     InputBundledPrimitives(&'a PackedPrimitives),
     OutputBundledPrimitives(&'a PackedPrimitives),
     Params(&'a idlc_mir::Param),
+    EmbeddedObjects(&'a idlc_mir::Param, &'a StructInner),
 }
 
 impl<'a> Param<'a> {
@@ -47,6 +53,15 @@ impl<'a> Param<'a> {
             match param {
                 Param::InputBundledPrimitives(b) => visitor.visit_input_bundled(b),
                 Param::OutputBundledPrimitives(b) => visitor.visit_output_bundled(b),
+                Param::EmbeddedObjects(p, s) => {
+                    for (path, _) in s.object_paths() {
+                        if p.is_input() {
+                            visitor.visit_input_embedded_object(p.ident(), &path);
+                        } else {
+                            visitor.visit_output_embedded_object(p.ident(), &path);
+                        }
+                    }
+                }
                 Param::Params(p) => match p {
                     idlc_mir::Param::In { r#type, ident } => match r#type {
                         ParamTypeIn::Array(t, cnt) => match t {
@@ -99,11 +114,35 @@ impl<'a> Param<'a> {
         }
     }
 
+    fn section(&self) -> Section {
+        let (input, object) = match self {
+            Self::InputBundledPrimitives(_) => (true, false),
+            Self::OutputBundledPrimitives(_) => (false, false),
+            Self::Params(p) => (p.is_input(), matches!(p.r#type(), Type::Interface(_))),
+            Self::EmbeddedObjects(p, _) => (p.is_input(), true),
+        };
+        match (input, object) {
+            (true, false) => Section::InputBuffers,
+            (false, false) => Section::OutputBuffers,
+            (true, true) => Section::InputObjects,
+            (false, true) => Section::OutputObjects,
+        }
+    }
+
     fn new(params: &'a [idlc_mir::Param], packed_primitives: &'a PackedPrimitives) -> Vec<Self> {
+        // Parameters are laid out as all input buffers, then all output buffers,
+        // then all input objects and then all output objects.
         let mut out = Vec::new();
         if packed_primitives.n_inputs() > 1 {
             out.push(Self::InputBundledPrimitives(packed_primitives));
         }
+        if packed_primitives.n_outputs() > 1 {
+            out.push(Self::OutputBundledPrimitives(packed_primitives));
+        }
+        out.extend(params.iter().filter_map(|p| match p.r#type() {
+            Type::Struct(s) if !p.is_array() => Some(Self::EmbeddedObjects(p, s.as_ref())),
+            _ => None,
+        }));
         out.extend(
             params
                 .iter()
@@ -119,30 +158,21 @@ impl<'a> Param<'a> {
                 })
                 .map(Param::Params),
         );
-
-        if packed_primitives.n_outputs() > 1 {
-            let me = idlc_mir::Param::Out {
-                r#type: idlc_mir::ParamTypeOut::Array(Type::Primitive(Primitive::Uint8), None),
-                ident: idlc_mir::Ident::new_without_span(String::new()),
-            };
-            let idx = out.iter().position(|x| {
-                if let Param::Params(p) = *x {
-                    p >= &me
-                } else {
-                    false
-                }
-            });
-
-            out.insert(
-                idx.unwrap_or(out.len()),
-                Param::OutputBundledPrimitives(packed_primitives),
-            );
-        }
+        out.sort_by_key(Self::section);
 
         out
     }
 }
 
+/// Sections of the argument array, in the order in which they are laid out.
+#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
+enum Section {
+    InputBuffers,
+    OutputBuffers,
+    InputObjects,
+    OutputObjects,
+}
+
 #[inline]
 pub fn visit_params<V: ParameterVisitor>(function: &Function, visitor: &mut V) {
     Param::visit(function.params.iter().map(Param::Params), visitor);
@@ -150,9 +180,7 @@ pub fn visit_params<V: ParameterVisitor>(function: &Function, visitor: &mut V) {
 
 #[inline]
 pub fn visit_params_with_bundling<V: ParameterVisitor>(function: &Function, visitor: &mut V) {
-    let mut params = function.params.clone();
-    params.sort();
     let packed_primitives = super::serialization::PackedPrimitives::new(function);
-    let with_bundling = Param::new(&params, &packed_primitives);
+    let with_bundling = Param::new(&function.params, &packed_primitives);
     Param::visit(with_bundling.into_iter(), visitor);
 }
diff --git a/idlc_codegen/src/serialization.rs b/idlc_codegen/src/serialization.rs
index f1a0adb..625fa09 100644
--- a/idlc_codegen/src/serialization.rs
+++ b/idlc_codegen/src/serialization.rs
@@ -13,6 +13,40 @@ impl Type {
             Self::SmallStruct(s) => s.size(),
         }
     }
+
+    fn alignment(&self) -> usize {
+        match self {
+            Self::Primitive(p) => p.size(),
+            Self::SmallStruct(s) => struct_alignment(s),
+        }
+    }
+
+    fn contains_interfaces(&self) -> bool {
+        matches!(self, Self::SmallStruct(s) if s.contains_interfaces())
+    }
+}
+
+fn struct_alignment(r#struct: &idlc_mir::StructInner) -> usize {
+    r#struct
+        .fields
+        .iter()
+        .map(|field| match &field.val.0 {
+            idlc_mir::Type::Primitive(p) => p.size(),
+            idlc_mir::Type::Struct(s) => struct_alignment(s.as_ref()),
+            _ => idlc_mir::Primitive::Uint64.size(),
+        })
+        .max()
+        .unwrap_or(1)
+}
+
+/// Whether the natural layout of the bundle would insert padding.
+fn is_padded(pairs: &[Pair]) -> bool {
+    let mut offset = 0;
+    pairs.iter().any(|pair| {
+        let misaligned = offset % pair.ty.alignment() != 0;
+        offset += pair.ty.size();
+        misaligned
+    })
 }
 impl PartialOrd<Self> for Type {
     #[inline]
@@ -136,6 +170,32 @@ impl PackedPrimitives {
         self.input_size
     }
 
+    /// The natural layout of the input bundle has padding, it has to be emitted as a packed type.
+    #[must_use]
+    pub fn is_input_padded(&self) -> bool {
+        is_padded(&self.inputs)
+    }
+
+    /// Members of the input bundle that have to be handed over through a copy:
+    /// these whose address may be misaligned and these that carry objects, as
+    /// objects never travel in the bundle.
+    #[must_use]
+    pub fn is_input_copied(&self, ty: &Type) -> bool {
+        self.is_input_padded() || ty.contains_interfaces()
+    }
+
+    /// The natural layout of the output bundle has padding, it has to be emitted as a packed type.
+    #[must_use]
+    pub fn is_output_padded(&self) -> bool {
+        is_padded(&self.outputs)
+    }
+
+    /// Output counterpart of [`PackedPrimitives::is_input_copied`].
+    #[must_use]
+    pub fn is_output_copied(&self, ty: &Type) -> bool {
+        self.is_output_padded() || ty.contains_interfaces()
+    }
+
     #[must_use]
     pub fn outputs_by_idents(&self) -> impl ExactSizeIterator<Item = (&idlc_mir::Ident, &Type)> {
         self.outputs.iter().map(|pair| (&pair.ident, &pair.ty))
diff --git a/idlc_codegen_c/src/interface/functions/implementation.rs b/idlc_codegen_c/src/interface/functions/implementation.rs
index 35eb654..7472ce7 100644
--- a/idlc_codegen_c/src/interface/functions/implementation.rs
+++ b/idlc_codegen_c/src/interface/functions/implementation.rs
@@ -134,34 +134,12 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         let name = format!("{}_ptr", ident);
         let ty_ident = ty.ident.to_string();
         if ty.contains_interfaces() {
-            self.initializations.push(format!(
-                r#"{ty_ident} {ident}_cpy = *{name};
-    "#
-            ));
+            self.initializations
+                .push(super::serialization::blank_copy(ident, ty));
             self.args.push(format!(
                 r#"
             {{.bi = ({OBJECTBUFIN}) {{ &{ident}_cpy, sizeof({ty_ident}) }} }},"#
             ));
-            let objects = ty.objects();
-            for object in objects {
-                let path = object
-                    .0
-                    .iter()
-                    .map(|ident| ident.to_string())
-                    .collect::<Vec<String>>()
-                    .join(".");
-                self.pre_call.push(format!(
-                    r#"{ident}_cpy.{path} = Object_NULL;
-    "#
-                ));
-                self.visit_input_object(
-                    &idlc_mir::Ident {
-                        ident: format!("{ident}_cpy.{}", path),
-                        span: object.0.last().unwrap().span,
-                    },
-                    object.1,
-                );
-            }
         } else {
             self.args.push(format!(
                 r#"
@@ -182,6 +160,14 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         ));
     }
 
+    fn visit_input_embedded_object(&mut self, ident: &Ident, path: &str) {
+        let _idx = self.idx();
+        self.args.push(format!(
+            r#"
+        {{.o = {ident}_ptr->{path} }},"#
+        ));
+    }
+
     fn visit_output_primitive_buffer(&mut self, ident: &Ident, ty: idlc_mir::Primitive) {
         let idx = self.idx();
         let name = format!("{}_ptr", ident);
@@ -275,25 +261,11 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
             r#"
         {{.b = ({OBJECTBUF}) {{  {name}, sizeof({ty_ident}) }} }},"#
         ));
-        let objects = ty.objects();
-        for object in objects {
-            let path = object
-                .0
-                .iter()
-                .map(|ident| ident.to_string())
-                .collect::<Vec<String>>()
-                .join(".");
+        for (path, _) in ty.object_paths() {
             self.initializations.push(format!(
                 r#"{name}->{path} = Object_NULL;
     "#
             ));
-            self.visit_output_object(
-                &idlc_mir::Ident {
-                    ident: format!("{name}->{}", path),
-                    span: object.0.last().unwrap().span,
-                },
-                object.1,
-            )
         }
     }
 
@@ -303,13 +275,22 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
 
     fn visit_output_object(&mut self, ident: &Ident, _: Option<&str>) {
         let idx = self.idx();
-        let mut name = format!("{ident}");
-        if !ident.contains("->") {
-            name = format!("*{name}");
-        }
         self.post_call.push(format!(
             r#"
-    {name} = {ARGS}[{idx}].o;"#
+    *{ident} = {ARGS}[{idx}].o;"#
+        ));
+        self.args.push(
+            r#"
+        {.o = Object_NULL },"#
+                .to_string(),
+        );
+    }
+
+    fn visit_output_embedded_object(&mut self, ident: &Ident, path: &str) {
+        let idx = self.idx();
+        self.post_call.push(format!(
+            r#"
+    {ident}_ptr->{path} = {ARGS}[{idx}].o;"#
         ));
         self.args.push(
             r#"
diff --git a/idlc_codegen_c/src/interface/functions/invoke.rs b/idlc_codegen_c/src/interface/functions/invoke.rs
index 5db313c..4cd50b8 100644
--- a/idlc_codegen_c/src/interface/functions/invoke.rs
+++ b/idlc_codegen_c/src/interface/functions/invoke.rs
@@ -13,6 +13,7 @@ pub struct Invoke {
     pub args: Vec<String>,
     pub pre: Vec<String>,
     pub post: Vec<String>,
+    pub write_back: Vec<String>,
 
     is_no_typed_objects: bool,
 
@@ -25,6 +26,7 @@ impl Invoke {
             args: vec![],
             pre: vec![],
             post: vec![],
+            write_back: vec![],
             is_no_typed_objects,
             idx: 0,
         };
@@ -50,7 +52,7 @@ impl Invoke {
     }
 
     pub fn post(&self) -> String {
-        self.post.concat()
+        self.post.concat() + &self.write_back.concat()
     }
 }
 
@@ -150,6 +152,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
             r#" \
                 {CONST} {definition} *i = (const struct {BI}*){ARGS}[{idx}].b.ptr;"#
         ));
+        self.pre.push(packer.bi_copies());
     }
 
     fn visit_input_big_struct(&mut self, ident: &idlc_mir::Ident, ty: &idlc_mir::StructInner) {
@@ -163,21 +166,6 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
                 r#" \
                 {ty_ident} {name} = *({CONST} {ty_ident}*){ARGS}[{idx}].b.ptr;"#
             ));
-            let objects = ty.objects();
-            for object in objects {
-                let path = object
-                    .0
-                    .iter()
-                    .map(|ident| ident.to_string())
-                    .collect::<Vec<String>>()
-                    .join(".");
-                let idx = self.idx();
-                let field_ident = format!("{name}.{}", path);
-                self.pre.push(format!(
-                    r#" \
-                {field_ident} = {ARGS}[{idx}].o;"#
-                ));
-            }
         } else {
             self.pre.push(format!(
                 r#" \
@@ -203,6 +191,14 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         ));
     }
 
+    fn visit_input_embedded_object(&mut self, ident: &idlc_mir::Ident, path: &str) {
+        let idx = self.idx();
+        self.pre.push(format!(
+            r#" \
+                {ident}_ptr.{path} = {ARGS}[{idx}].o;"#
+        ));
+    }
+
     fn visit_output_primitive_buffer(&mut self, ident: &idlc_mir::Ident, ty: idlc_mir::Primitive) {
         let idx = self.idx();
         let sz = ty.size();
@@ -288,33 +284,10 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         let sz = ty.size();
         let ty_ident = ty.ident.to_string();
         self.args.push(format!("{ARGS}[{idx}].b.size != {sz}"));
-        if ty.contains_interfaces() {
-            self.pre.push(format!(
-                r#" \
-                {ty_ident} *{name} = &(*({ty_ident}*){ARGS}[{idx}].b.ptr);"#
-            ));
-            let objects = ty.objects();
-            for object in objects {
-                let path = object
-                    .0
-                    .iter()
-                    .map(|ident| ident.to_string())
-                    .collect::<Vec<String>>()
-                    .join(".");
-                self.visit_output_object(
-                    &idlc_mir::Ident {
-                        ident: format!("{name}->{}", path),
-                        span: object.0.last().unwrap().span,
-                    },
-                    object.1,
-                );
-            }
-        } else {
-            self.pre.push(format!(
-                r#" \
+        self.pre.push(format!(
+            r#" \
                 {ty_ident} *{name} = ({ty_ident}*){ARGS}[{idx}].b.ptr;"#
-            ));
-        }
+        ));
     }
 
     fn visit_output_small_struct(&mut self, ident: &idlc_mir::Ident, ty: &idlc_mir::StructInner) {
@@ -350,33 +323,35 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
             r#" \
                 {definition} *o = (struct {BO}*){ARGS}[{idx}].b.ptr;"#
         ));
+        let (copies, write_back) = packer.bo_copies();
+        self.pre.push(copies);
+        self.write_back.push(write_back);
     }
 
     fn visit_output_object(&mut self, ident: &idlc_mir::Ident, ty: Option<&str>) {
         let idx = self.idx();
-        let mut name = format!("{ident}");
         let ty = if self.is_no_typed_objects {
             "Object".to_string()
         } else {
             ty.unwrap_or("Object").to_string()
         };
-        if !ident.contains("->") && !ident.contains('.') {
-            name = format!("*{name}");
-            self.pre.push(format!(
-                r#" \
-                {ty} {name} = &{ARGS}[{idx}].o;"#
-            ));
-        } else {
-            self.pre.push(format!(
-                r#" \
-                {name} = {ARGS}[{idx}].o;"#
-            ));
-            self.post.push(format!(
-                r#" \
-                {ARGS}[{idx}].o = {name}; \
-                {name} = Object_NULL;"#
-            ));
-        }
+        self.pre.push(format!(
+            r#" \
+                {ty} *{ident} = &{ARGS}[{idx}].o;"#
+        ));
+    }
+
+    fn visit_output_embedded_object(&mut self, ident: &idlc_mir::Ident, path: &str) {
+        let idx = self.idx();
+        self.pre.push(format!(
+            r#" \
+                {ident}_ptr->{path} = {ARGS}[{idx}].o;"#
+        ));
+        self.post.push(format!(
+            r#" \
+                {ARGS}[{idx}].o = {ident}_ptr->{path}; \
+                {ident}_ptr->{path} = Object_NULL;"#
+        ));
     }
 }
 
diff --git a/idlc_codegen_c/src/interface/functions/serialization.rs b/idlc_codegen_c/src/interface/functions/serialization.rs
index 2cc462d..5e0676e 100644
--- a/idlc_codegen_c/src/interface/functions/serialization.rs
+++ b/idlc_codegen_c/src/interface/functions/serialization.rs
@@ -16,6 +16,23 @@ pub struct TransportBuffer {
     pub initialization: String,
 }
 
+/// Copy of the input struct `ident` with all of its objects blanked, these are
+/// conveyed as object arguments.
+pub fn blank_copy(ident: &idlc_mir::Ident, r#struct: &idlc_mir::StructInner) -> String {
+    let mut copy = format!(
+        r#"
+    {ty} {ident}_cpy = *{ident}_ptr;"#,
+        ty = r#struct.ident
+    );
+    for (path, _) in r#struct.object_paths() {
+        copy += &format!(
+            r#"
+    {ident}_cpy.{path} = Object_NULL;"#
+        );
+    }
+    copy + "\n"
+}
+
 #[derive(Debug)]
 pub struct PackedPrimitives<'a>(&'a idlc_codegen::serialization::PackedPrimitives);
 
@@ -29,6 +46,7 @@ impl<'a> PackedPrimitives<'a> {
         Self::generate_struct(
             self.0.inputs_by_idents(),
             self.0.packed_input_size(),
+            self.0.is_input_padded(),
             BI,
             is_invoke,
         )
@@ -43,7 +61,13 @@ impl<'a> PackedPrimitives<'a> {
     i.m_{ident} = {ident}_val;"#
                 );
             }
-            Type::SmallStruct(_s) => {
+            Type::SmallStruct(s) if s.contains_interfaces() => {
+                assignments += &format!(
+                    r#"
+    i.m_{ident} = {ident}_cpy;"#
+                );
+            }
+            Type::SmallStruct(_) => {
                 assignments += &format!(
                     r#"
     i.m_{ident} = *{ident}_ptr;"#
@@ -60,12 +84,7 @@ impl<'a> PackedPrimitives<'a> {
             Type::Primitive(_) => {}
             Type::SmallStruct(s) => {
                 if s.contains_interfaces() {
-                    let ty = s.ident.to_string();
-
-                    assignments += &format!(
-                        r#"
-    {ty} {ident}_cpy = *{ident}_ptr;"#
-                    );
+                    assignments += &blank_copy(ident, s);
                 }
             }
         });
@@ -76,6 +95,7 @@ impl<'a> PackedPrimitives<'a> {
         Self::generate_struct(
             self.0.outputs_by_idents(),
             self.0.packed_output_size(),
+            self.0.is_output_padded(),
             BO,
             is_invoke,
         )
@@ -101,21 +121,44 @@ impl<'a> PackedPrimitives<'a> {
         assignments
     }
 
-    pub fn bo_embedded(&self) -> Vec<(idlc_mir::Ident, &idlc_mir::Ident, Option<&str>)> {
-        let mut embedded_objs: Vec<(idlc_mir::Ident, &idlc_mir::Ident, Option<&str>)> = vec![];
-        self.0.outputs_by_idents().for_each(|(ident, ty)| match ty {
-            Type::Primitive(_) => {}
-            Type::SmallStruct(s) => {
-                if s.contains_interfaces() {
-                    for field in &s.fields {
-                        if let idlc_mir::Type::Interface(i) = &field.val.0 {
-                            embedded_objs.push((ident.clone(), &field.ident, i.as_deref()));
-                        }
-                    }
-                }
+    /// Locals standing in for the members of the input bundle that cannot be used in place.
+    pub fn bi_copies(&self) -> String {
+        let mut copies = String::new();
+        for (ident, ty) in self.0.inputs_by_idents() {
+            if let (Type::SmallStruct(s), true) = (ty, self.0.is_input_copied(ty)) {
+                copies += &format!(
+                    r#" \
+                {ty} {ident}_ptr = i->m_{ident};"#,
+                    ty = s.ident
+                );
             }
-        });
-        embedded_objs
+        }
+        copies
+    }
+
+    /// Locals standing in for the members of the output bundle that cannot be
+    /// used in place, and the statements copying them into the bundle.
+    pub fn bo_copies(&self) -> (String, String) {
+        let mut copies = String::new();
+        let mut write_back = String::new();
+        for (ident, ty) in self.0.outputs_by_idents() {
+            if !self.0.is_output_copied(ty) {
+                continue;
+            }
+            let ty = match ty {
+                &Type::Primitive(p) => change_primitive(p),
+                Type::SmallStruct(s) => s.ident.as_ref(),
+            };
+            copies += &format!(
+                r#" \
+                {ty} {ident}_ptr[1] = {{ o->m_{ident} }};"#
+            );
+            write_back += &format!(
+                r#" \
+                o->m_{ident} = *{ident}_ptr;"#
+            );
+        }
+        (copies, write_back)
     }
 
     pub fn struct_init(s: &idlc_mir::StructInner, initialization: &mut String) {
@@ -153,6 +196,7 @@ impl<'a> PackedPrimitives<'a> {
     fn generate_struct(
         pairs: impl Iterator<Item = (&'a idlc_mir::Ident, &'a Type)>,
         size: usize,
+        is_padded: bool,
         in_out: &str,
         is_invoke: bool,
     ) -> Option<TransportBuffer> {
@@ -188,15 +232,20 @@ impl<'a> PackedPrimitives<'a> {
             }
         }
         initialization.pop();
+        let packed = if is_padded {
+            " __attribute__((packed))"
+        } else {
+            ""
+        };
         let definition = if is_invoke {
             format!(
                 r#"struct {in_out} {{ \{fields}
-                }}"#
+                }}{packed}"#
             )
         } else {
             format!(
                 r#"struct {in_out} {{{fields}
-    }}"#
+    }}{packed}"#
             )
         };
         Some(TransportBuffer {
diff --git a/idlc_codegen_c/src/interface/functions/signature.rs b/idlc_codegen_c/src/interface/functions/signature.rs
index 5247ad5..6fcbabc 100644
--- a/idlc_codegen_c/src/interface/functions/signature.rs
+++ b/idlc_codegen_c/src/interface/functions/signature.rs
@@ -12,10 +12,12 @@ pub struct Signature {
     outputs: Vec<(String, String)>,
     bundled_inputs: Vec<String>,
     bundled_outputs: Vec<String>,
+    copied_inputs: Vec<String>,
+    copied_outputs: Vec<String>,
     input_obj_arg: Vec<String>,
 
-    total_bundled_input: u8,
-    total_bundled_output: u8,
+    total_bundled_input: u32,
+    total_bundled_output: u32,
     is_no_typed_objects: bool,
 }
 
@@ -51,6 +53,8 @@ impl Signature {
             outputs: vec![],
             bundled_inputs: vec![],
             bundled_outputs: vec![],
+            copied_inputs: vec![],
+            copied_outputs: vec![],
             input_obj_arg: vec![],
             total_bundled_input: counts.total_bundled_input,
             total_bundled_output: counts.total_bundled_output,
@@ -62,6 +66,16 @@ impl Signature {
         let packed_output = packed_primitives.output_idents();
         me.bundled_inputs = packed_input.map(|ident| ident.to_string()).collect();
         me.bundled_outputs = packed_output.map(|ident| ident.to_string()).collect();
+        me.copied_inputs = packed_primitives
+            .inputs_by_idents()
+            .filter(|(_, ty)| packed_primitives.is_input_copied(ty))
+            .map(|(ident, _)| ident.to_string())
+            .collect();
+        me.copied_outputs = packed_primitives
+            .outputs_by_idents()
+            .filter(|(_, ty)| packed_primitives.is_output_copied(ty))
+            .map(|(ident, _)| ident.to_string())
+            .collect();
 
         idlc_codegen::functions::visit_params(function, &mut me);
 
@@ -173,10 +187,11 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
         if self.total_bundled_input > 1
             && self.bundled_inputs.contains(&ident.to_string())
             && self.bundled_inputs.len() > 1
+            && !self.copied_inputs.contains(&ident.to_string())
         {
             self.outputs
                 .push((format!("&i->m_{}", ident), format!("{CONST} {}", ty.ident)));
-        } else if ty.contains_interfaces() {
+        } else if self.copied_inputs.contains(&ident.to_string()) {
             self.outputs
                 .push((format!("&{}_ptr", ident), format!("{CONST} {}", ty.ident)));
         } else {
@@ -262,6 +277,7 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
         if self.total_bundled_output > 1
             && self.bundled_outputs.contains(&ident.to_string())
             && self.bundled_outputs.len() > 1
+            && !self.copied_outputs.contains(&ident.to_string())
         {
             self.outputs
                 .push((format!("&o->m_{}", ident), change_primitive(ty).to_string()));
@@ -291,6 +307,7 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
         if self.total_bundled_output > 1
             && self.bundled_outputs.contains(&ident.to_string())
             && self.bundled_outputs.len() > 1
+            && !self.copied_outputs.contains(&ident.to_string())
         {
             self.outputs
                 .push((format!("&o->m_{}", ident), ty.ident.to_string()));
diff --git a/idlc_codegen_cpp/src/interface/functions/implementation.rs b/idlc_codegen_cpp/src/interface/functions/implementation.rs
index c743003..d59a40c 100644
--- a/idlc_codegen_cpp/src/interface/functions/implementation.rs
+++ b/idlc_codegen_cpp/src/interface/functions/implementation.rs
@@ -70,35 +70,13 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         let name = format!("{}_ref", ident);
         let ty_ident = ty.ident.to_string();
         if ty.contains_interfaces() {
-            self.0.initializations.push(format!(
-                r#"
-    {ty_ident} {ident}_cpy = {name};"#
-            ));
+            self.0
+                .initializations
+                .push(super::serialization::blank_copy(ident, ty));
             self.0.args.push(format!(
                 r#"{{.bi = ({OBJECTBUFIN}) {{ &{ident}_cpy, sizeof({ty_ident}) }} }},
         "#
             ));
-
-            let objects = ty.objects();
-            for object in objects {
-                let path = object
-                    .0
-                    .iter()
-                    .map(|ident| ident.to_string())
-                    .collect::<Vec<String>>()
-                    .join(".");
-                self.0.pre_call.push(format!(
-                    r#"{ident}_cpy.{path} = Object_NULL;
-    "#
-                ));
-                self.visit_input_object(
-                    &idlc_mir::Ident {
-                        ident: format!("{ident}_cpy.{}", path),
-                        span: object.0.last().unwrap().span,
-                    },
-                    object.1,
-                );
-            }
         } else {
             self.0.args.push(format!(
                 r#"
@@ -113,18 +91,18 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
 
     fn visit_input_object(&mut self, ident: &Ident, _: Option<&str>) {
         let _idx = self.0.idx();
-        let name = format!("{}", ident);
-        if name.contains('.') {
-            self.0.args.push(format!(
-                r#"
-        {{.o = {name} }},"#
-            ));
-        } else {
-            self.0.args.push(format!(
-                r#"
-        {{.o = {name}.get() }},"#
-            ));
-        }
+        self.0.args.push(format!(
+            r#"
+        {{.o = {ident}.get() }},"#
+        ));
+    }
+
+    fn visit_input_embedded_object(&mut self, ident: &Ident, path: &str) {
+        let _idx = self.0.idx();
+        self.0.args.push(format!(
+            r#"
+        {{.o = {ident}_ref.{path} }},"#
+        ));
     }
 
     fn visit_output_primitive_buffer(&mut self, ident: &Ident, ty: idlc_mir::Primitive) {
@@ -200,25 +178,11 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         {{.b = ({OBJECTBUF}) {{  &{name}, sizeof({ty_ident}) }} }},"#
         ));
 
-        let objects = ty.objects();
-        for object in objects {
-            let path = object
-                .0
-                .iter()
-                .map(|ident| ident.to_string())
-                .collect::<Vec<String>>()
-                .join(".");
+        for (path, _) in ty.object_paths() {
             self.0.initializations.push(format!(
                 r#"
     {name}.{path} = Object_NULL;"#
             ));
-            self.visit_output_object(
-                &idlc_mir::Ident {
-                    ident: format!("({name}.{})", path),
-                    span: object.0.last().unwrap().span,
-                },
-                object.1,
-            )
         }
     }
 
@@ -233,17 +197,23 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         {.o = (Object) { NULL, NULL } },"#
                 .to_string(),
         );
-        if ident.contains('.') || ident.contains("->") {
-            self.0.post_call.push(format!(
-                r#"
-    {ident} = {ARGS}[{idx}].o;"#
-            ));
-        } else {
-            self.0.post_call.push(format!(
-                r#"
+        self.0.post_call.push(format!(
+            r#"
     {ident}.consume({ARGS}[{idx}].o);"#
-            ));
-        }
+        ));
+    }
+
+    fn visit_output_embedded_object(&mut self, ident: &Ident, path: &str) {
+        let idx = self.0.idx();
+        self.0.args.push(
+            r#"
+        {.o = (Object) { NULL, NULL } },"#
+                .to_string(),
+        );
+        self.0.post_call.push(format!(
+            r#"
+    {ident}_ref.{path} = {ARGS}[{idx}].o;"#
+        ));
     }
 }
 
diff --git a/idlc_codegen_cpp/src/interface/functions/invoke.rs b/idlc_codegen_cpp/src/interface/functions/invoke.rs
index e48a7b8..ed95044 100644
--- a/idlc_codegen_cpp/src/interface/functions/invoke.rs
+++ b/idlc_codegen_cpp/src/interface/functions/invoke.rs
@@ -83,6 +83,10 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         ));
     }
 
+    fn visit_input_embedded_object(&mut self, ident: &Ident, path: &str) {
+        self.0.visit_input_embedded_object(ident, path);
+    }
+
     fn visit_output_primitive_buffer(&mut self, ident: &Ident, ty: idlc_mir::Primitive) {
         self.0.visit_output_primitive_buffer(ident, ty);
     }
@@ -134,41 +138,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
     }
 
     fn visit_output_big_struct(&mut self, ident: &Ident, ty: &idlc_mir::StructInner) {
-        // self.0.visit_output_big_struct(ident, ty);
-        let idx = self.0.idx();
-        let name = format!("{}_ptr", ident);
-        let sz = ty.size();
-        let ty_ident = ty.ident.to_string();
-        self.0.args.push(format!("{ARGS}[{idx}].b.size != {sz}"));
-        if ty.contains_interfaces() {
-            let name = format!("{}_ptr", ident);
-            self.0.pre.push(format!(
-                r#" \
-                {ty_ident} *{name} = &(*({ty_ident}*){ARGS}[{idx}].b.ptr);"#
-            ));
-
-            let objects = ty.objects();
-            for object in objects {
-                let path = object
-                    .0
-                    .iter()
-                    .map(|ident| ident.to_string())
-                    .collect::<Vec<String>>()
-                    .join("->");
-                self.0.visit_output_object(
-                    &idlc_mir::Ident {
-                        ident: format!("{name}->{}", path),
-                        span: object.0.last().unwrap().span,
-                    },
-                    object.1,
-                );
-            }
-        } else {
-            self.0.pre.push(format!(
-                r#" \
-                {ty_ident} *{name} = ({ty_ident}*){ARGS}[{idx}].b.ptr;"#
-            ));
-        }
+        self.0.visit_output_big_struct(ident, ty);
     }
 
     fn visit_output_small_struct(&mut self, ident: &Ident, ty: &idlc_mir::StructInner) {
@@ -187,6 +157,10 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
                 {ARGS}[{idx}].o = p_{ident}.extract();"#
         ));
     }
+
+    fn visit_output_embedded_object(&mut self, ident: &Ident, path: &str) {
+        self.0.visit_output_embedded_object(ident, path);
+    }
 }
 
 pub fn emit(
diff --git a/idlc_codegen_cpp/src/interface/functions/serialization.rs b/idlc_codegen_cpp/src/interface/functions/serialization.rs
index c90d1e9..1b3a438 100644
--- a/idlc_codegen_cpp/src/interface/functions/serialization.rs
+++ b/idlc_codegen_cpp/src/interface/functions/serialization.rs
@@ -16,6 +16,23 @@ pub struct TransportBuffer {
     pub initialization: String,
 }
 
+/// Copy of the input struct `ident` with all of its objects blanked, these are
+/// conveyed as object arguments.
+pub fn blank_copy(ident: &idlc_mir::Ident, r#struct: &idlc_mir::StructInner) -> String {
+    let mut copy = format!(
+        r#"
+    {ty} {ident}_cpy = {ident}_ref;"#,
+        ty = r#struct.ident
+    );
+    for (path, _) in r#struct.object_paths() {
+        copy += &format!(
+            r#"
+    {ident}_cpy.{path} = Object_NULL;"#
+        );
+    }
+    copy
+}
+
 #[derive(Debug)]
 pub struct PackedPrimitives<'a>(&'a idlc_codegen::serialization::PackedPrimitives);
 
@@ -29,6 +46,7 @@ impl<'a> PackedPrimitives<'a> {
         Self::generate_struct(
             self.0.inputs_by_idents(),
             self.0.packed_input_size(),
+            self.0.is_input_padded(),
             BI,
             is_invoke,
         )
@@ -68,11 +86,7 @@ impl<'a> PackedPrimitives<'a> {
             Type::Primitive(_) => {}
             Type::SmallStruct(s) => {
                 if s.contains_interfaces() {
-                    let ty = s.ident.to_string();
-                    assignments += &format!(
-                        r#"
-    {ty} {ident}_cpy = {ident}_ref;"#
-                    );
+                    assignments += &blank_copy(ident, s);
                 }
             }
         });
@@ -83,6 +97,7 @@ impl<'a> PackedPrimitives<'a> {
         Self::generate_struct(
             self.0.outputs_by_idents(),
             self.0.packed_output_size(),
+            self.0.is_output_padded(),
             BO,
             is_invoke,
         )
@@ -112,6 +127,7 @@ impl<'a> PackedPrimitives<'a> {
     fn generate_struct(
         pairs: impl Iterator<Item = (&'a idlc_mir::Ident, &'a Type)>,
         size: usize,
+        is_padded: bool,
         in_out: &str,
         is_invoke: bool,
     ) -> Option<TransportBuffer> {
@@ -147,15 +163,20 @@ impl<'a> PackedPrimitives<'a> {
             }
         }
         initialization.pop();
+        let packed = if is_padded {
+            " __attribute__((packed))"
+        } else {
+            ""
+        };
         let definition = if is_invoke {
             format!(
                 r#"struct {in_out} {{ \{fields}
-                }}"#
+                }}{packed}"#
             )
         } else {
             format!(
                 r#"struct {in_out} {{{fields}
-    }}"#
+    }}{packed}"#
             )
         };
         Some(TransportBuffer {
diff --git a/idlc_codegen_cpp/src/interface/functions/signature.rs b/idlc_codegen_cpp/src/interface/functions/signature.rs
index 6d83820..fb6b0fb 100644
--- a/idlc_codegen_cpp/src/interface/functions/signature.rs
+++ b/idlc_codegen_cpp/src/interface/functions/signature.rs
@@ -12,11 +12,13 @@ pub struct Signature {
     outputs: Vec<(String, String)>,
     bundled_inputs: Vec<String>,
     bundled_outputs: Vec<String>,
+    copied_inputs: Vec<String>,
+    copied_outputs: Vec<String>,
     input_obj_arg: Vec<String>,
     output_obj_arg: Vec<String>,
 
-    total_bundled_input: u8,
-    total_bundled_output: u8,
+    total_bundled_input: u32,
+    total_bundled_output: u32,
 }
 
 impl Signature {
@@ -26,6 +28,8 @@ impl Signature {
             outputs: vec![],
             bundled_inputs: vec![],
             bundled_outputs: vec![],
+            copied_inputs: vec![],
+            copied_outputs: vec![],
             input_obj_arg: vec![],
             output_obj_arg: vec![],
             total_bundled_input: counts.total_bundled_input,
@@ -37,6 +41,16 @@ impl Signature {
         let packed_output = packed_primitives.output_idents();
         me.bundled_inputs = packed_input.map(|ident| ident.to_string()).collect();
         me.bundled_outputs = packed_output.map(|ident| ident.to_string()).collect();
+        me.copied_inputs = packed_primitives
+            .inputs_by_idents()
+            .filter(|(_, ty)| packed_primitives.is_input_copied(ty))
+            .map(|(ident, _)| ident.to_string())
+            .collect();
+        me.copied_outputs = packed_primitives
+            .outputs_by_idents()
+            .filter(|(_, ty)| packed_primitives.is_output_copied(ty))
+            .map(|(ident, _)| ident.to_string())
+            .collect();
 
         idlc_codegen::functions::visit_params(function, &mut me);
 
@@ -131,10 +145,13 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
     fn visit_input_small_struct(&mut self, ident: &Ident, ty: &StructInner) {
         self.inputs
             .push((format!("&{}_ref", ident), format!("{CONST} {}", ty.ident)));
-        if self.total_bundled_input > 1 && self.bundled_inputs.contains(&ident.to_string()) {
+        if self.total_bundled_input > 1
+            && self.bundled_inputs.contains(&ident.to_string())
+            && !self.copied_inputs.contains(&ident.to_string())
+        {
             self.outputs
                 .push((format!("i->m_{}", ident), format!("{CONST} {}", ty.ident)));
-        } else if ty.contains_interfaces() {
+        } else if self.copied_inputs.contains(&ident.to_string()) {
             self.outputs
                 .push((format!("{}_ptr", ident), format!("{CONST} {}", ty.ident)));
         } else {
@@ -212,7 +229,10 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
     fn visit_output_primitive(&mut self, ident: &Ident, ty: Primitive) {
         self.inputs
             .push((format!("*{}_ptr", ident), change_primitive(ty).to_string()));
-        if self.total_bundled_output > 1 && self.bundled_outputs.contains(&ident.to_string()) {
+        if self.total_bundled_output > 1
+            && self.bundled_outputs.contains(&ident.to_string())
+            && !self.copied_outputs.contains(&ident.to_string())
+        {
             self.outputs
                 .push((format!("&o->m_{}", ident), change_primitive(ty).to_string()));
         } else {
@@ -235,7 +255,10 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
     fn visit_output_small_struct(&mut self, ident: &Ident, ty: &StructInner) {
         self.inputs
             .push((format!("&{}_ref", ident), ty.ident.to_string()));
-        if self.total_bundled_output > 1 && self.bundled_outputs.contains(&ident.to_string()) {
+        if self.total_bundled_output > 1
+            && self.bundled_outputs.contains(&ident.to_string())
+            && !self.copied_outputs.contains(&ident.to_string())
+        {
             self.outputs
                 .push((format!("o->m_{}", ident), ty.ident.to_string()));
         } else {
diff --git a/idlc_codegen_rust/src/interface/functions/implementation.rs b/idlc_codegen_rust/src/interface/functions/implementation.rs
index 5d486aa..1275e8e 100644
--- a/idlc_codegen_rust/src/interface/functions/implementation.rs
+++ b/idlc_codegen_rust/src/interface/functions/implementation.rs
@@ -114,9 +114,11 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
             unreachable!()
         };
         let idents = super::signature::iter_to_string(packer.bi_assignment_idents());
+        let blank_copies = packer.bi_blank_copies();
         self.initializations.push(format!(
             r#"
             {definition}
+            {blank_copies}
             let mut bi = {BI_STRUCT}({idents});
             "#
         ));
@@ -135,44 +137,26 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         let ty: &str = &namespaced_struct(r#struct);
         let escaped_ident = EscapedIdent::new(ident);
 
-        let objects = r#struct.objects();
-        if objects.is_empty() {
+        if r#struct.contains_interfaces() {
+            self.initializations
+                .push(super::serialization::blank_copy(ident, r#struct));
             self.args.push(format!(
                 r#"{ARG} {{
                 bi: {INPUT_BUFFER} {{
-                    ptr: ({escaped_ident} as *const {ty}).cast(),
+                    ptr: std::ptr::addr_of!(_{ident}).cast(),
                     size: std::mem::size_of::<{ty}>(),
                 }}
             }}"#
             ));
         } else {
-            self.initializations.push(format!(
-                r#"
-                let {escaped_ident} = std::mem::ManuallyDrop::new(std::cell::UnsafeCell::new(unsafe {{ std::ptr::read({escaped_ident}) }}));
-            "#
-            ));
             self.args.push(format!(
                 r#"{ARG} {{
                 bi: {INPUT_BUFFER} {{
-                    ptr: {escaped_ident}.get().cast(),
+                    ptr: ({escaped_ident} as *const {ty}).cast(),
                     size: std::mem::size_of::<{ty}>(),
                 }}
             }}"#
             ));
-            for (object, _) in objects {
-                let path = super::signature::idents_to_struct_path(&object);
-                self.args.push(format!(
-                    r#"{ARG} {{
-                o: std::mem::ManuallyDrop::new(unsafe {{
-                    let ptr = &mut (*{escaped_ident}.get()){path};
-                    let obj = std::mem::ManuallyDrop::new(std::ptr::read(ptr));
-                    std::ptr::write_volatile(ptr, std::mem::zeroed());
-
-                    std::mem::transmute_copy(&obj)
-                }})
-            }}"#
-                ));
-            }
         }
     }
 
@@ -198,6 +182,15 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         }
     }
 
+    fn visit_input_embedded_object(&mut self, ident: &Ident, path: &str) {
+        let ident = EscapedIdent::new(ident);
+        self.args.push(format!(
+            r#"{ARG} {{
+                o: std::mem::ManuallyDrop::new(unsafe {{ std::mem::transmute_copy(&{ident}.{path}) }})
+            }}"#
+        ));
+    }
+
     fn visit_output_primitive_buffer(&mut self, ident: &Ident, ty: idlc_mir::Primitive) {
         self.generate_output_buffer(ident, change_primitive(ty));
     }
@@ -232,7 +225,7 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         let Some(TransportBuffer { definition, size }) = packer.bo_definition() else {
             unreachable!()
         };
-        let idents = super::signature::iter_to_string(packer.bo_idents());
+        let idents = super::signature::iter_to_string(packer.bo_patterns());
         self.initializations.push(format!(
             r#"
                 {definition}
@@ -267,22 +260,13 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
             }}"#
         ));
 
-        let objects = r#struct.objects();
-        for (object, _) in objects {
-            let path = super::signature::idents_to_struct_path(&object);
-            let idx = self.args.len();
-            self.post_call.push(format!(
-                r#"unsafe {{ std::ptr::write(
-                    std::ptr::addr_of_mut!((*{escaped_ident}.as_mut_ptr()){path}),
-                    std::mem::transmute(std::mem::ManuallyDrop::take(&mut {ARGS}[{idx}].o))
-                ); }}
-            "#
-            ));
-
-            self.add_output_object();
-        }
+        let mutability = if r#struct.contains_interfaces() {
+            "mut "
+        } else {
+            ""
+        };
         self.post_call.push(format!(
-            "let {escaped_ident} = unsafe {{ {escaped_ident}.assume_init() }};"
+            "let {mutability}{escaped_ident} = unsafe {{ {escaped_ident}.assume_init() }};"
         ));
     }
 
@@ -299,6 +283,19 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         self.add_output_object();
     }
 
+    fn visit_output_embedded_object(&mut self, ident: &Ident, path: &str) {
+        let idx = self.args.len();
+        let ident = EscapedIdent::new(ident);
+        self.post_call.push(format!(
+            r#"unsafe {{ std::ptr::write(
+                    std::ptr::addr_of_mut!({ident}.{path}),
+                    std::mem::transmute(std::mem::ManuallyDrop::take(&mut {ARGS}[{idx}].o))
+                ); }}
+            "#
+        ));
+        self.add_output_object();
+    }
+
     fn visit_output_object_array(&mut self, ident: &Ident, ty: Option<&str>, cnt: idlc_mir::Count) {
         use crate::interface::mink_primitives::{INTERFACES_BASE, OBJECT};
         use std::borrow::Cow;
diff --git a/idlc_codegen_rust/src/interface/functions/invoke.rs b/idlc_codegen_rust/src/interface/functions/invoke.rs
index 11ff7cf..cab7c80 100644
--- a/idlc_codegen_rust/src/interface/functions/invoke.rs
+++ b/idlc_codegen_rust/src/interface/functions/invoke.rs
@@ -1,6 +1,7 @@
 // Copyright (c) 2024, Qualcomm Innovation Center, Inc. All rights reserved.
 // SPDX-License-Identifier: BSD-3-Clause
 
+use idlc_codegen::serialization::Type;
 use idlc_mir::{Ident, StructInner};
 
 use crate::interface::mink_primitives::GENERIC_ERROR;
@@ -17,6 +18,8 @@ use super::serialization::TransportBuffer;
 pub struct Invoke {
     pre: Vec<String>,
     post: Vec<String>,
+    late_pre: Vec<String>,
+    late_post: Vec<String>,
 
     idx: usize,
 }
@@ -30,11 +33,11 @@ impl Invoke {
     }
 
     pub fn pre(&self) -> String {
-        self.pre.concat()
+        self.pre.concat() + &self.late_pre.concat()
     }
 
     pub fn post(&self) -> String {
-        self.post.concat()
+        self.post.concat() + &self.late_post.concat()
     }
 }
 
@@ -121,9 +124,15 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
             "#,
         ));
         self.pre.push(format!(
-            "let {BI_STRUCT}({idents}) = std::ptr::read(args[0].bi.ptr.cast::<{BI_STRUCT}>());"
+            "let {BI_STRUCT}({idents}) = std::ptr::read({ARGS}[{idx}].bi.ptr.cast::<{BI_STRUCT}>());"
         ));
         self.pre.push(packer.post_bi_assignments());
+        for (ident, ty) in packed_primitives.inputs_by_idents() {
+            if matches!(ty, Type::SmallStruct(s) if s.contains_interfaces()) {
+                let ident = EscapedIdent::new(ident);
+                self.late_pre.push(format!("let {ident} = &{ident};"));
+            }
+        }
     }
 
     fn visit_input_big_struct(&mut self, ident: &Ident, r#struct: &StructInner) {
@@ -136,23 +145,15 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         }}"#
         ));
 
-        let objects = r#struct.objects();
-        if objects.is_empty() {
+        if r#struct.contains_interfaces() {
             self.pre.push(format!(
-                "let {ident} = &*{ARGS}[{idx}].bi.ptr.cast::<{ty}>();"
+                "let mut {ident} = std::mem::ManuallyDrop::new(std::ptr::read({ARGS}[{idx}].bi.ptr.cast::<{ty}>()));"
             ));
+            self.late_pre.push(format!("let {ident} = &{ident};"));
         } else {
             self.pre.push(format!(
-                "let mut {ident} = std::mem::ManuallyDrop::new(std::ptr::read({ARGS}[{idx}].bi.ptr.cast::<{ty}>()));"
+                "let {ident} = &*{ARGS}[{idx}].bi.ptr.cast::<{ty}>();"
             ));
-            for (object, _) in objects {
-                let path = super::signature::idents_to_struct_path(&object);
-                let idx = self.idx();
-                self.pre.push(format!(
-                    "std::ptr::write(&mut {ident}{path}, std::mem::transmute_copy(&{ARGS}[{idx}].o));"
-                ));
-            }
-            self.pre.push(format!("let {ident} = &{ident};"))
         }
     }
     fn visit_input_small_struct(&mut self, ident: &Ident, ty: &StructInner) {
@@ -178,6 +179,14 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         self.pre.push(definition);
     }
 
+    fn visit_input_embedded_object(&mut self, ident: &Ident, path: &str) {
+        let idx = self.idx();
+        let ident = EscapedIdent::new(ident);
+        self.pre.push(format!(
+            "std::ptr::write(&mut {ident}.{path}, std::mem::transmute_copy(&{ARGS}[{idx}].o));"
+        ));
+    }
+
     fn visit_output_primitive_buffer(&mut self, ident: &Ident, ty: idlc_mir::Primitive) {
         self.generate_for_output_buffer(EscapedIdent::new(ident), change_primitive(ty));
     }
@@ -196,26 +205,16 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         }}"#
         ));
 
-        let objects = r#struct.objects();
-        if objects.is_empty() {
-            self.post
-                .push(format!("*{ARGS}[{idx}].b.ptr.cast::<{ty}>() = {ident};\n"));
-        } else {
-            let struct_idx = idx;
+        if r#struct.contains_interfaces() {
             self.post.push(format!(
                 "let mut {ident} = std::mem::ManuallyDrop::new({ident});"
             ));
-            for (object, _) in objects {
-                let idx = self.idx();
-                let path = super::signature::idents_to_struct_path(&object);
-                self.post.push(format!("{ARGS}[{idx}].o = std::mem::ManuallyDrop::new(std::mem::transmute({ident}{path}.take()));"));
-                self.post.push(format!(
-                    "std::ptr::write(std::ptr::addr_of_mut!({ident}{path}), std::mem::zeroed());"
-                ));
-            }
-            self.post.push(format!(
-                "std::ptr::write({ARGS}[{struct_idx}].b.ptr.cast::<{ty}>(), std::mem::transmute_copy(&{ident}));"
+            self.late_post.push(format!(
+                "std::ptr::write({ARGS}[{idx}].b.ptr.cast::<{ty}>(), std::mem::transmute_copy(&{ident}));"
             ));
+        } else {
+            self.post
+                .push(format!("*{ARGS}[{idx}].b.ptr.cast::<{ty}>() = {ident};\n"));
         }
     }
     fn visit_output_small_struct(&mut self, ident: &Ident, ty: &StructInner) {
@@ -253,8 +252,9 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
             }}
             "#,
         ));
-        let idents = super::signature::iter_to_string(packer.bo_idents());
-        self.post.push(format!(
+        let idents = super::signature::iter_to_string(packer.bo_values());
+        self.post.push(packer.bo_objects());
+        self.late_post.push(format!(
             r#"
             std::ptr::write({ARGS}[{idx}].b.ptr.cast::<{BO_STRUCT}>(), {BO_STRUCT}({idents}));
             "#
@@ -269,6 +269,15 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         ));
     }
 
+    fn visit_output_embedded_object(&mut self, ident: &Ident, path: &str) {
+        let idx = self.idx();
+        let ident = EscapedIdent::new(ident);
+        self.post.push(format!("{ARGS}[{idx}].o = std::mem::ManuallyDrop::new(std::mem::transmute({ident}.{path}.take()));"));
+        self.post.push(format!(
+            "std::ptr::write(std::ptr::addr_of_mut!({ident}.{path}), std::mem::zeroed());"
+        ));
+    }
+
     fn visit_output_object_array(&mut self, ident: &Ident, _: Option<&str>, cnt: idlc_mir::Count) {
         let ident = EscapedIdent::new(ident);
         self.post.push(format!(
diff --git a/idlc_codegen_rust/src/interface/functions/serialization.rs b/idlc_codegen_rust/src/interface/functions/serialization.rs
index b2028fc..07aa771 100644
--- a/idlc_codegen_rust/src/interface/functions/serialization.rs
+++ b/idlc_codegen_rust/src/interface/functions/serialization.rs
@@ -16,6 +16,22 @@ pub struct TransportBuffer {
     pub size: usize,
 }
 
+/// Copy of the input struct `ident` with all of its objects blanked, these are
+/// conveyed as object arguments. It's never dropped as the objects are borrowed.
+pub fn blank_copy(ident: &idlc_mir::Ident, r#struct: &idlc_mir::StructInner) -> String {
+    if !r#struct.contains_interfaces() {
+        return String::new();
+    }
+    let escaped_ident = EscapedIdent::new(ident);
+    let mut copy = format!(
+        "let mut _{ident} = std::mem::ManuallyDrop::new(unsafe {{ std::ptr::read({escaped_ident}) }});"
+    );
+    for (path, _) in r#struct.object_paths() {
+        copy += &format!("unsafe {{ std::ptr::write(&mut _{ident}.{path}, std::mem::zeroed()); }}");
+    }
+    copy
+}
+
 #[derive(Debug)]
 pub struct PackedPrimitives<'a>(&'a idlc_codegen::serialization::PackedPrimitives);
 
@@ -37,9 +53,13 @@ impl<'a> PackedPrimitives<'a> {
 
     pub fn bi_assignment_idents(&self) -> impl ExactSizeIterator<Item = String> + '_ {
         self.0.inputs_by_idents().map(|(ident, ty)| {
+            let raw = ident;
             let ident = EscapedIdent::new(ident);
             match ty {
                 Type::Primitive(_) => ident.to_string(),
+                Type::SmallStruct(s) if s.contains_interfaces() => {
+                    format!("unsafe {{ std::ptr::read(&*_{raw}) }}")
+                }
                 Type::SmallStruct(_) => format!("*{ident}"),
             }
         })
@@ -48,8 +68,11 @@ impl<'a> PackedPrimitives<'a> {
     pub fn post_bi_assignments(&self) -> String {
         let mut assignments = String::new();
         self.0.inputs_by_idents().for_each(|(ident, ty)| {
-            if matches!(ty, Type::SmallStruct(_)) {
-                let ident = EscapedIdent::new(ident);
+            let Type::SmallStruct(s) = ty else { return };
+            let ident = EscapedIdent::new(ident);
+            if s.contains_interfaces() {
+                assignments += &format!(r"let mut {ident} = std::mem::ManuallyDrop::new({ident});");
+            } else {
                 assignments += &format!(r"let {ident} = &{ident};");
             }
         });
@@ -61,10 +84,51 @@ impl<'a> PackedPrimitives<'a> {
         Self::generate_struct(self.0.output_types(), "BO", self.0.packed_output_size())
     }
 
-    pub fn bo_idents(&self) -> impl ExactSizeIterator<Item = String> + '_ {
-        self.0
-            .outputs_by_idents()
-            .map(|(ident, _)| EscapedIdent::new(ident).to_string())
+    /// Blanked copies of the input structs that carry objects.
+    pub fn bi_blank_copies(&self) -> String {
+        let mut copies = String::new();
+        for (ident, ty) in self.0.inputs_by_idents() {
+            if let Type::SmallStruct(s) = ty {
+                copies += &blank_copy(ident, s);
+            }
+        }
+        copies
+    }
+
+    /// Patterns binding the members of the output bundle.
+    pub fn bo_patterns(&self) -> impl ExactSizeIterator<Item = String> + '_ {
+        self.0.outputs_by_idents().map(|(ident, ty)| {
+            let ident = EscapedIdent::new(ident);
+            match ty {
+                Type::SmallStruct(s) if s.contains_interfaces() => format!("mut {ident}"),
+                _ => ident.to_string(),
+            }
+        })
+    }
+
+    /// Values to assign to the members of the output bundle.
+    pub fn bo_values(&self) -> impl ExactSizeIterator<Item = String> + '_ {
+        self.0.outputs_by_idents().map(|(ident, ty)| {
+            let ident = EscapedIdent::new(ident);
+            match ty {
+                Type::SmallStruct(s) if s.contains_interfaces() => {
+                    format!("std::ptr::read(&*{ident})")
+                }
+                _ => ident.to_string(),
+            }
+        })
+    }
+
+    /// Takes over the output structs that carry objects.
+    pub fn bo_objects(&self) -> String {
+        let mut taken = String::new();
+        for (ident, ty) in self.0.outputs_by_idents() {
+            if matches!(ty, Type::SmallStruct(s) if s.contains_interfaces()) {
+                let ident = EscapedIdent::new(ident);
+                taken += &format!("let mut {ident} = std::mem::ManuallyDrop::new({ident});");
+            }
+        }
+        taken
     }
 
     #[inline]
@@ -77,14 +141,23 @@ impl<'a> PackedPrimitives<'a> {
             return None;
         }
 
+        let mut contains_interfaces = false;
         let fields = super::signature::iter_to_string(types.map(|ty| match ty {
             &Type::Primitive(p) => Cow::Borrowed(change_primitive(p)),
-            Type::SmallStruct(s) => Cow::Owned(namespaced_struct(s)),
+            Type::SmallStruct(s) => {
+                contains_interfaces |= s.contains_interfaces();
+                Cow::Owned(namespaced_struct(s))
+            }
         }));
+        let derives = if contains_interfaces {
+            ""
+        } else {
+            "#[derive(Clone, Copy)]"
+        };
         let definition = format!(
             r#"
         #[repr(C, packed)]
-        #[derive(Clone, Copy)]
+        {derives}
         struct {ident}({fields});
         "#
         );
diff --git a/idlc_codegen_rust/src/interface/functions/signature.rs b/idlc_codegen_rust/src/interface/functions/signature.rs
index f1c35d1..4499ec4 100644
--- a/idlc_codegen_rust/src/interface/functions/signature.rs
+++ b/idlc_codegen_rust/src/interface/functions/signature.rs
@@ -29,12 +29,6 @@ pub fn iter_to_string(iter: impl Iterator<Item = impl AsRef<str>>) -> String {
     acc
 }
 
-pub fn idents_to_struct_path(objects: &[&Ident]) -> String {
-    objects
-        .iter()
-        .fold(String::new(), |acc, x| acc + "." + x.as_ref())
-}
-
 impl Signature {
     pub fn new(function: &idlc_mir::Function) -> Self {
         let mut me = Self::default();
diff --git a/idlc_mir/src/mir.rs b/idlc_mir/src/mir.rs
index c72aa59..cf25f32 100644
--- a/idlc_mir/src/mir.rs
+++ b/idlc_mir/src/mir.rs
@@ -28,7 +28,7 @@ use idlc_ast::Ast;
 pub use idlc_ast::Ident;
 use idlc_ast_passes::idl_store::IDLStore;
 
-use std::collections::{HashMap, VecDeque};
+use std::collections::VecDeque;
 use std::path::{Path, PathBuf};
 use std::rc::Rc;
 
@@ -188,25 +188,17 @@ impl StructInner {
 
     pub fn objects(&self) -> Vec<(Vec<&Ident>, Option<&str>)> {
         let mut queue = VecDeque::new();
-        let mut parents = HashMap::new();
         let mut objects = Vec::new();
-        queue.push_back(self);
+        queue.push_back((self, Vec::new()));
 
-        while let Some(node) = queue.pop_front() {
+        while let Some((node, parents)) = queue.pop_front() {
             for field in &node.fields {
                 let (ty, _) = &field.val;
+                let mut path: Vec<&Ident> = parents.clone();
+                path.push(&field.ident);
                 if let Type::Struct(s) = ty {
-                    parents.insert(s.as_ref(), (node, Some(&field.ident)));
-                    queue.push_back(s.as_ref());
+                    queue.push_back((s.as_ref(), path));
                 } else if let Type::Interface(interface) = ty {
-                    // Reconstruct path information.
-                    let mut path = vec![&field.ident];
-                    let mut current = node;
-                    while let Some((parent, Some(parent_ident))) = parents.get(current) {
-                        path.push(*parent_ident);
-                        current = parent;
-                    }
-                    path.reverse();
                     objects.push((path, interface.as_deref()));
                 }
             }
@@ -215,6 +207,56 @@ impl StructInner {
         objects
     }
 
+    /// Number of objects held by a value of this struct, counting every element
+    /// of object arrays and of arrays of structs.
+    pub fn object_count(&self) -> usize {
+        self.fields.iter().fold(0, |acc: usize, field| {
+            let (ty, count) = &field.val;
+            let each = match ty {
+                Type::Interface(_) => 1,
+                Type::Struct(s) => s.as_ref().object_count(),
+                _ => 0,
+            };
+            acc.saturating_add(each.saturating_mul(usize::from(count.get())))
+        })
+    }
+
+    /// Access paths (`a.b[1].c`) of all objects held by a value of this struct,
+    /// in the order in which they are conveyed as object arguments.
+    ///
+    /// Contrary to [`StructInner::objects`] there is one entry for each array
+    /// element, array fields of length `1` are emitted as plain fields.
+    pub fn object_paths(&self) -> Vec<(String, Option<&str>)> {
+        let mut queue = VecDeque::new();
+        let mut objects = Vec::new();
+        queue.push_back((self, String::new()));
+
+        while let Some((node, prefix)) = queue.pop_front() {
+            for field in &node.fields {
+                let (ty, count) = &field.val;
+                if matches!(ty, Type::Struct(s) if s.as_ref().object_count() == 0)
+                    || !matches!(ty, Type::Struct(_) | Type::Interface(_))
+                {
+                    continue;
+                }
+                for i in 0..count.get() {
+                    let path = if count.get() == 1 {
+                        format!("{prefix}{}", field.ident)
+                    } else {
+                        format!("{prefix}{}[{i}]", field.ident)
+                    };
+                    match ty {
+                        Type::Struct(s) => queue.push_back((s.as_ref(), path + ".")),
+                        Type::Interface(interface) => objects.push((path, interface.as_deref())),
+                        _ => unreachable!(),
+                    }
+                }
+            }
+        }
+
+        objects
+    }
+
     pub fn is_primitive_struct(&self) -> bool {
         self.objects().is_empty()
     }
diff --git a/idlc_mir_passes/src/interface_verifier.rs b/idlc_mir_passes/src/interface_verifier.rs
index beb5411..b869656 100644
--- a/idlc_mir_passes/src/interface_verifier.rs
+++ b/idlc_mir_passes/src/interface_verifier.rs
@@ -159,6 +159,12 @@ impl<'mir> MirCompilerPass<'_> for InterfaceVerifier<'mir> {
                                     src.ident, f.ident,
                                 );
                             }
+                            if argument_counts(f).iter().any(|n| *n > MAX_ARGUMENTS) {
+                                idlc_errors::unrecoverable!(
+                                    "Interface `{}`, method `{}` has more than {} arguments of the same kind",
+                                    src.ident, f.ident, MAX_ARGUMENTS
+                                );
+                            }
                         }
                     }
                 }
@@ -167,6 +173,51 @@ impl<'mir> MirCompilerPass<'_> for InterfaceVerifier<'mir> {
     }
 }
 
+/// Each class of arguments is counted by four bits of the invocation's counts.
+const MAX_ARGUMENTS: usize = 15;
+
+/// Number of input buffers, output buffers, input objects and output objects.
+fn argument_counts(function: &idlc_mir::Function) -> [usize; 4] {
+    let mut bundles = [0; 2];
+    let mut buffers = [0; 2];
+    let mut objects = [0usize; 2];
+    for param in &function.params {
+        let direction = usize::from(param.is_output());
+        match (param.r#type(), param) {
+            (
+                Type::Interface(_),
+                idlc_mir::Param::In {
+                    r#type: ParamTypeIn::Array(_, Some(cnt)),
+                    ..
+                }
+                | idlc_mir::Param::Out {
+                    r#type: ParamTypeOut::Array(_, Some(cnt)),
+                    ..
+                },
+            ) => objects[direction] += usize::from(cnt.get()),
+            (Type::Interface(_), _) => objects[direction] += 1,
+            (Type::UntypedBuffer, _) => buffers[direction] += 1,
+            _ if param.is_array() => buffers[direction] += 1,
+            // All the small parameters share a single buffer.
+            (Type::Primitive(_), _) => bundles[direction] = 1,
+            (Type::Struct(s), _) => {
+                match s {
+                    Struct::Small(_) => bundles[direction] = 1,
+                    Struct::Big(_) => buffers[direction] += 1,
+                }
+                objects[direction] = objects[direction].saturating_add(s.as_ref().object_count());
+            }
+        }
+    }
+
+    [
+        bundles[0] + buffers[0],
+        bundles[1] + buffers[1],
+        objects[0],
+        objects[1],
+    ]
+}
+
 struct CollisionDetector<'a> {
     src: &'a idlc_mir::Interface,
     inner: HashSet<&'a idlc_ast::Ident>,
-- 
2.43.0


From 5072b579c55472a5f4bff95e84887acaa12bec19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:24 +0000
Subject: [PATCH 09/17] fix: emit C and C++ definitions before their uses,
 accept untyped object arrays in C++ and keep generated locals apart from IDL
 names

---
 idlc_codegen/src/lib.rs                       |  1 +
 idlc_codegen/src/order.rs                     | 95 +++++++++++++++++++
 idlc_codegen_c/src/generator.rs               | 19 ++--
 .../src/interface/functions/implementation.rs | 26 ++---
 .../src/interface/functions/invoke.rs         | 22 ++---
 .../src/interface/functions/serialization.rs  | 20 ++--
 .../src/interface/functions/signature.rs      | 16 ++--
 idlc_codegen_c/src/interface/mod.rs           | 24 ++---
 .../src/interface/variable_names.rs           |  6 +-
 idlc_codegen_cpp/src/generator.rs             | 24 +++--
 .../src/interface/functions/implementation.rs | 76 +++++++++------
 .../src/interface/functions/invoke.rs         | 28 +++---
 .../src/interface/functions/serialization.rs  | 14 +--
 .../src/interface/functions/signature.rs      | 28 +++---
 idlc_codegen_cpp/src/interface/mod.rs         | 71 ++++++++------
 15 files changed, 301 insertions(+), 169 deletions(-)
 create mode 100644 idlc_codegen/src/order.rs

diff --git a/idlc_codegen/src/lib.rs b/idlc_codegen/src/lib.rs
index 43b40af..9bb04af 100644
--- a/idlc_codegen/src/lib.rs
+++ b/idlc_codegen/src/lib.rs
@@ -5,6 +5,7 @@ pub mod counts;
 pub mod documentation;
 pub mod functions;
 pub mod marking;
+pub mod order;
 pub mod serialization;
 
 // TODO: Remove this when we indeed start banning idents matching reserved keywords
diff --git a/idlc_codegen/src/order.rs b/idlc_codegen/src/order.rs
new file mode 100644
index 0000000..bae59d5
--- /dev/null
+++ b/idlc_codegen/src/order.rs
@@ -0,0 +1,95 @@
+// Copyright (c) 2024, Qualcomm Innovation Center, Inc. All rights reserved.
+// SPDX-License-Identifier: BSD-3-Clause
+
+//! Declaration order is free in IDLs, C and C++ want definitions before uses.
+
+use std::collections::{HashMap, HashSet};
+use std::path::Path;
+
+use idlc_mir::{Interface, InterfaceNode, Mir, Node, Type};
+
+fn struct_name(ty: &Type) -> Option<&str> {
+    match ty {
+        Type::Struct(s) => Some(s.as_ref().ident.as_ref()),
+        _ => None,
+    }
+}
+
+/// Names of the types whose definitions must precede the definition of `node`.
+fn dependencies(node: &Node) -> Vec<&str> {
+    match node {
+        Node::Include(_) | Node::Const(_) => vec![],
+        Node::Struct(s) => s
+            .as_ref()
+            .fields
+            .iter()
+            .filter_map(|field| struct_name(&field.val.0))
+            .collect(),
+        Node::Interface(i) => {
+            let bases = i.iter().skip(1).map(|base| base.ident.as_ref());
+            let params = i.nodes.iter().flat_map(|node| match node {
+                InterfaceNode::Function(f) => f.params.as_slice(),
+                _ => &[],
+            });
+
+            bases
+                .chain(params.filter_map(|param| struct_name(param.r#type())))
+                .collect()
+        }
+    }
+}
+
+/// Constants and types of `mir`, every type follows the types its definition
+/// needs. The order of unrelated nodes is kept.
+pub fn definitions(mir: &Mir) -> Vec<&Node> {
+    fn visit<'a>(
+        node: &'a Node,
+        types: &HashMap<&str, &'a Node>,
+        visited: &mut HashSet<*const Node>,
+        order: &mut Vec<&'a Node>,
+    ) {
+        if !visited.insert(std::ptr::from_ref(node)) {
+            return;
+        }
+        for dependency in dependencies(node) {
+            if let Some(node) = types.get(dependency) {
+                visit(node, types, visited, order);
+            }
+        }
+        order.push(node);
+    }
+
+    let types = mir
+        .nodes
+        .iter()
+        .filter_map(|node| match node.as_ref() {
+            Node::Struct(s) => Some((s.as_ref().ident.as_ref(), node.as_ref())),
+            Node::Interface(i) => Some((i.ident.as_ref(), node.as_ref())),
+            _ => None,
+        })
+        .collect::<HashMap<&str, &Node>>();
+
+    let mut order = Vec::new();
+    let mut visited = HashSet::new();
+    for node in &mir.nodes {
+        if !matches!(node.as_ref(), Node::Include(_)) {
+            visit(node, &types, &mut visited, &mut order);
+        }
+    }
+
+    order
+}
+
+pub fn includes(mir: &Mir) -> impl Iterator<Item = &Path> {
+    mir.nodes.iter().filter_map(|node| match node.as_ref() {
+        Node::Include(path) => Some(path.as_path()),
+        _ => None,
+    })
+}
+
+pub fn interfaces(mir: &Mir) -> impl Iterator<Item = &Interface> {
+    mir.nodes.iter().filter_map(|node| match node.as_ref() {
+        Node::Interface(i) => Some(i),
+        _ => None,
+    })
+}
diff --git a/idlc_codegen_c/src/generator.rs b/idlc_codegen_c/src/generator.rs
index b34dbbb..601b1d6 100644
--- a/idlc_codegen_c/src/generator.rs
+++ b/idlc_codegen_c/src/generator.rs
@@ -3,7 +3,7 @@
 
 use idlc_mir::Node;
 
-use idlc_codegen::MINKIDL_HEADER_COMMENT;
+use idlc_codegen::{order, MINKIDL_HEADER_COMMENT};
 
 use crate::{
     globals::{emit_const, emit_include, emit_struct},
@@ -27,11 +27,18 @@ impl idlc_codegen::SplitInvokeGenerator for Generator {
         let mut result = String::new();
         result.push_str(&generate_common());
 
-        for node in &mir.nodes {
-            match node.as_ref() {
-                Node::Include(i) => {
-                    result.push_str(&emit_include(i));
-                }
+        for include in order::includes(mir) {
+            result.push_str(&emit_include(include));
+        }
+        if !self.is_no_typed_objects {
+            for interface in order::interfaces(mir) {
+                result.push_str(&format!("typedef Object {};\n", interface.ident));
+            }
+        }
+
+        for node in order::definitions(mir) {
+            match node {
+                Node::Include(_) => (),
                 Node::Const(c) => {
                     result.push_str(&emit_const(c));
                 }
diff --git a/idlc_codegen_c/src/interface/functions/implementation.rs b/idlc_codegen_c/src/interface/functions/implementation.rs
index 7472ce7..09100bb 100644
--- a/idlc_codegen_c/src/interface/functions/implementation.rs
+++ b/idlc_codegen_c/src/interface/functions/implementation.rs
@@ -118,14 +118,14 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         let _idx = self.idx();
         let bi_embedded = packer.bi_embedded();
         self.initializations.push(format!(
-            r#"{definition} i;
+            r#"{definition} _i;
 {0}{1}"#,
             bi_embedded,
             packer.bi_assignments(),
         ));
         self.args.push(format!(
             r#"
-        {{.b = ({OBJECTBUF}) {{ &i, {size} }} }},"#
+        {{.b = ({OBJECTBUF}) {{ &_i, {size} }} }},"#
         ));
     }
 
@@ -138,7 +138,7 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
                 .push(super::serialization::blank_copy(ident, ty));
             self.args.push(format!(
                 r#"
-            {{.bi = ({OBJECTBUFIN}) {{ &{ident}_cpy, sizeof({ty_ident}) }} }},"#
+            {{.bi = ({OBJECTBUFIN}) {{ &_{ident}_cpy, sizeof({ty_ident}) }} }},"#
             ));
         } else {
             self.args.push(format!(
@@ -211,7 +211,7 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
             );
             self.post_call.push(format!(
                 r#"
-    (*{ident}_ptr)[{i}] = a[{idx}].o;"#,
+    (*{ident}_ptr)[{i}] = {ARGS}[{idx}].o;"#,
             ));
         }
     }
@@ -243,13 +243,13 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
 
         self.initializations.push(format!(
             r#"
-    {definition} o = {{{initialization}}};
+    {definition} _o = {{{initialization}}};
 "#
         ));
         self.post_call.push(packer.post_bo_assignments());
         self.args.push(format!(
             r#"
-        {{.b = ({OBJECTBUF}) {{  &o, {size} }} }},"#
+        {{.b = ({OBJECTBUF}) {{  &_o, {size} }} }},"#
         ));
     }
 
@@ -323,13 +323,13 @@ pub fn emit(
 
     if total > 0 {
         object_args = format!(
-            r#"ObjectArg a[] = {{{args}
+            r#"ObjectArg {ARGS}[] = {{{args}
     }};"#
         );
     }
 
     let returns = if total > 0 {
-        format!("Object_invoke(self, {iface_ident}_{OP}_{ident}, a, ObjectCounts_pack({0}, {1}, {2}, {3}));",
+        format!("Object_invoke(_self, {iface_ident}_{OP}_{ident}, {ARGS}, ObjectCounts_pack({0}, {1}, {2}, {3}));",
         counts.input_buffers,
         counts.output_buffers,
         counts.input_objects,
@@ -338,9 +338,9 @@ pub fn emit(
         return format!(
             r#"
 {documentation}
-static inline int32_t {current_iface_ident}_{ident}(Object self{params})
+static inline int32_t {current_iface_ident}_{ident}(Object _self{params})
 {{
-    return Object_invoke(self, {iface_ident}_{OP}_{ident}, 0, 0);
+    return Object_invoke(_self, {iface_ident}_{OP}_{ident}, 0, 0);
 }}
 "#
         );
@@ -349,12 +349,12 @@ static inline int32_t {current_iface_ident}_{ident}(Object self{params})
     format!(
         r#"
 {documentation}
-static inline int32_t {current_iface_ident}_{ident}(Object self{params})
+static inline int32_t {current_iface_ident}_{ident}(Object _self{params})
 {{
 {0}{1}{2}
-    int32_t result = {returns}
+    int32_t _result = {returns}
 {3}
-    return result;
+    return _result;
 }}
 "#,
         if !initializations.is_empty() {
diff --git a/idlc_codegen_c/src/interface/functions/invoke.rs b/idlc_codegen_c/src/interface/functions/invoke.rs
index 4cd50b8..dd63404 100644
--- a/idlc_codegen_c/src/interface/functions/invoke.rs
+++ b/idlc_codegen_c/src/interface/functions/invoke.rs
@@ -115,7 +115,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         let mut objs = String::new();
         for _ in 0..cnt.into() {
             let idx = self.idx();
-            objs.push_str(&format!(r"a[{idx}].o,"));
+            objs.push_str(&format!(r"{ARGS}[{idx}].o,"));
         }
         self.pre.push(format!(
             r#" \
@@ -150,7 +150,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         self.args.push(format!("{ARGS}[{idx}].b.size != {size}"));
         self.pre.push(format!(
             r#" \
-                {CONST} {definition} *i = (const struct {BI}*){ARGS}[{idx}].b.ptr;"#
+                {CONST} {definition} *_i = (const struct {BI}*){ARGS}[{idx}].b.ptr;"#
         ));
         self.pre.push(packer.bi_copies());
     }
@@ -263,7 +263,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
             let idx = self.idx();
             objs.push_str("Object_NULL, ");
             obj_assign.push_str(&format!(
-                r#"a[{idx}].o = {name}[{i}]; \
+                r#"{ARGS}[{idx}].o = {name}[{i}]; \
                 "#
             ))
         }
@@ -321,7 +321,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         self.args.push(format!("{ARGS}[{idx}].b.size != {size}"));
         self.pre.push(format!(
             r#" \
-                {definition} *o = (struct {BO}*){ARGS}[{idx}].b.ptr;"#
+                {definition} *_o = (struct {BO}*){ARGS}[{idx}].b.ptr;"#
         ));
         let (copies, write_back) = packer.bo_copies();
         self.pre.push(copies);
@@ -374,19 +374,19 @@ pub fn emit(
     let params = super::signature::iter_to_string(signature.params());
     let call = if function.is_optional() {
         weak_declarations.push_str(&format!(
-            r#"int32_t prefix##{ident}(type ctx{params}) __attribute__((weak)); \
+            r#"int32_t _prefix##{ident}(_type _me{params}) __attribute__((weak)); \
         "#
         ));
         format!(
-            r"int32_t r; \
-                if (prefix##{ident} != NULL) {{ \
-                    r = prefix##{ident}(me{return_idents}); \
+            r"int32_t _r; \
+                if (_prefix##{ident} != NULL) {{ \
+                    _r = _prefix##{ident}(_me{return_idents}); \
                 }} else {{ \
                     return Object_ERROR_INVALID; \
                 }} \"
         )
     } else {
-        format!(r"int32_t r = prefix##{ident}(me{return_idents}); \")
+        format!(r"int32_t _r = _prefix##{ident}(_me{return_idents}); \")
     };
 
     let counts = format!(
@@ -397,13 +397,13 @@ pub fn emit(
     format!(
         r#" \
             case {iface_ident}_{OP}_{ident}: {{ \
-                if (k != ObjectCounts_pack{counts}{args}) {{ \
+                if (_k != ObjectCounts_pack{counts}{args}) {{ \
                     break; \
                 }} \
                 {pre} \
                 {call}
                 {post} \
-                return r; \
+                return _r; \
             }} "#
     )
 }
diff --git a/idlc_codegen_c/src/interface/functions/serialization.rs b/idlc_codegen_c/src/interface/functions/serialization.rs
index 5e0676e..1db0474 100644
--- a/idlc_codegen_c/src/interface/functions/serialization.rs
+++ b/idlc_codegen_c/src/interface/functions/serialization.rs
@@ -21,13 +21,13 @@ pub struct TransportBuffer {
 pub fn blank_copy(ident: &idlc_mir::Ident, r#struct: &idlc_mir::StructInner) -> String {
     let mut copy = format!(
         r#"
-    {ty} {ident}_cpy = *{ident}_ptr;"#,
+    {ty} _{ident}_cpy = *{ident}_ptr;"#,
         ty = r#struct.ident
     );
     for (path, _) in r#struct.object_paths() {
         copy += &format!(
             r#"
-    {ident}_cpy.{path} = Object_NULL;"#
+    _{ident}_cpy.{path} = Object_NULL;"#
         );
     }
     copy + "\n"
@@ -58,19 +58,19 @@ impl<'a> PackedPrimitives<'a> {
             Type::Primitive(_) => {
                 assignments += &format!(
                     r#"
-    i.m_{ident} = {ident}_val;"#
+    _i.m_{ident} = {ident}_val;"#
                 );
             }
             Type::SmallStruct(s) if s.contains_interfaces() => {
                 assignments += &format!(
                     r#"
-    i.m_{ident} = {ident}_cpy;"#
+    _i.m_{ident} = _{ident}_cpy;"#
                 );
             }
             Type::SmallStruct(_) => {
                 assignments += &format!(
                     r#"
-    i.m_{ident} = *{ident}_ptr;"#
+    _i.m_{ident} = *{ident}_ptr;"#
                 );
             }
         });
@@ -107,13 +107,13 @@ impl<'a> PackedPrimitives<'a> {
             Type::Primitive(_) => {
                 assignments += &format!(
                     r"
-    *{ident}_ptr = o.m_{ident};"
+    *{ident}_ptr = _o.m_{ident};"
                 );
             }
             Type::SmallStruct(_) => {
                 assignments += &format!(
                     r"
-    *{ident}_ptr = o.m_{ident};"
+    *{ident}_ptr = _o.m_{ident};"
                 );
             }
         });
@@ -128,7 +128,7 @@ impl<'a> PackedPrimitives<'a> {
             if let (Type::SmallStruct(s), true) = (ty, self.0.is_input_copied(ty)) {
                 copies += &format!(
                     r#" \
-                {ty} {ident}_ptr = i->m_{ident};"#,
+                {ty} {ident}_ptr = _i->m_{ident};"#,
                     ty = s.ident
                 );
             }
@@ -151,11 +151,11 @@ impl<'a> PackedPrimitives<'a> {
             };
             copies += &format!(
                 r#" \
-                {ty} {ident}_ptr[1] = {{ o->m_{ident} }};"#
+                {ty} {ident}_ptr[1] = {{ _o->m_{ident} }};"#
             );
             write_back += &format!(
                 r#" \
-                o->m_{ident} = *{ident}_ptr;"#
+                _o->m_{ident} = *{ident}_ptr;"#
             );
         }
         (copies, write_back)
diff --git a/idlc_codegen_c/src/interface/functions/signature.rs b/idlc_codegen_c/src/interface/functions/signature.rs
index 6fcbabc..8ba02af 100644
--- a/idlc_codegen_c/src/interface/functions/signature.rs
+++ b/idlc_codegen_c/src/interface/functions/signature.rs
@@ -157,7 +157,7 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
             && self.bundled_inputs.len() > 1
         {
             self.outputs
-                .push((format!("i->m_{}", ident), change_primitive(ty).to_string()));
+                .push((format!("_i->m_{}", ident), change_primitive(ty).to_string()));
         } else {
             self.outputs
                 .push((format!("*{}_ptr", ident), change_primitive(ty).to_string()));
@@ -172,7 +172,7 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
             && self.bundled_inputs.len() > 1
         {
             self.outputs
-                .push((format!("&i->m_{}", ident), format!("{CONST} {}", ty.ident)));
+                .push((format!("&_i->m_{}", ident), format!("{CONST} {}", ty.ident)));
         } else if ty.contains_interfaces() {
             self.outputs
                 .push((format!("&{}_ptr", ident), format!("{CONST} {}", ty.ident)));
@@ -190,7 +190,7 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
             && !self.copied_inputs.contains(&ident.to_string())
         {
             self.outputs
-                .push((format!("&i->m_{}", ident), format!("{CONST} {}", ty.ident)));
+                .push((format!("&_i->m_{}", ident), format!("{CONST} {}", ty.ident)));
         } else if self.copied_inputs.contains(&ident.to_string()) {
             self.outputs
                 .push((format!("&{}_ptr", ident), format!("{CONST} {}", ty.ident)));
@@ -279,8 +279,10 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
             && self.bundled_outputs.len() > 1
             && !self.copied_outputs.contains(&ident.to_string())
         {
-            self.outputs
-                .push((format!("&o->m_{}", ident), change_primitive(ty).to_string()));
+            self.outputs.push((
+                format!("&_o->m_{}", ident),
+                change_primitive(ty).to_string(),
+            ));
         } else {
             self.outputs
                 .push((format!("{}_ptr", ident), change_primitive(ty).to_string()));
@@ -295,7 +297,7 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
             && self.bundled_outputs.len() > 1
         {
             self.outputs
-                .push((format!("&o->m_{}", ident), ty.ident.to_string()));
+                .push((format!("&_o->m_{}", ident), ty.ident.to_string()));
         } else {
             self.outputs
                 .push((format!("{}_ptr", ident), ty.ident.to_string()));
@@ -310,7 +312,7 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
             && !self.copied_outputs.contains(&ident.to_string())
         {
             self.outputs
-                .push((format!("&o->m_{}", ident), ty.ident.to_string()));
+                .push((format!("&_o->m_{}", ident), ty.ident.to_string()));
         } else {
             self.outputs
                 .push((format!("{}_ptr", ident), ty.ident.to_string()));
diff --git a/idlc_codegen_c/src/interface/mod.rs b/idlc_codegen_c/src/interface/mod.rs
index 5e00404..2f9e897 100644
--- a/idlc_codegen_c/src/interface/mod.rs
+++ b/idlc_codegen_c/src/interface/mod.rs
@@ -93,15 +93,9 @@ pub fn emit_interface_impl(interface: &Interface, is_no_typed_objects: bool) ->
             }
         }
     }
-    let object_defined = if is_no_typed_objects {
-        "".to_string()
-    } else {
-        format!("typedef Object {ident};")
-    };
 
     format!(
         r#"
-{object_defined}
 {constants}
 {errors}
 {op_codes}
@@ -165,7 +159,7 @@ pub fn emit_interface_invoke(interface: &Interface, is_no_typed_objects: bool) -
         .then_some(format!(r#"typedef Object {ident};"#))
         .unwrap_or_default();
 
-    // weak_delcarations goes inside `func` to preserve the expected when the macro is instantiated
+    // weak_delcarations goes inside `_func` to preserve the expected when the macro is instantiated
     // with `static IFoo_DEFINE_INVOKE`. It is OK to declare functions within functions for C.
     format!(
         r#"{typed_objects}
@@ -179,25 +173,25 @@ pub fn emit_interface_invoke(interface: &Interface, is_no_typed_objects: bool) -
 #define __compiler_pragma_post
 #endif
 
-#define {ident}_DEFINE_INVOKE(func, prefix, type) \
-    int32_t func(ObjectCxt h, ObjectOp op, ObjectArg *a, ObjectCounts k) \
+#define {ident}_DEFINE_INVOKE(_func, _prefix, _type) \
+    int32_t _func(ObjectCxt _h, ObjectOp _op, ObjectArg *_a, ObjectCounts _k) \
     {{ \
         __compiler_pragma_pre \
         {weak_declarations} \
         __compiler_pragma_post \
-        type me = (type) h; \
-        switch (ObjectOp_methodID(op)) {{ \
+        _type _me = (_type) _h; \
+        switch (ObjectOp_methodID(_op)) {{ \
             case Object_OP_release: {{ \
-                if (k != ObjectCounts_pack(0, 0, 0, 0)) {{ \
+                if (_k != ObjectCounts_pack(0, 0, 0, 0)) {{ \
                     break; \
                 }} \
-                return prefix##release(me); \
+                return _prefix##release(_me); \
             }} \
             case Object_OP_retain: {{ \
-                if (k != ObjectCounts_pack(0, 0, 0, 0)) {{ \
+                if (_k != ObjectCounts_pack(0, 0, 0, 0)) {{ \
                     break; \
                 }} \
-                return prefix##retain(me); \
+                return _prefix##retain(_me); \
             }} \
             {invokes} \
         }} \
diff --git a/idlc_codegen_c/src/interface/variable_names.rs b/idlc_codegen_c/src/interface/variable_names.rs
index 594985e..e7c4417 100644
--- a/idlc_codegen_c/src/interface/variable_names.rs
+++ b/idlc_codegen_c/src/interface/variable_names.rs
@@ -3,10 +3,10 @@
 
 pub mod invoke {
     pub const CONST: &str = "const";
-    pub const ARGS: &str = "a";
+    pub const ARGS: &str = "_a";
     pub const OBJECTBUF: &str = "ObjectBuf";
     pub const OBJECTBUFIN: &str = "ObjectBufIn";
     pub const OP: &str = "OP";
-    pub const BI: &str = "bi";
-    pub const BO: &str = "bo";
+    pub const BI: &str = "_bi";
+    pub const BO: &str = "_bo";
 }
diff --git a/idlc_codegen_cpp/src/generator.rs b/idlc_codegen_cpp/src/generator.rs
index db09835..3f1ad2e 100644
--- a/idlc_codegen_cpp/src/generator.rs
+++ b/idlc_codegen_cpp/src/generator.rs
@@ -5,9 +5,9 @@ use idlc_codegen_c::globals::emit_struct;
 use idlc_codegen_c::types::{change_const_primitive, change_primitive};
 use idlc_mir::Node;
 
-use crate::interface::{emit_interface_impl, emit_interface_invoke};
+use crate::interface::{emit_interface_impl, emit_interface_invoke, emit_interface_methods};
 
-use idlc_codegen::MINKIDL_HEADER_COMMENT;
+use idlc_codegen::{order, MINKIDL_HEADER_COMMENT};
 pub struct Generator;
 
 impl idlc_codegen::SplitInvokeGenerator for Generator {
@@ -15,12 +15,17 @@ impl idlc_codegen::SplitInvokeGenerator for Generator {
         let mut result = String::new();
         result.push_str(&generate_common());
 
-        for node in &mir.nodes {
-            match node.as_ref() {
-                Node::Include(i) => {
-                    let inc_name = i.display().to_string().replace(".idl", "");
-                    result.push_str(&format!("#include \"{}.hpp\"\n", inc_name));
-                }
+        for include in order::includes(mir) {
+            let inc_name = include.display().to_string().replace(".idl", "");
+            result.push_str(&format!("#include \"{}.hpp\"\n", inc_name));
+        }
+        for interface in order::interfaces(mir) {
+            result.push_str(&format!("class {};\n", interface.ident));
+        }
+
+        for node in order::definitions(mir) {
+            match node {
+                Node::Include(_) => (),
                 Node::Const(c) => {
                     let ident = c.ident.to_string();
                     let cnt_ty = change_primitive(c.r#type);
@@ -39,6 +44,9 @@ impl idlc_codegen::SplitInvokeGenerator for Generator {
                 }
             }
         }
+        for interface in order::interfaces(mir) {
+            result.push_str(&emit_interface_methods(interface));
+        }
 
         result
     }
diff --git a/idlc_codegen_cpp/src/interface/functions/implementation.rs b/idlc_codegen_cpp/src/interface/functions/implementation.rs
index d59a40c..748a97e 100644
--- a/idlc_codegen_cpp/src/interface/functions/implementation.rs
+++ b/idlc_codegen_cpp/src/interface/functions/implementation.rs
@@ -32,7 +32,7 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
             let _idx = self.0.idx();
             self.0.args.push(format!(
                 r#"
-        {{.o = ({ident}_ref)[{i}].get() }},"#
+        {{.o = ({ident}_ref)[{i}].ProxyBase::get() }},"#
             ));
         }
     }
@@ -55,13 +55,13 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         let _idx = self.0.idx();
         let bi_embedded = packer.bi_embedded();
         self.0.initializations.push(format!(
-            r#"{definition} i;{0}{1}"#,
+            r#"{definition} _i;{0}{1}"#,
             bi_embedded,
             packer.bi_assignments(),
         ));
         self.0.args.push(format!(
             r#"
-        {{.b = ({OBJECTBUF}) {{ &i, {size} }} }},"#
+        {{.b = ({OBJECTBUF}) {{ &_i, {size} }} }},"#
         ));
     }
 
@@ -74,7 +74,7 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
                 .initializations
                 .push(super::serialization::blank_copy(ident, ty));
             self.0.args.push(format!(
-                r#"{{.bi = ({OBJECTBUFIN}) {{ &{ident}_cpy, sizeof({ty_ident}) }} }},
+                r#"{{.bi = ({OBJECTBUFIN}) {{ &_{ident}_cpy, sizeof({ty_ident}) }} }},
         "#
             ));
         } else {
@@ -93,7 +93,7 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         let _idx = self.0.idx();
         self.0.args.push(format!(
             r#"
-        {{.o = {ident}.get() }},"#
+        {{.o = {ident}.ProxyBase::get() }},"#
         ));
     }
 
@@ -130,8 +130,8 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
 
         self.0.post_call.push(format!(
             r#"
-    for(size_t arg_idx=0;arg_idx<{cnt};arg_idx++)
-        ({ident}_ref)[arg_idx].consume(a[{idx}+arg_idx].o);"#,
+    for(size_t _idx=0;_idx<{cnt};_idx++)
+        ({ident}_ref)[_idx].ProxyBase::consume({ARGS}[{idx}+_idx].o);"#,
         ));
 
         for _ in 1..cnt.into() {
@@ -160,11 +160,11 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
 
         self.0.initializations.push(format!(
             r#"
-    {definition} o = {{{initialization}}};"#
+    {definition} _o = {{{initialization}}};"#
         ));
         self.0.args.push(format!(
             r#"
-        {{.b = ({OBJECTBUF}) {{  &o, {size} }} }},"#
+        {{.b = ({OBJECTBUF}) {{  &_o, {size} }} }},"#
         ));
         self.0.post_call.push(packer.post_bo_assignments());
     }
@@ -199,7 +199,7 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         );
         self.0.post_call.push(format!(
             r#"
-    {ident}.consume({ARGS}[{idx}].o);"#
+    {ident}.ProxyBase::consume({ARGS}[{idx}].o);"#
         ));
     }
 
@@ -217,8 +217,28 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
     }
 }
 
+/// Declaration of the proxy's method inside of its class.
+pub fn emit_declaration(
+    function: &idlc_mir::Function,
+    signature: &super::signature::Signature,
+) -> String {
+    let ident = &function.ident;
+
+    let mut params =
+        idlc_codegen_c::interface::functions::signature::iter_to_string(signature.params());
+    if !params.is_empty() {
+        params.remove(0);
+    }
+
+    format!(
+        r#"
+    virtual int32_t {ident}({params});"#
+    )
+}
+
 pub fn emit(
     function: &idlc_mir::Function,
+    iface_ident: &str,
     documentation: &str,
     counts: &idlc_codegen::counts::Counter,
     signature: &super::signature::Signature,
@@ -234,48 +254,44 @@ pub fn emit(
     }
 
     let implementation = Implementation::new(function);
-    let mut initializations = implementation.0.initializations();
-    let mut args = implementation.0.args();
-    let mut pre_call_assignments = implementation.0.pre_call_assignments();
-    let mut post_call_assignments = implementation.0.post_call_assignments();
-    initializations = initializations.replace('\n', "\n    ");
-    args = args.replace('\n', "\n    ");
-    pre_call_assignments = pre_call_assignments.replace('\n', "\n    ");
-    post_call_assignments = post_call_assignments.replace('\n', "\n    ");
+    let initializations = implementation.0.initializations();
+    let args = implementation.0.args();
+    let pre_call_assignments = implementation.0.pre_call_assignments();
+    let post_call_assignments = implementation.0.post_call_assignments();
 
     if total > 0 {
         object_args = format!(
-            r#"
-        ObjectArg a[] = {{{args}
-        }};"#
+            r#"    ObjectArg {ARGS}[] = {{{args}
+    }};"#
         );
     }
 
     let returns = if total > 0 {
         format!(
-            "invoke({OP}_{ident}, a, ObjectCounts_pack({0}, {1}, {2}, {3}));",
+            "ProxyBase::invoke({OP}_{ident}, {ARGS}, ObjectCounts_pack({0}, {1}, {2}, {3}));",
             counts.input_buffers,
             counts.output_buffers,
             counts.input_objects,
             counts.output_objects
         )
     } else {
-        format!("invoke({OP}_{ident}, 0, 0);")
+        format!("ProxyBase::invoke({OP}_{ident}, 0, 0);")
     };
 
     format!(
         r#"
 {documentation}
-    virtual int32_t {ident}({params}) {{
+inline int32_t {iface_ident}::{ident}({params})
+{{
 {0}{1}{2}
-        int32_t result = {returns}
-        if (Object_OK != result) {{ return result; }}
+    int32_t _result = {returns}
+    if (Object_OK != _result) {{ return _result; }}
 {post_call_assignments}
-        return result;
-    }}
+    return _result;
+}}
 "#,
         if !initializations.is_empty() {
-            format!("        {initializations}\n")
+            format!("    {initializations}\n")
         } else {
             "".to_string()
         },
@@ -285,7 +301,7 @@ pub fn emit(
             "".to_string()
         },
         if !pre_call_assignments.is_empty() {
-            format!("        {pre_call_assignments}\n")
+            format!("    {pre_call_assignments}\n")
         } else {
             "".to_string()
         },
diff --git a/idlc_codegen_cpp/src/interface/functions/invoke.rs b/idlc_codegen_cpp/src/interface/functions/invoke.rs
index ed95044..d937991 100644
--- a/idlc_codegen_cpp/src/interface/functions/invoke.rs
+++ b/idlc_codegen_cpp/src/interface/functions/invoke.rs
@@ -40,14 +40,14 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         let mut obj_args = String::new();
         for _ in 0..cnt.into() {
             let idx = self.0.idx();
-            obj_args.push_str(&format!(r"a[{idx}].o,"));
+            obj_args.push_str(&format!(r"{ty}({ARGS}[{idx}].o),"));
         }
         self.0.pre.push(format!(
             r#" \
-                const union {ident} {{
-                    ~{ident}() {{}}
+                const union _u_{ident} {{
+                    ~_u_{ident}() {{}}
                     {ty} inner[{cnt}];
-                }} {ident} = {{.inner= {{ {obj_args} }}}};"#,
+                }} _p_{ident} = {{.inner= {{ {obj_args} }}}};"#,
         ));
     }
 
@@ -75,11 +75,11 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         let ty = ty.unwrap_or("ProxyBase").to_string();
         self.0.pre.push(format!(
             r#" \
-                {ty} p_{ident}({ARGS}[{idx}].o);"#
+                {ty} _p_{ident}({ARGS}[{idx}].o);"#
         ));
         self.0.post.push(format!(
             r#" \
-                p_{ident}.extract();"#
+                _p_{ident}.ProxyBase::extract();"#
         ));
     }
 
@@ -106,19 +106,17 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         cnt: idlc_mir::Count,
     ) {
         let ty = ty.unwrap_or("ProxyBase").to_string();
-        let mut objs = String::new();
         let mut obj_assign = String::new();
         for i in 0..cnt.into() {
             let idx = self.0.idx();
-            objs.push_str("Object_NULL, ");
             obj_assign.push_str(&format!(
                 r#"
-                {ARGS}[{idx}].o=p_{ident}[{i}].extract();"#
+                {ARGS}[{idx}].o=_p_{ident}[{i}].ProxyBase::extract();"#
             ));
         }
         self.0.pre.push(format!(
             r#" \
-                {ty} p_{ident}[{cnt}] = {{ {objs} }};"#
+                {ty} _p_{ident}[{cnt}];"#
         ));
         self.0.post.push(format!(
             r#" \
@@ -150,11 +148,11 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         let ty = ty.unwrap_or("ProxyBase").to_string();
         self.0.pre.push(format!(
             r#" \
-                {ty} p_{ident};"#
+                {ty} _p_{ident};"#
         ));
         self.0.post.push(format!(
             r#" \
-                {ARGS}[{idx}].o = p_{ident}.extract();"#
+                {ARGS}[{idx}].o = _p_{ident}.ProxyBase::extract();"#
         ));
     }
 
@@ -206,13 +204,13 @@ pub fn emit(
     format!(
         r#"
             case {OP}_{ident}: {{
-                if (k != ObjectCounts_pack{counts}{args}) {{
+                if (_k != ObjectCounts_pack{counts}{args}) {{
                     break;
                 }}
 {pre}
-                int32_t r = {ident}({return_idents});
+                int32_t _r = {ident}({return_idents});
 {post}
-                return r;
+                return _r;
             }}"#
     )
 }
diff --git a/idlc_codegen_cpp/src/interface/functions/serialization.rs b/idlc_codegen_cpp/src/interface/functions/serialization.rs
index 1b3a438..97a2d7a 100644
--- a/idlc_codegen_cpp/src/interface/functions/serialization.rs
+++ b/idlc_codegen_cpp/src/interface/functions/serialization.rs
@@ -21,13 +21,13 @@ pub struct TransportBuffer {
 pub fn blank_copy(ident: &idlc_mir::Ident, r#struct: &idlc_mir::StructInner) -> String {
     let mut copy = format!(
         r#"
-    {ty} {ident}_cpy = {ident}_ref;"#,
+    {ty} _{ident}_cpy = {ident}_ref;"#,
         ty = r#struct.ident
     );
     for (path, _) in r#struct.object_paths() {
         copy += &format!(
             r#"
-    {ident}_cpy.{path} = Object_NULL;"#
+    _{ident}_cpy.{path} = Object_NULL;"#
         );
     }
     copy
@@ -58,19 +58,19 @@ impl<'a> PackedPrimitives<'a> {
             Type::Primitive(_) => {
                 assignments += &format!(
                     r#"
-    i.m_{ident} = {ident}_val;"#
+    _i.m_{ident} = {ident}_val;"#
                 );
             }
             Type::SmallStruct(s) => {
                 if s.contains_interfaces() {
                     assignments += &format!(
                         r#"
-    i.m_{ident} = {ident}_cpy;"#
+    _i.m_{ident} = _{ident}_cpy;"#
                     );
                 } else {
                     assignments += &format!(
                         r#"
-    i.m_{ident} = {ident}_ref;"#
+    _i.m_{ident} = {ident}_ref;"#
                     );
                 }
             }
@@ -109,13 +109,13 @@ impl<'a> PackedPrimitives<'a> {
             Type::Primitive(_) => {
                 assignments += &format!(
                     r#"
-    *{ident}_ptr = o.m_{ident};"#
+    *{ident}_ptr = _o.m_{ident};"#
                 );
             }
             Type::SmallStruct(_) => {
                 assignments += &format!(
                     r#"
-    {ident}_ref = o.m_{ident};"#
+    {ident}_ref = _o.m_{ident};"#
                 );
             }
         });
diff --git a/idlc_codegen_cpp/src/interface/functions/signature.rs b/idlc_codegen_cpp/src/interface/functions/signature.rs
index fb6b0fb..bb0795b 100644
--- a/idlc_codegen_cpp/src/interface/functions/signature.rs
+++ b/idlc_codegen_cpp/src/interface/functions/signature.rs
@@ -109,11 +109,11 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
 
     fn visit_input_object_array(&mut self, ident: &Ident, ty: Option<&str>, cnt: idlc_mir::Count) {
         let name = format!("(&{}_ref)[{cnt}]", ident);
-        let ty = format!("{CONST} {}", ty.unwrap_or("Object"));
+        let ty = format!("{CONST} {}", ty.unwrap_or("ProxyBase"));
         self.inputs.push((name, ty));
         self.input_obj_arg.push(format!("{}_len", ident));
         self.outputs
-            .push((format!("{}.inner", ident), "size_t".to_string()));
+            .push((format!("_p_{}.inner", ident), "size_t".to_string()));
     }
 
     fn visit_input_primitive(&mut self, ident: &Ident, ty: Primitive) {
@@ -121,7 +121,7 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
             .push((format!("{}_val", ident), change_primitive(ty).to_string()));
         if self.total_bundled_input > 1 && self.bundled_inputs.contains(&ident.to_string()) {
             self.outputs
-                .push((format!("i->m_{}", ident), change_primitive(ty).to_string()));
+                .push((format!("_i->m_{}", ident), change_primitive(ty).to_string()));
         } else {
             self.outputs
                 .push((format!("*{}_ptr", ident), change_primitive(ty).to_string()));
@@ -133,7 +133,7 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
             .push((format!("&{}_ref", ident), format!("{CONST} {}", ty.ident)));
         if self.total_bundled_input > 1 && self.bundled_inputs.contains(&ident.to_string()) {
             self.outputs
-                .push((format!("i->m_{}", ident), format!("{CONST} {}", ty.ident)));
+                .push((format!("_i->m_{}", ident), format!("{CONST} {}", ty.ident)));
         } else if ty.contains_interfaces() {
             self.outputs
                 .push((format!("{}_ptr", ident), format!("{CONST} {}", ty.ident)));
@@ -150,7 +150,7 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
             && !self.copied_inputs.contains(&ident.to_string())
         {
             self.outputs
-                .push((format!("i->m_{}", ident), format!("{CONST} {}", ty.ident)));
+                .push((format!("_i->m_{}", ident), format!("{CONST} {}", ty.ident)));
         } else if self.copied_inputs.contains(&ident.to_string()) {
             self.outputs
                 .push((format!("{}_ptr", ident), format!("{CONST} {}", ty.ident)));
@@ -166,7 +166,7 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
             format!("{CONST} {}", ty.unwrap_or("ProxyBase")),
         ));
         self.outputs
-            .push((format!("p_{}", ident), ty.unwrap_or("Object").to_string()));
+            .push((format!("_p_{}", ident), ty.unwrap_or("Object").to_string()));
     }
 
     fn visit_output_primitive_buffer(&mut self, ident: &Ident, ty: Primitive) {
@@ -219,11 +219,11 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
 
     fn visit_output_object_array(&mut self, ident: &Ident, ty: Option<&str>, cnt: idlc_mir::Count) {
         let name = format!("(&{}_ref)[{cnt}]", ident);
-        let ty = ty.unwrap_or("Object").to_string();
+        let ty = ty.unwrap_or("ProxyBase").to_string();
         self.inputs.push((name, ty));
         self.output_obj_arg.push(format!("{}_len", ident));
         self.outputs
-            .push((format!("p_{}", ident), "size_t".to_string()));
+            .push((format!("_p_{}", ident), "size_t".to_string()));
     }
 
     fn visit_output_primitive(&mut self, ident: &Ident, ty: Primitive) {
@@ -233,8 +233,10 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
             && self.bundled_outputs.contains(&ident.to_string())
             && !self.copied_outputs.contains(&ident.to_string())
         {
-            self.outputs
-                .push((format!("&o->m_{}", ident), change_primitive(ty).to_string()));
+            self.outputs.push((
+                format!("&_o->m_{}", ident),
+                change_primitive(ty).to_string(),
+            ));
         } else {
             self.outputs
                 .push((format!("{}_ptr", ident), change_primitive(ty).to_string()));
@@ -246,7 +248,7 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
             .push((format!("&{}_ref", ident), ty.ident.to_string()));
         if self.total_bundled_output > 1 && self.bundled_outputs.contains(&ident.to_string()) {
             self.outputs
-                .push((format!("o->m_{}", ident), ty.ident.to_string()));
+                .push((format!("_o->m_{}", ident), ty.ident.to_string()));
         } else {
             self.outputs
                 .push((format!("*{}_ptr", ident), ty.ident.to_string()));
@@ -260,7 +262,7 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
             && !self.copied_outputs.contains(&ident.to_string())
         {
             self.outputs
-                .push((format!("o->m_{}", ident), ty.ident.to_string()));
+                .push((format!("_o->m_{}", ident), ty.ident.to_string()));
         } else {
             self.outputs
                 .push((format!("*{}_ptr", ident), ty.ident.to_string()));
@@ -271,6 +273,6 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
         self.inputs
             .push((format!("&{}", ident), ty.unwrap_or("ProxyBase").to_string()));
         self.outputs
-            .push((format!("p_{}", ident), ty.unwrap_or("Object").to_string()));
+            .push((format!("_p_{}", ident), ty.unwrap_or("Object").to_string()));
     }
 }
diff --git a/idlc_codegen_cpp/src/interface/mod.rs b/idlc_codegen_cpp/src/interface/mod.rs
index 419ffca..462ea68 100644
--- a/idlc_codegen_cpp/src/interface/mod.rs
+++ b/idlc_codegen_cpp/src/interface/mod.rs
@@ -10,16 +10,14 @@ use idlc_codegen_c::types::{change_const_primitive, change_primitive};
 pub fn emit_interface_impl(interface: &Interface) -> String {
     let ident = interface.ident.to_string();
 
-    let mut base_iface = String::new();
     let mut constants = String::new();
     let mut errors = String::new();
     let mut op_codes = String::new();
     let mut func_titles = String::new();
-    let mut implementations = String::new();
+    let mut declarations = String::new();
 
     // need to have all of the base-class functions, error-codes and const values
     interface.iter().skip(1).for_each(|iface| {
-        base_iface.push_str(&format!("I{} ", &iface.ident.to_string()));
         iface.nodes.iter().for_each(|node| match node {
             InterfaceNode::Const(c) => {
                 constants.push_str(&format!(
@@ -41,17 +39,8 @@ pub fn emit_interface_impl(interface: &Interface) -> String {
             InterfaceNode::Function(f) => {
                 let counts = idlc_codegen::counts::Counter::new(f);
                 let signature = functions::signature::Signature::new(f, &counts);
-                let documentation = idlc_codegen::documentation::Documentation::new(
-                    f,
-                    idlc_codegen::documentation::DocumentationStyle::C,
-                );
 
-                implementations.push_str(&functions::implementation::emit(
-                    f,
-                    &documentation,
-                    &counts,
-                    &signature,
-                ));
+                declarations.push_str(&functions::implementation::emit_declaration(f, &signature));
             }
         })
     });
@@ -78,10 +67,6 @@ pub fn emit_interface_impl(interface: &Interface) -> String {
             InterfaceNode::Function(f) => {
                 let counts = idlc_codegen::counts::Counter::new(f);
                 let signature = functions::signature::Signature::new(f, &counts);
-                let documentation = idlc_codegen::documentation::Documentation::new(
-                    f,
-                    idlc_codegen::documentation::DocumentationStyle::C,
-                );
                 let mut params = idlc_codegen_c::interface::functions::signature::iter_to_string(
                     signature.params(),
                 );
@@ -98,23 +83,19 @@ pub fn emit_interface_impl(interface: &Interface) -> String {
     static const ObjectOp OP_{} = {};"#,
                     f.ident, f.id,
                 ));
-                implementations.push_str(&functions::implementation::emit(
-                    f,
-                    &documentation,
-                    &counts,
-                    &signature,
-                ));
+                declarations.push_str(&functions::implementation::emit_declaration(f, &signature));
             }
         }
     }
 
-    if !base_iface.is_empty() {
-        base_iface = format!(": public {base_iface}");
-    }
+    let base_iface = interface
+        .base
+        .as_ref()
+        .map(|base| format!(": public I{} ", base.ident))
+        .unwrap_or_default();
 
     format!(
         r#"
-class {ident};
 class I{ident} {base_iface}{{
   public:{constants}
 {errors}
@@ -131,14 +112,42 @@ class {ident} : public I{ident}, public ProxyBase {{
     {ident}() {{}}
     {ident}(Object impl) : ProxyBase(impl) {{}}
     virtual ~{ident}() {{}}
-
-{implementations}
+{declarations}
 }};
 
 "#
     )
 }
 
+/// Definitions of the proxy's methods, these need the definitions of all types.
+pub fn emit_interface_methods(interface: &Interface) -> String {
+    let mut methods = String::new();
+
+    let bases = interface.iter().skip(1);
+    for iface in bases.chain(std::iter::once(interface)) {
+        for node in &iface.nodes {
+            if let InterfaceNode::Function(f) = node {
+                let counts = idlc_codegen::counts::Counter::new(f);
+                let signature = functions::signature::Signature::new(f, &counts);
+                let documentation = idlc_codegen::documentation::Documentation::new(
+                    f,
+                    idlc_codegen::documentation::DocumentationStyle::C,
+                );
+
+                methods.push_str(&functions::implementation::emit(
+                    f,
+                    &interface.ident,
+                    &documentation,
+                    &counts,
+                    &signature,
+                ));
+            }
+        }
+    }
+
+    methods
+}
+
 pub fn emit_interface_invoke(interface: &Interface) -> String {
     let ident = interface.ident.to_string();
 
@@ -184,8 +193,8 @@ class {ident}ImplBase : protected ImplBase, public I{ident} {{
     virtual ~{ident}ImplBase() {{}}
 {weak_declarations}
   protected:
-    virtual int32_t invoke(ObjectOp op, ObjectArg* a, ObjectCounts k) {{
-        switch (ObjectOp_methodID(op)) {{
+    virtual int32_t invoke(ObjectOp _op, ObjectArg* _a, ObjectCounts _k) {{
+        switch (ObjectOp_methodID(_op)) {{
 {invokes}
             default: {{ return Object_ERROR_INVALID; }}
         }}
-- 
2.43.0


From cdf6720dd7da94426ce47bff2e44faea265713db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:24 +0000
Subject: [PATCH 10/17] fix: serve Rust methods without arguments, report
 output buffer capacities in elements and keep generated locals apart from IDL
 names

---
 .../src/interface/functions/implementation.rs | 14 +++++-----
 .../src/interface/functions/invoke.rs         | 27 ++++++++++++-------
 .../src/interface/functions/serialization.rs  |  9 +++++--
 idlc_codegen_rust/src/interface/mod.rs        |  8 +++---
 .../src/interface/variable_names.rs           | 16 +++++------
 5 files changed, 43 insertions(+), 31 deletions(-)

diff --git a/idlc_codegen_rust/src/interface/functions/implementation.rs b/idlc_codegen_rust/src/interface/functions/implementation.rs
index 1275e8e..7c8addb 100644
--- a/idlc_codegen_rust/src/interface/functions/implementation.rs
+++ b/idlc_codegen_rust/src/interface/functions/implementation.rs
@@ -119,13 +119,13 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
             r#"
             {definition}
             {blank_copies}
-            let mut bi = {BI_STRUCT}({idents});
+            let mut __bi = {BI_STRUCT}({idents});
             "#
         ));
         self.args.push(format!(
             r#"{ARG} {{
                 bi: {INPUT_BUFFER} {{
-                    ptr: std::ptr::addr_of!(bi).cast(),
+                    ptr: std::ptr::addr_of!(__bi).cast(),
                     size: {size},
                 }}
             }}
@@ -229,16 +229,16 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         self.initializations.push(format!(
             r#"
                 {definition}
-                let mut bo = std::mem::MaybeUninit::<{BO_STRUCT}>::uninit();
+                let mut __bo = std::mem::MaybeUninit::<{BO_STRUCT}>::uninit();
                 "#
         ));
         self.post_call.push(format!(
-            "let {BO_STRUCT}({idents}) = unsafe {{ bo.assume_init() }};"
+            "let {BO_STRUCT}({idents}) = unsafe {{ __bo.assume_init() }};"
         ));
         self.args.push(format!(
             r#"{ARG} {{
                 b: {OUTPUT_BUFFER} {{
-                    ptr: std::ptr::addr_of_mut!(bo).cast(),
+                    ptr: std::ptr::addr_of_mut!(__bo).cast(),
                     size: {size},
                 }}
             }}"#
@@ -249,7 +249,7 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         let ty: &str = &namespaced_struct(r#struct);
         let escaped_ident = EscapedIdent::new(ident);
         self.initializations.push(format!(
-            "let mut {ident} = std::mem::MaybeUninit::<{ty}>::uninit();\n"
+            "let mut {escaped_ident} = std::mem::MaybeUninit::<{ty}>::uninit();\n"
         ));
         self.args.push(format!(
             r#"{ARG} {{
@@ -360,7 +360,7 @@ pub fn emit(
                     {post_call_assignments}
                     Ok(({return_idents}))
                 }},
-                err => Err(unsafe {{ std::mem::transmute(err) }})
+                __err => Err(unsafe {{ std::mem::transmute(__err) }})
             }}
         }}
     "#
diff --git a/idlc_codegen_rust/src/interface/functions/invoke.rs b/idlc_codegen_rust/src/interface/functions/invoke.rs
index cab7c80..dbfd611 100644
--- a/idlc_codegen_rust/src/interface/functions/invoke.rs
+++ b/idlc_codegen_rust/src/interface/functions/invoke.rs
@@ -63,19 +63,19 @@ impl Invoke {
     fn generate_for_output_buffer(&mut self, ident: EscapedIdent, ty: &str) {
         let idx = self.idx();
         self.pre.push(format!(
-            r#"let {ident}_orig = {ARGS}[{idx}].b.size;
-            let {ident}_lenout = &mut *std::ptr::addr_of_mut!({ARGS}[{idx}].b.size);"#
+            "let {ident}_lenout = &mut ({ARGS}[{idx}].b.size / std::mem::size_of::<{ty}>());"
         ));
         self.pre.push(format!(
-        r#"let {ident} = if {ident}_orig == 0 {{
+        r#"let {ident} = if {ARGS}[{idx}].b.size == 0 {{
             &mut []
         }} else {{
-            std::slice::from_raw_parts_mut({ARGS}[{idx}].b.ptr.cast::<{ty}>(), {ident}_orig / std::mem::size_of::<{ty}>())
+            std::slice::from_raw_parts_mut({ARGS}[{idx}].b.ptr.cast::<{ty}>(), {ARGS}[{idx}].b.size / std::mem::size_of::<{ty}>())
         }};"#));
         self.post.push(format!(
             r#"
-            *{ident}_lenout = {ident}_lenout.saturating_mul(std::mem::size_of::<{ty}>());
-            assert!(*{ident}_lenout <= {ident}_orig);
+            let {ident}_lenout = {ident}_lenout.saturating_mul(std::mem::size_of::<{ty}>());
+            assert!({ident}_lenout <= {ARGS}[{idx}].b.size);
+            {ARGS}[{idx}].b.size = {ident}_lenout;
             "#
         ));
     }
@@ -316,23 +316,30 @@ pub fn emit(
     let params = super::signature::iter_to_string(signature.param_idents());
     let returns = super::signature::iter_to_string(signature.return_idents());
 
+    // Callers pass a null pointer when there are no arguments.
+    let args = if n_args == 0 {
+        String::new()
+    } else {
+        format!("let {ARGS} = std::slice::from_raw_parts_mut({ARGS}, {n_args});")
+    };
+
     format!(
         r#"
     {op_id} => {{
         if {COUNTS} != {PACK_COUNTS}{counts:?} {{
             return std::mem::transmute({GENERIC_ERROR}::GENERIC)
         }}
-        let args = std::slice::from_raw_parts_mut({ARGS}, {n_args});
+        {args}
 
         {pre}
 
-        match (*{CONTEXT}).inner.lock().map_err(|_| std::mem::transmute({GENERIC_ERROR}::INVALID)).and_then(|mut cx| cx.r#{ident}({params})) {{
+        match (*{CONTEXT}).inner.lock().map_err(|_| std::mem::transmute({GENERIC_ERROR}::INVALID)).and_then(|mut {CONTEXT}| {CONTEXT}.r#{ident}({params})) {{
             Ok(({returns})) => {{
                 {post}
                 {OK}
             }},
-            Err(e) => {{
-                i32::from({ERROR_STRUCT}::from(e))
+            Err(__err) => {{
+                i32::from({ERROR_STRUCT}::from(__err))
             }}
         }}
 
diff --git a/idlc_codegen_rust/src/interface/functions/serialization.rs b/idlc_codegen_rust/src/interface/functions/serialization.rs
index 07aa771..b13a136 100644
--- a/idlc_codegen_rust/src/interface/functions/serialization.rs
+++ b/idlc_codegen_rust/src/interface/functions/serialization.rs
@@ -7,6 +7,7 @@ use idlc_codegen::serialization::Type;
 
 use crate::{
     ident::EscapedIdent,
+    interface::variable_names::invoke::{BI_STRUCT, BO_STRUCT},
     types::{change_primitive, namespaced_struct},
 };
 
@@ -42,7 +43,7 @@ impl<'a> PackedPrimitives<'a> {
     }
 
     pub fn bi_definition(&self) -> Option<TransportBuffer> {
-        Self::generate_struct(self.0.input_types(), "BI", self.0.packed_input_size())
+        Self::generate_struct(self.0.input_types(), BI_STRUCT, self.0.packed_input_size())
     }
 
     pub fn bi_definition_idents(&self) -> impl ExactSizeIterator<Item = String> + '_ {
@@ -81,7 +82,11 @@ impl<'a> PackedPrimitives<'a> {
     }
 
     pub fn bo_definition(&self) -> Option<TransportBuffer> {
-        Self::generate_struct(self.0.output_types(), "BO", self.0.packed_output_size())
+        Self::generate_struct(
+            self.0.output_types(),
+            BO_STRUCT,
+            self.0.packed_output_size(),
+        )
     }
 
     /// Blanked copies of the input structs that carry objects.
diff --git a/idlc_codegen_rust/src/interface/mod.rs b/idlc_codegen_rust/src/interface/mod.rs
index ddfcd43..7a4bee8 100644
--- a/idlc_codegen_rust/src/interface/mod.rs
+++ b/idlc_codegen_rust/src/interface/mod.rs
@@ -128,7 +128,7 @@ pub fn emit(interface: &Interface) -> String {
     impl<T: I{ident} + 'static> From<T> for {ident} {{
         fn from(concrete: T) -> Self {{
             let cx = Box::new(unsafe {{ {wrapper}::new::<T>(Box::new(concrete)) }});
-            unsafe {{ Self({OBJECT}::create(MARKER, Box::into_raw(cx).cast())) }}
+            unsafe {{ Self({OBJECT}::create({MARKER}, Box::into_raw(cx).cast())) }}
         }}
     }}
 
@@ -136,13 +136,13 @@ pub fn emit(interface: &Interface) -> String {
     unsafe extern "C" fn invoke({h}: {CONTEXT}, {op}: {OP_ID}, {args}: *mut {ARG}, {counts}: {COUNTS}) -> i32 {{
         debug_assert_eq!({h}.align_offset(std::mem::align_of::<{wrapper}>()), 0);
         let {cx} = {h}.cast::<{wrapper}>();
-        match op {{
+        match {op} {{
             {invoke_arms}
             {OP_RELEASE} => {{
-                {WRAPPER}::release(cx)
+                {WRAPPER}::release({cx})
             }},
             {OP_RETAIN} => {{
-                {WRAPPER}::retain(cx)
+                {WRAPPER}::retain({cx})
             }},
             _ => {GENERIC_ERROR}::INVALID.into(),
         }}
diff --git a/idlc_codegen_rust/src/interface/variable_names.rs b/idlc_codegen_rust/src/interface/variable_names.rs
index 0994bb3..1c04ac0 100644
--- a/idlc_codegen_rust/src/interface/variable_names.rs
+++ b/idlc_codegen_rust/src/interface/variable_names.rs
@@ -2,13 +2,13 @@
 // SPDX-License-Identifier: BSD-3-Clause
 
 pub(super) mod invoke {
-    pub const HANDLE: &str = "h";
-    pub const OP_ID: &str = "op";
-    pub const ARGS: &str = "args";
-    pub const COUNTS: &str = "counts";
-    pub const MARKER: &str = "MARKER";
-    pub const CONTEXT: &str = "cx";
+    pub const HANDLE: &str = "__h";
+    pub const OP_ID: &str = "__op";
+    pub const ARGS: &str = "__args";
+    pub const COUNTS: &str = "__counts";
+    pub const MARKER: &str = "__MARKER";
+    pub const CONTEXT: &str = "__cx";
 
-    pub const BI_STRUCT: &str = "BI";
-    pub const BO_STRUCT: &str = "BO";
+    pub const BI_STRUCT: &str = "__BI";
+    pub const BO_STRUCT: &str = "__BO";
 }
-- 
2.43.0


From 27963247044690284ba9b1a25feb3f7935e4ea20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:54 +0000
Subject: [PATCH 11/17] fix: give constants their exact value and type in every
 backend

---
 idlc_ast/src/ast.rs                    | 40 ++++++++++++++++++++++++--
 idlc_codegen/src/constants.rs          | 35 ++++++++++++++++++++++
 idlc_codegen/src/lib.rs                |  1 +
 idlc_codegen_c/src/globals.rs          |  7 ++---
 idlc_codegen_c/src/interface/mod.rs    | 12 ++++----
 idlc_codegen_c/src/types.rs            | 40 +++++++++++++++++---------
 idlc_codegen_cpp/src/generator.rs      |  9 ++----
 idlc_codegen_cpp/src/interface/mod.rs  | 12 ++++----
 idlc_codegen_java/src/globals.rs       |  4 +--
 idlc_codegen_java/src/interface/mod.rs |  4 +--
 idlc_codegen_java/src/types.rs         | 19 ++++++++++++
 idlc_codegen_rust/src/globals.rs       |  2 +-
 idlc_mir/src/mir.rs                    |  8 ++++++
 13 files changed, 149 insertions(+), 44 deletions(-)
 create mode 100644 idlc_codegen/src/constants.rs

diff --git a/idlc_ast/src/ast.rs b/idlc_ast/src/ast.rs
index f9f1ee8..27c484d 100644
--- a/idlc_ast/src/ast.rs
+++ b/idlc_ast/src/ast.rs
@@ -253,6 +253,41 @@ impl Primitive {
         self.size()
     }
 
+    /// Decimal spelling of a literal, without leading zeros which other languages take for octal.
+    #[must_use]
+    pub fn decimal(value: &str) -> String {
+        let (sign, digits) = value
+            .strip_prefix('-')
+            .map_or(("", value), |digits| ("-", digits));
+        let digits = digits.strip_prefix("0x").map_or_else(
+            || digits.to_string(),
+            |hex| {
+                // Little endian decimal digits; literals may exceed every integer type.
+                let mut decimal = vec![0];
+                for digit in hex.chars().filter_map(|c| c.to_digit(16)) {
+                    let mut carry = digit;
+                    for d in &mut decimal {
+                        carry += *d * 16;
+                        *d = carry % 10;
+                        carry /= 10;
+                    }
+                    while carry > 0 {
+                        decimal.push(carry % 10);
+                        carry /= 10;
+                    }
+                }
+                decimal.iter().rev().map(u32::to_string).collect()
+            },
+        );
+        let significant = digits.trim_start_matches('0');
+        let zero = if significant.starts_with(|c: char| c.is_ascii_digit()) {
+            ""
+        } else {
+            "0"
+        };
+        format!("{sign}{zero}{significant}")
+    }
+
     /// Ensures the type is checked for range
     pub(crate) fn new(r#type: &str, value: &str) -> Result<Self, Error> {
         let value = value.trim();
@@ -261,6 +296,7 @@ impl Primitive {
         } else {
             10
         };
+        let decimal = &Self::decimal(value);
         let value = &value.replace("0x", "");
         match r#type {
             "uint8" => {
@@ -296,13 +332,13 @@ impl Primitive {
                 Ok(Self::Int64)
             }
             "float32" => {
-                if value.parse::<f32>()?.is_infinite() {
+                if decimal.parse::<f32>()?.is_infinite() {
                     return Err(Error::FloatIsInfinite);
                 }
                 Ok(Self::Float32)
             }
             "float64" => {
-                if value.parse::<f64>()?.is_infinite() {
+                if decimal.parse::<f64>()?.is_infinite() {
                     return Err(Error::FloatIsInfinite);
                 }
                 Ok(Self::Float64)
diff --git a/idlc_codegen/src/constants.rs b/idlc_codegen/src/constants.rs
new file mode 100644
index 0000000..cea9d28
--- /dev/null
+++ b/idlc_codegen/src/constants.rs
@@ -0,0 +1,35 @@
+// Copyright (c) 2024, Qualcomm Innovation Center, Inc. All rights reserved.
+// SPDX-License-Identifier: BSD-3-Clause
+
+//! Literals of constants in a form every target language reads as the same value
+
+use idlc_mir::{Const, Primitive};
+
+/// Value of an integer constant, unless its literal isn't an integer
+pub fn integer(r#const: &Const) -> Option<i128> {
+    match r#const.r#type {
+        Primitive::Float32 | Primitive::Float64 => None,
+        _ => r#const.decimal().parse().ok(),
+    }
+}
+
+/// Literal without a type suffix.
+///
+/// Integers never start with a redundant zero (that's an octal number in C, C++ and Java), floating
+/// point numbers always have a fraction or an exponent.
+pub fn literal(r#const: &Const) -> String {
+    let value = &r#const.value;
+    let decimal = r#const.decimal();
+    match r#const.r#type {
+        Primitive::Float32 => match decimal.parse::<f32>() {
+            Ok(float) if float.is_finite() => format!("{float:?}"),
+            _ => decimal,
+        },
+        Primitive::Float64 => match decimal.parse::<f64>() {
+            Ok(float) if float.is_finite() => format!("{float:?}"),
+            _ => decimal,
+        },
+        _ if value.contains("0x") => value.clone(),
+        _ => decimal,
+    }
+}
diff --git a/idlc_codegen/src/lib.rs b/idlc_codegen/src/lib.rs
index 9bb04af..0158244 100644
--- a/idlc_codegen/src/lib.rs
+++ b/idlc_codegen/src/lib.rs
@@ -1,6 +1,7 @@
 // Copyright (c) 2024, Qualcomm Innovation Center, Inc. All rights reserved.
 // SPDX-License-Identifier: BSD-3-Clause
 
+pub mod constants;
 pub mod counts;
 pub mod documentation;
 pub mod functions;
diff --git a/idlc_codegen_c/src/globals.rs b/idlc_codegen_c/src/globals.rs
index c73fbe9..56d291a 100644
--- a/idlc_codegen_c/src/globals.rs
+++ b/idlc_codegen_c/src/globals.rs
@@ -3,7 +3,7 @@
 
 use idlc_mir::{Const, StructInner};
 
-use crate::types::{change_const_primitive, change_primitive};
+use crate::types::{change_const, change_primitive};
 
 pub fn emit_include(include: &std::path::Path) -> String {
     let inc_name = include.display().to_string().replace(".idl", "");
@@ -35,8 +35,7 @@ pub fn emit_struct(r#struct: &StructInner) -> String {
 
 pub fn emit_const(r#const: &Const) -> String {
     let ident = r#const.ident.to_string();
-    let ty = change_const_primitive(r#const.r#type);
-    let value = &r#const.value;
+    let value = change_const(r#const);
 
-    format!("#define {ident} {ty}({value})\n\n")
+    format!("#define {ident} {value}\n\n")
 }
diff --git a/idlc_codegen_c/src/interface/mod.rs b/idlc_codegen_c/src/interface/mod.rs
index 2f9e897..d698ab9 100644
--- a/idlc_codegen_c/src/interface/mod.rs
+++ b/idlc_codegen_c/src/interface/mod.rs
@@ -6,7 +6,7 @@ use idlc_mir::{Interface, InterfaceNode};
 pub mod functions;
 pub mod variable_names;
 
-use crate::types::change_const_primitive;
+use crate::types::change_const;
 
 pub fn emit_interface_impl(interface: &Interface, is_no_typed_objects: bool) -> String {
     let ident = interface.ident.to_string();
@@ -21,11 +21,10 @@ pub fn emit_interface_impl(interface: &Interface, is_no_typed_objects: bool) ->
         iface.nodes.iter().for_each(|node| match node {
             InterfaceNode::Const(c) => {
                 constants.push_str(&format!(
-                    "#define {}_{} {}({})\n",
+                    "#define {}_{} {}\n",
                     ident,
                     c.ident,
-                    change_const_primitive(c.r#type),
-                    c.value
+                    change_const(c)
                 ));
             }
             InterfaceNode::Error(e) => {
@@ -59,11 +58,10 @@ pub fn emit_interface_impl(interface: &Interface, is_no_typed_objects: bool) ->
         match node {
             InterfaceNode::Const(c) => {
                 constants.push_str(&format!(
-                    "#define {}_{} {}({})\n",
+                    "#define {}_{} {}\n",
                     ident,
                     c.ident,
-                    change_const_primitive(c.r#type),
-                    c.value
+                    change_const(c)
                 ));
             }
             InterfaceNode::Error(e) => {
diff --git a/idlc_codegen_c/src/types.rs b/idlc_codegen_c/src/types.rs
index 1c7c2de..06b4296 100644
--- a/idlc_codegen_c/src/types.rs
+++ b/idlc_codegen_c/src/types.rs
@@ -1,19 +1,33 @@
 // Copyright (c) 2024, Qualcomm Innovation Center, Inc. All rights reserved.
 // SPDX-License-Identifier: BSD-3-Clause
 
-pub const fn change_const_primitive(primitive: idlc_mir::Primitive) -> &'static str {
-    match primitive {
-        idlc_mir::Primitive::Uint8 => "UINT8_C",
-        idlc_mir::Primitive::Uint16 => "UINT16_C",
-        idlc_mir::Primitive::Uint32 => "UINT32_C",
-        idlc_mir::Primitive::Uint64 => "UINT64_C",
-        idlc_mir::Primitive::Int8 => "INT8_C",
-        idlc_mir::Primitive::Int16 => "INT16_C",
-        idlc_mir::Primitive::Int32 => "INT32_C",
-        idlc_mir::Primitive::Int64 => "INT64_C",
-        idlc_mir::Primitive::Float32 => "FLOAT",
-        idlc_mir::Primitive::Float64 => "DOUBLE",
-    }
+use idlc_codegen::constants;
+use idlc_mir::{Const, Primitive};
+
+/// Expression which evaluates to the constant's value
+pub fn change_const(r#const: &Const) -> String {
+    let literal = constants::literal(r#const);
+    let cast = match r#const.r#type {
+        // The smallest values have no literal in C: they're negated after being typed.
+        Primitive::Int32 if constants::integer(r#const) == Some(i32::MIN.into()) => {
+            return format!("(-INT32_C({}) - 1)", i32::MAX);
+        }
+        Primitive::Int64 if constants::integer(r#const) == Some(i64::MIN.into()) => {
+            return format!("(-INT64_C({}) - 1)", i64::MAX);
+        }
+        Primitive::Float32 => return format!("({literal}f)"),
+        Primitive::Float64 => return format!("({literal})"),
+        Primitive::Uint8 => "UINT8_C",
+        Primitive::Uint16 => "UINT16_C",
+        Primitive::Uint32 => "UINT32_C",
+        Primitive::Uint64 => "UINT64_C",
+        Primitive::Int8 => "INT8_C",
+        Primitive::Int16 => "INT16_C",
+        Primitive::Int32 => "INT32_C",
+        Primitive::Int64 => "INT64_C",
+    };
+
+    format!("{cast}({literal})")
 }
 
 pub const fn change_primitive(primitive: idlc_mir::Primitive) -> &'static str {
diff --git a/idlc_codegen_cpp/src/generator.rs b/idlc_codegen_cpp/src/generator.rs
index 3f1ad2e..737c7a9 100644
--- a/idlc_codegen_cpp/src/generator.rs
+++ b/idlc_codegen_cpp/src/generator.rs
@@ -2,7 +2,7 @@
 // SPDX-License-Identifier: BSD-3-Clause
 
 use idlc_codegen_c::globals::emit_struct;
-use idlc_codegen_c::types::{change_const_primitive, change_primitive};
+use idlc_codegen_c::types::{change_const, change_primitive};
 use idlc_mir::Node;
 
 use crate::interface::{emit_interface_impl, emit_interface_invoke, emit_interface_methods};
@@ -29,12 +29,9 @@ impl idlc_codegen::SplitInvokeGenerator for Generator {
                 Node::Const(c) => {
                     let ident = c.ident.to_string();
                     let cnt_ty = change_primitive(c.r#type);
-                    let ty = change_const_primitive(c.r#type);
-                    let value = &c.value;
+                    let value = change_const(c);
 
-                    result.push_str(&format!(
-                        "static const {cnt_ty} {ident} = {ty}({value});\n\n"
-                    ));
+                    result.push_str(&format!("static const {cnt_ty} {ident} = {value};\n\n"));
                 }
                 Node::Struct(s) => {
                     result.push_str(&emit_struct(s.as_ref()));
diff --git a/idlc_codegen_cpp/src/interface/mod.rs b/idlc_codegen_cpp/src/interface/mod.rs
index 462ea68..384d04a 100644
--- a/idlc_codegen_cpp/src/interface/mod.rs
+++ b/idlc_codegen_cpp/src/interface/mod.rs
@@ -5,7 +5,7 @@ use idlc_mir::{Interface, InterfaceNode};
 
 mod functions;
 
-use idlc_codegen_c::types::{change_const_primitive, change_primitive};
+use idlc_codegen_c::types::{change_const, change_primitive};
 
 pub fn emit_interface_impl(interface: &Interface) -> String {
     let ident = interface.ident.to_string();
@@ -22,11 +22,10 @@ pub fn emit_interface_impl(interface: &Interface) -> String {
             InterfaceNode::Const(c) => {
                 constants.push_str(&format!(
                     r#"
-    static const {} {} = {}({});"#,
+    static constexpr {} {} = {};"#,
                     change_primitive(c.r#type),
                     c.ident,
-                    change_const_primitive(c.r#type),
-                    c.value
+                    change_const(c)
                 ));
             }
             InterfaceNode::Error(e) => {
@@ -50,11 +49,10 @@ pub fn emit_interface_impl(interface: &Interface) -> String {
             InterfaceNode::Const(c) => {
                 constants.push_str(&format!(
                     r#"
-    static const {} {} = {}({});"#,
+    static constexpr {} {} = {};"#,
                     change_primitive(c.r#type),
                     c.ident,
-                    change_const_primitive(c.r#type),
-                    c.value
+                    change_const(c)
                 ));
             }
             InterfaceNode::Error(e) => {
diff --git a/idlc_codegen_java/src/globals.rs b/idlc_codegen_java/src/globals.rs
index f6aec73..07a31e6 100644
--- a/idlc_codegen_java/src/globals.rs
+++ b/idlc_codegen_java/src/globals.rs
@@ -3,7 +3,7 @@
 
 use idlc_mir::{Const, StructInner};
 
-use crate::types::change_primitive;
+use crate::types::{change_const, change_primitive};
 
 pub fn emit_struct(r#struct: &StructInner) -> String {
     let mut contents = String::new();
@@ -45,7 +45,7 @@ pub fn emit_struct(r#struct: &StructInner) -> String {
 pub fn emit_const(r#const: &Const) -> String {
     let ident = r#const.ident.to_string(); // Const ident should be uppercase, but leave it for now for backward compatibility.
     let ty = change_primitive(r#const.r#type);
-    let value = &r#const.value;
+    let value = change_const(r#const);
 
     format!(
         r#"{ty} {ident} = {value};
diff --git a/idlc_codegen_java/src/interface/mod.rs b/idlc_codegen_java/src/interface/mod.rs
index ea30fcd..c3e5681 100644
--- a/idlc_codegen_java/src/interface/mod.rs
+++ b/idlc_codegen_java/src/interface/mod.rs
@@ -1,7 +1,7 @@
 // Copyright (c) 2024, Qualcomm Innovation Center, Inc. All rights reserved.
 // SPDX-License-Identifier: BSD-3-Clause
 
-use crate::types::change_primitive;
+use crate::types::{change_const, change_primitive};
 
 use idlc_mir::{Interface, InterfaceNode};
 
@@ -24,7 +24,7 @@ pub fn emit_interface(interface: &Interface, input_name: &str) -> String {
             InterfaceNode::Const(r#const) => {
                 let const_ident = r#const.ident.to_uppercase();
                 let ty = change_primitive(r#const.r#type);
-                let value = &r#const.value;
+                let value = change_const(r#const);
                 constants.push_str(&format!(
                     r#"{ty} {ident}_{const_ident} = {value};
     "#
diff --git a/idlc_codegen_java/src/types.rs b/idlc_codegen_java/src/types.rs
index a7bcf58..383e2cc 100644
--- a/idlc_codegen_java/src/types.rs
+++ b/idlc_codegen_java/src/types.rs
@@ -15,6 +15,25 @@ pub const fn change_primitive(primitive: idlc_mir::Primitive) -> &'static str {
     }
 }
 
+/// Literal of a constant in its (signed) carrier type, which has the same bits as the declared type
+#[allow(clippy::cast_possible_truncation, clippy::cast_sign_loss)]
+pub fn change_const(r#const: &idlc_mir::Const) -> String {
+    let literal = idlc_codegen::constants::literal(r#const);
+    match (r#const.r#type, idlc_codegen::constants::integer(r#const)) {
+        (idlc_mir::Primitive::Float32, _) => format!("{literal}f"),
+        (idlc_mir::Primitive::Float64, _) => format!("{literal}d"),
+        (idlc_mir::Primitive::Uint8 | idlc_mir::Primitive::Int8, Some(v)) => (v as i8).to_string(),
+        (idlc_mir::Primitive::Uint16 | idlc_mir::Primitive::Int16, Some(v)) => {
+            (v as u16).to_string()
+        }
+        (idlc_mir::Primitive::Uint32 | idlc_mir::Primitive::Int32, Some(v)) => {
+            (v as i32).to_string()
+        }
+        (_, Some(v)) => format!("{}L", v as i64),
+        (_, None) => literal,
+    }
+}
+
 pub fn capitalize_first_letter(s: &str) -> String {
     if s == "byte" {
         return "".to_string();
diff --git a/idlc_codegen_rust/src/globals.rs b/idlc_codegen_rust/src/globals.rs
index 65ee441..01ba448 100644
--- a/idlc_codegen_rust/src/globals.rs
+++ b/idlc_codegen_rust/src/globals.rs
@@ -55,7 +55,7 @@ pub struct {ident} {{
 pub fn emit_const(r#const: &Const) -> String {
     let ident = r#const.ident.to_uppercase();
     let ty = change_primitive(r#const.r#type);
-    let value = &r#const.value;
+    let value = idlc_codegen::constants::literal(r#const);
 
     format!("pub const {ident}: {ty} = {value};\n")
 }
diff --git a/idlc_mir/src/mir.rs b/idlc_mir/src/mir.rs
index cf25f32..d36eabb 100644
--- a/idlc_mir/src/mir.rs
+++ b/idlc_mir/src/mir.rs
@@ -656,6 +656,14 @@ impl From<&idlc_ast::Primitive> for Primitive {
     }
 }
 
+impl Const {
+    /// Decimal spelling of the literal, without leading zeros.
+    #[must_use]
+    pub fn decimal(&self) -> String {
+        idlc_ast::Primitive::decimal(&self.value)
+    }
+}
+
 impl From<&idlc_ast::Const> for Const {
     fn from(const_: &idlc_ast::Const) -> Self {
         Self {
-- 
2.43.0


From e44bc0613d73b814931202b58b0c9b06141fa7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:01 +0000
Subject: [PATCH 12/17] fix: marshal struct arrays, nested fields and
 multi-byte buffers in Java and report refused invocations

---
 idlc_codegen_java/src/generator.rs            |  10 +-
 idlc_codegen_java/src/globals.rs              |  32 +++-
 .../src/interface/functions/implementation.rs | 114 ++++--------
 .../src/interface/functions/invoke.rs         | 170 +++++++-----------
 .../src/interface/functions/serialization.rs  |  72 +++-----
 .../src/interface/functions/signature.rs      |  29 +--
 .../src/interface/mink_primitives.rs          |   4 +-
 idlc_codegen_java/src/interface/mod.rs        |   8 +-
 idlc_codegen_java/src/types.rs                |  61 +++++--
 9 files changed, 208 insertions(+), 292 deletions(-)

diff --git a/idlc_codegen_java/src/generator.rs b/idlc_codegen_java/src/generator.rs
index 15d188a..f56a31b 100644
--- a/idlc_codegen_java/src/generator.rs
+++ b/idlc_codegen_java/src/generator.rs
@@ -3,7 +3,7 @@
 
 use std::collections::HashMap;
 
-use idlc_codegen::Descriptor;
+use idlc_codegen::{order, Descriptor};
 use idlc_mir::Node;
 
 use idlc_codegen::MINKIDL_HEADER_COMMENT;
@@ -29,11 +29,9 @@ package com.qualcomm.qti.mink;
 
         let input_name = &mir.tag.file_stem().unwrap().to_str().unwrap();
         let mut includes = String::new();
-        for node in &mir.nodes {
-            if let Node::Include(i) = node.as_ref() {
-                let inc_name = i.display().to_string().replace(".idl", "");
-                includes.push_str(&format!("{inc_name},"));
-            }
+        for include in order::includes(mir) {
+            let inc_name = include.file_stem().unwrap().to_str().unwrap();
+            includes.push_str(&format!("{inc_name},"));
         }
         if !includes.is_empty() {
             includes.pop();
diff --git a/idlc_codegen_java/src/globals.rs b/idlc_codegen_java/src/globals.rs
index 07a31e6..85cd7f1 100644
--- a/idlc_codegen_java/src/globals.rs
+++ b/idlc_codegen_java/src/globals.rs
@@ -12,24 +12,38 @@ pub fn emit_struct(r#struct: &StructInner) -> String {
     for field in &r#struct.fields {
         let ident = &field.ident;
         let count = field.val.1.get();
-        let ty = match &field.val.0 {
-            &idlc_mir::Type::Primitive(primitive) => change_primitive(primitive).to_string(),
-            idlc_mir::Type::Struct(s) => s.as_ref().ident.to_string(),
+        let (ty, is_struct) = match &field.val.0 {
+            &idlc_mir::Type::Primitive(primitive) => {
+                (change_primitive(primitive).to_string(), false)
+            }
+            idlc_mir::Type::Struct(s) => (s.as_ref().ident.to_string(), true),
             idlc_mir::Type::Interface(_) => {
                 unimplemented!("Java codegen doesn't support objects in struct")
             }
             _ => unreachable!(),
         };
-        contents.push_str(&if count == 1 {
-            format!(
+        contents.push_str(&match (count, is_struct) {
+            (1, false) => format!(
                 r#"public {ty} {ident};
         "#
-            )
-        } else {
-            format!(
+            ),
+            (1, true) => format!(
+                r#"public {ty} {ident} = new {ty}();
+        "#
+            ),
+            (_, false) => format!(
+                r#"public {ty}[] {ident}=new {ty}[{count}];
+        "#
+            ),
+            (_, true) => format!(
                 r#"public {ty}[] {ident}=new {ty}[{count}];
+        {{
+            for (int _i = 0; _i < {count}; _i++) {{
+                this.{ident}[_i] = new {ty}();
+            }}
+        }}
         "#
-            )
+            ),
         });
     }
 
diff --git a/idlc_codegen_java/src/interface/functions/implementation.rs b/idlc_codegen_java/src/interface/functions/implementation.rs
index 58af14d..b6c288c 100644
--- a/idlc_codegen_java/src/interface/functions/implementation.rs
+++ b/idlc_codegen_java/src/interface/functions/implementation.rs
@@ -6,7 +6,7 @@ use idlc_mir::Ident;
 use crate::interface::mink_primitives::{
     BI, BO, BUNDLE_IN, BUNDLE_OUT, BYTE_BUFFER, BYTE_ORDER, OI, OO, OP_ID,
 };
-use crate::types::{capitalize_first_letter, change_primitive, get_struct_pair};
+use crate::types::{capitalize_first_letter, change_primitive, get_struct, put_struct};
 
 use super::serialization::TransportBuffer;
 
@@ -97,9 +97,9 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         };
         self.initializations.push(format!(
             r#"if({name} != null) {{
-                {BYTE_BUFFER} buffer_{name} = {BYTE_BUFFER}.allocate({name}.length*{sz}).order({BYTE_ORDER});
-                buffer_{name}.{to_buffer}put({name});
-                {BI}[{bi_idx}] = buffer_{name}.array();
+                {BYTE_BUFFER} _buffer = {BYTE_BUFFER}.allocate({name}.length*{sz}).order({BYTE_ORDER});
+                _buffer.{to_buffer}put({name});
+                {BI}[{bi_idx}] = _buffer.array();
             }}
             "#
         ));
@@ -118,28 +118,15 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         let bi_idx = self.bi_idx();
         let name = format!("{}_val", ident);
         let sz = ty.size();
-        let mut field_idents = Vec::new();
-        let mut buffer_in = String::new();
-
-        get_struct_pair(ty, &mut field_idents, "".to_string());
-        for (field_ident, field_ty) in field_idents {
-            let mut capitalized_ty = String::new();
-            if let idlc_mir::Type::Primitive(p) = field_ty {
-                capitalized_ty = capitalize_first_letter(change_primitive(p));
-            }
-            buffer_in.push_str(&format!(
-                r#"buffer_{name}.put{capitalized_ty}(i.{field_ident});
-                    "#
-            ));
-        }
+        let fields = put_struct(ty, "_i", "_buffer");
 
         self.initializations.push(format!(
             r#"if({name} != null) {{
-                {BYTE_BUFFER} buffer_{name} = {BYTE_BUFFER}.allocate({name}.length*{sz}).order({BYTE_ORDER});
-                for ({0} i : {name}) {{
-                    {buffer_in}
+                {BYTE_BUFFER} _buffer = {BYTE_BUFFER}.allocate({name}.length*{sz}).order({BYTE_ORDER});
+                for ({0} _i : {name}) {{
+                    {fields}
                 }}
-                {BI}[{bi_idx}] = buffer_{name}.array();
+                {BI}[{bi_idx}] = _buffer.array();
             }}
             "#,
             ty.ident
@@ -156,8 +143,8 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         let name = format!("{}_val", ident);
         self.obj_arr_in = true;
         self.initializations.push(format!(
-            r#" for (int i=0; i<{name}.length; i++) {{
-                {OI}[i] = {name}[i];
+            r#" for (int _i=0; _i<{name}.length; _i++) {{
+                {OI}[_i] = {name}[_i];
             }}
             "#,
         ));
@@ -198,24 +185,13 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         let bi_idx = self.bi_idx();
         let name = format!("{}_val", ident);
         let sz = ty.size();
-        let mut fields = String::new();
-        let mut field_idents = Vec::new();
-        get_struct_pair(ty, &mut field_idents, "".to_string());
-        for (field_ident, field_ty) in field_idents {
-            let mut capitalized_ty = String::new();
-            if let idlc_mir::Type::Primitive(p) = field_ty {
-                capitalized_ty = capitalize_first_letter(change_primitive(p));
-            }
-            fields.push_str(&format!(
-                r#"buffer_{name}.put{capitalized_ty}({name}.{field_ident});
-            "#
-            ));
-        }
+        let buffer = format!("_buffer_{name}");
+        let fields = put_struct(ty, &name, &buffer);
 
         self.initializations.push(format!(
-            r#"{BYTE_BUFFER} buffer_{name} = {BYTE_BUFFER}.allocate({sz}).order({BYTE_ORDER});
+            r#"{BYTE_BUFFER} {buffer} = {BYTE_BUFFER}.allocate({sz}).order({BYTE_ORDER});
             {fields}
-            {BI}[{bi_idx}] = buffer_{name}.array();
+            {BI}[{bi_idx}] = {buffer}.array();
             "#
         ));
     }
@@ -250,9 +226,9 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         ));
         self.post_call.push(format!(
             r#"if({name} != null) {{
-                int {ident}_lenout = Math.min({BO}[{bo_idx}].length/{sz}, {ident}_len);
-                {name}[0] = new {ty}[{ident}_lenout];
-                {BYTE_BUFFER}.wrap({BO}[{bo_idx}]).order({BYTE_ORDER}).{to_buffer}get({name}[0], 0, {ident}_lenout);
+                int _lenout = Math.min({BO}[{bo_idx}].length/{sz}, {ident}_len);
+                {name}[0] = new {ty}[_lenout];
+                {BYTE_BUFFER}.wrap({BO}[{bo_idx}]).order({BYTE_ORDER}).{to_buffer}get({name}[0], 0, _lenout);
             }}
             "#,
         ));
@@ -280,21 +256,8 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         let name = format!("{}_ptr", ident);
         let sz = ty.size();
 
-        let mut field_idents = Vec::new();
-        let mut buffer_in = String::new();
-
-        get_struct_pair(ty, &mut field_idents, "".to_string());
+        let fields = get_struct(ty, &format!("{name}[0][_i]"), "_buffer");
         let ty = ty.ident.to_string();
-        for (field_ident, field_ty) in field_idents {
-            let mut capitalized_ty = String::new();
-            if let idlc_mir::Type::Primitive(p) = field_ty {
-                capitalized_ty = capitalize_first_letter(change_primitive(p));
-            }
-            buffer_in.push_str(&format!(
-                r#"{name}[0][i].{field_ident} = buffer_{name}.get{capitalized_ty}();
-                    "#
-            ));
-        }
 
         self.initializations.push(format!(
             r#"boSizes[{bo_sz_idx}] = {ident}_len*{sz};
@@ -302,11 +265,12 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         ));
         self.post_call.push(format!(
             r#"if({name} != null) {{
-                int {ident}_lenout = Math.min({BO}[{bo_idx}].length/{sz}, {ident}_len);
-                {name}[0] = new {ty}[{ident}_lenout];
-                {BYTE_BUFFER} buffer_{name} = {BYTE_BUFFER}.wrap({BO}[{bo_idx}]).order({BYTE_ORDER});
-                for (int i=0;i<{ident}_len;i++) {{
-                    {buffer_in}
+                int _lenout = Math.min({BO}[{bo_idx}].length/{sz}, {ident}_len);
+                {name}[0] = new {ty}[_lenout];
+                {BYTE_BUFFER} _buffer = {BYTE_BUFFER}.wrap({BO}[{bo_idx}]).order({BYTE_ORDER});
+                for (int _i=0;_i<_lenout;_i++) {{
+                    {name}[0][_i] = new {ty}();
+                    {fields}
                 }}
             }}
             "#,
@@ -323,8 +287,8 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         self.obj_arr_out = true;
         self.post_call.push(format!(
             r#"
-            for (int i=0;i<{cnt};i++) {{
-                {name}[0][i] = {OO}[i];
+            for (int _i=0;_i<{cnt};_i++) {{
+                {name}[0][_i] = {OO}[_i];
             }}
             "#,
         ));
@@ -341,10 +305,8 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
             "#,
         ));
         self.post_call.push(format!(
-            r#"{BYTE_BUFFER} {BUNDLE_OUT};
-            {BUNDLE_OUT} = {BYTE_BUFFER}.wrap({BO}[{bo_idx}]).order({BYTE_ORDER});
-            if({name} != null) {{
-                {name}[0] = {BUNDLE_OUT}.get{ty}();
+            r#"if({name} != null) {{
+                {name}[0] = {BYTE_BUFFER}.wrap({BO}[{bo_idx}]).order({BYTE_ORDER}).get{ty}();
             }}
             "#,
         ));
@@ -376,26 +338,14 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         let bo_sz_idx = self.bo_sz_idx();
         let name = format!("{}_ptr", ident);
         let sz = ty.size();
-        let mut fields = String::new();
-        let mut field_idents = Vec::new();
-        get_struct_pair(ty, &mut field_idents, "".to_string());
-        for (field_ident, field_ty) in field_idents {
-            let mut capitalized_ty = String::new();
-            if let idlc_mir::Type::Primitive(p) = field_ty {
-                capitalized_ty = capitalize_first_letter(change_primitive(p));
-            }
-            fields.push_str(&format!(
-                r#"{name}[0].{field_ident} = {BUNDLE_OUT}.get{capitalized_ty}();
-                "#
-            ));
-        }
+        let fields = get_struct(ty, &format!("{name}[0]"), "_buffer");
         self.initializations.push(format!(
             r#"boSizes[{bo_sz_idx}] = {sz};
             "#,
         ));
         self.post_call.push(format!(
-            r#"{BYTE_BUFFER} {BUNDLE_OUT} = {BYTE_BUFFER}.wrap({BO}[{bo_idx}]).order({BYTE_ORDER});
-            if ({name} != null) {{
+            r#"if ({name} != null) {{
+                {BYTE_BUFFER} _buffer = {BYTE_BUFFER}.wrap({BO}[{bo_idx}]).order({BYTE_ORDER});
                 {fields}
             }}
             "#,
diff --git a/idlc_codegen_java/src/interface/functions/invoke.rs b/idlc_codegen_java/src/interface/functions/invoke.rs
index c8bdd39..108b078 100644
--- a/idlc_codegen_java/src/interface/functions/invoke.rs
+++ b/idlc_codegen_java/src/interface/functions/invoke.rs
@@ -4,7 +4,7 @@
 use crate::interface::mink_primitives::{
     BI, BO, BUNDLE_IN, BUNDLE_OUT, BYTE_BUFFER, BYTE_ORDER, IMINK_OBJECT, OI, OO, OP_ID,
 };
-use crate::types::{capitalize_first_letter, change_primitive, get_struct_pair};
+use crate::types::{capitalize_first_letter, change_primitive, get_struct, put_struct};
 
 use super::serialization::TransportBuffer;
 
@@ -82,6 +82,7 @@ impl Invoke {
 impl idlc_codegen::functions::ParameterVisitor for Invoke {
     fn visit_input_primitive_buffer(&mut self, ident: &idlc_mir::Ident, ty: idlc_mir::Primitive) {
         let bi_idx = self.bi_idx();
+        let sz = ty.size();
         let ty = change_primitive(ty);
         let capitalized_ty = capitalize_first_letter(ty);
         let to_buffer = if !capitalized_ty.is_empty() {
@@ -91,31 +92,25 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         };
 
         self.pre.push(format!(
-            r#"{ty}[] {ident} = {BYTE_BUFFER}.wrap({BI}[{bi_idx}]).order({BYTE_ORDER}).{to_buffer}array();
+            r#"{ty}[] {ident}_val = new {ty}[{BI}[{bi_idx}].length/{sz}];
+                    {BYTE_BUFFER}.wrap({BI}[{bi_idx}]).order({BYTE_ORDER}).{to_buffer}get({ident}_val);
                     "#
         ));
     }
 
     fn visit_input_struct_buffer(&mut self, ident: &idlc_mir::Ident, ty: &idlc_mir::StructInner) {
         let bi_idx = self.bi_idx();
-        let mut fields = String::new();
-        let mut field_idents = Vec::new();
-        get_struct_pair(ty, &mut field_idents, "".to_string());
-        for (field_ident, field_ty) in field_idents {
-            let mut capitalized_ty = String::new();
-            if let idlc_mir::Type::Primitive(p) = field_ty {
-                capitalized_ty = capitalize_first_letter(change_primitive(p));
-            }
-            fields.push_str(&format!(
-                r#"{ident}[0].{field_ident}={BUNDLE_IN}{bi_idx}.get{capitalized_ty}();
-                    "#
-            ));
-        }
+        let sz = ty.size();
+        let buffer = format!("{BUNDLE_IN}{bi_idx}");
+        let fields = get_struct(ty, &format!("{ident}_val[_i]"), &buffer);
         let ty = ty.ident.to_string();
         self.pre.push(format!(
-            r#"{ty}[] {ident} = new {ty}[1];
-                    {BYTE_BUFFER} {BUNDLE_IN}{bi_idx} = {BYTE_BUFFER}.wrap({BI}[{bi_idx}]).order({BYTE_ORDER});
-                    {fields}
+            r#"{ty}[] {ident}_val = new {ty}[{BI}[{bi_idx}].length/{sz}];
+                    {BYTE_BUFFER} {buffer} = {BYTE_BUFFER}.wrap({BI}[{bi_idx}]).order({BYTE_ORDER});
+                    for (int _i=0;_i<{ident}_val.length;_i++) {{
+                        {ident}_val[_i] = new {ty}();
+                        {fields}
+                    }}
                     "#
         ));
     }
@@ -128,8 +123,8 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
     ) {
         self.pre.push(format!(
             r#"IMinkObject[] {ident}_val = new IMinkObject[{OI}.length];
-                    for (int i=0;i<{OI}.length;i++) {{
-                        {ident}_val[i] = {OI}[i];
+                    for (int _i=0;_i<{OI}.length;_i++) {{
+                        {ident}_val[_i] = {OI}[_i];
                     }}
                     "#
         ));
@@ -143,9 +138,9 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
 
         self.pre.push(format!(
             r#"if ({BI}[{bi_idx}].length != {sz}) {{
-                        break;
+                        throw new InvokeException(IMinkObject.ERROR_INVALID);
                     }}
-                    {ty} {ident} = {BYTE_BUFFER}.wrap({BI}[{bi_idx}]).order({BYTE_ORDER}).get{capitalized_ty}();
+                    {ty} {ident}_val = {BYTE_BUFFER}.wrap({BI}[{bi_idx}]).order({BYTE_ORDER}).get{capitalized_ty}();
                     "#
         ));
     }
@@ -161,7 +156,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         let bi_idx = self.bi_idx();
         self.pre.push(format!(
             r#"if ({BI}[{bi_idx}].length != {size}) {{
-                        break;
+                        throw new InvokeException(IMinkObject.ERROR_INVALID);
                     }}
                     {BYTE_BUFFER} {BUNDLE_IN} = {BYTE_BUFFER}.wrap({BI}[{bi_idx}]).order({BYTE_ORDER});
                     {definition}
@@ -172,27 +167,15 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
     fn visit_input_big_struct(&mut self, ident: &idlc_mir::Ident, ty: &idlc_mir::StructInner) {
         let bi_idx = self.bi_idx();
         let sz = ty.size();
-
-        let mut fields = String::new();
-        let mut field_idents = Vec::new();
-        get_struct_pair(ty, &mut field_idents, "".to_string());
-        for (field_ident, field_ty) in field_idents {
-            let mut capitalized_ty = String::new();
-            if let idlc_mir::Type::Primitive(p) = field_ty {
-                capitalized_ty = capitalize_first_letter(change_primitive(p));
-            }
-            fields.push_str(&format!(
-                r#"{ident}.{field_ident}={BUNDLE_IN}{bi_idx}.get{capitalized_ty}();
-                    "#
-            ));
-        }
+        let buffer = format!("{BUNDLE_IN}{bi_idx}");
+        let fields = get_struct(ty, &format!("{ident}_val"), &buffer);
         let ty = ty.ident.to_string();
         self.pre.push(format!(
             r#"if ({BI}[{bi_idx}].length != {sz}) {{
-                        break;
+                        throw new InvokeException(IMinkObject.ERROR_INVALID);
                     }}
-                    {ty} {ident} = new {ty}();
-                    {BYTE_BUFFER} {BUNDLE_IN}{bi_idx} = {BYTE_BUFFER}.wrap({BI}[{bi_idx}]).order({BYTE_ORDER});
+                    {ty} {ident}_val = new {ty}();
+                    {BYTE_BUFFER} {buffer} = {BYTE_BUFFER}.wrap({BI}[{bi_idx}]).order({BYTE_ORDER});
                     {fields}
                     "#
         ));
@@ -206,8 +189,8 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         let ty = IMINK_OBJECT.to_string();
 
         self.pre.push(format!(
-            r#"{ty} {ident};
-                    {ident} = {OI}[{io_idx}];
+            r#"{ty} {ident}_val;
+                    {ident}_val = {OI}[{io_idx}];
                     "#
         ));
     }
@@ -225,14 +208,14 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         };
 
         self.pre.push(format!(
-            r#"{ty}[][] {ident} = new {ty}[1][];
-                    int {ident}_len = boSizes[{bo_sz_idx}];
+            r#"{ty}[][] {ident}_ptr = new {ty}[1][0];
+                    int {ident}_len = boSizes[{bo_sz_idx}]/{sz};
                     "#,
         ));
         self.post.push(format!(
-            r#"{BYTE_BUFFER} buffer_{ident} = {BYTE_BUFFER}.allocate({ident}.length*{sz}).order({BYTE_ORDER});
-                    buffer_{ident}.{to_buffer}put({ident}[0]);
-                    {BO}[{bo_idx}] = buffer_{ident}.array();
+            r#"{BYTE_BUFFER} _buffer{bo_idx} = {BYTE_BUFFER}.allocate({ident}_ptr[0].length*{sz}).order({BYTE_ORDER});
+                    _buffer{bo_idx}.{to_buffer}put({ident}_ptr[0]);
+                    {BO}[{bo_idx}] = _buffer{bo_idx}.array();
                     "#,
         ));
     }
@@ -241,12 +224,12 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         let bo_idx = self.bo_idx();
         let bo_sz_idx = self.bo_sz_idx();
         self.pre.push(format!(
-            r#"byte[][] {ident} = new byte[1][];
+            r#"byte[][] {ident}_ptr = new byte[1][0];
                     int {ident}_len = boSizes[{bo_sz_idx}];
                     "#,
         ));
         self.post.push(format!(
-            r#"{BO}[{bo_idx}]={ident}[0];
+            r#"{BO}[{bo_idx}]={ident}_ptr[0];
                     "#,
         ));
     }
@@ -255,36 +238,21 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         let bo_idx = self.bo_idx();
         let bo_sz_idx = self.bo_sz_idx();
         let sz = ty.size();
-
-        let mut field_idents = Vec::new();
-        let mut buffer_in = String::new();
-
-        get_struct_pair(ty, &mut field_idents, "".to_string());
-        for (field_ident, field_ty) in field_idents {
-            let mut capitalized_ty = String::new();
-            if let idlc_mir::Type::Primitive(p) = field_ty {
-                capitalized_ty = capitalize_first_letter(change_primitive(p));
-            }
-            buffer_in.push_str(&format!(
-                r#"buffer_{ident}.put{capitalized_ty}(i.{field_ident});
-                    "#
-            ));
-        }
-
+        let fields = put_struct(ty, "_i", &format!("_buffer{bo_idx}"));
         let ty = ty.ident.to_string();
 
         self.pre.push(format!(
-            r#"{ty}[][] {ident} = new {ty}[1][];
-                    int {ident}_len = boSizes[{bo_sz_idx}];
+            r#"{ty}[][] {ident}_ptr = new {ty}[1][0];
+                    int {ident}_len = boSizes[{bo_sz_idx}]/{sz};
                     "#,
         ));
 
         self.post.push(format!(
-            r#"{BYTE_BUFFER} buffer_{ident} = {BYTE_BUFFER}.allocate({ident}.length*{sz}).order({BYTE_ORDER});
-                    for ({ty} i : {ident}[0]) {{
-                        {buffer_in}
+            r#"{BYTE_BUFFER} _buffer{bo_idx} = {BYTE_BUFFER}.allocate({ident}_ptr[0].length*{sz}).order({BYTE_ORDER});
+                    for ({ty} _i : {ident}_ptr[0]) {{
+                        {fields}
                     }}
-                    {BO}[{bo_idx}] = buffer_{ident}.array();
+                    {BO}[{bo_idx}] = _buffer{bo_idx}.array();
                     "#,
         ));
     }
@@ -297,13 +265,13 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
     ) {
         let ty = IMINK_OBJECT.to_string();
         self.pre.push(format!(
-            r#"{ty}[][] {ident} = new {ty}[1][{OO}.length];
-                    int {ident}_len = oo.length;
+            r#"{ty}[][] {ident}_ptr = new {ty}[1][{OO}.length];
+                    int {ident}_len = {OO}.length;
                     "#,
         ));
         self.post.push(format!(
-            r#"for (int i=0;i<{cnt};i++) {{
-                        oo[i] = {ident}[0][i];
+            r#"for (int _i=0;_i<{cnt};_i++) {{
+                        {OO}[_i] = {ident}_ptr[0][_i];
                     }}
                     "#
         ));
@@ -313,33 +281,20 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         let bo_idx = self.bo_idx();
         let bo_sz_idx = self.bo_sz_idx();
         let sz = ty.size();
-
-        let mut fields = String::new();
-        let mut field_idents = Vec::new();
-        get_struct_pair(ty, &mut field_idents, "".to_string());
-        for (field_ident, field_ty) in field_idents {
-            let mut capitalized_ty = String::new();
-            if let idlc_mir::Type::Primitive(p) = field_ty {
-                capitalized_ty = capitalize_first_letter(change_primitive(p));
-            }
-            fields.push_str(&format!(
-                r#"buffer_{ident}.put{capitalized_ty}({ident}[0].{field_ident});
-                    "#
-            ));
-        }
+        let fields = put_struct(ty, &format!("{ident}_ptr[0]"), &format!("_buffer{bo_idx}"));
         let ty = ty.ident.to_string();
 
         self.pre.push(format!(
             r#"if (boSizes[{bo_sz_idx}] != {sz}) {{
-                        break;
+                        throw new InvokeException(IMinkObject.ERROR_INVALID);
                     }}
-                    {ty}[] {ident} = new {ty}[1];
+                    {ty}[] {ident}_ptr = new {ty}[] {{ new {ty}() }};
                     "#,
         ));
         self.post.push(format!(
-            r#"{BYTE_BUFFER} buffer_{ident} = {BYTE_BUFFER}.allocate({sz}).order({BYTE_ORDER});
+            r#"{BYTE_BUFFER} _buffer{bo_idx} = {BYTE_BUFFER}.allocate({sz}).order({BYTE_ORDER});
                     {fields}
-                    {BO}[{bo_idx}] = buffer_{ident}.array();
+                    {BO}[{bo_idx}] = _buffer{bo_idx}.array();
                     "#,
         ));
     }
@@ -356,13 +311,13 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
 
         self.pre.push(format!(
             r#"if (boSizes[{bo_sz_idx}] != {sz}) {{
-                        break;
+                        throw new InvokeException(IMinkObject.ERROR_INVALID);
                     }}
-                    {ty}[] {ident} = new {ty}[1];
+                    {ty}[] {ident}_ptr = new {ty}[1];
                     "#,
         ));
         self.post.push(format!(
-            r#"{BO}[{bo_idx}] = {BYTE_BUFFER}.allocate({sz}).order({BYTE_ORDER}).put{capitalized_ty}({ident}[0]).array();
+            r#"{BO}[{bo_idx}] = {BYTE_BUFFER}.allocate({sz}).order({BYTE_ORDER}).put{capitalized_ty}({ident}_ptr[0]).array();
                     "#,
         ));
     }
@@ -382,7 +337,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
 
         self.pre.push(format!(
             r#"if (boSizes[{bo_sz_idx}] != {size}) {{
-                        break;
+                        throw new InvokeException(IMinkObject.ERROR_INVALID);
                     }}
                     {bo_assignments}
                     "#,
@@ -399,11 +354,11 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         let oo_idx = self.oo_idx();
         let ty = IMINK_OBJECT.to_string();
         self.pre.push(format!(
-            r#"{ty}[] {ident} = new {ty}[1];
+            r#"{ty}[] {ident}_ptr = new {ty}[1];
                     "#,
         ));
         self.post.push(format!(
-            r#"{OO}[{oo_idx}] = {ident}[0];
+            r#"{OO}[{oo_idx}] = {ident}_ptr[0];
                     "#
         ));
     }
@@ -413,6 +368,7 @@ pub fn emit(
     function: &idlc_mir::Function,
     current_iface_ident: &str,
     iface_ident: &str,
+    counts: &idlc_codegen::counts::Counter,
     signature: &super::signature::Signature,
 ) -> String {
     let ident = &function.ident;
@@ -421,12 +377,24 @@ pub fn emit(
     let pre = invokes.pre();
     let post = invokes.post();
 
-    let returns = super::signature::iter_to_string(signature.return_idents());
+    let idents = super::signature::iter_to_string(signature.idents());
+    let mismatches = [
+        (BI, counts.input_buffers),
+        ("boSizes", counts.output_buffers),
+        (BO, counts.output_buffers),
+        (OI, counts.input_objects),
+        (OO, counts.output_objects),
+    ]
+    .map(|(args, count)| format!("({args} == null ? 0 : {args}.length) != {count}"))
+    .join(" || ");
 
     format!(
         r#"case {iface_ident}_{OP_ID}_{ident}: {{
+                    if ({mismatches}) {{
+                        throw new InvokeException(IMinkObject.ERROR_INVALID);
+                    }}
                     {pre}
-                    (({current_iface_ident})mObj).{ident}({returns});
+                    (({current_iface_ident})mObj).{ident}({idents});
                     {post}
                     return;
                 }}
diff --git a/idlc_codegen_java/src/interface/functions/serialization.rs b/idlc_codegen_java/src/interface/functions/serialization.rs
index 17854ab..59f6fac 100644
--- a/idlc_codegen_java/src/interface/functions/serialization.rs
+++ b/idlc_codegen_java/src/interface/functions/serialization.rs
@@ -5,7 +5,7 @@ use idlc_codegen::serialization::Type;
 
 use crate::interface::mink_primitives::{BUNDLE_IN, BUNDLE_OUT};
 
-use crate::types::{capitalize_first_letter, change_primitive, get_struct_pair};
+use crate::types::{capitalize_first_letter, change_primitive, get_struct, put_struct};
 
 #[derive(Debug, Clone)]
 pub struct TransportBuffer {
@@ -37,14 +37,14 @@ impl<'a> PackedPrimitives<'a> {
             &Type::Primitive(p) => {
                 let ty = change_primitive(p);
                 assignments += &format!(
-                    r#"{ty}[] {ident} = new {ty}[1];
+                    r#"{ty}[] {ident}_ptr = new {ty}[1];
                     "#
                 );
             }
             Type::SmallStruct(s) => {
                 let ty = s.ident.to_string();
                 assignments += &format!(
-                    r#"{ty}[] {ident} = new {ty}[1];
+                    r#"{ty}[] {ident}_ptr = new {ty}[] {{ new {ty}() }};
                     "#
                 );
             }
@@ -81,12 +81,12 @@ impl<'a> PackedPrimitives<'a> {
                     if is_invoke {
                         if in_out == BUNDLE_IN {
                             fields.push_str(&format!(
-                                r#"{ty} {ident}={in_out}.get{capitalized_ty}();
+                                r#"{ty} {ident}_val={in_out}.get{capitalized_ty}();
                     "#
                             ));
                         } else {
                             fields.push_str(&format!(
-                                r#"{in_out}.put{capitalized_ty}({ident}[0]);
+                                r#"{in_out}.put{capitalized_ty}({ident}_ptr[0]);
                     "#
                             ));
                         }
@@ -97,54 +97,36 @@ impl<'a> PackedPrimitives<'a> {
                         ));
                     } else {
                         fields.push_str(&format!(
-                            r#"if ({ident}_ptr != null) {{
+                            r#"if ({ident}_ptr == null) {{
+                    {in_out}.position({in_out}.position() + {});
+                }} else {{
                     {ident}_ptr[0] = {in_out}.get{capitalized_ty}();
                 }}
-                "#
+                "#,
+                            p.size()
                         ));
                     }
                 }
                 Type::SmallStruct(s) => {
-                    let mut field_idents = Vec::new();
                     let ty = s.ident.to_string();
-                    if is_invoke && in_out == BUNDLE_IN {
-                        fields.push_str(&format!(
-                            r#"{ty} {ident} = new {ty}();
-                    "#,
-                        ));
-                    }
-                    get_struct_pair(s, &mut field_idents, "".to_string());
-                    for (field_ident, field_ty) in field_idents {
-                        let mut capitalized_ty = String::new();
-                        if let idlc_mir::Type::Primitive(p) = field_ty {
-                            capitalized_ty = capitalize_first_letter(change_primitive(p));
-                        }
-                        if is_invoke {
-                            if in_out == BUNDLE_IN {
-                                fields.push_str(&format!(
-                                    r#"{ident}.{field_ident}={BUNDLE_IN}.get{capitalized_ty}();
-                    "#,
-                                ));
-                            } else {
-                                fields.push_str(&format!(
-                                    r#"{BUNDLE_OUT}.put{capitalized_ty}({ident}[0].{field_ident});
-                    "#,
-                                ));
-                            }
-                        } else if in_out == BUNDLE_IN {
-                            fields.push_str(&format!(
-                                r#"{in_out}.put{capitalized_ty}({ident}_val.{field_ident});
-            "#,
-                            ));
-                        } else {
-                            fields.push_str(&format!(
-                                r#"if ({ident}_ptr != null) {{
-                    {ident}_ptr[0].{field_ident} = {in_out}.get{capitalized_ty}();
-                }}
+                    fields.push_str(&match (is_invoke, in_out == BUNDLE_IN) {
+                        (true, true) => format!(
+                            r#"{ty} {ident}_val = new {ty}();
+                    {}"#,
+                            get_struct(s, &format!("{ident}_val"), in_out)
+                        ),
+                        (true, false) => put_struct(s, &format!("{ident}_ptr[0]"), in_out),
+                        (false, true) => put_struct(s, &format!("{ident}_val"), in_out),
+                        (false, false) => format!(
+                            r#"if ({ident}_ptr == null) {{
+                    {in_out}.position({in_out}.position() + {});
+                }} else {{
+                    {}}}
                 "#,
-                            ));
-                        }
-                    }
+                            s.size(),
+                            get_struct(s, &format!("{ident}_ptr[0]"), in_out)
+                        ),
+                    });
                 }
             };
         }
diff --git a/idlc_codegen_java/src/interface/functions/signature.rs b/idlc_codegen_java/src/interface/functions/signature.rs
index 9b2246a..b1b7d1a 100644
--- a/idlc_codegen_java/src/interface/functions/signature.rs
+++ b/idlc_codegen_java/src/interface/functions/signature.rs
@@ -8,7 +8,6 @@ use crate::types::change_primitive;
 #[derive(Debug, Clone, Default)]
 pub struct Signature {
     inputs: Vec<(String, String)>,
-    returns: Vec<(String, String)>,
 }
 
 pub fn iter_to_string(iter: impl Iterator<Item = impl AsRef<str>>) -> String {
@@ -41,8 +40,8 @@ impl Signature {
     }
 
     #[inline]
-    pub fn return_idents(&self) -> impl Iterator<Item = &str> {
-        self.returns.iter().map(|(ident, _)| ident.as_str())
+    pub fn idents(&self) -> impl Iterator<Item = &str> {
+        self.inputs.iter().map(|(ident, _)| ident.as_str())
     }
 }
 
@@ -50,13 +49,11 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
     fn visit_input_primitive_buffer(&mut self, ident: &Ident, ty: Primitive) {
         let ty = format!("{}[]", change_primitive(ty));
         self.inputs.push((format!("{}_val", ident), ty.to_string()));
-        self.returns.push((ident.to_string(), ty));
     }
 
     fn visit_input_struct_buffer(&mut self, ident: &Ident, ty: &StructInner) {
         let new_ty = format!("{}[]", ty.ident);
         self.inputs.push((format!("{}_val", ident), new_ty));
-        self.returns.push((ident.to_string(), ty.ident.to_string()));
     }
 
     fn visit_input_object_array(
@@ -69,26 +66,20 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
         let ty = format!("{IMINK_OBJECT}[]");
 
         self.inputs.push((format!("{}_val", ident), ty.to_string()));
-        self.returns
-            .push((format!("{}_val", ident), ty.to_string()));
     }
 
     fn visit_input_primitive(&mut self, ident: &Ident, ty: Primitive) {
         self.inputs
             .push((format!("{}_val", ident), change_primitive(ty).to_string()));
-        self.returns
-            .push((ident.to_string(), change_primitive(ty).to_string()));
     }
 
     fn visit_input_big_struct(&mut self, ident: &Ident, ty: &StructInner) {
         self.inputs
             .push((format!("{}_val", ident), ty.ident.to_string()));
-        self.returns.push((ident.to_string(), ty.ident.to_string()));
     }
     fn visit_input_small_struct(&mut self, ident: &Ident, ty: &StructInner) {
         self.inputs
             .push((format!("{}_val", ident), ty.ident.to_string()));
-        self.returns.push((ident.to_string(), ty.ident.to_string()));
     }
 
     fn visit_input_object(&mut self, ident: &Ident, _: Option<&str>) {
@@ -96,8 +87,6 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
 
         self.inputs
             .push((format!("{}_val", ident), IMINK_OBJECT.to_string()));
-        self.returns
-            .push((ident.to_string(), IMINK_OBJECT.to_string()));
     }
 
     fn visit_output_primitive_buffer(&mut self, ident: &Ident, ty: Primitive) {
@@ -105,8 +94,6 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
         self.inputs.push((format!("{}_ptr", ident), ty.to_string()));
         self.inputs
             .push((format!("{}_len", ident), "int".to_string()));
-        self.returns.push((ident.to_string(), ty.to_string()));
-        self.returns.push((format!("{}_len", ident), ty));
     }
 
     fn visit_output_struct_buffer(&mut self, ident: &Ident, ty: &StructInner) {
@@ -114,9 +101,6 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
         self.inputs.push((format!("{}_ptr", ident), new_ty));
         self.inputs
             .push((format!("{}_len", ident), "int".to_string()));
-        self.returns.push((ident.to_string(), ty.ident.to_string()));
-        self.returns
-            .push((format!("{}_len", ident), ty.ident.to_string()));
     }
 
     fn visit_output_object_array(&mut self, ident: &Ident, _: Option<&str>, _cnt: idlc_mir::Count) {
@@ -126,27 +110,20 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
         self.inputs.push((format!("{}_ptr", ident), ty));
         self.inputs
             .push((format!("{}_len", ident), "int".to_string()));
-        self.returns
-            .push((ident.to_string(), IMINK_OBJECT.to_string()));
-        self.returns
-            .push((format!("{}_len", ident), "int".to_string()));
     }
 
     fn visit_output_primitive(&mut self, ident: &Ident, ty: Primitive) {
         let ty = format!("{}[]", change_primitive(ty));
         self.inputs.push((format!("{}_ptr", ident), ty.to_string()));
-        self.returns.push((ident.to_string(), ty));
     }
 
     fn visit_output_big_struct(&mut self, ident: &Ident, ty: &StructInner) {
         let new_ty = format!("{}[]", ty.ident);
         self.inputs.push((format!("{}_ptr", ident), new_ty));
-        self.returns.push((ident.to_string(), ty.ident.to_string()));
     }
     fn visit_output_small_struct(&mut self, ident: &Ident, ty: &StructInner) {
         let new_ty = format!("{}[]", ty.ident);
         self.inputs.push((format!("{}_ptr", ident), new_ty));
-        self.returns.push((ident.to_string(), ty.ident.to_string()));
     }
 
     fn visit_output_object(&mut self, ident: &Ident, _: Option<&str>) {
@@ -154,7 +131,5 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
 
         let ty = format!("{IMINK_OBJECT}[]");
         self.inputs.push((format!("{}_ptr", ident), ty));
-        self.returns
-            .push((ident.to_string(), IMINK_OBJECT.to_string()));
     }
 }
diff --git a/idlc_codegen_java/src/interface/mink_primitives.rs b/idlc_codegen_java/src/interface/mink_primitives.rs
index 25e9039..a6daf1e 100644
--- a/idlc_codegen_java/src/interface/mink_primitives.rs
+++ b/idlc_codegen_java/src/interface/mink_primitives.rs
@@ -16,5 +16,5 @@ pub(super) const BO: &str = "bo";
 pub(super) const OI: &str = "oi";
 pub(super) const OO: &str = "oo";
 
-pub(super) const BUNDLE_IN: &str = "bundleIn";
-pub(super) const BUNDLE_OUT: &str = "bundleOut";
+pub(super) const BUNDLE_IN: &str = "_bundleIn";
+pub(super) const BUNDLE_OUT: &str = "_bundleOut";
diff --git a/idlc_codegen_java/src/interface/mod.rs b/idlc_codegen_java/src/interface/mod.rs
index c3e5681..9d89be9 100644
--- a/idlc_codegen_java/src/interface/mod.rs
+++ b/idlc_codegen_java/src/interface/mod.rs
@@ -59,7 +59,13 @@ pub fn emit_interface(interface: &Interface, input_name: &str) -> String {
                     &counts,
                     &signature,
                 ));
-                invokes.push_str(&functions::invoke::emit(f, ident, &iface.ident, &signature));
+                invokes.push_str(&functions::invoke::emit(
+                    f,
+                    ident,
+                    &iface.ident,
+                    &counts,
+                    &signature,
+                ));
                 traits.push_str(&functions::traits::emit(f, &documentation, &signature));
             }
         });
diff --git a/idlc_codegen_java/src/types.rs b/idlc_codegen_java/src/types.rs
index 383e2cc..2dbdf8e 100644
--- a/idlc_codegen_java/src/types.rs
+++ b/idlc_codegen_java/src/types.rs
@@ -41,27 +41,50 @@ pub fn capitalize_first_letter(s: &str) -> String {
     s.to_case(convert_case::Case::UpperCamel)
 }
 
-pub fn get_struct_pair(
+/// Statements which transfer every primitive held by `value` in layout order
+///
+/// * `transfer` - Renders the transfer of a single primitive
+fn visit_primitives(
     r#struct: &idlc_mir::StructInner,
-    result: &mut Vec<(String, idlc_mir::Type)>,
-    mut parent: String,
-) {
-    if !parent.is_empty() {
-        parent.push('.');
-    }
+    value: &str,
+    depth: usize,
+    transfer: &impl Fn(&str, idlc_mir::Primitive) -> String,
+) -> String {
+    let mut result = String::new();
     for field in &r#struct.fields {
-        match &field.val.0 {
-            idlc_mir::Type::Primitive(_) => {
-                result.push((format!("{parent}{}", field.ident), field.val.0.clone()))
-            }
-            idlc_mir::Type::Struct(idlc_mir::Struct::Big(s) | idlc_mir::Struct::Small(s)) => {
-                let new_parent = format!("{parent}{}", field.ident);
-                get_struct_pair(s, result, new_parent);
-            }
-            idlc_mir::Type::Interface(_) => {
-                result.push((format!("{parent}{}", field.ident), field.val.0.clone()))
-            }
-            _ => unreachable!(),
+        let count = field.val.1.get();
+        let mut name = format!("{value}.{}", field.ident);
+        if count != 1 {
+            name.push_str(&format!("[_i{depth}]"));
         }
+        let statements = match &field.val.0 {
+            &idlc_mir::Type::Primitive(p) => format!("{}\n", transfer(&name, p)),
+            idlc_mir::Type::Struct(s) => visit_primitives(s.as_ref(), &name, depth + 1, transfer),
+            _ => unimplemented!("Java codegen doesn't support objects in struct"),
+        };
+        result.push_str(&if count == 1 {
+            statements
+        } else {
+            format!(
+                "for (int _i{depth} = 0; _i{depth} < {count}; _i{depth}++) {{\n{statements}}}\n"
+            )
+        });
     }
+    result
+}
+
+/// Writes the struct `value` to the `ByteBuffer` named `buffer`
+pub fn put_struct(r#struct: &idlc_mir::StructInner, value: &str, buffer: &str) -> String {
+    visit_primitives(r#struct, value, 0, &|name, primitive| {
+        let ty = capitalize_first_letter(change_primitive(primitive));
+        format!("{buffer}.put{ty}({name});")
+    })
+}
+
+/// Reads the struct `value` from the `ByteBuffer` named `buffer`
+pub fn get_struct(r#struct: &idlc_mir::StructInner, value: &str, buffer: &str) -> String {
+    visit_primitives(r#struct, value, 0, &|name, primitive| {
+        let ty = capitalize_first_letter(change_primitive(primitive));
+        format!("{name} = {buffer}.get{ty}();")
+    })
 }
-- 
2.43.0


From 701e3450cd61bad929c3707e862da227e660ec0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:34 +0000
Subject: [PATCH 13/17] fix: keep documentation valid inside the comments of
 every backend

---
 idlc_codegen/src/documentation.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/idlc_codegen/src/documentation.rs b/idlc_codegen/src/documentation.rs
index f0c6349..22391e8 100644
--- a/idlc_codegen/src/documentation.rs
+++ b/idlc_codegen/src/documentation.rs
@@ -30,6 +30,15 @@ impl DocumentationStyle {
             Self::C | Self::Java => "*",
         }
     }
+
+    /// Replaces what has a meaning inside of a comment of the language
+    fn escape(self, line: &str) -> String {
+        match self {
+            Self::Rust => line.to_string(),
+            Self::C => line.replace("/*", "/ *"),
+            Self::Java => line.replace("\\u", "&#92;u"),
+        }
+    }
 }
 
 #[derive(Debug, Clone, PartialEq, Eq)]
@@ -65,11 +74,13 @@ impl Documentation {
     fn new_with_idlc_doc(doc: &str, style: DocumentationStyle) -> Self {
         let mut documentation = style.start().to_string();
         documentation.push('\n');
+        // Every kind of line break the grammar knows ends a line.
+        let doc = doc.replace("\r\n", "\n").replace('\r', "\n");
         let last_line = doc.lines().last().unwrap();
         let indent = last_line.find('*').unwrap();
 
         for line in doc.lines().skip_while(|x| x.is_empty()) {
-            let docstring = line.get(indent..).unwrap_or_default().trim_end();
+            let docstring = style.escape(line.get(indent..).unwrap_or_default().trim_end());
 
             documentation += style.prefix();
             match docstring.chars().next() {
@@ -86,7 +97,7 @@ impl Documentation {
                     // with a space to maintain alignment.  `* ` accounts for 2
                     // spaces
                     documentation.push(' ');
-                    documentation.push_str(docstring);
+                    documentation.push_str(&docstring);
                 }
                 None => {}
             }
-- 
2.43.0


From 369d18c84576f669e23243bfa9b694fcc43852f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:13 +0000
Subject: [PATCH 14/17] fix: fail when the parse tree of malformed text is
 dumped

---
 idlc_ast/src/pst.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/idlc_ast/src/pst.rs b/idlc_ast/src/pst.rs
index 5455d99..cec9e26 100644
--- a/idlc_ast/src/pst.rs
+++ b/idlc_ast/src/pst.rs
@@ -399,7 +399,7 @@ pub fn dump<P: AsRef<std::path::Path>>(path: P) {
     let duration = now.elapsed();
     match pst {
         Ok(pst) => println!("{pst:#?}"),
-        Err(e) => eprintln!("Parsing failed:\n{e}\n"),
+        Err(e) => idlc_errors::unrecoverable!("Parsing failed:\n{e}\n"),
     }
     eprintln!("'dump_pst' completed in {duration:?}");
 }
-- 
2.43.0


From 6a843459142807a5d8a30b82316153d05d025363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:13 +0000
Subject: [PATCH 15/17] fix: keep the marking inside its comment

---
 idlc_codegen/src/marking.rs | 253 +++++++++++++++++++-----------------
 1 file changed, 132 insertions(+), 121 deletions(-)

diff --git a/idlc_codegen/src/marking.rs b/idlc_codegen/src/marking.rs
index 5a0a5ee..ccc9593 100644
--- a/idlc_codegen/src/marking.rs
+++ b/idlc_codegen/src/marking.rs
@@ -1,121 +1,132 @@
-// Copyright (c) 2024, Qualcomm Innovation Center, Inc. All rights reserved.
-// SPDX-License-Identifier: BSD-3-Clause
-
-#[derive(Debug, Clone, Copy, PartialEq, Eq)]
-pub enum MarkingStyle {
-    Rust,
-    C,
-    Java,
-}
-
-impl MarkingStyle {
-    const fn start(self) -> &'static str {
-        match self {
-            Self::Rust | Self::C => "",
-            Self::Java => "/*\n",
-        }
-    }
-
-    const fn end(self) -> &'static str {
-        match self {
-            Self::Rust | Self::C => "",
-            Self::Java => "*/\n",
-        }
-    }
-
-    const fn prefix(self) -> &'static str {
-        match self {
-            Self::Rust | Self::C => "//",
-            Self::Java => "*",
-        }
-    }
-}
-
-#[derive(Debug, Clone, PartialEq, Eq)]
-pub struct Marking(String);
-impl std::fmt::Display for Marking {
-    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
-        std::fmt::Display::fmt(&self.0, f)
-    }
-}
-
-impl std::ops::Deref for Marking {
-    type Target = str;
-
-    fn deref(&self) -> &Self::Target {
-        self.0.as_str()
-    }
-}
-impl AsRef<str> for Marking {
-    fn as_ref(&self) -> &str {
-        self.0.as_str()
-    }
-}
-
-impl Marking {
-    pub fn new(marking: &str, style: MarkingStyle) -> Self {
-        if marking.is_empty() {
-            return Self(String::new());
-        }
-        let mut documentation = style.start().to_string();
-        for line in marking.lines() {
-            documentation += style.prefix();
-            documentation.push(' ');
-            documentation.push_str(line);
-            documentation.push('\n');
-        }
-        documentation.push_str(style.end());
-        documentation.push('\n');
-        Self(documentation)
-    }
-}
-
-#[cfg(test)]
-mod tests {
-    use super::*;
-    const MARKING: &str = "Copyright (c) Qualcomm Technologies, Inc. and/or its subsidiaries.
-All rights reserved.
-Confidential and Proprietary - Qualcomm Technologies, Inc.
-";
-
-    #[test]
-    fn rust() {
-        let marking = Marking::new(MARKING, MarkingStyle::Rust);
-        assert_eq!(
-            marking.as_ref(),
-            r"// Copyright (c) Qualcomm Technologies, Inc. and/or its subsidiaries.
-// All rights reserved.
-// Confidential and Proprietary - Qualcomm Technologies, Inc.
-
-"
-        );
-    }
-
-    #[test]
-    fn c() {
-        let marking = Marking::new(MARKING, MarkingStyle::C);
-        assert_eq!(
-            marking.as_ref(),
-            r"// Copyright (c) Qualcomm Technologies, Inc. and/or its subsidiaries.
-// All rights reserved.
-// Confidential and Proprietary - Qualcomm Technologies, Inc.
-
-"
-        );
-    }
-
-    #[test]
-    fn java() {
-        let marking = Marking::new(MARKING, MarkingStyle::Java);
-        assert_eq!(
-            marking.as_ref(),
-            r"/*
-* Copyright (c) Qualcomm Technologies, Inc. and/or its subsidiaries.
-* All rights reserved.
-* Confidential and Proprietary - Qualcomm Technologies, Inc.
-*/
-
-"
-        );
-    }
-}
+// Copyright (c) 2024, Qualcomm Innovation Center, Inc. All rights reserved.
+// SPDX-License-Identifier: BSD-3-Clause
+
+#[derive(Debug, Clone, Copy, PartialEq, Eq)]
+pub enum MarkingStyle {
+    Rust,
+    C,
+    Java,
+}
+
+impl MarkingStyle {
+    const fn start(self) -> &'static str {
+        match self {
+            Self::Rust | Self::C => "",
+            Self::Java => "/*\n",
+        }
+    }
+
+    const fn end(self) -> &'static str {
+        match self {
+            Self::Rust | Self::C => "",
+            Self::Java => "*/\n",
+        }
+    }
+
+    const fn prefix(self) -> &'static str {
+        match self {
+            Self::Rust | Self::C => "//",
+            Self::Java => "*",
+        }
+    }
+
+    /// Replaces what would end or continue the comment
+    fn escape(self, line: &str) -> String {
+        match self {
+            Self::Rust => line.to_string(),
+            Self::C if line.trim_end().ends_with('\\') => format!("{line}."),
+            Self::C => line.to_string(),
+            Self::Java => line.replace("*/", "*&#47;").replace("\\u", "&#92;u"),
+        }
+    }
+}
+
+#[derive(Debug, Clone, PartialEq, Eq)]
+pub struct Marking(String);
+impl std::fmt::Display for Marking {
+    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
+        std::fmt::Display::fmt(&self.0, f)
+    }
+}
+
+impl std::ops::Deref for Marking {
+    type Target = str;
+
+    fn deref(&self) -> &Self::Target {
+        self.0.as_str()
+    }
+}
+impl AsRef<str> for Marking {
+    fn as_ref(&self) -> &str {
+        self.0.as_str()
+    }
+}
+
+impl Marking {
+    pub fn new(marking: &str, style: MarkingStyle) -> Self {
+        if marking.is_empty() {
+            return Self(String::new());
+        }
+        let mut documentation = style.start().to_string();
+        let marking = marking.replace("\r\n", "\n").replace('\r', "\n");
+        for line in marking.lines() {
+            documentation += style.prefix();
+            documentation.push(' ');
+            documentation.push_str(&style.escape(line));
+            documentation.push('\n');
+        }
+        documentation.push_str(style.end());
+        documentation.push('\n');
+        Self(documentation)
+    }
+}
+
+#[cfg(test)]
+mod tests {
+    use super::*;
+    const MARKING: &str = "Copyright (c) Qualcomm Technologies, Inc. and/or its subsidiaries.
+All rights reserved.
+Confidential and Proprietary - Qualcomm Technologies, Inc.
+";
+
+    #[test]
+    fn rust() {
+        let marking = Marking::new(MARKING, MarkingStyle::Rust);
+        assert_eq!(
+            marking.as_ref(),
+            r"// Copyright (c) Qualcomm Technologies, Inc. and/or its subsidiaries.
+// All rights reserved.
+// Confidential and Proprietary - Qualcomm Technologies, Inc.
+
+"
+        );
+    }
+
+    #[test]
+    fn c() {
+        let marking = Marking::new(MARKING, MarkingStyle::C);
+        assert_eq!(
+            marking.as_ref(),
+            r"// Copyright (c) Qualcomm Technologies, Inc. and/or its subsidiaries.
+// All rights reserved.
+// Confidential and Proprietary - Qualcomm Technologies, Inc.
+
+"
+        );
+    }
+
+    #[test]
+    fn java() {
+        let marking = Marking::new(MARKING, MarkingStyle::Java);
+        assert_eq!(
+            marking.as_ref(),
+            r"/*
+* Copyright (c) Qualcomm Technologies, Inc. and/or its subsidiaries.
+* All rights reserved.
+* Confidential and Proprietary - Qualcomm Technologies, Inc.
+*/
+
+"
+        );
+    }
+}
-- 
2.43.0


From 91eb2413d0177dbdfcfb621d24e57a8322dde59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:47 +0000
Subject: [PATCH 16/17] fix: keep input object arrays const in untyped C
 signatures

---
 idlc_codegen_c/src/interface/functions/signature.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/idlc_codegen_c/src/interface/functions/signature.rs b/idlc_codegen_c/src/interface/functions/signature.rs
index 8ba02af..122b632 100644
--- a/idlc_codegen_c/src/interface/functions/signature.rs
+++ b/idlc_codegen_c/src/interface/functions/signature.rs
@@ -139,11 +139,11 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
     fn visit_input_object_array(&mut self, ident: &Ident, ty: Option<&str>, cnt: idlc_mir::Count) {
         let name = format!("(*{}_ptr)[{cnt}]", ident);
         let ty = if self.is_no_typed_objects {
-            "Object".to_string()
+            "Object"
         } else {
-            format!("{CONST} {}", ty.unwrap_or("Object"))
+            ty.unwrap_or("Object")
         };
-        self.inputs.push((name, ty));
+        self.inputs.push((name, format!("{CONST} {ty}")));
         self.input_obj_arg.push(format!("{}_len", ident));
         self.outputs
             .push((format!("&{}", ident), "size_t".to_string()));
-- 
2.43.0


From ef52124b8757622dfa660ffa5c9e88487b091c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:49 +0000
Subject: [PATCH 17/17] fix: refuse interfaces whose Rust modules would
 overwrite each other

---
 idlc_codegen_rust/src/generator.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/idlc_codegen_rust/src/generator.rs b/idlc_codegen_rust/src/generator.rs
index b65a0f7..c70f0ef 100644
--- a/idlc_codegen_rust/src/generator.rs
+++ b/idlc_codegen_rust/src/generator.rs
@@ -1,7 +1,7 @@
 // Copyright (c) 2024, Qualcomm Innovation Center, Inc. All rights reserved.
 // SPDX-License-Identifier: BSD-3-Clause
 
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 
 use idlc_codegen::Descriptor;
 use idlc_mir::Node;
@@ -29,6 +29,7 @@ impl idlc_codegen::Generator for Generator {
         let mut interfaces = HashMap::new();
         let prologue = &format!("// {MINKIDL_HEADER_COMMENT}\n");
         interfaces.insert(base.clone(), prologue.to_owned());
+        let mut interface_files = HashSet::new();
 
         for node in &mir.nodes {
             match node.as_ref() {
@@ -52,6 +53,12 @@ impl idlc_codegen::Generator for Generator {
                     interface_content.push('\n');
                     interface_content.push_str(&emit(i));
                     let name = format!("{}.rs", i.ident.to_lowercase());
+                    if !interface_files.insert(name.clone()) {
+                        idlc_errors::unrecoverable!(
+                            "Interface `{}` and another interface that differs only by case would both be written to `{name}`",
+                            i.ident
+                        );
+                    }
                     if name == base.to_str().unwrap() {
                         interfaces
                             .get_mut(&base)
-- 
2.43.0

