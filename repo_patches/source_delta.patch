From 072f146c103e4925eedc489d9c029f1435377d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:09 +0000
Subject: [PATCH 01/24] fix: indxr: forget the files below a directory that was
 removed or renamed

---
 indxr/src/lib.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/indxr/src/lib.rs b/indxr/src/lib.rs
index a4b61fa..ab24801 100644
--- a/indxr/src/lib.rs
+++ b/indxr/src/lib.rs
@@ -126,10 +126,8 @@ impl<V> FileIndexImpl<V> {
                     }
                 };
             }
-            (false, false) => {
-                self.data.lock().unwrap().remove(path);
-            }
-            (true, false) => {
+            (_, false) => {
+                // `path` is gone, we can't tell if it was a file or a directory.
                 self.data.lock().unwrap().retain(|k, _| {
                     !k.starts_with(path)
                 });
-- 
2.43.0


From 76da731d7e8ee4783bdf2142a23ffee51d3532b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:09 +0000
Subject: [PATCH 02/24] fix: indxr: looking at a path again forgets everything
 which is no longer below it

---
 indxr/src/lib.rs | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/indxr/src/lib.rs b/indxr/src/lib.rs
index ab24801..f734d01 100644
--- a/indxr/src/lib.rs
+++ b/indxr/src/lib.rs
@@ -111,20 +111,18 @@ impl<V> FileIndexImpl<V> {
         let added = path.exists();
         match (path.is_dir(), added) {
             (false, true) => {
-                if !(self.file_set.filter)(path) {
-                    return
-                }
-                let value = (self.mapper)(path);
-                let mut data = self.data.lock().unwrap();
-                match value {
-                    None => {
-                        data.remove(path);
-                    },
-                    Some(value) => {
-                        let file = IndexedFile { path: path.to_owned(), value};
-                        data.insert(path.to_owned(), file);
-                    }
+                let value = if (self.file_set.filter)(path) {
+                    (self.mapper)(path)
+                } else {
+                    None
                 };
+                let mut data = self.data.lock().unwrap();
+                // There might have been a directory before.
+                data.retain(|k, _| !k.starts_with(path));
+                if let Some(value) = value {
+                    let file = IndexedFile { path: path.to_owned(), value};
+                    data.insert(path.to_owned(), file);
+                }
             }
             (_, false) => {
                 // `path` is gone, we can't tell if it was a file or a directory.
@@ -147,7 +145,9 @@ impl<V> FileIndexImpl<V> {
                     }
                 }
 
-                self.data.lock().unwrap().extend(local);
+                let mut data = self.data.lock().unwrap();
+                data.retain(|k, _| !k.starts_with(path));
+                data.extend(local);
             }
         };
     }
-- 
2.43.0


From 0972953511ef8c1b8c463c0902f6820c405291f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:40 +0000
Subject: [PATCH 03/24] fix: indxr: do not lose changes

Changes made during the initial walk, or coalesced away by notify's debouncing, or made in a directory
which was not being watched yet after an overflow or a failed registration were never picked up; a root
which can't be watched killed the watcher thread.
---
 indxr/src/lib.rs | 83 +++++++++++++++++++++++++++++-------------------
 1 file changed, 50 insertions(+), 33 deletions(-)

diff --git a/indxr/src/lib.rs b/indxr/src/lib.rs
index f734d01..d3521e7 100644
--- a/indxr/src/lib.rs
+++ b/indxr/src/lib.rs
@@ -5,13 +5,14 @@ extern crate walkdir;
 extern crate notify;
 
 use std::sync::mpsc::channel;
-use std::time::Duration;
+use std::time::{Duration, Instant};
 use std::path::{Path, PathBuf};
 use std::collections::HashMap;
 use std::sync::{Mutex, Arc};
 
 use walkdir::WalkDir;
-use notify::{RecommendedWatcher, Watcher, RecursiveMode, DebouncedEvent};
+use notify::{RecommendedWatcher, Watcher, RecursiveMode, RawEvent};
+use notify::op::RESCAN;
 
 // The V type should be Send + 'static but that can not be enforced on a type alias
 type Mapper<V> = Box<dyn Fn(&Path) -> Option<V> + Sync + Send>;
@@ -65,42 +66,58 @@ pub struct FileIndexImpl<V> {
 }
 
 fn watch<V>(index: &FileIndexImpl<V>) {
-    let initial_indexing_start = ::std::time::Instant::now();
-    for path in index.file_set.roots.iter() {
-        index.change(path)
-    }
-    let elapsed = initial_indexing_start.elapsed();
-    info!("indexing took = {}s", elapsed.as_secs());
     let (tx, rx) = channel();
+    // We want raw events: the ones debounced by notify do not mention all of the changed paths.
+    let mut watcher: RecommendedWatcher = Watcher::new_raw(tx).unwrap();
 
-    let _watchers = index.file_set.roots.iter().map(|path| {
-        let tx = tx.clone();
-        let mut watcher: RecommendedWatcher = Watcher::new(tx, Duration::from_secs(2)).unwrap();
-        watcher.watch(path, RecursiveMode::Recursive).unwrap();
-        watcher
-    }).collect::<Vec<_>>();
+    // Paths to look at, and when to do it. A changed path is looked at right away, and once more
+    // when it has been quiet for a while.
+    let delay = Duration::from_secs(2);
+    let mut pending: HashMap<PathBuf, Instant> = HashMap::new();
+    for root in index.file_set.roots.iter() {
+        pending.insert(root.clone(), Instant::now());
+    }
     loop {
-        match rx.recv() {
-            Ok(event) => {
-                info!("event: {:?}", event);
-                match event {
-                    DebouncedEvent::NoticeWrite(path)
-                    | DebouncedEvent::NoticeRemove(path)
-                    | DebouncedEvent::Create(path)
-                    | DebouncedEvent::Write(path)
-                    | DebouncedEvent::Remove(path) => {
-                        index.change(&path)
-                    }
-                    DebouncedEvent::Rename(p1, p2) => {
-                        index.change(&p1);
-                        index.change(&p2);
-                    }
-                    _ => continue,
+        let now = Instant::now();
+        let due: Vec<PathBuf> = pending.iter()
+            .filter(|&(_, when)| *when <= now)
+            .map(|(path, _)| path.clone())
+            .collect();
+        for path in due {
+            pending.remove(&path);
+            // Watch first: changes made while we walk the directory must be reported.
+            if path.is_dir() || index.file_set.roots.contains(&path) {
+                if let Err(e) = watcher.watch(&path, RecursiveMode::Recursive) {
+                    error!("can't watch {:?}: {:?}", path, e);
+                    pending.insert(path.clone(), Instant::now() + delay * 10);
+                }
+            }
+            index.change(&path);
+        }
+
+        let event = match pending.values().min() {
+            Some(&when) => match rx.recv_timeout(when.saturating_duration_since(Instant::now())) {
+                Ok(event) => event,
+                Err(_) => continue,
+            },
+            None => match rx.recv() {
+                Ok(event) => event,
+                Err(e) => {
+                    error!("watch error: {:?}", e);
+                    continue
                 }
             },
-            Err(e) => {
-                error!("watch error: {:?}", e);
-                continue
+        };
+        info!("event: {:?}", event);
+        let paths = match event {
+            RawEvent { path: Some(path), op: Ok(_), .. } => vec![path],
+            RawEvent { path: None, op: Ok(op), .. } if !op.contains(RESCAN) => continue,
+            // Some events are lost.
+            _ => index.file_set.roots.clone(),
+        };
+        for path in paths {
+            if pending.insert(path.clone(), Instant::now() + delay).is_none() {
+                index.change(&path);
             }
         }
     }
-- 
2.43.0


From 84a8941c70e70b761d3084807e8b845e88a91c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:15 +0000
Subject: [PATCH 04/24] fix: lang_rust: workspace symbols whose names differ
 only in case do not hide each other

---
 lang/rust/src/editor/symbol_index.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/lang/rust/src/editor/symbol_index.rs b/lang/rust/src/editor/symbol_index.rs
index 3aaa67d..e398885 100644
--- a/lang/rust/src/editor/symbol_index.rs
+++ b/lang/rust/src/editor/symbol_index.rs
@@ -75,9 +75,11 @@ impl Query {
         let a = FstSubSeq::new(&self.query);
         for idx in file.map.search(a).into_stream().into_values() {
             let idx = idx as usize;
-            let symbol = file.symbols[idx].clone();
-            if self.all_symbols || is_type(symbol.ty) {
-                acc(symbol)
+            let name = file.symbols[idx].name.to_lowercase();
+            for symbol in file.symbols[idx..].iter().take_while(|s| s.name.to_lowercase() == name) {
+                if self.all_symbols || is_type(symbol.ty) {
+                    acc(symbol.clone())
+                }
             }
         }
     }
@@ -103,11 +105,11 @@ impl FileSymbols {
             })
         });
         symbols.sort_by_key(|s| s.name.to_lowercase());
-        symbols.dedup_by_key(|s| s.name.to_lowercase());
 
-        let map = fst::Map::from_iter(
-            symbols.iter().map(|s| (s.name.to_lowercase())).zip(0u64..)
-        ).unwrap();
+        // Several symbols can share a name, the map points to the first one.
+        let mut names: Vec<(String, u64)> = symbols.iter().map(|s| s.name.to_lowercase()).zip(0u64..).collect();
+        names.dedup_by(|a, b| a.0 == b.0);
+        let map = fst::Map::from_iter(names).unwrap();
 
         FileSymbols { symbols, map }
     }
-- 
2.43.0


From 21261d29bb74e3253ce9cfbec5d7dc5b52b16016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:38 +0000
Subject: [PATCH 05/24] fix: lang_fall: the order of diagnostics does not
 depend on the order of queries

---
 lang/fall/src/analysis/mod.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lang/fall/src/analysis/mod.rs b/lang/fall/src/analysis/mod.rs
index aaf204c..e17ef6e 100644
--- a/lang/fall/src/analysis/mod.rs
+++ b/lang/fall/src/analysis/mod.rs
@@ -1,4 +1,4 @@
-use fall_tree::{File, AstNode};
+use fall_tree::{File, AstNode, TextUnit};
 use fall_tree::visitor::{visitor, process_subtree_bottom_up};
 use fall_editor::{Diagnostic, Severity};
 
@@ -68,13 +68,16 @@ impl<'f> Analysis<'f> {
         self.db.get(query::AllLexRules);
 
         let mut result = self.db.diagnostics.lock().unwrap().clone();
-        result.sort_by_key(|d| {
+        // Diagnostics arrive in the order in which queries happened to be executed,
+        // make sure this is not observable.
+        fn sort_key(d: &Diagnostic) -> (u32, TextUnit, TextUnit, &str) {
             let priority = match d.severity {
                 Severity::Error => 0,
                 Severity::Warning => 1,
             };
-            (priority, d.range.start(), d.range.end())
-        });
+            (priority, d.range.start(), d.range.end(), &d.message)
+        }
+        result.sort_by(|a, b| sort_key(a).cmp(&sort_key(b)));
         result
     }
 }
-- 
2.43.0


From 12f7577813a27d6a315896b0ceb02f8e6c633ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:06 +0000
Subject: [PATCH 06/24] fix: lang_fall: unfinished definitions do not make the
 analysis panic

---
 fall/gen/src/generate/codegen.rs              | 54 +++++++++++--------
 .../src/analysis/query/ast_node_traits.rs     |  2 +-
 .../fall/src/analysis/query/resolve_method.rs |  4 +-
 .../analysis/query/resolve_pratt_variant.rs   | 14 +++--
 lang/fall/src/editor/references/mod.rs        |  4 +-
 lang/fall/syntax/src/ast_ext.rs               |  8 +--
 lang/fall/syntax/src/fall.fall                | 15 +++---
 lang/fall/syntax/src/fall.rs                  | 31 ++++++-----
 8 files changed, 72 insertions(+), 60 deletions(-)

diff --git a/fall/gen/src/generate/codegen.rs b/fall/gen/src/generate/codegen.rs
index 28a5d8b..69c1a50 100644
--- a/fall/gen/src/generate/codegen.rs
+++ b/fall/gen/src/generate/codegen.rs
@@ -1,7 +1,7 @@
 use serde_json;
 use tera::Context;
 
-use fall_tree::{Text, AstNode};
+use fall_tree::{Text, Node, AstNode};
 use lang_fall::syntax::{FallFile, SynRule, LexRule, Expr, BlockExpr,
                         MethodDef, Parameter};
 use lang_fall::{RefKind, CallKind, MethodKind, Analysis, PratVariant, PrattOp, Arity, ChildKind};
@@ -72,16 +72,17 @@ impl<'a, 'f> Codegen<'a, 'f> {
 
         context.insert("lex_rules", &lex_rules);
 
-        let verbatim = self.file().verbatim_def().map(|v| v.contents());
+        let verbatim = self.file().verbatim_def().and_then(|v| v.contents());
         context.insert("verbatim", &verbatim);
         context.insert("has_whitespace_binder", &verbatim.map(|t| t.contains("whitespace_binder")).unwrap_or(false));
 
 
         if let Some(ast) = self.file().ast_def() {
             context.insert("ast_nodes", &ast.ast_nodes().map(|node| {
+                let name = defined_name(node.name(), node.node())?;
                 Ok(CtxAstNode {
-                    struct_name: camel(node.name()),
-                    node_type_name: scream(node.name()),
+                    struct_name: camel(name),
+                    node_type_name: scream(name),
                     methods: node.methods()
                         .map(|method| self.gen_method(method))
                         .collect::<Result<Vec<CtxMethod>>>()?,
@@ -89,15 +90,15 @@ impl<'a, 'f> Codegen<'a, 'f> {
             }).collect::<Result<Vec<_>>>()?);
 
             context.insert("ast_classes", &ast.ast_classes().map(|class| {
-                CtxAstClass {
-                    enum_name: camel(class.name()),
+                Ok(CtxAstClass {
+                    enum_name: camel(defined_name(class.name(), class.node())?),
                     variants: class.variants().map(|variant| (scream(variant), camel(variant))).collect(),
-                }
-            }).collect::<Vec<_>>());
+                })
+            }).collect::<Result<Vec<_>>>()?);
 
             context.insert("ast_traits", &ast.ast_traits().map(|trait_| {
                 Ok(CtxAstTrait {
-                    trait_name: camel(trait_.name()),
+                    trait_name: camel(defined_name(trait_.name(), trait_.node())?),
                     methods: trait_.methods()
                         .map(|method| self.gen_method(method))
                         .collect::<Result<Vec<CtxMethod>>>()?,
@@ -105,7 +106,8 @@ impl<'a, 'f> Codegen<'a, 'f> {
                         .filter(|&node| {
                             self.analysis.ast_node_traits(node).contains(&trait_)
                         })
-                        .map(|node| camel(node.name()))
+                        .filter_map(|node| node.name())
+                        .map(camel)
                         .collect(),
                 })
             }).collect::<Result<Vec<_>>>()?);
@@ -149,7 +151,8 @@ impl<'a, 'f> Codegen<'a, 'f> {
     }
 
     fn gen_rule(&mut self, rule: SynRule<'f>) -> Result<dst::Expr> {
-        let body = match (rule.is_pratt(), rule.body()) {
+        let body = rule.body().ok_or(format_err!("Missing body: {}", rule.node().text()))?;
+        let body = match (rule.is_pratt(), body) {
             (true, Expr::BlockExpr(block)) => {
                 let pratt = dst::Expr::Pratt(Box::new(self.gen_pratt(block)?));
                 self.push_expr(pratt)
@@ -366,25 +369,26 @@ impl<'a, 'f> Codegen<'a, 'f> {
                 }
             }
             MethodKind::NodeAccessor(kind, arity) => {
+                let child = method.selector().child();
                 match (kind, arity) {
-                    (ChildKind::AstNode(n), Arity::Single) =>
-                        (format!("{}<'f>", camel(n.name())),
+                    (ChildKind::AstNode(_), Arity::Single) =>
+                        (format!("{}<'f>", camel(child)),
                          "rt::AstChildren::new(self.node().children()).next().unwrap()".to_owned()),
-                    (ChildKind::AstNode(n), Arity::Optional) =>
-                        (format!("Option<{}<'f>>", camel(n.name())),
+                    (ChildKind::AstNode(_), Arity::Optional) =>
+                        (format!("Option<{}<'f>>", camel(child)),
                          "rt::AstChildren::new(self.node().children()).next()".to_owned()),
-                    (ChildKind::AstNode(n), Arity::Many) =>
-                        (format!("rt::AstChildren<'f, {}<'f>>", camel(n.name())),
+                    (ChildKind::AstNode(_), Arity::Many) =>
+                        (format!("rt::AstChildren<'f, {}<'f>>", camel(child)),
                          "rt::AstChildren::new(self.node().children())".to_owned()),
 
-                    (ChildKind::AstClass(n), Arity::Single) =>
-                        (format!("{}<'f>", camel(n.name())),
+                    (ChildKind::AstClass(_), Arity::Single) =>
+                        (format!("{}<'f>", camel(child)),
                          "rt::AstChildren::new(self.node().children()).next().unwrap()".to_owned()),
-                    (ChildKind::AstClass(n), Arity::Optional) =>
-                        (format!("Option<{}<'f>>", camel(n.name())),
+                    (ChildKind::AstClass(_), Arity::Optional) =>
+                        (format!("Option<{}<'f>>", camel(child)),
                          "rt::AstChildren::new(self.node().children()).next()".to_owned()),
-                    (ChildKind::AstClass(n), Arity::Many) =>
-                        (format!("rt::AstChildren<'f, {}<'f>>", camel(n.name())),
+                    (ChildKind::AstClass(_), Arity::Many) =>
+                        (format!("rt::AstChildren<'f, {}<'f>>", camel(child)),
                          "rt::AstChildren::new(self.node().children())".to_owned()),
 
                     (ChildKind::Token(lex_rule), arity) => {
@@ -407,6 +411,10 @@ impl<'a, 'f> Codegen<'a, 'f> {
     }
 }
 
+fn defined_name<'f>(name: Option<Text<'f>>, node: Node<'f>) -> Result<Text<'f>> {
+    name.ok_or(format_err!("Missing name: {}", node.text()))
+}
+
 
 #[derive(Serialize)]
 struct CtxLexRule<'f> {
diff --git a/lang/fall/src/analysis/query/ast_node_traits.rs b/lang/fall/src/analysis/query/ast_node_traits.rs
index bb9ca17..7ed7730 100644
--- a/lang/fall/src/analysis/query/ast_node_traits.rs
+++ b/lang/fall/src/analysis/query/ast_node_traits.rs
@@ -9,7 +9,7 @@ use crate::syntax::{AstTraitDef, COLON, IDENT};
 impl<'f> db::OnceQExecutor<'f> for super::AstNodeTraits<'f> {
     fn execute(self, db: &DB<'f>, d: &mut DiagnosticSink) -> Arc<Vec<AstTraitDef<'f>>> {
         let traits: HashMap<Text, AstTraitDef> = db.file().ast_def().map(|ast| {
-            ast.ast_traits().map(|trait_| (trait_.name(), trait_)).collect()
+            ast.ast_traits().filter_map(|trait_| Some((trait_.name()?, trait_))).collect()
         }).unwrap_or_default();
 
         let refs = self.0.node().children()
diff --git a/lang/fall/src/analysis/query/resolve_method.rs b/lang/fall/src/analysis/query/resolve_method.rs
index 4763681..72bb135 100644
--- a/lang/fall/src/analysis/query/resolve_method.rs
+++ b/lang/fall/src/analysis/query/resolve_method.rs
@@ -29,10 +29,10 @@ impl<'f> db::OnceQExecutor<'f> for super::ResolveMethod<'f> {
 
 fn child_kind<'f>(file: FallFile<'f>, selector: AstSelector<'f>) -> Option<ChildKind<'f>> {
     let ast_def = file.ast_def()?;
-    if let Some(ast) = ast_def.ast_nodes().find(|a| a.name() == selector.child()) {
+    if let Some(ast) = ast_def.ast_nodes().find(|a| a.name() == Some(selector.child())) {
         return Some(ChildKind::AstNode(ast));
     }
-    if let Some(class) = ast_def.ast_classes().find(|c| c.name() == selector.child()) {
+    if let Some(class) = ast_def.ast_classes().find(|c| c.name() == Some(selector.child())) {
         return Some(ChildKind::AstClass(class));
     }
     if let Some(lex_rule) = file.tokenizer_def().and_then(|td| td.lex_rules().find(|r| r.node_type() == selector.child())) {
diff --git a/lang/fall/src/analysis/query/resolve_pratt_variant.rs b/lang/fall/src/analysis/query/resolve_pratt_variant.rs
index 476e9fa..dc01035 100644
--- a/lang/fall/src/analysis/query/resolve_pratt_variant.rs
+++ b/lang/fall/src/analysis/query/resolve_pratt_variant.rs
@@ -12,6 +12,10 @@ impl<'f> db::OnceQExecutor<'f> for super::ResolvePrattVariant<'f> {
             None => return None,
             Some(n) => n,
         };
+        let body = match rule.body() {
+            None => return None,
+            Some(body) => body,
+        };
         let kinds = ["atom", "postfix", "prefix", "bin"];
 
         let (kind, priority) = {
@@ -32,10 +36,10 @@ impl<'f> db::OnceQExecutor<'f> for super::ResolvePrattVariant<'f> {
             if priority.is_some() {
                 d.error(name_ident, "Atom rules don't have priority")
             }
-            return Some(PratVariant::Atom(rule.body()));
+            return Some(PratVariant::Atom(body));
         }
 
-        let args = match rule.body() {
+        let args = match body {
             Expr::BlockExpr(block) => match block.alts().collect_tuple() {
                 Some((alt, )) => match alt {
                     Expr::SeqExpr(args) => args.parts(),
@@ -61,7 +65,7 @@ impl<'f> db::OnceQExecutor<'f> for super::ResolvePrattVariant<'f> {
                     })
                 } else {
                     d.error(
-                        rule.body().node(),
+                        body.node(),
                         "Postfix rule requires a single expression and an operation"
                     );
                     return None;
@@ -75,7 +79,7 @@ impl<'f> db::OnceQExecutor<'f> for super::ResolvePrattVariant<'f> {
                     })
                 } else {
                     d.error(
-                        rule.body().node(),
+                        body.node(),
                         "Prefix rule requires an operation and a single expression"
                     );
                     return None;
@@ -88,7 +92,7 @@ impl<'f> db::OnceQExecutor<'f> for super::ResolvePrattVariant<'f> {
                     ),
                     (None, _) => {
                         d.error(
-                            rule.body().node(),
+                            body.node(),
                             "Binary expression requires a left hand side expression, an operator \
                              and a right hand side expression"
                         );
diff --git a/lang/fall/src/editor/references/mod.rs b/lang/fall/src/editor/references/mod.rs
index 2473fe5..27ac78b 100644
--- a/lang/fall/src/editor/references/mod.rs
+++ b/lang/fall/src/editor/references/mod.rs
@@ -110,13 +110,13 @@ impl<'f> From<Parameter<'f>> for Declaration<'f> {
 
 impl<'f> From<AstNodeDef<'f>> for Declaration<'f> {
     fn from(rule: AstNodeDef<'f>) -> Self {
-        Declaration::with_name_ident(rule.node(), Some(rule.name_ident()))
+        Declaration::with_name_ident(rule.node(), rule.name_ident())
     }
 }
 
 impl<'f> From<AstClassDef<'f>> for Declaration<'f> {
     fn from(rule: AstClassDef<'f>) -> Self {
-        Declaration::with_name_ident(rule.node(), Some(rule.name_ident()))
+        Declaration::with_name_ident(rule.node(), rule.name_ident())
     }
 }
 
diff --git a/lang/fall/syntax/src/ast_ext.rs b/lang/fall/syntax/src/ast_ext.rs
index 2f1e0bb..73c8536 100644
--- a/lang/fall/syntax/src/ast_ext.rs
+++ b/lang/fall/syntax/src/ast_ext.rs
@@ -111,8 +111,8 @@ impl<'f> SynRule<'f> {
 }
 
 impl<'f> VerbatimDef<'f> {
-    pub fn contents(&self) -> Text<'f> {
-        lit_body(self.literal_string()).trim()
+    pub fn contents(&self) -> Option<Text<'f>> {
+        self.literal_string().map(|s| lit_body(s).trim())
     }
 }
 
@@ -123,10 +123,6 @@ impl<'f> TestDef<'f> {
 }
 
 impl<'f> AstClassDef<'f> {
-    pub fn name(&self) -> Text<'f> {
-        child_of_type(self.node(), IDENT).unwrap().text()
-    }
-
     pub fn variants<'a>(&'a self) -> Box<dyn Iterator<Item=Text<'f>> + 'a> {
         Box::new(children_of_type(self.node(), IDENT).skip(1).map(|it| it.text()))
     }
diff --git a/lang/fall/syntax/src/fall.fall b/lang/fall/syntax/src/fall.fall
index c371f98..9d238ba 100644
--- a/lang/fall/syntax/src/fall.fall
+++ b/lang/fall/syntax/src/fall.fall
@@ -327,7 +327,7 @@ ast {
     attributes attributes?
     name_ident ident?
     name ident?.text
-    body expr
+    body expr?
     parameters parameters?
   }
 
@@ -351,7 +351,7 @@ ast {
   node attribute_value { }
 
   node verbatim_def {
-    literal_string hash_string.text
+    literal_string hash_string?.text
   }
 
   node ast_def {
@@ -361,19 +361,20 @@ ast {
   }
 
   node ast_node_def {
-    name_ident ident
-    name ident.text
+    name_ident ident?
+    name ident?.text
     methods method_def*
   }
 
   node ast_trait_def {
-    name_ident ident
-    name ident.text
+    name_ident ident?
+    name ident?.text
     methods method_def*
   }
 
   node ast_class_def {
-    name_ident ident
+    name_ident ident?
+    name ident?.text
   }
 
   node method_def {
diff --git a/lang/fall/syntax/src/fall.rs b/lang/fall/syntax/src/fall.rs
index 530551a..6e4605d 100644
--- a/lang/fall/syntax/src/fall.rs
+++ b/lang/fall/syntax/src/fall.rs
@@ -304,8 +304,8 @@ impl<'f> SynRule<'f> {
     pub fn name(&self) -> Option<rt::Text<'f>> {
         rt::child_of_type(self.node(), IDENT).map(|n| n.text())
     }
-    pub fn body(&self) -> Expr<'f> {
-        rt::AstChildren::new(self.node().children()).next().unwrap()
+    pub fn body(&self) -> Option<Expr<'f>> {
+        rt::AstChildren::new(self.node().children()).next()
     }
     pub fn parameters(&self) -> Option<Parameters<'f>> {
         rt::AstChildren::new(self.node().children()).next()
@@ -451,8 +451,8 @@ impl<'f> rt::AstNode<'f> for VerbatimDef<'f> {
     fn node(self) -> rt::Node<'f> { self.node }
 }
 impl<'f> VerbatimDef<'f> {
-    pub fn literal_string(&self) -> rt::Text<'f> {
-        rt::child_of_type_exn(self.node(), HASH_STRING).text()
+    pub fn literal_string(&self) -> Option<rt::Text<'f>> {
+        rt::child_of_type(self.node(), HASH_STRING).map(|n| n.text())
     }
 }
 impl<'f> ::std::fmt::Debug for VerbatimDef<'f> {
@@ -505,11 +505,11 @@ impl<'f> rt::AstNode<'f> for AstNodeDef<'f> {
     fn node(self) -> rt::Node<'f> { self.node }
 }
 impl<'f> AstNodeDef<'f> {
-    pub fn name_ident(&self) -> rt::Node<'f> {
-        self.node().children().find(|n| n.ty() == IDENT).unwrap()
+    pub fn name_ident(&self) -> Option<rt::Node<'f>> {
+        self.node().children().find(|n| n.ty() == IDENT)
     }
-    pub fn name(&self) -> rt::Text<'f> {
-        rt::child_of_type_exn(self.node(), IDENT).text()
+    pub fn name(&self) -> Option<rt::Text<'f>> {
+        rt::child_of_type(self.node(), IDENT).map(|n| n.text())
     }
     pub fn methods(&self) -> rt::AstChildren<'f, MethodDef<'f>> {
         rt::AstChildren::new(self.node().children())
@@ -535,11 +535,11 @@ impl<'f> rt::AstNode<'f> for AstTraitDef<'f> {
     fn node(self) -> rt::Node<'f> { self.node }
 }
 impl<'f> AstTraitDef<'f> {
-    pub fn name_ident(&self) -> rt::Node<'f> {
-        self.node().children().find(|n| n.ty() == IDENT).unwrap()
+    pub fn name_ident(&self) -> Option<rt::Node<'f>> {
+        self.node().children().find(|n| n.ty() == IDENT)
     }
-    pub fn name(&self) -> rt::Text<'f> {
-        rt::child_of_type_exn(self.node(), IDENT).text()
+    pub fn name(&self) -> Option<rt::Text<'f>> {
+        rt::child_of_type(self.node(), IDENT).map(|n| n.text())
     }
     pub fn methods(&self) -> rt::AstChildren<'f, MethodDef<'f>> {
         rt::AstChildren::new(self.node().children())
@@ -565,8 +565,11 @@ impl<'f> rt::AstNode<'f> for AstClassDef<'f> {
     fn node(self) -> rt::Node<'f> { self.node }
 }
 impl<'f> AstClassDef<'f> {
-    pub fn name_ident(&self) -> rt::Node<'f> {
-        self.node().children().find(|n| n.ty() == IDENT).unwrap()
+    pub fn name_ident(&self) -> Option<rt::Node<'f>> {
+        self.node().children().find(|n| n.ty() == IDENT)
+    }
+    pub fn name(&self) -> Option<rt::Text<'f>> {
+        rt::child_of_type(self.node(), IDENT).map(|n| n.text())
     }
 }
 impl<'f> ::std::fmt::Debug for AstClassDef<'f> {
-- 
2.43.0


From 92a054e4b3db4e99e78a504a1c71bc55add1d47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:25 +0000
Subject: [PATCH 07/24] fix: a raw string with more than 30 hashes does not
 crash the lexer

---
 lang/fall/syntax/src/fall.fall | 2 +-
 lang/fall/syntax/src/fall.rs   | 2 +-
 lang/rust/syntax/src/rust.fall | 2 +-
 lang/rust/syntax/src/rust.rs   | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/lang/fall/syntax/src/fall.fall b/lang/fall/syntax/src/fall.fall
index 9d238ba..b3f1ece 100644
--- a/lang/fall/syntax/src/fall.fall
+++ b/lang/fall/syntax/src/fall.fall
@@ -252,7 +252,7 @@ fn parse_raw_string(s: &str) -> Option<usize> {
     let quote_start = s.find('"').unwrap();
     // Who needs more then 25 hashes anyway? :)
     let q_hashes = concat!('"', "######", "######", "######", "######", "######");
-    let closing = &q_hashes[..quote_start];
+    let closing = q_hashes.get(..quote_start)?;
     s[quote_start + 1..].find(closing).map(|i| i + quote_start + 1 + closing.len())
 }
 
diff --git a/lang/fall/syntax/src/fall.rs b/lang/fall/syntax/src/fall.rs
index 6e4605d..21d98e1 100644
--- a/lang/fall/syntax/src/fall.rs
+++ b/lang/fall/syntax/src/fall.rs
@@ -190,7 +190,7 @@ fn parse_raw_string(s: &str) -> Option<usize> {
     let quote_start = s.find('"').unwrap();
     // Who needs more then 25 hashes anyway? :)
     let q_hashes = concat!('"', "######", "######", "######", "######", "######");
-    let closing = &q_hashes[..quote_start];
+    let closing = q_hashes.get(..quote_start)?;
     s[quote_start + 1..].find(closing).map(|i| i + quote_start + 1 + closing.len())
 }
 #[allow(unused)]
diff --git a/lang/rust/syntax/src/rust.fall b/lang/rust/syntax/src/rust.fall
index d2dcbd2..937903d 100644
--- a/lang/rust/syntax/src/rust.fall
+++ b/lang/rust/syntax/src/rust.fall
@@ -1295,7 +1295,7 @@ fn parse_raw_string(s: &str) -> Option<usize> {
     let quote_start = s.find('"').unwrap();
     // Who needs more than 25 hashes anyway? :)
     let q_hashes = concat!('"', "######", "######", "######", "######", "######");
-    let closing = &q_hashes[..quote_start];
+    let closing = q_hashes.get(..quote_start)?;
     s[quote_start + 1..].find(closing).map(|i| i + quote_start + 1 + closing.len())
 }
 
diff --git a/lang/rust/syntax/src/rust.rs b/lang/rust/syntax/src/rust.rs
index 223c058..33eaf63 100644
--- a/lang/rust/syntax/src/rust.rs
+++ b/lang/rust/syntax/src/rust.rs
@@ -573,7 +573,7 @@ fn parse_raw_string(s: &str) -> Option<usize> {
     let quote_start = s.find('"').unwrap();
     // Who needs more than 25 hashes anyway? :)
     let q_hashes = concat!('"', "######", "######", "######", "######", "######");
-    let closing = &q_hashes[..quote_start];
+    let closing = q_hashes.get(..quote_start)?;
     s[quote_start + 1..].find(closing).map(|i| i + quote_start + 1 + closing.len())
 }
 fn parse_block_comment(s: &str) -> Option<usize> {
-- 
2.43.0


From 1492b1bda1fff6920c4ef84fd94824f6923e6f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:25 +0000
Subject: [PATCH 08/24] fix: fall_parse: an edit can change the tokens before
 it

---
 fall/parse/src/lex_engine.rs | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/fall/parse/src/lex_engine.rs b/fall/parse/src/lex_engine.rs
index fe89118..d6b2180 100644
--- a/fall/parse/src/lex_engine.rs
+++ b/fall/parse/src/lex_engine.rs
@@ -1,7 +1,7 @@
 use std::cmp::Ordering;
-use fall_tree::{Text, tu, TextSuffix, TextEditOp, TextEdit, TextUnit, NodeType, ERROR};
+use fall_tree::{Text, tu, TextSuffix, TextRange, TextEditOp, TextEdit, TextUnit, NodeType, ERROR};
 
-#[derive(Debug, Copy, Clone)]
+#[derive(Debug, Copy, Clone, PartialEq, Eq)]
 pub struct Token {
     pub ty: NodeType,
     pub len: TextUnit,
@@ -38,6 +38,7 @@ pub fn relex<L: Lexer>(
         return (lex(lexer, new_text), 0);
     }
 
+    let old_text_len = old_tokens.iter().fold(tu(0), |len, token| len + token.len);
     let mut old_tokens = old_tokens.iter().cloned();
     let mut old_len = tu(0);
 
@@ -53,6 +54,7 @@ pub fn relex<L: Lexer>(
                 edit_point += buf.as_text().len()
             }
             TextEditOp::Copy(range) => {
+                let reusable = reusable_prefix(range, edit_point, old_text_len, new_text);
                 let mut txt = new_text.slice(TextSuffix::from(new_len));
                 while new_len < edit_point {
                     let token = lexer.step(&mut txt);
@@ -80,13 +82,14 @@ pub fn relex<L: Lexer>(
                         Ordering::Equal => {
                             for token in &mut old_tokens {
                                 old_len += token.len;
-                                if old_len >= range.end() {
+                                if old_len >= range.end() || old_len > reusable {
                                     break;
                                 }
                                 reused += token.len;
                                 new_len += token.len;
                                 new_tokens.push(token);
                             }
+                            txt = new_text.slice(TextSuffix::from(new_len));
                         }
                         Ordering::Greater => {
                             let token = old_tokens.next().unwrap();
@@ -108,3 +111,23 @@ pub fn relex<L: Lexer>(
     (new_tokens, relexed_region)
 }
 
+/// A token may depend on the text after it: an edit can join `r`, `#`, `#` and
+/// the quote typed next to them into a single raw string. If the text after the
+/// copied `range` might be different, only the tokens before the last two words
+/// of the range are reused.
+fn reusable_prefix(
+    range: TextRange,
+    new_start: TextUnit,
+    old_text_len: TextUnit,
+    new_text: Text,
+) -> TextUnit {
+    if range.end() == old_text_len && new_start + range.len() == new_text.len() {
+        return range.end();
+    }
+    let copied = new_text.slice(TextRange::from_len(new_start, range.len())).to_cow();
+    let last_word = copied.rfind(char::is_whitespace).unwrap_or(0);
+    let len = copied[..last_word].trim_end()
+        .rfind(char::is_whitespace)
+        .unwrap_or(0);
+    range.start() + tu(len as u32)
+}
-- 
2.43.0


From e30dcab045fdca948082294f2e7b428c87bbda6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:34 +0000
Subject: [PATCH 09/24] fix: fall_parse: a text which the start rule rejects
 does not crash the parser

---
 fall/parse/src/syn_engine/expr.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/fall/parse/src/syn_engine/expr.rs b/fall/parse/src/syn_engine/expr.rs
index 1e2d304..cf0ef82 100644
--- a/fall/parse/src/syn_engine/expr.rs
+++ b/fall/parse/src/syn_engine/expr.rs
@@ -20,8 +20,16 @@ pub(crate) fn parse(
     let (mut parser, pos) = Parser::new(prev, &grammar, &is_ws, text, tokens);
 
     let start_rule = parser.grammar.start_rule;
-    let mut leftover = parse_expr(&mut parser, start_rule, pos).unwrap();
-    if !leftover.is_empty() {
+    let result = parse_expr(&mut parser, start_rule, pos);
+    let mut leftover = result.unwrap_or_else(|| {
+        // Even a text which is not a file at all needs a tree: all of it is an error.
+        if let Expr::Pub { ty, .. } = grammar[start_rule] {
+            parser.start(ty);
+            parser.finish();
+        }
+        pos
+    });
+    if result.is_none() || !leftover.is_empty() {
         parser.reopen();
         parser.start_error();
         while let Some((_, ts)) = parser.bump(leftover) {
-- 
2.43.0


From 381c291d9ff7ca23e5ae0169dfdf124f0cf40164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:48 +0000
Subject: [PATCH 10/24] fix: fall_parse: a piece of the previous tree is reused
 only if nothing it depends on has changed

---
 fall/parse/src/lib.rs               |  26 ++---
 fall/parse/src/syn_engine/expr.rs   |  26 +++--
 fall/parse/src/syn_engine/mod.rs    | 117 ++++++++++++--------
 fall/parse/src/syn_engine/parser.rs | 160 +++++++++++++++++++++++-----
 4 files changed, 233 insertions(+), 96 deletions(-)

diff --git a/fall/parse/src/lib.rs b/fall/parse/src/lib.rs
index d7f1671..b72878d 100644
--- a/fall/parse/src/lib.rs
+++ b/fall/parse/src/lib.rs
@@ -10,9 +10,8 @@ pub extern crate fall_tree;
 pub extern crate serde_json;
 
 use std::any::Any;
-use std::collections::HashMap;
 
-use fall_tree::{Text, Language, NodeType, Metrics, TextEdit, TextUnit, TreeBuilder, ERROR, tu};
+use fall_tree::{Text, Language, NodeType, Metrics, TextEdit, TreeBuilder, ERROR, tu};
 
 mod lex_engine;
 
@@ -20,7 +19,7 @@ use crate::lex_engine::{Token, Lexer};
 
 mod syn_engine;
 
-use crate::syn_engine::Event;
+use crate::syn_engine::{Event, Segment, Salvaged};
 
 pub struct RegexLexer {
     tys: Vec<NodeType>,
@@ -103,7 +102,7 @@ impl Default for ParserDefinition {
 }
 
 
-#[derive(Copy, Clone, Serialize, Deserialize, Debug, TypedIndex)]
+#[derive(Copy, Clone, Serialize, Deserialize, Debug, PartialEq, Eq, TypedIndex)]
 #[typed_index(NodeType)]
 pub struct NodeTypeRef(pub u32);
 
@@ -185,6 +184,7 @@ pub struct Infix {
 struct IncrementalData {
     tokens: Vec<Token>,
     events: Vec<Event>,
+    segments: Vec<Segment>,
 }
 
 pub fn parse(
@@ -200,8 +200,8 @@ pub fn parse(
     });
     metrics.record("relexed region", text.len().utf8_len() as u64, "");
 
-    let events = parser_def.parse(None, text, &tokens, lang, metrics, builder);
-    let incremental_data = IncrementalData { tokens, events };
+    let (events, segments) = parser_def.parse(None, text, &tokens, lang, metrics, builder);
+    let incremental_data = IncrementalData { tokens, events, segments };
     Some(Box::new(incremental_data))
 }
 
@@ -223,13 +223,13 @@ pub fn reparse(
 
     let salvaged = syn_engine::salvage_segments(
         &incremental_data.events,
+        &incremental_data.segments,
         &incremental_data.tokens,
         &|t| lang.node_type_info(t.ty).whitespace_like,
         edit,
     );
-    let prev = Some((salvaged, incremental_data.events.as_ref()));
-    let events = parser_def.parse(prev, new_text, &tokens, lang, metrics, builder);
-    let incremental_data = IncrementalData { tokens, events };
+    let (events, segments) = parser_def.parse(Some(salvaged), new_text, &tokens, lang, metrics, builder);
+    let incremental_data = IncrementalData { tokens, events, segments };
     Some(Box::new(incremental_data))
 }
 
@@ -237,13 +237,13 @@ pub fn reparse(
 impl ParserDefinition {
     fn parse(
         &self,
-        prev: Option<(HashMap<(TextUnit, ExprRef), (u32, u32, u32)>, &[Event])>,
+        prev: Option<Salvaged>,
         text: Text,
         tokens: &[Token],
         lang: &Language,
         metrics: &Metrics,
         builder: &mut TreeBuilder,
-    ) -> Vec<Event> {
+    ) -> (Vec<Event>, Vec<Segment>) {
         let g = syn_engine::Grammar {
             node_types: &self.node_types,
             rules: &self.syntactical_rules,
@@ -254,7 +254,7 @@ impl ParserDefinition {
             _ => unreachable!()
         };
 
-        let (events, ticks) = metrics.measure_time("parsing", || {
+        let (events, segments, ticks) = metrics.measure_time("parsing", || {
             syn_engine::parse(prev, g, lang, text, &tokens)
         });
         metrics.record("parsing ticks", ticks, "");
@@ -276,7 +276,7 @@ impl ParserDefinition {
                 builder,
             );
         });
-        events
+        (events, segments)
     }
 }
 
diff --git a/fall/parse/src/syn_engine/expr.rs b/fall/parse/src/syn_engine/expr.rs
index cf0ef82..12facd3 100644
--- a/fall/parse/src/syn_engine/expr.rs
+++ b/fall/parse/src/syn_engine/expr.rs
@@ -1,21 +1,20 @@
-use std::collections::HashMap;
-use fall_tree::{Language, Text, TextUnit};
+use fall_tree::{Language, Text};
 
 use crate::{NodeTypeRef, Context, Arg, ExprRef, Expr};
 use crate::lex_engine::Token;
 use crate::syn_engine::parser::{Parser, Pos};
-use crate::syn_engine::Event;
+use crate::syn_engine::{Event, Segment, Salvaged};
 
 use super::Grammar;
 use super::pratt::parse_pratt;
 
 pub(crate) fn parse(
-    prev: Option<(HashMap<(TextUnit, ExprRef), (u32, u32, u32)>, &[Event])>,
+    prev: Option<Salvaged>,
     grammar: Grammar,
     lang: &Language,
     text: Text,
     tokens: &[Token],
-) -> (Vec<Event>, u64) {
+) -> (Vec<Event>, Vec<Segment>, u64) {
     let is_ws = |t: Token| lang.node_type_info(t.ty).whitespace_like;
     let (mut parser, pos) = Parser::new(prev, &grammar, &is_ws, text, tokens);
 
@@ -29,7 +28,7 @@ pub(crate) fn parse(
         }
         pos
     });
-    if result.is_none() || !leftover.is_empty() {
+    if result.is_none() || !parser.is_empty(leftover) {
         parser.reopen();
         parser.start_error();
         while let Some((_, ts)) = parser.bump(leftover) {
@@ -229,9 +228,9 @@ fn parse_not<'g>(
 }
 
 fn parse_eof<'g>(
-    _: &mut Parser<'g>, tokens: Pos,
+    p: &mut Parser<'g>, tokens: Pos,
 ) -> Option<Pos> {
-    if tokens.is_empty() { Some(tokens) } else { None }
+    if p.is_empty(tokens) { Some(tokens) } else { None }
 }
 
 fn parse_layer<'g>(
@@ -242,7 +241,7 @@ fn parse_layer<'g>(
     let layer = p.cut_suffix(tokens, rest);
     let mut leftovers = parse_expr(p, e, layer).unwrap_or(layer);
 
-    if !leftovers.is_empty() {
+    if !p.is_empty(leftovers) {
         p.start_error();
         while let Some((_, ts)) = p.bump(leftovers) {
             leftovers = ts;
@@ -381,9 +380,8 @@ fn parse_inject<'g>(
 
 fn parse_cached<'g>(p: &mut Parser<'g>, expr: ExprRef, pos: Pos) -> Option<Pos> {
 
-    let mark = p.start_cached(expr);
-    let result = p.get_from_cache(expr, pos).or_else(|| parse_expr(p, expr, pos))?;
-    p.finish_cached(mark);
-
-    Some(result)
+    let mark = p.start_cached(expr, pos);
+    let result = p.get_from_cache(expr, pos).or_else(|| parse_expr(p, expr, pos));
+    p.finish_cached(mark, result.is_some());
+    result
 }
diff --git a/fall/parse/src/syn_engine/mod.rs b/fall/parse/src/syn_engine/mod.rs
index b362028..dfad3ec 100644
--- a/fall/parse/src/syn_engine/mod.rs
+++ b/fall/parse/src/syn_engine/mod.rs
@@ -2,7 +2,7 @@ use std::collections::HashMap;
 
 use fall_tree::{NodeType, TextEdit, TextUnit, TextEditOp, tu, TextRange, ERROR};
 use crate::lex_engine::Token;
-use crate::{Expr, ExprRef};
+use crate::{Expr, ExprRef, NodeTypeRef};
 
 pub struct Grammar<'g> {
     pub node_types: &'g [NodeType],
@@ -34,40 +34,69 @@ pub(crate) enum Event {
     Start { ty: NodeType, forward_parent: Option<u32> },
     Token { ty: NodeType, n_raw_tokens: u16 },
     End,
-    Cached { key: u32, n_events: u32 },
+    Cached { key: u32, n_events: u32, segment: u32 },
 }
 
-pub(crate) fn salvage_segments(
-    old_events: &[Event],
-    old_tokens: &[Token],
-    is_ws: &dyn Fn(&Token) -> bool,
-    edit: &TextEdit,
-) -> HashMap<(TextUnit, ExprRef), (u32, u32, u32)> {
-    let mut result = HashMap::new();
+/// Everything the parse of a `Cached` expression depended on, except for the text itself.
+/// The result is reused only in the same conditions.
+#[derive(Clone, Debug)]
+pub(crate) struct Segment {
+    before: ParserState,
+    /// Number of non-whitespace tokens looked at, starting from the first one of the segment.
+    n_seen: u32,
+    /// If the parse bumped into the end of the enclosing layer,
+    /// number of tokens from the beginning of the segment to that end.
+    to_end: Option<u32>,
+    replacement: Option<NodeTypeRef>,
+    prev: Option<NodeType>,
+}
 
-    let mut raw_token_pos = 0;
-    let mut text_pos = tu(0);
+#[derive(Clone, Copy, Debug, PartialEq, Eq)]
+pub(crate) struct ParserState {
+    replacement: Option<NodeTypeRef>,
+    contexts: [bool; 16],
+    args: [Option<ExprRef>; 16],
+    prev: Option<NodeType>,
+}
 
-    let bump = |tok: &mut usize, text: &mut TextUnit| {
-        *text += old_tokens[*tok].len;
-        *tok += 1;
-    };
+/// What is left of the previous parse.
+pub(crate) struct Salvaged<'a> {
+    pub(crate) by_pos: HashMap<(TextUnit, ExprRef), SalvagedSegment>,
+    pub(crate) tokens: &'a [Token],
+    pub(crate) events: &'a [Event],
+    pub(crate) segments: &'a [Segment],
+}
 
-    let skip_ws = |tok: &mut usize, text: &mut TextUnit| {
-        while *tok < old_tokens.len() && is_ws(&old_tokens[*tok]) {
-            bump(tok, text);
-        }
-    };
+pub(crate) struct SalvagedSegment {
+    start_event: u32,
+    n_events: u32,
+    n_tokens: u32,
+    segment: u32,
+    /// First raw token of the segment.
+    first_token: usize,
+}
 
-    let eat_tokens = |tok: &mut usize, text: &mut TextUnit, n: u16| {
-        for _ in 0..n {
-            bump(tok, text);
-        }
-        skip_ws(tok, text);
-    };
+pub(crate) fn salvage_segments<'a>(
+    old_events: &'a [Event],
+    old_segments: &'a [Segment],
+    old_tokens: &'a [Token],
+    is_ws: &dyn Fn(&Token) -> bool,
+    edit: &TextEdit,
+) -> Salvaged<'a> {
+    let mut result = HashMap::new();
 
-    skip_ws(&mut raw_token_pos, &mut text_pos);
+    // Start of each non-whitespace token, and of the end of the text.
+    let mut starts = Vec::new();
+    let mut text_len = tu(0);
+    for (i, token) in old_tokens.iter().enumerate() {
+        if !is_ws(token) {
+            starts.push((text_len, i));
+        }
+        text_len += token.len;
+    }
+    starts.push((text_len, old_tokens.len()));
 
+    let mut pos = 0usize;
     let mut events = old_events.iter();
     let mut start_event = 0;
 
@@ -76,19 +105,14 @@ pub(crate) fn salvage_segments(
         match *event {
             Event::Start { .. } => (),
             Event::End => (),
-            Event::Token { n_raw_tokens, .. } =>
-                eat_tokens(&mut raw_token_pos, &mut text_pos, n_raw_tokens),
+            Event::Token { n_raw_tokens, .. } => pos += n_raw_tokens as usize,
 
-            Event::Cached { key, n_events } => {
-                let start = text_pos;
-                let mut n_tokens = 0u32;
+            Event::Cached { key, n_events, segment } => {
+                let start_pos = pos;
                 let mut has_error = false;
                 for _ in 0..n_events {
                     match *events.next().unwrap() {
-                        Event::Token { n_raw_tokens, .. } => {
-                            eat_tokens(&mut raw_token_pos, &mut text_pos, n_raw_tokens);
-                            n_tokens += n_raw_tokens as u32;
-                        }
+                        Event::Token { n_raw_tokens, .. } => pos += n_raw_tokens as usize,
                         Event::Start { ty: ERROR, .. } => has_error = true,
                         _ => (),
                     }
@@ -98,7 +122,10 @@ pub(crate) fn salvage_segments(
                     continue
                 }
 
-                let end = text_pos;
+                let n_tokens = (pos - start_pos) as u32;
+                let n_seen = old_segments[segment as usize].n_seen.max(n_tokens) as usize;
+                let (start, first_token) = starts[start_pos];
+                let (end, _) = starts[(start_pos + n_seen).min(starts.len() - 1)];
                 let range = TextRange::from_to(start, end);
 
                 let mut inserted = tu(0);
@@ -106,7 +133,11 @@ pub(crate) fn salvage_segments(
                     match *op {
                         TextEditOp::Copy(copy) => if range.is_subrange_of(copy) {
                             let fixed_start = inserted + (start - copy.start());
-                            result.insert((fixed_start, ExprRef(key)), (start_event, n_events, n_tokens));
+                            result.insert(
+                                (fixed_start, ExprRef(key)),
+                                SalvagedSegment { start_event, n_events, n_tokens, segment, first_token }
+                            );
+                            break;
                         } else {
                             inserted += copy.len()
                         }
@@ -118,8 +149,10 @@ pub(crate) fn salvage_segments(
         }
     }
 
-    result
+    Salvaged {
+        by_pos: result,
+        tokens: old_tokens,
+        events: old_events,
+        segments: old_segments,
+    }
 }
-
-
-
diff --git a/fall/parse/src/syn_engine/parser.rs b/fall/parse/src/syn_engine/parser.rs
index 25f40d5..92b82bb 100644
--- a/fall/parse/src/syn_engine/parser.rs
+++ b/fall/parse/src/syn_engine/parser.rs
@@ -1,12 +1,10 @@
-use std::collections::HashMap;
-
 use fall_tree::{TextUnit, Text, TextSuffix, NodeType, tu};
 use crate::lex_engine::Token;
-use crate::syn_engine::{Grammar, Event};
+use crate::syn_engine::{Grammar, Event, Segment, ParserState, Salvaged};
 use crate::{NodeTypeRef, ExprRef};
 
 pub(crate) struct Parser<'g> {
-    cache: Option<(HashMap<(TextUnit, ExprRef), (u32, u32, u32)>, &'g [Event])>,
+    cache: Option<Salvaged<'g>>,
     pub grammar: &'g Grammar<'g>,
     text: Text<'g>,
     tokens: &'g [Token],
@@ -14,6 +12,8 @@ pub(crate) struct Parser<'g> {
 
     ticks: u64,
     events: Vec<Event>,
+    segments: Vec<Segment>,
+    seen: Seen,
     pub replacement: Option<NodeTypeRef>,
     pub predicate_mode: bool,
     pub contexts: [bool; 16],
@@ -21,6 +21,13 @@ pub(crate) struct Parser<'g> {
     pub prev: Option<NodeType>,
 }
 
+pub(crate) struct CachedMark {
+    mark: Mark,
+    outer: Seen,
+    pos: Pos,
+    before: ParserState,
+}
+
 #[derive(Copy, Clone, Debug, Eq, PartialEq)]
 pub(crate) struct Pos(u32, u32);
 
@@ -28,17 +35,31 @@ impl Pos {
     pub fn next(self) -> Pos {
         Pos(self.0 + 1, self.1)
     }
-
-    pub fn is_empty(self) -> bool {
-        self.0 == self.1
-    }
 }
 
 pub(crate) struct Mark(u32);
 
+/// How far the parser has looked.
+#[derive(Copy, Clone, Debug, Default)]
+pub(crate) struct Seen {
+    /// One past the last token looked at.
+    tokens: u32,
+    /// The largest end of a layer the parser has bumped into.
+    end: u32,
+}
+
+impl Seen {
+    fn merge(self, other: Seen) -> Seen {
+        Seen {
+            tokens: self.tokens.max(other.tokens),
+            end: self.end.max(other.end),
+        }
+    }
+}
+
 impl<'g> Parser<'g> {
     pub fn new(
-        cache: Option<(HashMap<(TextUnit, ExprRef), (u32, u32, u32)>, &'g [Event])>,
+        cache: Option<Salvaged<'g>>,
         grammar: &'g Grammar<'g>,
         is_ws: &dyn Fn(Token) -> bool,
         text: Text<'g>,
@@ -67,6 +88,8 @@ impl<'g> Parser<'g> {
 
             ticks: 0,
             events: Vec::new(),
+            segments: Vec::new(),
+            seen: Seen::default(),
             replacement: None,
             predicate_mode: false,
             contexts: [false; 16],
@@ -77,8 +100,8 @@ impl<'g> Parser<'g> {
     }
 
 
-    pub fn done(self) -> (Vec<Event>, u64) {
-        (self.events, self.ticks)
+    pub fn done(self) -> (Vec<Event>, Vec<Segment>, u64) {
+        (self.events, self.segments, self.ticks)
     }
 
     pub fn tick(&mut self) {
@@ -100,31 +123,98 @@ impl<'g> Parser<'g> {
     }
 
     pub fn get_from_cache(&mut self, expr: ExprRef, pos: Pos) -> Option<Pos> {
-        if let Some((ref cache, events)) = self.cache {
-            let text_pos = self.non_ws_indexes[pos.0 as usize].0;
-            if let Some(&(start_event, n_events, n_tokens)) = cache.get(&(text_pos, expr)) {
-                self.events.extend_from_slice(&events[start_event as usize..(start_event + n_events) as usize]);
-                return Some(Pos(pos.0 + n_tokens, pos.1));
-            }
+        let state = self.state();
+        let cache = self.cache.as_ref()?;
+        let &(text_pos, first_token) = self.non_ws_indexes.get(pos.0 as usize)?;
+        let hit = cache.by_pos.get(&(text_pos, expr))?;
+        let segment = &cache.segments[hit.segment as usize];
+
+        let available = pos.1 - pos.0;
+        if segment.before != state
+            || available < segment.n_seen
+            || segment.to_end.map_or(false, |to_end| to_end != available) {
+            return None;
+        }
+        // The text is the same, but the tokens might be not: an edit nearby can glue them together.
+        let seen_end = self.non_ws_indexes.get((pos.0 + segment.n_seen) as usize)
+            .map_or(self.tokens.len(), |&(_, idx)| idx);
+        let new_tokens = &self.tokens[first_token..seen_end];
+        let old_tokens = cache.tokens.get(hit.first_token..hit.first_token + new_tokens.len())?;
+        if new_tokens != old_tokens {
+            return None;
         }
 
-        return None;
+        let (n_tokens, segment) = (hit.n_tokens, segment.clone());
+        let events = &cache.events[hit.start_event as usize..(hit.start_event + hit.n_events) as usize];
+        if !self.predicate_mode {
+            for &event in events {
+                let event = match event {
+                    Event::Cached { key, n_events, segment } => {
+                        self.segments.push(cache.segments[segment as usize].clone());
+                        Event::Cached { key, n_events, segment: self.segments.len() as u32 - 1 }
+                    }
+                    event => event
+                };
+                self.events.push(event);
+            }
+        }
+        self.replacement = segment.replacement;
+        self.prev = segment.prev;
+        self.seen = self.seen.merge(Seen {
+            tokens: pos.0 + segment.n_seen,
+            end: segment.to_end.map_or(0, |_| pos.1),
+        });
+        Some(Pos(pos.0 + n_tokens, pos.1))
     }
 
-    pub fn start_cached(&mut self, expr: ExprRef) -> Mark {
+    pub fn start_cached(&mut self, expr: ExprRef, pos: Pos) -> CachedMark {
         let mark = self.mark();
-        self.event(Event::Cached { key: expr.0, n_events: 0 });
-        mark
+        self.event(Event::Cached { key: expr.0, n_events: 0, segment: 0 });
+        let outer = ::std::mem::replace(&mut self.seen, Seen { tokens: pos.0, end: 0 });
+        CachedMark { mark, outer, pos, before: self.state() }
     }
 
-    pub fn finish_cached(&mut self, mark: Mark) {
-        if !self.predicate_mode {
+    pub fn finish_cached(&mut self, mark: CachedMark, success: bool) {
+        let CachedMark { mark, outer, pos, before } = mark;
+        if success && !self.predicate_mode {
             let len = self.events.len() as u32 - (mark.0 + 1);
+            let idx = self.segments.len() as u32;
+            self.segments.push(Segment {
+                before,
+                n_seen: self.seen.tokens - pos.0,
+                to_end: if self.seen.end == pos.1 { Some(pos.1 - pos.0) } else { None },
+                replacement: self.replacement,
+                prev: self.prev,
+            });
             match self.events[mark.0 as usize] {
-                Event::Cached { ref mut n_events, .. } => *n_events = len,
+                Event::Cached { ref mut n_events, ref mut segment, .. } => {
+                    *n_events = len;
+                    *segment = idx;
+                }
                 _ => unreachable!(),
             }
         }
+        self.seen = outer.merge(self.seen);
+    }
+
+    fn state(&self) -> ParserState {
+        ParserState {
+            replacement: self.replacement,
+            contexts: self.contexts,
+            args: self.args,
+            prev: self.prev,
+        }
+    }
+
+    /// Every decision about a position should be made via this function.
+    pub fn is_empty(&mut self, pos: Pos) -> bool {
+        let seen = if pos.0 == pos.1 {
+            Seen { tokens: 0, end: pos.1 }
+        } else {
+            Seen { tokens: pos.0 + 1, end: 0 }
+        };
+        self.seen = self.seen.merge(seen);
+        pos.0 == pos.1
     }
 
     pub fn reopen(&mut self) {
@@ -166,7 +256,7 @@ impl<'g> Parser<'g> {
     }
 
     pub fn bump(&mut self, pos: Pos) -> Option<(NodeType, Pos)> {
-        if pos.is_empty() {
+        if self.is_empty(pos) {
             return None;
         }
         let ty = self[pos].ty;
@@ -175,11 +265,27 @@ impl<'g> Parser<'g> {
     }
 
     pub fn bump_by_text(&mut self, tokens: Pos, text: &str, ty_idx: NodeTypeRef) -> Option<Pos> {
-        if tokens.is_empty() {
+        if self.is_empty(tokens) {
             return None;
         }
         let start = self.non_ws_indexes[tokens.0 as usize].0;
         let current_text = self.text.slice(TextSuffix::from(start));
+        // The next token is looked at as well: it might happen to continue the text.
+        for i in 1..=text.len() as u32 {
+            let idx = tokens.0 + i;
+            match self.non_ws_indexes.get(idx as usize) {
+                Some(&(pos, _)) if idx < tokens.1 => {
+                    self.is_empty(Pos(idx, tokens.1));
+                    if pos >= start + tu(text.len() as u32) {
+                        break;
+                    }
+                }
+                _ => {
+                    self.is_empty(Pos(tokens.1, tokens.1));
+                    break;
+                }
+            }
+        }
 
         if !current_text.starts_with(text) {
             return None;
@@ -189,7 +295,7 @@ impl<'g> Parser<'g> {
         let mut n_tokens = 0;
         let mut pos = tokens;
         while leftover > tu(0) {
-            if pos.is_empty() {
+            if self.is_empty(pos) {
                 return None;
             }
             let cur_len = self[pos].len;
-- 
2.43.0


From 1f217f5d5e08e08ecfaad7ed300e8b995b8457d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:48 +0000
Subject: [PATCH 11/24] fix: fall_parse: expressions which restructure the tree
 work inside predicates

---
 fall/parse/src/syn_engine/parser.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/fall/parse/src/syn_engine/parser.rs b/fall/parse/src/syn_engine/parser.rs
index 92b82bb..640938a 100644
--- a/fall/parse/src/syn_engine/parser.rs
+++ b/fall/parse/src/syn_engine/parser.rs
@@ -240,6 +240,9 @@ impl<'g> Parser<'g> {
     }
 
     pub fn replace(&mut self, mark: Mark, ty_idx: NodeTypeRef) {
+        if self.predicate_mode {
+            return;
+        }
         let ty = self[ty_idx];
         match self.events[mark.0 as usize] {
             Event::Start { ty: ref mut prev, .. } => *prev = ty,
@@ -248,6 +251,9 @@ impl<'g> Parser<'g> {
     }
 
     pub fn forward_parent(&mut self, child: Mark, parent: Mark) {
+        if self.predicate_mode {
+            return;
+        }
         match self.events[child.0 as usize] {
             Event::Start { ref mut forward_parent, .. } =>
                 *forward_parent = Some(parent.0 - child.0),
-- 
2.43.0


From b5d947546ba58c9808de46093de70ce9b0fc4120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:28 +0000
Subject: [PATCH 12/24] fix: lang_rust: the end of a string literal does not
 depend on the quotes after it

---
 lang/rust/syntax/src/rust.fall | 6 ++++--
 lang/rust/syntax/src/rust.rs   | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/lang/rust/syntax/src/rust.fall b/lang/rust/syntax/src/rust.fall
index 937903d..f0b00c6 100644
--- a/lang/rust/syntax/src/rust.fall
+++ b/lang/rust/syntax/src/rust.fall
@@ -92,7 +92,7 @@ tokenizer {
   lifetime r"'\p{XID_Continue}*"
   bool r"true|false"
   number r"\d+"
-  string r#""(\\"|[^"])*""#
+  string r#""(\\[\s\S]|[^"\\])*""#
   raw_string r#"r#*""# 'parse_raw_string'
   ident r"(\p{XID_Start}|_)\p{XID_Continue}*"
 }
@@ -1296,7 +1296,9 @@ fn parse_raw_string(s: &str) -> Option<usize> {
     // Who needs more than 25 hashes anyway? :)
     let q_hashes = concat!('"', "######", "######", "######", "######", "######");
     let closing = q_hashes.get(..quote_start)?;
-    s[quote_start + 1..].find(closing).map(|i| i + quote_start + 1 + closing.len())
+    // An unterminated string extends to the end of the file
+    let len = s[quote_start + 1..].find(closing).map(|i| i + quote_start + 1 + closing.len());
+    Some(len.unwrap_or(s.len()))
 }
 
 fn parse_block_comment(s: &str) -> Option<usize> {
diff --git a/lang/rust/syntax/src/rust.rs b/lang/rust/syntax/src/rust.rs
index 33eaf63..5ac1874 100644
--- a/lang/rust/syntax/src/rust.rs
+++ b/lang/rust/syntax/src/rust.rs
@@ -289,7 +289,7 @@ pub fn language() -> &'static rt::Language {
             rt::LexRule::new(LIFETIME, "\'\\p{XID_Continue}*", None),
             rt::LexRule::new(BOOL, "true|false", None),
             rt::LexRule::new(NUMBER, "\\d+", None),
-            rt::LexRule::new(STRING, "\"(\\\\\"|[^\"])*\"", None),
+            rt::LexRule::new(STRING, "\"(\\\\[\\s\\S]|[^\"\\\\])*\"", None),
             rt::LexRule::new(RAW_STRING, "r#*\"", Some(parse_raw_string)),
             rt::LexRule::new(IDENT, "(\\p{XID_Start}|_)\\p{XID_Continue}*", None),
         ])
@@ -574,7 +574,9 @@ fn parse_raw_string(s: &str) -> Option<usize> {
     // Who needs more than 25 hashes anyway? :)
     let q_hashes = concat!('"', "######", "######", "######", "######", "######");
     let closing = q_hashes.get(..quote_start)?;
-    s[quote_start + 1..].find(closing).map(|i| i + quote_start + 1 + closing.len())
+    // An unterminated string extends to the end of the file
+    let len = s[quote_start + 1..].find(closing).map(|i| i + quote_start + 1 + closing.len());
+    Some(len.unwrap_or(s.len()))
 }
 fn parse_block_comment(s: &str) -> Option<usize> {
     let mut s = &s[2..];
-- 
2.43.0


From a7d6a7b4196228f9eb66c1b81ea42e4867e9e479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:53 +0000
Subject: [PATCH 13/24] fix: whitespace at the end of a file whose root node
 was replaced

Convertor asked the whitespace binder about the type of the root, and only
the type of the start rule takes all of the spaces. If the start rule is
replaceable, the root might have a different type, and then the trailing
whitespace was missing from the tree.
---
 fall/parse/src/syn_engine/convert.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/fall/parse/src/syn_engine/convert.rs b/fall/parse/src/syn_engine/convert.rs
index 0f649aa..4f608f4 100644
--- a/fall/parse/src/syn_engine/convert.rs
+++ b/fall/parse/src/syn_engine/convert.rs
@@ -23,7 +23,7 @@ pub(crate) fn convert(
     let conv = Convertor { is_whitespace, whitespace_binder };
     match first {
         Event::Start { ty, forward_parent: _ } => {
-            conv.go(ty, &tokens, rest, builder);
+            conv.root(ty, &tokens, rest, builder);
         }
         _ => unreachable!()
     }
@@ -80,6 +80,22 @@ struct Conversion {
 }
 
 impl<'a> Convertor<'a> {
+    /// Unlike the other nodes, root takes all of the text, whatever its type is.
+    fn root(
+        &self,
+        ty: NodeType,
+        tokens: &[(Token, Text)],
+        events: &[Event],
+        builder: &mut TreeBuilder,
+    ) {
+        builder.start_internal(ty);
+        let (n_tokens, _) = self.fill(tokens, events, builder);
+        for &(t, _) in &tokens[n_tokens..] {
+            builder.leaf(t.ty, t.len);
+        }
+        builder.finish_internal();
+    }
+
     fn go(
         &self,
         ty: NodeType,
-- 
2.43.0


From 9a886f28b3cd7522fccaac2a207e8f006a977a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:53 +0000
Subject: [PATCH 14/24] fix: inject into a node which has been injected already

The link to the new parent was overwriting the link to the old one, so the
tree lost a node and had an unbalanced end.
---
 fall/parse/src/syn_engine/parser.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/fall/parse/src/syn_engine/parser.rs b/fall/parse/src/syn_engine/parser.rs
index 640938a..ef77633 100644
--- a/fall/parse/src/syn_engine/parser.rs
+++ b/fall/parse/src/syn_engine/parser.rs
@@ -254,10 +254,17 @@ impl<'g> Parser<'g> {
         if self.predicate_mode {
             return;
         }
-        match self.events[child.0 as usize] {
-            Event::Start { ref mut forward_parent, .. } =>
-                *forward_parent = Some(parent.0 - child.0),
-            _ => unreachable!(),
+        let mut child = child.0;
+        loop {
+            match self.events[child as usize] {
+                // The child has a parent already, so it is the parent that gets a new parent.
+                Event::Start { forward_parent: Some(next), .. } => child += next,
+                Event::Start { ref mut forward_parent, .. } => {
+                    *forward_parent = Some(parent.0 - child);
+                    break;
+                }
+                _ => unreachable!(),
+            }
         }
     }
 
-- 
2.43.0


From d29736f6c6521bbb98860a59341337981afd3851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:53 +0000
Subject: [PATCH 15/24] fix: arguments of a call which permutes the parameters
 of the caller

Arguments were evaluated one by one in place, so by the time the second
one is looked up its slot could have been overwritten by the first one.
---
 fall/parse/src/syn_engine/expr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fall/parse/src/syn_engine/expr.rs b/fall/parse/src/syn_engine/expr.rs
index 12facd3..e4fa607 100644
--- a/fall/parse/src/syn_engine/expr.rs
+++ b/fall/parse/src/syn_engine/expr.rs
@@ -330,7 +330,7 @@ fn parse_call<'g>(
     let old = p.args;
     for &(arg_pos, arg) in args {
         let arg = match p.grammar[arg] {
-            Expr::Var(i) => p.args[i.0 as usize].unwrap(),
+            Expr::Var(i) => old[i.0 as usize].unwrap(),
             _ => arg
         };
 
-- 
2.43.0


From 7805fed83d5dc7cf50fd65726edd2174299f3082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:49 +0000
Subject: [PATCH 16/24] fix: parser generator panics on a grammar it cannot
 compile

A private replacing rule, a misplaced <commit>, a non public rule in
<prev_is>, a repeated token accessor and names with double underscores were
all crashing the generator instead of making it return an error.
---
 fall/gen/src/generate/codegen.rs | 24 ++++++++++++++----------
 fall/gen/src/util.rs             |  8 +++++++-
 2 files changed, 21 insertions(+), 11 deletions(-)

diff --git a/fall/gen/src/generate/codegen.rs b/fall/gen/src/generate/codegen.rs
index 69c1a50..d742631 100644
--- a/fall/gen/src/generate/codegen.rs
+++ b/fall/gen/src/generate/codegen.rs
@@ -157,7 +157,7 @@ impl<'a, 'f> Codegen<'a, 'f> {
                 let pratt = dst::Expr::Pratt(Box::new(self.gen_pratt(block)?));
                 self.push_expr(pratt)
             }
-            (true, _) => unreachable!(),
+            (true, _) => return Err(format_err!("Bad pratt rule: {}", rule.node().text())),
             (false, body) => self.gen_expr(body)?
         };
 
@@ -179,15 +179,13 @@ impl<'a, 'f> Codegen<'a, 'f> {
                     replaceable: rule.is_replaceable(),
                 }
             }
-            (None, false, true) => {
-                assert_eq!(self.expressions.len() - 1, body.0 as usize);
-                dst::Expr::Cached(body)
-            }
+            (None, false, true) => dst::Expr::Cached(body),
             (None, false, false) => {
                 assert_eq!(self.expressions.len() - 1, body.0 as usize);
                 self.expressions.pop().unwrap()
             }
-            _ => unreachable!(),
+            (None, true, _) =>
+                return Err(format_err!("Only a pub rule can replace: {}", rule.node().text())),
         };
 
         Ok(body)
@@ -240,6 +238,7 @@ impl<'a, 'f> Codegen<'a, 'f> {
             }
 
             Expr::CallExpr(call) => {
+                let call_node = call.node();
                 let call = self.analysis.resolve_call(call)
                     .ok_or(format_err!("Failed to compile {}", call.node().text()))?;
 
@@ -277,9 +276,12 @@ impl<'a, 'f> Codegen<'a, 'f> {
                             .collect::<Result<Vec<_>>>()?,
                     ),
                     CallKind::PrevIs(tokens) => dst::Expr::PrevIs(
-                        tokens.iter().map(|&r| self.syn_rule_ty(r).unwrap()).collect()
+                        tokens.iter()
+                            .map(|&r| self.syn_rule_ty(r).ok_or(format_err!("No type in {}", call_node.text())))
+                            .collect::<Result<Vec<_>>>()?
                     ),
-                    CallKind::Commit => panic!("Should be handled specially"),
+                    CallKind::Commit =>
+                        return Err(format_err!("Misplaced {}", call_node.text())),
                 }
             }
             Expr::OptExpr(opt_expr) => dst::Expr::Opt(self.gen_expr(opt_expr.expr())?),
@@ -365,7 +367,8 @@ impl<'a, 'f> Codegen<'a, 'f> {
                         ("Option<rt::Text<'f>>".to_owned(),
                          format!("rt::child_of_type(self.node(), {}).map(|n| n.text())", node_type)),
 
-                    Arity::Many => unimplemented!(),
+                    Arity::Many =>
+                        return Err(format_err!("Repeated text accessor `{}`", method.node().text())),
                 }
             }
             MethodKind::NodeAccessor(kind, arity) => {
@@ -400,7 +403,8 @@ impl<'a, 'f> Codegen<'a, 'f> {
                             Arity::Optional =>
                                 ("Option<rt::Node<'f>>".to_owned(),
                                  format!("self.node().children().find(|n| n.ty() == {})", node_type)),
-                            Arity::Many => unimplemented!(),
+                            Arity::Many =>
+                                return Err(format_err!("Repeated token accessor `{}`", method.node().text())),
                         }
                     }
                 }
diff --git a/fall/gen/src/util.rs b/fall/gen/src/util.rs
index 6cc6350..c4df685 100644
--- a/fall/gen/src/util.rs
+++ b/fall/gen/src/util.rs
@@ -7,6 +7,12 @@ pub fn scream(word: Text) -> String {
 pub fn camel(word: Text) -> String {
     word.to_cow()
         .split("_")
-        .map(|w| w[..1].to_ascii_uppercase() + &w[1..])
+        .map(|w| {
+            let mut chars = w.chars();
+            match chars.next() {
+                Some(first) => first.to_ascii_uppercase().to_string() + chars.as_str(),
+                None => String::new(),
+            }
+        })
         .collect()
 }
-- 
2.43.0


From 537d33929481b62b28211959c4c60610b8e3df4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:35 +0000
Subject: [PATCH 17/24] fix: show what the compiler says about examples which
 do not build

Output of the build was not captured, so the message was always blank.
---
 fall/gen/src/lib.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/fall/gen/src/lib.rs b/fall/gen/src/lib.rs
index d994f6e..2b8a2aa 100644
--- a/fall/gen/src/lib.rs
+++ b/fall/gen/src/lib.rs
@@ -123,8 +123,7 @@ impl TestRenderer {
             .arg("build")
             .arg("--manifest-path")
             .arg(&toml)
-            .spawn()?
-            .wait_with_output()?;
+            .output()?;
 
         if !build.status.success() {
             let mut output = String::from_utf8(build.stderr).unwrap_or_default();
-- 
2.43.0


From f20ed17e46e208e9db951cfa0ba331176baa2168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:48 +0000
Subject: [PATCH 18/24] fix: an example which crashes does not crash the
 renderer

If the program with examples fails, show what it says and how it ended
instead of panicking. --quiet keeps the progress of cargo out of it.
---
 fall/gen/src/lib.rs | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/fall/gen/src/lib.rs b/fall/gen/src/lib.rs
index 2b8a2aa..e951f1c 100644
--- a/fall/gen/src/lib.rs
+++ b/fall/gen/src/lib.rs
@@ -134,10 +134,12 @@ impl TestRenderer {
 
         let mut child = Command::new("cargo")
             .arg("run")
+            .arg("--quiet")
             .arg("--manifest-path")
             .arg(&toml)
             .stdin(Stdio::piped())
             .stdout(Stdio::piped())
+            .stderr(Stdio::piped())
             .spawn()?;
 
         let tests: String = match test {
@@ -151,20 +153,15 @@ impl TestRenderer {
             )
         };
 
-        {
-            let stdin = child.stdin.as_mut().unwrap();
-            stdin.write_all(tests.as_bytes()).unwrap();
-            stdin.flush().unwrap();
-        }
-
+        let written = child.stdin.as_mut().unwrap().write_all(tests.as_bytes());
         let rendered = child.wait_with_output()?;
-        assert!(rendered.status.success());
-        let mut result = String::new();
-        if !rendered.stderr.is_empty() {
-            result += &::std::str::from_utf8(&rendered.stderr).unwrap();
-            result += "\n\n";
+        if !rendered.status.success() {
+            let mut output = String::from_utf8(rendered.stderr).unwrap_or_default();
+            output += &format!("\n\n{}", rendered.status);
+            return Ok(output);
         }
-        result += &::std::str::from_utf8(&rendered.stdout).unwrap();
+        written?;
+        let result = String::from_utf8(rendered.stdout)?;
         Ok(result)
     }
 }
-- 
2.43.0


From bb470e825eb10be0f9b2604395c73d398460463e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:47 +0000
Subject: [PATCH 19/24] fix: duplicate rules and contexts used once are
 reported even if nothing refers to them

---
 lang/fall/src/analysis/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lang/fall/src/analysis/mod.rs b/lang/fall/src/analysis/mod.rs
index e17ef6e..26c7c0c 100644
--- a/lang/fall/src/analysis/mod.rs
+++ b/lang/fall/src/analysis/mod.rs
@@ -66,6 +66,8 @@ impl<'f> Analysis<'f> {
         );
         self.db.get(query::UnusedRules);
         self.db.get(query::AllLexRules);
+        self.db.get(query::AllSynRules);
+        self.db.get(query::AllContexts);
 
         let mut result = self.db.diagnostics.lock().unwrap().clone();
         // Diagnostics arrive in the order in which queries happened to be executed,
-- 
2.43.0


From 3da40d3c9c9118d37c787a9253688f2cffe60b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:47 +0000
Subject: [PATCH 20/24] fix: editor requests for Rust do not panic at the start
 of a file and after short expressions

---
 lang/rust/src/editor/mod.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/lang/rust/src/editor/mod.rs b/lang/rust/src/editor/mod.rs
index 7a40883..6839981 100644
--- a/lang/rust/src/editor/mod.rs
+++ b/lang/rust/src/editor/mod.rs
@@ -29,6 +29,9 @@ impl RustEditorFile {
     }
 
     pub fn after_space_typed(&self, offset: TextUnit) -> Option<String> {
+        if offset < tu(1) {
+            return None;
+        }
         let let_kw = find_leaf_at_offset(self.file.root(), offset - tu(1)).left_biased()?;
         if let_kw.ty() != LET {
             return None;
@@ -44,16 +47,15 @@ impl RustEditorFile {
     }
 
     pub fn expand(&self, offset: TextUnit) -> Option<TextEdit> {
+        if offset < tu(2) {
+            return None;
+        }
         let leaf = find_leaf_at_offset(self.file.root(), offset - tu(2))
             .left_biased()?;
         let expr: ExprStmt = ast::ancestor(leaf)?;
         let mut edit = FileEdit::new(&self.file);
-        let text = self.file.text().slice(
-            TextRange::from_to(
-                expr.node().range().start(),
-                expr.node().range().end() - tu(3),
-            ),
-        );
+        let text = expr.node().text().to_cow();
+        let text = text.get(..text.len().checked_sub(3)?)?;
         edit.replace_substring(
             TextRange::from_to(expr.node().range().start(), offset),
             format!("eprintln!(\"{text} = {{:?}}\", {text});", text = text)
@@ -63,6 +65,9 @@ impl RustEditorFile {
     }
 
     pub fn breadcrumbs(&self, offset: TextUnit) -> Vec<String> {
+        if offset < tu(1) {
+            return Vec::new();
+        }
         let leaf = match find_leaf_at_offset(self.file.root(), offset - tu(1)).left_biased() {
             Some(leaf) => leaf,
             None => return Vec::new(),
-- 
2.43.0


From c03dc535c431c7ee348e05916d56095d4e5a9fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:02 +0000
Subject: [PATCH 21/24] fix: grammars the parser or the generated code cannot
 cope with are refused

Calls and references with the wrong number of arguments, a first rule that the
parser cannot start with, duplicate definitions and more parameters or contexts
than the parser has room for made a parser that panics or does not compile.
---
 fall/gen/src/generate/codegen.rs | 77 +++++++++++++++++++++++++++-----
 1 file changed, 66 insertions(+), 11 deletions(-)

diff --git a/fall/gen/src/generate/codegen.rs b/fall/gen/src/generate/codegen.rs
index d742631..655e03f 100644
--- a/fall/gen/src/generate/codegen.rs
+++ b/fall/gen/src/generate/codegen.rs
@@ -13,6 +13,10 @@ use crate::util::{scream, camel};
 
 pub type Result<T> = std::result::Result<T, ::failure::Error>;
 
+// The parser has room for so many.
+const MAX_PARAMS: usize = 16;
+const MAX_CONTEXTS: usize = 16;
+
 pub(super) struct Codegen<'a, 'f: 'a> {
     analysis: &'a Analysis<'f>,
     node_types: Vec<(Text<'f>, bool)>,
@@ -51,6 +55,7 @@ impl<'a, 'f> Codegen<'a, 'f> {
         let mut context = Context::new();
         context.insert("node_types", &self.node_types);
 
+        self.check_file()?;
         for _ in self.file().syn_rules() {
             self.expressions.push(dst::Expr::Any) // Placeholder
         }
@@ -150,6 +155,46 @@ impl<'a, 'f> Codegen<'a, 'f> {
         dst::Arg(idx as u32)
     }
 
+    /// What the parser, or the generated code, can't cope with.
+    fn check_file(&self) -> Result<()> {
+        let start = self.file().syn_rules().next()
+            .ok_or(format_err!("no rules defined"))?;
+        if !start.is_pub() || start.is_replaces() || start.parameters().is_some() {
+            return Err(format_err!(
+                "The first rule should be a public rule without parameters: {}", start.node().text()
+            ));
+        }
+        for (i, &(name, _)) in self.node_types.iter().enumerate() {
+            let name_const = scream(name);
+            if name_const == "ERROR" || self.node_types[..i].iter().any(|&(n, _)| scream(n) == name_const) {
+                return Err(format_err!("Duplicate definition: {}", name));
+            }
+        }
+        let n_params = self.file().syn_rules()
+            .filter_map(|rule| rule.parameters())
+            .flat_map(|p| p.parameters())
+            .count();
+        if n_params > MAX_PARAMS {
+            return Err(format_err!("{} parameters, at most {} are supported", n_params, MAX_PARAMS));
+        }
+        Ok(())
+    }
+
+    fn check_args(rule: SynRule<'f>, n_args: usize, node: Node<'f>) -> Result<()> {
+        let n_params = rule.parameters().map_or(0, |p| p.parameters().count());
+        if n_args != n_params {
+            return Err(format_err!("Expected {} arguments, got {}: {}", n_params, n_args, node.text()));
+        }
+        Ok(())
+    }
+
+    fn context(&self, idx: u32) -> Result<dst::Context> {
+        if idx as usize >= MAX_CONTEXTS {
+            return Err(format_err!("At most {} contexts are supported", MAX_CONTEXTS));
+        }
+        Ok(dst::Context(idx))
+    }
+
     fn gen_rule(&mut self, rule: SynRule<'f>) -> Result<dst::Expr> {
         let body = rule.body().ok_or(format_err!("Missing body: {}", rule.node().text()))?;
         let body = match (rule.is_pratt(), body) {
@@ -232,13 +277,17 @@ impl<'a, 'f> Codegen<'a, 'f> {
                             dst::Expr::Token(ty_ref)
                         }
                     }
-                    RefKind::RuleReference(rule) => return Ok(self.syn_rule_ref(rule)),
+                    RefKind::RuleReference(rule) => {
+                        Self::check_args(rule, 0, expr.node())?;
+                        return Ok(self.syn_rule_ref(rule));
+                    }
                     RefKind::Param(p) => dst::Expr::Var(self.param_ref(p)),
                 }
             }
 
             Expr::CallExpr(call) => {
                 let call_node = call.node();
+                let n_args = call.args().count();
                 let call = self.analysis.resolve_call(call)
                     .ok_or(format_err!("Failed to compile {}", call.node().text()))?;
 
@@ -246,15 +295,15 @@ impl<'a, 'f> Codegen<'a, 'f> {
                     CallKind::Eof => dst::Expr::Eof,
                     CallKind::Any => dst::Expr::Any,
                     CallKind::Enter(idx, expr) => dst::Expr::Enter(
-                        dst::Context(idx as u32),
+                        self.context(idx)?,
                         self.gen_expr(expr)?,
                     ),
                     CallKind::Exit(idx, expr) => dst::Expr::Exit(
-                        dst::Context(idx as u32),
+                        self.context(idx)?,
                         self.gen_expr(expr)?,
                     ),
                     CallKind::IsIn(idx) => dst::Expr::IsIn(
-                        dst::Context(idx as u32)
+                        self.context(idx)?
                     ),
                     CallKind::Not(expr) => dst::Expr::Not(self.gen_expr(expr)?),
                     CallKind::Layer(e1, e2) => dst::Expr::Layer(
@@ -269,12 +318,15 @@ impl<'a, 'f> Codegen<'a, 'f> {
                         self.gen_expr(e1)?,
                         self.gen_expr(e2)?,
                     ),
-                    CallKind::RuleCall(rule, args) => dst::Expr::Call(
-                        self.syn_rule_ref(rule),
-                        args.iter()
-                            .map(|&(p, e)| Ok((self.param_ref(p), self.gen_expr(e)?)))
-                            .collect::<Result<Vec<_>>>()?,
-                    ),
+                    CallKind::RuleCall(rule, args) => {
+                        Self::check_args(rule, n_args, call_node)?;
+                        dst::Expr::Call(
+                            self.syn_rule_ref(rule),
+                            args.iter()
+                                .map(|&(p, e)| Ok((self.param_ref(p), self.gen_expr(e)?)))
+                                .collect::<Result<Vec<_>>>()?,
+                        )
+                    }
                     CallKind::PrevIs(tokens) => dst::Expr::PrevIs(
                         tokens.iter()
                             .map(|&r| self.syn_rule_ty(r).ok_or(format_err!("No type in {}", call_node.text())))
@@ -296,7 +348,10 @@ impl<'a, 'f> Codegen<'a, 'f> {
             match alt {
                 Expr::SeqExpr(expr) => match expr.parts().next() {
                     Some(Expr::RefExpr(ref_)) => match analysis.resolve_reference(ref_) {
-                        Some(RefKind::RuleReference(rule)) => Ok(rule),
+                        Some(RefKind::RuleReference(rule)) => {
+                            Codegen::check_args(rule, 0, alt.node())?;
+                            Ok(rule)
+                        }
                         _ => return Err(format_err!("Bad pratt spec")),
                     },
                     _ => return Err(format_err!("Bad pratt spec"))
-- 
2.43.0


From 409c0a8adf649becf73a12dfb505fd5a04fa16e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:51 +0000
Subject: [PATCH 22/24] fix: grammars whose parser does not compile or panics
 are refused

---
 fall/gen/src/generate/codegen.rs | 111 ++++++++++++++++++++++++++++++-
 fall/gen/src/util.rs             |   2 +-
 2 files changed, 109 insertions(+), 4 deletions(-)

diff --git a/fall/gen/src/generate/codegen.rs b/fall/gen/src/generate/codegen.rs
index 655e03f..063e6b0 100644
--- a/fall/gen/src/generate/codegen.rs
+++ b/fall/gen/src/generate/codegen.rs
@@ -1,9 +1,12 @@
+use std::collections::HashSet;
+
+use regex::Regex;
 use serde_json;
 use tera::Context;
 
 use fall_tree::{Text, Node, AstNode};
 use lang_fall::syntax::{FallFile, SynRule, LexRule, Expr, BlockExpr,
-                        MethodDef, Parameter};
+                        AstDef, AstClassDef, MethodDef, Parameter};
 use lang_fall::{RefKind, CallKind, MethodKind, Analysis, PratVariant, PrattOp, Arity, ChildKind};
 
 use fall_parse as dst;
@@ -17,6 +20,19 @@ pub type Result<T> = std::result::Result<T, ::failure::Error>;
 const MAX_PARAMS: usize = 16;
 const MAX_CONTEXTS: usize = 16;
 
+// Types the generated code uses unqualified.
+const RESERVED_TYPES: &[&str] = &[
+    "AstNode", "Box", "Default", "Option", "Self", "Send", "Sync",
+];
+
+const KEYWORDS: &[&str] = &[
+    "abstract", "as", "async", "await", "become", "box", "break", "const", "continue", "crate",
+    "do", "dyn", "else", "enum", "extern", "false", "final", "fn", "for", "if", "impl", "in",
+    "let", "loop", "macro", "match", "mod", "move", "mut", "override", "priv", "pub", "ref",
+    "return", "self", "static", "struct", "super", "trait", "true", "try", "type", "typeof",
+    "unsafe", "unsized", "use", "virtual", "where", "while", "yield",
+];
+
 pub(super) struct Codegen<'a, 'f: 'a> {
     analysis: &'a Analysis<'f>,
     node_types: Vec<(Text<'f>, bool)>,
@@ -63,7 +79,9 @@ impl<'a, 'f> Codegen<'a, 'f> {
             let expr = self.gen_rule(r)?;
             self.expressions[i] = expr;
         }
-        let parser = serde_json::to_string(&self.expressions).unwrap();
+        // The generated code has it in a raw string.
+        let parser = serde_json::to_string(&self.expressions).unwrap()
+            .replace("\"#", "\"\\u0023");
         context.insert("parser_json", &parser);
 
         let lex_rules = self.file().tokenizer_def()
@@ -72,6 +90,12 @@ impl<'a, 'f> Codegen<'a, 'f> {
             .filter(|r| !r.is_contextual())
             .map(|r| {
                 let re = r.token_re().ok_or(format_err!("Bad token"))?;
+                let is_empty = Regex::new(&format!("^({})", re))
+                    .map_err(|e| format_err!("Bad token {}: {}", r.node_type(), e))?
+                    .is_match("");
+                if is_empty && r.extern_fn().is_none() {
+                    return Err(format_err!("Token matches the empty string: {}", r.node_type()));
+                }
                 Ok(CtxLexRule { ty: r.node_type(), re: format!("{:?}", re), f: r.extern_fn() })
             }).collect::<Result<Vec<_>>>()?;
 
@@ -159,13 +183,21 @@ impl<'a, 'f> Codegen<'a, 'f> {
     fn check_file(&self) -> Result<()> {
         let start = self.file().syn_rules().next()
             .ok_or(format_err!("no rules defined"))?;
-        if !start.is_pub() || start.is_replaces() || start.parameters().is_some() {
+        if !start.is_pub() || start.is_pratt() || start.is_replaces() || start.parameters().is_some() {
             return Err(format_err!(
                 "The first rule should be a public rule without parameters: {}", start.node().text()
             ));
         }
+        for rule in self.file().syn_rules() {
+            if rule.is_pub() && !rule.is_pratt() && self.syn_rule_ty(rule).is_none() {
+                return Err(format_err!("No type for the rule: {}", rule.node().text()));
+            }
+        }
         for (i, &(name, _)) in self.node_types.iter().enumerate() {
             let name_const = scream(name);
+            if !is_identifier(&name_const) || name_const == "LANG" {
+                return Err(format_err!("Bad name: {}", name));
+            }
             if name_const == "ERROR" || self.node_types[..i].iter().any(|&(n, _)| scream(n) == name_const) {
                 return Err(format_err!("Duplicate definition: {}", name));
             }
@@ -177,6 +209,49 @@ impl<'a, 'f> Codegen<'a, 'f> {
         if n_params > MAX_PARAMS {
             return Err(format_err!("{} parameters, at most {} are supported", n_params, MAX_PARAMS));
         }
+        if let Some(ast) = self.file().ast_def() {
+            self.check_ast(ast)?;
+        }
+        Ok(())
+    }
+
+    fn check_ast(&self, ast: AstDef<'f>) -> Result<()> {
+        let mut types = HashSet::new();
+        for node in ast.ast_nodes() {
+            let name = defined_name(node.name(), node.node())?;
+            let node_type = scream(name);
+            if !self.node_types.iter().any(|&(ty, _)| scream(ty) == node_type) {
+                return Err(format_err!("No rule for the node {}", name));
+            }
+            check_type(&mut types, name)?;
+            check_methods(node.methods())?;
+        }
+
+        // A class is fine if everything in it is: it can't contain itself.
+        let mut known = types.clone();
+        let mut classes = ast.ast_classes().collect::<Vec<_>>();
+        for class in classes.iter() {
+            check_type(&mut types, defined_name(class.name(), class.node())?)?;
+        }
+        while !classes.is_empty() {
+            let (fine, rest): (Vec<AstClassDef>, Vec<AstClassDef>) = classes.into_iter().partition(|class| {
+                let variants = class.variants().map(camel).collect::<Vec<_>>();
+                let distinct = variants.iter().collect::<HashSet<_>>();
+                !variants.is_empty()
+                    && distinct.len() == variants.len()
+                    && variants.iter().all(|it| known.contains(it))
+            });
+            if fine.is_empty() {
+                return Err(format_err!("Bad class: {}", rest[0].node().text()));
+            }
+            known.extend(fine.iter().filter_map(|class| class.name()).map(camel));
+            classes = rest;
+        }
+
+        for trait_ in ast.ast_traits() {
+            check_type(&mut types, defined_name(trait_.name(), trait_.node())?)?;
+            check_methods(trait_.methods())?;
+        }
         Ok(())
     }
 
@@ -270,6 +345,7 @@ impl<'a, 'f> Codegen<'a, 'f> {
                             dst::Expr::ContextualToken(
                                 ty_ref,
                                 rule.token_text()
+                                    .filter(|text| !text.is_empty())
                                     .ok_or(format_err!("Missing contextual token text"))?
                                     .to_string(),
                             )
@@ -470,6 +546,35 @@ impl<'a, 'f> Codegen<'a, 'f> {
     }
 }
 
+fn is_identifier(name: &str) -> bool {
+    name != "_" && name.starts_with(|c: char| c == '_' || c.is_alphabetic())
+}
+
+fn check_type<'f>(types: &mut HashSet<String>, name: Text<'f>) -> Result<()> {
+    let ty = camel(name);
+    if !is_identifier(&ty) || RESERVED_TYPES.contains(&ty.as_str()) {
+        return Err(format_err!("Bad name: {}", name));
+    }
+    if !types.insert(ty) {
+        return Err(format_err!("Duplicate definition: {}", name));
+    }
+    Ok(())
+}
+
+fn check_methods<'f>(methods: impl Iterator<Item=MethodDef<'f>>) -> Result<()> {
+    let mut names = HashSet::new();
+    for method in methods {
+        let name = method.name().to_string();
+        if !is_identifier(&name) || name == "node" || KEYWORDS.contains(&name.as_str()) {
+            return Err(format_err!("Bad name: {}", method.node().text()));
+        }
+        if !names.insert(name) {
+            return Err(format_err!("Duplicate definition: {}", method.node().text()));
+        }
+    }
+    Ok(())
+}
+
 fn defined_name<'f>(name: Option<Text<'f>>, node: Node<'f>) -> Result<Text<'f>> {
     name.ok_or(format_err!("Missing name: {}", node.text()))
 }
diff --git a/fall/gen/src/util.rs b/fall/gen/src/util.rs
index c4df685..3a68f7f 100644
--- a/fall/gen/src/util.rs
+++ b/fall/gen/src/util.rs
@@ -1,7 +1,7 @@
 use fall_tree::Text;
 
 pub fn scream(word: Text) -> String {
-    word.to_cow().chars().map(|c| c.to_ascii_uppercase()).collect()
+    word.to_cow().to_uppercase()
 }
 
 pub fn camel(word: Text) -> String {
-- 
2.43.0


From 0d378e63175a036a29f39c4421c70f851de538c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:51 +0000
Subject: [PATCH 23/24] fix: a source left half written by an interrupted
 rendering made all later ones fail

---
 fall/gen/src/lib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fall/gen/src/lib.rs b/fall/gen/src/lib.rs
index e951f1c..e8f5aae 100644
--- a/fall/gen/src/lib.rs
+++ b/fall/gen/src/lib.rs
@@ -180,8 +180,9 @@ fn fall_dir() -> PathBuf {
 
 fn put_text_if_changed(path: &Path, text: &str) -> ::std::io::Result<()> {
     if path.exists() {
-        let old_text = fs::read_to_string(path)?;
-        if old_text == text {
+        // It need not be UTF-8 if writing it was interrupted.
+        let old_text = fs::read(path)?;
+        if old_text == text.as_bytes() {
             return Ok(());
         }
     }
-- 
2.43.0


From 0eee212bbdd928ba11a57962126895a1af470436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:37 +0000
Subject: [PATCH 24/24] fix: the fall parser took exponential time on unclosed
 braces

---
 lang/fall/syntax/src/fall.fall | 2 +-
 lang/fall/syntax/src/fall.rs   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lang/fall/syntax/src/fall.fall b/lang/fall/syntax/src/fall.fall
index b3f1ece..0784402 100644
--- a/lang/fall/syntax/src/fall.fall
+++ b/lang/fall/syntax/src/fall.fall
@@ -233,7 +233,7 @@ rule in_parens { <balanced '(' ')'> }
 rule in_bracks { <balanced '[' ']'> }
 
 rule balanced(bra, ket) {
-  { bra <balanced bra ket> ket
+  { bra <commit> <balanced bra ket> ket
   | {<not ket> <any>}
   }*
 }
diff --git a/lang/fall/syntax/src/fall.rs b/lang/fall/syntax/src/fall.rs
index 21d98e1..6236b2e 100644
--- a/lang/fall/syntax/src/fall.rs
+++ b/lang/fall/syntax/src/fall.rs
@@ -83,7 +83,7 @@ pub fn language() -> &'static rt::Language {
         ])
     }
     fn create_parser_definition() -> rt::ParserDefinition {
-        let parser_json = r##"[{"Pub":{"ty":32,"body":37,"replaceable":false}},{"Or":[39,41,43,45,47,49,51]},{"Or":[52,53,54,55,56]},{"Pub":{"ty":33,"body":77,"replaceable":false}},{"Pub":{"ty":34,"body":83,"replaceable":false}},{"Pub":{"ty":35,"body":86,"replaceable":false}},{"Pratt":{"atoms":[12,7,9],"prefixes":[],"infixes":[{"ty":39,"op":87,"priority":999,"has_rhs":false},{"ty":40,"op":88,"priority":999,"has_rhs":false}]}},{"Pub":{"ty":36,"body":93,"replaceable":false}},{"Pub":{"ty":37,"body":96,"replaceable":false}},{"Pub":{"ty":38,"body":106,"replaceable":false}},{"Pub":{"ty":39,"body":109,"replaceable":false}},{"Pub":{"ty":40,"body":112,"replaceable":false}},{"Pub":{"ty":41,"body":118,"replaceable":false}},{"Pub":{"ty":42,"body":123,"replaceable":false}},{"Pub":{"ty":43,"body":128,"replaceable":false}},{"Pub":{"ty":44,"body":132,"replaceable":false}},{"Pub":{"ty":45,"body":139,"replaceable":false}},{"Pub":{"ty":46,"body":147,"replaceable":false}},{"Pub":{"ty":47,"body":152,"replaceable":false}},{"Pub":{"ty":48,"body":157,"replaceable":false}},{"Or":[167]},{"Or":[172]},{"Or":[176]},{"Or":[180]},{"Or":[184]},{"Or":[199]},{"Pub":{"ty":49,"body":203,"replaceable":false}},{"Pub":{"ty":50,"body":221,"replaceable":false}},{"Pub":{"ty":51,"body":242,"replaceable":false}},{"Pub":{"ty":52,"body":249,"replaceable":false}},{"Pub":{"ty":53,"body":255,"replaceable":false}},{"Pub":{"ty":54,"body":258,"replaceable":false}},{"Pub":{"ty":55,"body":262,"replaceable":false}},{"Or":[266,269,271,273]},{"WithSkip":[1,2]},{"Rep":34},{"And":[[35],null]},{"Or":[36]},{"ContextualToken":[6,"tokenizer"]},{"And":[[38],null]},{"ContextualToken":[10,"pub"]},{"And":[[40],null]},{"ContextualToken":[7,"rule"]},{"And":[[42],null]},{"Token":19},{"And":[[44],null]},{"ContextualToken":[8,"verbatim"]},{"And":[[46],null]},{"ContextualToken":[9,"ast"]},{"And":[[48],null]},{"ContextualToken":[11,"test"]},{"And":[[50],null]},{"And":[[13],null]},{"And":[[3],null]},{"And":[[26],null]},{"And":[[27],null]},{"And":[[15],null]},{"Opt":16},{"ContextualToken":[10,"pub"]},{"Opt":58},{"ContextualToken":[7,"rule"]},{"Token":31},{"Opt":4},{"Token":20},{"Token":21},{"And":[[63,22,64],null]},{"Token":20},{"Not":1},"Any",{"And":[[67,68],null]},{"Or":[69]},{"Rep":70},{"And":[[66,71],null]},{"Or":[65,72]},{"Layer":[73,9]},{"And":[[57,59,60,61,62,74],3]},{"Or":[75]},{"Cached":76},{"Token":26},{"Call":[20,[[0,5]]]},{"Layer":[23,79]},{"Token":27},{"And":[[78,80,81],null]},{"Or":[82]},{"Token":31},{"And":[[84],null]},{"Or":[85]},{"Token":15},{"Token":14},{"Token":31},{"And":[[89],null]},{"Token":29},{"And":[[91],null]},{"Or":[90,92]},{"Rep":6},{"And":[[94],null]},{"Or":[95]},{"Opt":8},{"Token":13},{"And":[[98,8],null]},{"Or":[99]},{"Rep":100},{"And":[[97,101],null]},{"Or":[102]},{"Call":[21,[[1,103]]]},{"And":[[104],null]},{"Or":[105]},{"Token":15},{"And":[[6,107],null]},{"Or":[108]},{"Token":14},{"And":[[6,110],null]},{"Or":[111]},{"Token":24},{"Token":31},{"Rep":6},{"Token":25},{"And":[[113,114,115,116],null]},{"Or":[117]},{"ContextualToken":[6,"tokenizer"]},{"Rep":14},{"Call":[21,[[1,120]]]},{"And":[[119,121],1]},{"Or":[122]},{"Opt":16},{"Token":31},{"Opt":19},{"And":[[124,125,19,126],2]},{"Or":[127]},{"ContextualToken":[11,"test"]},{"Token":30},{"And":[[129,130],1]},{"Or":[131]},{"Token":19},{"Token":22},{"Call":[20,[[0,17]]]},{"Layer":[24,135]},{"Token":23},{"And":[[133,134,136,137],null]},{"Or":[138]},{"Token":31},{"Token":26},{"Token":27},{"And":[[141,18,142],null]},{"Or":[143]},{"Opt":144},{"And":[[140,145],null]},{"Or":[146]},{"Token":28},{"And":[[148],null]},{"Token":31},{"And":[[150],null]},{"Or":[149,151]},{"Token":29},{"And":[[153],null]},{"Token":30},{"And":[[155],null]},{"Or":[154,156]},{"Var":0},"Eof",{"And":[[159],null]},{"Token":17},{"And":[[161],null]},{"Or":[160,162]},{"And":[[158,163],1]},{"Or":[164]},{"Rep":165},{"And":[[166],null]},{"Token":20},{"Var":1},{"Layer":[22,169]},{"Token":21},{"And":[[168,170,171],1]},{"Token":20},{"Token":21},{"Call":[25,[[2,173],[3,174]]]},{"And":[[175],null]},{"Token":26},{"Token":27},{"Call":[25,[[2,177],[3,178]]]},{"And":[[179],null]},{"Token":22},{"Token":23},{"Call":[25,[[2,181],[3,182]]]},{"And":[[183],null]},{"Var":2},{"Var":2},{"Var":3},{"Call":[25,[[2,186],[3,187]]]},{"Var":3},{"And":[[185,188,189],null]},{"Var":3},{"Not":191},"Any",{"And":[[192,193],null]},{"Or":[194]},{"And":[[195],null]},{"Or":[190,196]},{"Rep":197},{"And":[[198],null]},{"ContextualToken":[8,"verbatim"]},{"Token":30},{"And":[[200,201],1]},{"Or":[202]},{"ContextualToken":[9,"ast"]},{"Token":20},{"ContextualToken":[3,"node"]},{"And":[[206],null]},{"ContextualToken":[4,"class"]},{"And":[[208],null]},{"ContextualToken":[5,"trait"]},{"And":[[210],null]},{"Or":[207,209,211]},{"And":[[28],null]},{"And":[[29],null]},{"And":[[30],null]},{"Or":[213,214,215]},{"WithSkip":[212,216]},{"Rep":217},{"Token":21},{"And":[[204,205,218,219],1]},{"Or":[220]},{"ContextualToken":[3,"node"]},{"Token":31},{"Token":18},{"Token":31},{"Token":17},{"And":[[226],null]},{"Token":20},{"Not":228},{"Not":229},{"And":[[230],null]},{"Or":[227,231]},{"And":[[225,232],null]},{"Or":[233]},{"Rep":234},{"And":[[224,235],null]},{"Or":[236]},{"Opt":237},{"Rep":31},{"Call":[21,[[1,239]]]},{"And":[[222,223,238,240],1]},{"Or":[241]},{"ContextualToken":[4,"class"]},{"Token":31},{"Token":31},{"Rep":245},{"Call":[21,[[1,246]]]},{"And":[[243,244,247],1]},{"Or":[248]},{"ContextualToken":[5,"trait"]},{"Token":31},{"Rep":31},{"Call":[21,[[1,252]]]},{"And":[[250,251,253],1]},{"Or":[254]},{"Token":31},{"And":[[256,32],null]},{"Or":[257]},{"Token":31},{"Opt":33},{"And":[[259,260],null]},{"Or":[261]},{"Token":15},{"Token":16},{"Token":31},{"And":[[263,264,265],null]},{"Token":16},{"Token":31},{"And":[[267,268],null]},{"Token":14},{"And":[[270],null]},{"Token":15},{"And":[[272],null]}]"##;
+        let parser_json = r##"[{"Pub":{"ty":32,"body":37,"replaceable":false}},{"Or":[39,41,43,45,47,49,51]},{"Or":[52,53,54,55,56]},{"Pub":{"ty":33,"body":77,"replaceable":false}},{"Pub":{"ty":34,"body":83,"replaceable":false}},{"Pub":{"ty":35,"body":86,"replaceable":false}},{"Pratt":{"atoms":[12,7,9],"prefixes":[],"infixes":[{"ty":39,"op":87,"priority":999,"has_rhs":false},{"ty":40,"op":88,"priority":999,"has_rhs":false}]}},{"Pub":{"ty":36,"body":93,"replaceable":false}},{"Pub":{"ty":37,"body":96,"replaceable":false}},{"Pub":{"ty":38,"body":106,"replaceable":false}},{"Pub":{"ty":39,"body":109,"replaceable":false}},{"Pub":{"ty":40,"body":112,"replaceable":false}},{"Pub":{"ty":41,"body":118,"replaceable":false}},{"Pub":{"ty":42,"body":123,"replaceable":false}},{"Pub":{"ty":43,"body":128,"replaceable":false}},{"Pub":{"ty":44,"body":132,"replaceable":false}},{"Pub":{"ty":45,"body":139,"replaceable":false}},{"Pub":{"ty":46,"body":147,"replaceable":false}},{"Pub":{"ty":47,"body":152,"replaceable":false}},{"Pub":{"ty":48,"body":157,"replaceable":false}},{"Or":[167]},{"Or":[172]},{"Or":[176]},{"Or":[180]},{"Or":[184]},{"Or":[199]},{"Pub":{"ty":49,"body":203,"replaceable":false}},{"Pub":{"ty":50,"body":221,"replaceable":false}},{"Pub":{"ty":51,"body":242,"replaceable":false}},{"Pub":{"ty":52,"body":249,"replaceable":false}},{"Pub":{"ty":53,"body":255,"replaceable":false}},{"Pub":{"ty":54,"body":258,"replaceable":false}},{"Pub":{"ty":55,"body":262,"replaceable":false}},{"Or":[266,269,271,273]},{"WithSkip":[1,2]},{"Rep":34},{"And":[[35],null]},{"Or":[36]},{"ContextualToken":[6,"tokenizer"]},{"And":[[38],null]},{"ContextualToken":[10,"pub"]},{"And":[[40],null]},{"ContextualToken":[7,"rule"]},{"And":[[42],null]},{"Token":19},{"And":[[44],null]},{"ContextualToken":[8,"verbatim"]},{"And":[[46],null]},{"ContextualToken":[9,"ast"]},{"And":[[48],null]},{"ContextualToken":[11,"test"]},{"And":[[50],null]},{"And":[[13],null]},{"And":[[3],null]},{"And":[[26],null]},{"And":[[27],null]},{"And":[[15],null]},{"Opt":16},{"ContextualToken":[10,"pub"]},{"Opt":58},{"ContextualToken":[7,"rule"]},{"Token":31},{"Opt":4},{"Token":20},{"Token":21},{"And":[[63,22,64],null]},{"Token":20},{"Not":1},"Any",{"And":[[67,68],null]},{"Or":[69]},{"Rep":70},{"And":[[66,71],null]},{"Or":[65,72]},{"Layer":[73,9]},{"And":[[57,59,60,61,62,74],3]},{"Or":[75]},{"Cached":76},{"Token":26},{"Call":[20,[[0,5]]]},{"Layer":[23,79]},{"Token":27},{"And":[[78,80,81],null]},{"Or":[82]},{"Token":31},{"And":[[84],null]},{"Or":[85]},{"Token":15},{"Token":14},{"Token":31},{"And":[[89],null]},{"Token":29},{"And":[[91],null]},{"Or":[90,92]},{"Rep":6},{"And":[[94],null]},{"Or":[95]},{"Opt":8},{"Token":13},{"And":[[98,8],null]},{"Or":[99]},{"Rep":100},{"And":[[97,101],null]},{"Or":[102]},{"Call":[21,[[1,103]]]},{"And":[[104],null]},{"Or":[105]},{"Token":15},{"And":[[6,107],null]},{"Or":[108]},{"Token":14},{"And":[[6,110],null]},{"Or":[111]},{"Token":24},{"Token":31},{"Rep":6},{"Token":25},{"And":[[113,114,115,116],null]},{"Or":[117]},{"ContextualToken":[6,"tokenizer"]},{"Rep":14},{"Call":[21,[[1,120]]]},{"And":[[119,121],1]},{"Or":[122]},{"Opt":16},{"Token":31},{"Opt":19},{"And":[[124,125,19,126],2]},{"Or":[127]},{"ContextualToken":[11,"test"]},{"Token":30},{"And":[[129,130],1]},{"Or":[131]},{"Token":19},{"Token":22},{"Call":[20,[[0,17]]]},{"Layer":[24,135]},{"Token":23},{"And":[[133,134,136,137],null]},{"Or":[138]},{"Token":31},{"Token":26},{"Token":27},{"And":[[141,18,142],null]},{"Or":[143]},{"Opt":144},{"And":[[140,145],null]},{"Or":[146]},{"Token":28},{"And":[[148],null]},{"Token":31},{"And":[[150],null]},{"Or":[149,151]},{"Token":29},{"And":[[153],null]},{"Token":30},{"And":[[155],null]},{"Or":[154,156]},{"Var":0},"Eof",{"And":[[159],null]},{"Token":17},{"And":[[161],null]},{"Or":[160,162]},{"And":[[158,163],1]},{"Or":[164]},{"Rep":165},{"And":[[166],null]},{"Token":20},{"Var":1},{"Layer":[22,169]},{"Token":21},{"And":[[168,170,171],1]},{"Token":20},{"Token":21},{"Call":[25,[[2,173],[3,174]]]},{"And":[[175],null]},{"Token":26},{"Token":27},{"Call":[25,[[2,177],[3,178]]]},{"And":[[179],null]},{"Token":22},{"Token":23},{"Call":[25,[[2,181],[3,182]]]},{"And":[[183],null]},{"Var":2},{"Var":2},{"Var":3},{"Call":[25,[[2,186],[3,187]]]},{"Var":3},{"And":[[185,188,189],1]},{"Var":3},{"Not":191},"Any",{"And":[[192,193],null]},{"Or":[194]},{"And":[[195],null]},{"Or":[190,196]},{"Rep":197},{"And":[[198],null]},{"ContextualToken":[8,"verbatim"]},{"Token":30},{"And":[[200,201],1]},{"Or":[202]},{"ContextualToken":[9,"ast"]},{"Token":20},{"ContextualToken":[3,"node"]},{"And":[[206],null]},{"ContextualToken":[4,"class"]},{"And":[[208],null]},{"ContextualToken":[5,"trait"]},{"And":[[210],null]},{"Or":[207,209,211]},{"And":[[28],null]},{"And":[[29],null]},{"And":[[30],null]},{"Or":[213,214,215]},{"WithSkip":[212,216]},{"Rep":217},{"Token":21},{"And":[[204,205,218,219],1]},{"Or":[220]},{"ContextualToken":[3,"node"]},{"Token":31},{"Token":18},{"Token":31},{"Token":17},{"And":[[226],null]},{"Token":20},{"Not":228},{"Not":229},{"And":[[230],null]},{"Or":[227,231]},{"And":[[225,232],null]},{"Or":[233]},{"Rep":234},{"And":[[224,235],null]},{"Or":[236]},{"Opt":237},{"Rep":31},{"Call":[21,[[1,239]]]},{"And":[[222,223,238,240],1]},{"Or":[241]},{"ContextualToken":[4,"class"]},{"Token":31},{"Token":31},{"Rep":245},{"Call":[21,[[1,246]]]},{"And":[[243,244,247],1]},{"Or":[248]},{"ContextualToken":[5,"trait"]},{"Token":31},{"Rep":31},{"Call":[21,[[1,252]]]},{"And":[[250,251,253],1]},{"Or":[254]},{"Token":31},{"And":[[256,32],null]},{"Or":[257]},{"Token":31},{"Opt":33},{"And":[[259,260],null]},{"Or":[261]},{"Token":15},{"Token":16},{"Token":31},{"And":[[263,264,265],null]},{"Token":16},{"Token":31},{"And":[[267,268],null]},{"Token":14},{"And":[[270],null]},{"Token":15},{"And":[[272],null]}]"##;
         ::fall_parse::ParserDefinition {
             node_types: vec![
                 rt::ERROR,
-- 
2.43.0

