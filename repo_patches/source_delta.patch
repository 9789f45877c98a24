From 5320b59e59100e8eb70bb4b9dbd05b890aae3d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:52 +0000
Subject: [PATCH 01/64] fix: accept ink! attribute argument values surrounded
 by comments

---
 crates/ir/src/attrs/meta/value.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/crates/ir/src/attrs/meta/value.rs b/crates/ir/src/attrs/meta/value.rs
index 12fe0ec..b0cb142 100644
--- a/crates/ir/src/attrs/meta/value.rs
+++ b/crates/ir/src/attrs/meta/value.rs
@@ -61,7 +61,8 @@ impl MetaValue {
             // Ref: <https://doc.rust-lang.org/reference/expressions/path-expr.html>.
             // NOTE: `_` is already handled as a token above, so underscore expressions are ignored.
             // Ref: <https://doc.rust-lang.org/reference/expressions/underscore-expr.html>.
-            let arg_text = elems.iter().map(ToString::to_string).join("");
+            // NOTE: Comments surrounding the value aren't part of the expression.
+            let arg_text = trim_trivia(elems).iter().join("");
             if let Some(expr) = ra_ap_syntax::hacks::parse_expr_from_str(&arg_text) {
                 if matches!(expr, ast::Expr::Literal(_) | ast::Expr::PathExpr(_)) {
                     return Some(Self {
@@ -243,6 +244,18 @@ impl MetaValue {
     }
 }
 
+/// Strips leading and trailing trivia (i.e. whitespace and comments).
+fn trim_trivia(elems: &[SyntaxElement]) -> &[SyntaxElement] {
+    let is_not_trivia = |elem: &SyntaxElement| !elem.kind().is_trivia();
+    match (
+        elems.iter().position(is_not_trivia),
+        elems.iter().rposition(is_not_trivia),
+    ) {
+        (Some(start), Some(end)) => &elems[start..=end],
+        _ => &[],
+    }
+}
+
 impl fmt::Display for MetaValue {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         if let Some(token) = &self.token {
-- 
2.43.0


From 325750ed786416b70f9fe22e9b5152049bea73d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:52 +0000
Subject: [PATCH 02/64] fix: ignore all trivia (not only spaces) when comparing
 paths

---
 crates/ir/src/tree/ast_ext.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/crates/ir/src/tree/ast_ext.rs b/crates/ir/src/tree/ast_ext.rs
index a7a45c8..1c49a1b 100644
--- a/crates/ir/src/tree/ast_ext.rs
+++ b/crates/ir/src/tree/ast_ext.rs
@@ -291,7 +291,6 @@ pub fn simple_use_paths_and_aliases_in_scope(
         .flatten();
 
     for (path, alias_option) in use_results {
-        let path = remove_whitespace(&path);
         match alias_option {
             None => {
                 use_paths.insert(path);
@@ -323,9 +322,14 @@ pub fn path_from_type(ty: &ast::Type) -> Option<ast::Path> {
 
 /// Converts a path to a string.
 ///
-/// **NOTE**: Removes whitespace.
+/// **NOTE**: Removes trivia (i.e. whitespace and comments).
 pub fn path_to_string(path: &ast::Path) -> String {
-    remove_whitespace(&path.to_string())
+    path.syntax()
+        .descendants_with_tokens()
+        .filter_map(|elem| elem.into_token())
+        .filter(|token| !token.kind().is_trivia())
+        .map(|token| token.to_string())
+        .collect()
 }
 
 // Returns the item list syntax node for the given syntax node.
@@ -370,9 +374,9 @@ fn flatten_use_tree(use_tree: &ast::UseTree) -> Vec<(String, Option<String>)> {
                 .map(|(sub_path, alias)| {
                     (
                         if sub_path == "self" {
-                            path_prefix.to_string()
+                            path_to_string(&path_prefix)
                         } else {
-                            format!("{path_prefix}::{sub_path}")
+                            format!("{}::{sub_path}", path_to_string(&path_prefix))
                         },
                         alias,
                     )
@@ -397,10 +401,6 @@ fn flatten_use_tree(use_tree: &ast::UseTree) -> Vec<(String, Option<String>)> {
     }
 }
 
-fn remove_whitespace(text: &str) -> String {
-    text.replace(' ', "")
-}
-
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 699673c6fa480e8fe4136ca81d8136f9898fe169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:52 +0000
Subject: [PATCH 03/64] fix: compare trait definition signatures without regard
 to nested trivia

---
 crates/analyzer/src/analysis/utils.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/crates/analyzer/src/analysis/utils.rs b/crates/analyzer/src/analysis/utils.rs
index dae4328..8dc552a 100644
--- a/crates/analyzer/src/analysis/utils.rs
+++ b/crates/analyzer/src/analysis/utils.rs
@@ -2052,12 +2052,14 @@ where
 
 /// Compares two node for equality while ignoring trivia (i.e. whitespace and comments).
 pub fn is_trivia_insensitive_eq(a: &SyntaxNode, b: &SyntaxNode) -> bool {
-    let strip_trivia = |node: &SyntaxNode| {
-        node.children_with_tokens()
-            .filter(|node| !node.kind().is_trivia())
-            .join("")
+    let non_trivia_tokens = |node: &SyntaxNode| {
+        node.descendants_with_tokens()
+            .filter_map(|elem| elem.into_token())
+            .filter(|token| !token.kind().is_trivia())
+            .map(|token| token.to_string())
+            .collect::<Vec<_>>()
     };
-    strip_trivia(a) == strip_trivia(b)
+    non_trivia_tokens(a) == non_trivia_tokens(b)
 }
 
 /// Returns true if the syntax node is a trait definition implementation message.
-- 
2.43.0


From 1014d44c925c2ca2b1e197120b8abcedabe8920b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:16 +0000
Subject: [PATCH 04/64] fix: don't flag arguments of storage_item and
 scale_derive macros used together

---
 crates/analyzer/src/analysis/diagnostics/common.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/analyzer/src/analysis/diagnostics/common.rs b/crates/analyzer/src/analysis/diagnostics/common.rs
index 31db307..591d378 100644
--- a/crates/analyzer/src/analysis/diagnostics/common.rs
+++ b/crates/analyzer/src/analysis/diagnostics/common.rs
@@ -1084,6 +1084,14 @@ fn validate_entity_attributes(
                 });
             } else {
                 // Handle argument level conflicts if the top level attribute kind doesn't conflict.
+                // NOTE: A valid sibling attribute macro (i.e. `scale_derive` or `storage_item`)
+                // accepts its own arguments, not the primary attribute's arguments.
+                let valid_attr_args = match attr.kind() {
+                    InkAttributeKind::Macro(_) => {
+                        utils::valid_sibling_ink_args(*attr.kind(), version)
+                    }
+                    InkAttributeKind::Arg(_) => valid_sibling_args.clone(),
+                };
                 for arg in attr.args() {
                     // Checks if this arg kind is the same as the one being used by the attribute,
                     // which is already known to not be conflicting (or at least not deserving of flagging)
@@ -1093,7 +1101,7 @@ fn validate_entity_attributes(
                     // Ignore arg if it's already been handled at attribute level or
                     // reported as deprecated.
                     if !is_attr_kind
-                        && !valid_sibling_args.contains(arg.kind())
+                        && !valid_attr_args.contains(arg.kind())
                         && !is_already_reported_as_deprecated(arg)
                     {
                         // Edit range for quickfix.
-- 
2.43.0


From ec9ba457c1eb9f128e5b5787e216177152040d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:17 +0000
Subject: [PATCH 05/64] fix: consider all derive attributes (and ignore
 comments) when checking SCALE codec traits

---
 .../src/analysis/diagnostics/common.rs        | 109 ++++++++----------
 crates/analyzer/src/analysis/utils.rs         |  21 ++++
 2 files changed, 71 insertions(+), 59 deletions(-)

diff --git a/crates/analyzer/src/analysis/diagnostics/common.rs b/crates/analyzer/src/analysis/diagnostics/common.rs
index 591d378..e3cba66 100644
--- a/crates/analyzer/src/analysis/diagnostics/common.rs
+++ b/crates/analyzer/src/analysis/diagnostics/common.rs
@@ -1992,10 +1992,10 @@ pub fn ensure_impl_scale_codec_traits(
     });
 
     // Utilities for extracting derive attribute meta items.
-    let meta_to_path_list = |meta: &str| {
-        meta.replace(' ', "")
-            .split(',')
-            .filter_map(ink_analyzer_ir::path_from_str)
+    let meta_to_path_list = |meta: &ast::TokenTree| {
+        utils::token_tree_to_meta_items(meta)
+            .iter()
+            .filter_map(|item| ink_analyzer_ir::path_from_str(item))
             .collect::<Vec<_>>()
     };
 
@@ -2006,52 +2006,45 @@ pub fn ensure_impl_scale_codec_traits(
         .as_ref()
         .map(utils::token_tree_to_non_delimited_meta_string);
 
-    // Extracts derive item paths from both the standalone and conditional derive attributes.
-    let standalone_derived_items = standalone_derive_meta.as_deref().map(meta_to_path_list);
-    let conditional_derived_items = adt.attrs().find_map(|attr| {
-        if attr
-            .path()
-            .is_some_and(|path| path.to_string().trim() == "cfg_attr")
-        {
-            attr.token_tree().map(|token_tree| {
-                token_tree
-                    .syntax()
-                    .children()
-                    .filter_map(|node| {
-                        let is_after_derive = || {
-                            node.first_token()
-                                .and_then(|token| {
-                                    ink_analyzer_ir::closest_non_trivia_token(
-                                        &token,
-                                        SyntaxToken::prev_token,
-                                    )
-                                })
-                                .is_some_and(|token| token.text() == "derive")
-                        };
-                        if ast::TokenTree::can_cast(node.kind()) && is_after_derive() {
-                            ast::TokenTree::cast(node)
-                                .as_ref()
-                                .map(utils::token_tree_to_non_delimited_meta_string)
-                        } else {
-                            None
-                        }
-                    })
-                    .flat_map(|meta| meta_to_path_list(&meta))
-                    .collect::<Vec<_>>()
-            })
-        } else {
-            None
-        }
-    });
-    let derived_items = match (standalone_derived_items, conditional_derived_items) {
-        (Some(standalone), Some(conditional)) => {
-            let mut items = Vec::with_capacity(standalone.len() + conditional.len());
-            items.extend(standalone);
-            items.extend(conditional);
-            Some(items)
-        }
-        (standalone_option, conditional_option) => standalone_option.or(conditional_option),
-    };
+    // Extracts derive item paths from all standalone and conditional derive attributes.
+    let standalone_derived_items = adt
+        .attrs()
+        .filter(|attr| {
+            attr.path()
+                .is_some_and(|path| path.to_string().trim() == "derive")
+        })
+        .filter_map(|attr| attr.token_tree())
+        .flat_map(|meta| meta_to_path_list(&meta));
+    let conditional_derived_items = adt
+        .attrs()
+        .filter(|attr| {
+            attr.path()
+                .is_some_and(|path| path.to_string().trim() == "cfg_attr")
+        })
+        .filter_map(|attr| attr.token_tree())
+        .flat_map(|token_tree| {
+            token_tree
+                .syntax()
+                .children()
+                .filter_map(ast::TokenTree::cast)
+                .filter(|meta| {
+                    // Only interested in the meta items of `derive`.
+                    meta.syntax()
+                        .first_token()
+                        .and_then(|token| {
+                            ink_analyzer_ir::closest_non_trivia_token(
+                                &token,
+                                SyntaxToken::prev_token,
+                            )
+                        })
+                        .is_some_and(|token| token.text() == "derive")
+                })
+                .flat_map(|meta| meta_to_path_list(&meta))
+                .collect::<Vec<_>>()
+        });
+    let derived_items: Vec<_> = standalone_derived_items
+        .chain(conditional_derived_items)
+        .collect();
 
     // Finds unimplemented SCALE codec traits.
     let unimplemented_traits: Vec<_> = ([
@@ -2082,15 +2075,13 @@ pub fn ensure_impl_scale_codec_traits(
                     .as_ref()
                     .is_some_and(|attr| attr.args().iter().any(|arg| *arg.kind() == arg_kind));
             let is_derived = || {
-                derived_items.as_ref().is_some_and(|item_paths| {
-                    item_paths.iter().any(|path| {
-                        resolution::is_external_crate_item(
-                            trait_name,
-                            path,
-                            qualifiers,
-                            adt.syntax(),
-                        )
-                    })
+                derived_items.iter().any(|path| {
+                    resolution::is_external_crate_item(
+                        trait_name,
+                        path,
+                        qualifiers,
+                        adt.syntax(),
+                    )
                 })
             };
             // Finds trait implementation for the custom type (if any).
diff --git a/crates/analyzer/src/analysis/utils.rs b/crates/analyzer/src/analysis/utils.rs
index 8dc552a..be9c0a2 100644
--- a/crates/analyzer/src/analysis/utils.rs
+++ b/crates/analyzer/src/analysis/utils.rs
@@ -2071,6 +2071,27 @@ pub fn is_trait_definition_impl_message(target: &SyntaxNode) -> bool {
             .is_some_and(|impl_item| impl_item.trait_().is_some())
 }
 
+/// Returns the (trivia-free) comma separated meta items of a token tree.
+///
+/// # Example:
+/// `TokenTree` for `#[derive(scale::Encode, /* comment */ scale::Decode,)]` becomes
+/// `["scale::Encode", "scale::Decode"]`
+pub fn token_tree_to_meta_items(token_tree: &ast::TokenTree) -> Vec<String> {
+    let r_paren_option = token_tree.r_paren_token();
+    token_tree
+        .syntax()
+        .descendants_with_tokens()
+        .filter_map(|elem| elem.into_token())
+        .skip(usize::from(token_tree.l_paren_token().is_some()))
+        .take_while(|token| Some(token) != r_paren_option.as_ref())
+        .filter(|token| !token.kind().is_trivia())
+        .join("")
+        .split(',')
+        .filter(|item| !item.is_empty())
+        .map(ToOwned::to_owned)
+        .collect()
+}
+
 /// Converts token tree into a non-delimited (i.e. with brackets excluded) string.
 ///
 /// # Example:
-- 
2.43.0


From 47f412366cfaa7cf3748c2a84923ad4a954876ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:38 +0000
Subject: [PATCH 06/64] fix: keep existing traits when suggesting missing
 scale_derive traits

---
 .../src/analysis/diagnostics/common.rs        | 21 +++++++------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/crates/analyzer/src/analysis/diagnostics/common.rs b/crates/analyzer/src/analysis/diagnostics/common.rs
index e3cba66..3a69e06 100644
--- a/crates/analyzer/src/analysis/diagnostics/common.rs
+++ b/crates/analyzer/src/analysis/diagnostics/common.rs
@@ -1999,13 +1999,6 @@ pub fn ensure_impl_scale_codec_traits(
             .collect::<Vec<_>>()
     };
 
-    // Standalone derive attribute meta item string (if any).
-    let standalone_derive_meta = standalone_derive_attr
-        .as_ref()
-        .and_then(ast::Attr::token_tree)
-        .as_ref()
-        .map(utils::token_tree_to_non_delimited_meta_string);
-
     // Extracts derive item paths from all standalone and conditional derive attributes.
     let standalone_derived_items = adt
         .attrs()
@@ -2152,8 +2145,13 @@ pub fn ensure_impl_scale_codec_traits(
         let (insert_text, insert_range, insert_snippet) = target_attr
             .as_ref()
             .map(|attr| {
-                let meta_prefix = if version == Version::V4 {
-                    standalone_derive_meta.as_ref().map(|meta| {
+                // Keeps the existing derives.
+                let meta_prefix = attr
+                    .token_tree()
+                    .as_ref()
+                    .map(utils::token_tree_to_non_delimited_meta_string)
+                    .filter(|meta| !meta.trim().is_empty())
+                    .map(|meta| {
                         format!(
                             "{meta}{}",
                             if meta.trim_end().ends_with(',') {
@@ -2162,10 +2160,7 @@ pub fn ensure_impl_scale_codec_traits(
                                 ", "
                             }
                         )
-                    })
-                } else {
-                    None
-                };
+                    });
                 (
                     format!(
                         "#[{attr_path}({}{trait_paths_plain})]",
-- 
2.43.0


From c93e3462907d768faafee2134275d1ee6e1e0bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:52 +0000
Subject: [PATCH 07/64] fix: ignore comments and trailing commas when migrating
 SCALE derives

---
 crates/analyzer/src/analysis/migrate.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/crates/analyzer/src/analysis/migrate.rs b/crates/analyzer/src/analysis/migrate.rs
index 78803bf..2088c43 100644
--- a/crates/analyzer/src/analysis/migrate.rs
+++ b/crates/analyzer/src/analysis/migrate.rs
@@ -202,11 +202,8 @@ fn scale_derive(results: &mut Vec<TextEdit>, file: &InkFile) {
         if let Some(derive_meta) = derive_meta {
             let mut scale_items = Vec::new();
             let mut non_scale_items = Vec::new();
-            for name in utils::token_tree_to_non_delimited_meta_string(&derive_meta)
-                .replace(' ', "")
-                .split(',')
-            {
-                if let Some(path) = ink_analyzer_ir::path_from_str(name) {
+            for name in utils::token_tree_to_meta_items(&derive_meta) {
+                if let Some(path) = ink_analyzer_ir::path_from_str(&name) {
                     let ref_node = attr
                         .syntax()
                         .parent()
@@ -223,10 +220,10 @@ fn scale_derive(results: &mut Vec<TextEdit>, file: &InkFile) {
                     if let Some(scale_arg_kind) = scale_arg_kind {
                         scale_items.push(*scale_arg_kind);
                     } else {
-                        non_scale_items.push(name.to_owned());
+                        non_scale_items.push(name);
                     }
                 } else {
-                    non_scale_items.push(name.to_owned());
+                    non_scale_items.push(name);
                 }
             }
 
-- 
2.43.0


From 257a0f5e0bf5823a94cedd06491b1059d044f0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:49 +0000
Subject: [PATCH 08/64] fix: don't treat a trailing comma followed by
 whitespace as a missing argument

---
 crates/ir/src/attrs/parser.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/crates/ir/src/attrs/parser.rs b/crates/ir/src/attrs/parser.rs
index eb51a59..4362cb4 100644
--- a/crates/ir/src/attrs/parser.rs
+++ b/crates/ir/src/attrs/parser.rs
@@ -9,10 +9,15 @@ use crate::InkArg;
 /// Parse ink! attribute arguments.
 pub fn parse_ink_args(attr: &ast::Attr) -> Vec<InkArg> {
     if let Some(token_tree) = attr.token_tree() {
-        parse_meta_items(&token_tree)
-            .into_iter()
-            .map(InkArg::from)
-            .collect()
+        let mut meta_items = parse_meta_items(&token_tree);
+        // Whitespace (or comments) before the closing parenthesis isn't an argument
+        // (i.e. it's either a valid trailing comma or an empty argument list).
+        if token_tree.r_paren_token().is_some()
+            && meta_items.last().is_some_and(MetaNameValue::is_empty)
+        {
+            meta_items.pop();
+        }
+        meta_items.into_iter().map(InkArg::from).collect()
     } else {
         Vec::new()
     }
-- 
2.43.0


From 4c71da944a7a97771870e231078deaeeb572e596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:52 +0000
Subject: [PATCH 09/64] fix: resolve cyclic imports and type aliases without
 infinite recursion

---
 crates/analyzer/src/resolution.rs | 50 +++++++++++++++++++++++++++----
 crates/ir/src/tree/ast_ext.rs     | 48 ++++++++++++++++++++++++-----
 2 files changed, 84 insertions(+), 14 deletions(-)

diff --git a/crates/analyzer/src/resolution.rs b/crates/analyzer/src/resolution.rs
index 32d8c03..4e1222b 100644
--- a/crates/analyzer/src/resolution.rs
+++ b/crates/analyzer/src/resolution.rs
@@ -79,6 +79,25 @@ pub fn is_external_crate_item(
     qualifiers: &[&str],
     ref_node: &SyntaxNode,
 ) -> bool {
+    is_external_crate_item_inner(name, path, qualifiers, ref_node, &mut HashSet::new())
+}
+
+// Tracks the paths (and their reference nodes) that are being resolved,
+// so that cyclic imports and aliases terminate.
+type ActivePaths = HashSet<(String, SyntaxNode)>;
+
+fn is_external_crate_item_inner(
+    name: &str,
+    path: &ast::Path,
+    qualifiers: &[&str],
+    ref_node: &SyntaxNode,
+    active: &mut ActivePaths,
+) -> bool {
+    // Bail if we're going around in circles.
+    if !active.insert((ink_analyzer_ir::path_to_string(path), ref_node.clone())) {
+        return false;
+    }
+
     let name_is_path_target = is_path_target(name, path);
 
     // Checks if path's qualifier matches one of the specified qualifiers.
@@ -103,7 +122,7 @@ pub fn is_external_crate_item(
                 .map(|qualifier| qualifier.split("::").next().unwrap_or(qualifier))
                 .collect();
             let (use_paths, item_aliases) =
-                external_crate_uses_and_aliases_in_scope(&crates, &root_node);
+                external_crate_uses_and_aliases_in_scope(&crates, &root_node, &mut HashSet::new());
 
             // Reverse `alias -> path` map to `path -> [alias]`.
             let mut item_path_to_aliases: HashMap<String, HashSet<String>> = HashMap::new();
@@ -206,7 +225,7 @@ pub fn is_external_crate_item(
                     })
                 })
             };
-            let path_is_type_alias_for_name = || {
+            let mut path_is_type_alias_for_name = || {
                 ink_analyzer_ir::resolve_item::<ast::TypeAlias>(path, &root_node).map_or(
                     false,
                     |type_alias| {
@@ -215,7 +234,13 @@ pub fn is_external_crate_item(
                             .as_ref()
                             .and_then(ink_analyzer_ir::path_from_type)
                             .is_some_and(|path| {
-                                is_external_crate_item(name, &path, qualifiers, type_alias.syntax())
+                                is_external_crate_item_inner(
+                                    name,
+                                    &path,
+                                    qualifiers,
+                                    type_alias.syntax(),
+                                    active,
+                                )
                             })
                     },
                 )
@@ -307,6 +332,7 @@ fn is_crate_item_path(path: &str, crates: &[&str]) -> bool {
 fn external_crate_uses_and_aliases_in_scope(
     crates: &[&str],
     ref_node: &SyntaxNode,
+    active: &mut ActivePaths,
 ) -> (HashSet<String>, HashMap<String, String>) {
     let (mut use_paths, mut item_aliases) =
         ink_analyzer_ir::simple_use_paths_and_aliases_in_scope(ref_node);
@@ -319,7 +345,7 @@ fn external_crate_uses_and_aliases_in_scope(
         use_paths.remove(&use_path_str);
 
         // Resolves path if it points to a use declaration for one of the specified external crates.
-        let result = match_path_to_external_crate_in_scope(&use_path_str, crates, ref_node);
+        let result = match_path_to_external_crate_in_scope(&use_path_str, crates, ref_node, active);
         use_paths.extend(result.0);
         item_aliases.extend(result.1);
     }
@@ -335,7 +361,8 @@ fn external_crate_uses_and_aliases_in_scope(
             .as_ref()
             .and_then(ast::Path::segment)
         {
-            let result = match_path_to_external_crate_in_scope(&item_path_str, crates, ref_node);
+            let result =
+                match_path_to_external_crate_in_scope(&item_path_str, crates, ref_node, active);
             if let Some(resolved_item_path) = result
                 .0
                 .iter()
@@ -355,9 +382,17 @@ fn match_path_to_external_crate_in_scope(
     path: &str,
     crates: &[&str],
     ref_node: &SyntaxNode,
+    active: &mut ActivePaths,
 ) -> (HashSet<String>, HashMap<String, String>) {
     let mut use_paths = HashSet::new();
     let mut item_aliases = HashMap::new();
+
+    // Bail if we're going around in circles.
+    let active_path = (path.to_owned(), ref_node.clone());
+    if !active.insert(active_path.clone()) {
+        return (use_paths, item_aliases);
+    }
+
     let item_path_option = ink_analyzer_ir::path_from_str(path).and_then(|path| {
         path.qualifier().and_then(|qualifier| {
             let target_name_option = path
@@ -377,7 +412,8 @@ fn match_path_to_external_crate_in_scope(
     });
     if let Some((target_name, qualifier_ref_node)) = item_path_option {
         if target_name == "*" {
-            let result = external_crate_uses_and_aliases_in_scope(crates, &qualifier_ref_node);
+            let result =
+                external_crate_uses_and_aliases_in_scope(crates, &qualifier_ref_node, active);
             use_paths.extend(result.0);
             item_aliases.extend(result.1);
         } else {
@@ -399,6 +435,7 @@ fn match_path_to_external_crate_in_scope(
                         &resolved_path_str,
                         crates,
                         &qualifier_ref_node,
+                        active,
                     );
                     use_paths.extend(result.0);
                     item_aliases.extend(result.1);
@@ -407,6 +444,7 @@ fn match_path_to_external_crate_in_scope(
         }
     }
 
+    active.remove(&active_path);
     (use_paths, item_aliases)
 }
 
diff --git a/crates/ir/src/tree/ast_ext.rs b/crates/ir/src/tree/ast_ext.rs
index 1c49a1b..1be7471 100644
--- a/crates/ir/src/tree/ast_ext.rs
+++ b/crates/ir/src/tree/ast_ext.rs
@@ -108,6 +108,25 @@ pub fn resolve_item<T>(path: &ast::Path, ref_node: &SyntaxNode) -> Option<T>
 where
     T: AstNode + HasName,
 {
+    resolve_item_inner(path, ref_node, &mut HashSet::new())
+}
+
+// Tracks visited paths (and their reference nodes) so that cyclic imports and aliases terminate.
+type VisitedPaths = HashSet<(String, SyntaxNode)>;
+
+fn resolve_item_inner<T>(
+    path: &ast::Path,
+    ref_node: &SyntaxNode,
+    visited: &mut VisitedPaths,
+) -> Option<T>
+where
+    T: AstNode + HasName,
+{
+    // Bail if we're going around in circles.
+    if !visited.insert((path_to_string(path), ref_node.clone())) {
+        return None;
+    }
+
     // Only continue if the last segment is valid.
     let target = path.segment()?;
     let target_name = target.name_ref()?;
@@ -132,21 +151,21 @@ where
                     })
                 })
         };
-        let resolve_from_module_use_scope = || {
+        let resolve_from_module_use_scope = |visited: &mut VisitedPaths| {
             let item_name = target_name.to_string();
             resolve_item_path_from_use_scope_and_aliases!(item_name, &root_node).find_map(
                 |resolved_path| {
                     // Only recurse if the path resolved from use scope and aliases
                     // is different from the current path argument.
                     if path_to_string(&resolved_path) != path_to_string(path) {
-                        resolve_item(&resolved_path, &root_node)
+                        resolve_item_inner(&resolved_path, &root_node, visited)
                     } else {
                         None
                     }
                 },
             )
         };
-        let resolve_from_ref_item_use_scope = || {
+        let resolve_from_ref_item_use_scope = |visited: &mut VisitedPaths| {
             let is_module_child = ref_node.parent().is_some_and(|parent| parent == root_node);
             if is_module_child {
                 let item_name = target_name.to_string();
@@ -155,7 +174,7 @@ where
                         // Only recurse if the path resolved from use scope and aliases
                         // is different from the current path argument.
                         if path_to_string(&resolved_path) != path_to_string(path) {
-                            resolve_item(&resolved_path, ref_node)
+                            resolve_item_inner(&resolved_path, ref_node, visited)
                         } else {
                             None
                         }
@@ -167,8 +186,8 @@ where
         };
 
         resolve_as_module_child()
-            .or_else(resolve_from_module_use_scope)
-            .or_else(resolve_from_ref_item_use_scope)
+            .or_else(|| resolve_from_module_use_scope(visited))
+            .or_else(|| resolve_from_ref_item_use_scope(visited))
     })
 }
 
@@ -185,8 +204,21 @@ pub fn resolve_current_module(node: &SyntaxNode) -> Option<SyntaxNode> {
 
 /// Resolves qualifier root/module (if it exists).
 pub fn resolve_qualifier(path: &ast::Path, ref_node: &SyntaxNode) -> Option<SyntaxNode> {
+    resolve_qualifier_inner(path, ref_node, &mut HashSet::new())
+}
+
+fn resolve_qualifier_inner(
+    path: &ast::Path,
+    ref_node: &SyntaxNode,
+    visited: &mut VisitedPaths,
+) -> Option<SyntaxNode> {
+    // Bail if we're going around in circles.
+    if !visited.insert((path_to_string(path), ref_node.clone())) {
+        return None;
+    }
+
     // Resolves next child module.
-    let resolve_next_child_module = |name: &ast::NameRef, root: &SyntaxNode| {
+    let mut resolve_next_child_module = |name: &ast::NameRef, root: &SyntaxNode| {
         let resolve_child = || {
             root.children().find(|it| {
                 ast::Module::can_cast(it.kind())
@@ -202,7 +234,7 @@ pub fn resolve_qualifier(path: &ast::Path, ref_node: &SyntaxNode) -> Option<Synt
                     // Only recurse if the path resolved from use scope and aliases
                     // is different from the current path argument.
                     if path_to_string(&resolved_path) != path_to_string(path) {
-                        resolve_qualifier(&resolved_path, root)
+                        resolve_qualifier_inner(&resolved_path, root, visited)
                     } else {
                         None
                     }
-- 
2.43.0


From b9f3f3a67a992c979a5a14d7d6acd9dded5fa810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:26 +0000
Subject: [PATCH 10/64] fix: don't panic when inserting an argument for an
 attribute with an incomplete path

---
 crates/analyzer/src/analysis/utils.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/analyzer/src/analysis/utils.rs b/crates/analyzer/src/analysis/utils.rs
index be9c0a2..58f414d 100644
--- a/crates/analyzer/src/analysis/utils.rs
+++ b/crates/analyzer/src/analysis/utils.rs
@@ -756,6 +756,11 @@ pub fn ink_arg_insert_text(
         parent_attr_option
             .map(InkAttribute::syntax)
             .zip(insert_offset_option)
+            // Ignores offsets that aren't inside the parent attribute
+            // (e.g. because the parser recovered from an incomplete attribute path).
+            .filter(|(parent_node, insert_offset)| {
+                parent_node.text_range().contains_inclusive(*insert_offset)
+            })
             .and_then(|(parent_node, insert_offset)| {
                 parent_node
                     .token_at_offset(insert_offset)
-- 
2.43.0


From 35e337c469eeb48dcdd843139ece2b2f8a1c518c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:26 +0000
Subject: [PATCH 11/64] fix: split whitespace at the end of the edit when
 formatting edits inside whitespace

---
 crates/analyzer/src/analysis/text_edit.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/analyzer/src/analysis/text_edit.rs b/crates/analyzer/src/analysis/text_edit.rs
index 12109d4..09f4655 100644
--- a/crates/analyzer/src/analysis/text_edit.rs
+++ b/crates/analyzer/src/analysis/text_edit.rs
@@ -133,7 +133,7 @@ pub fn format_edit(mut edit: TextEdit, file: &InkFile) -> TextEdit {
         let (whitespace_before, whitespace_after) = if edit.range.is_empty() {
             whitespace_text.split_at(start.into())
         } else {
-            let end = whitespace_token.text_range().end() - edit.range.end();
+            let end = edit.range.end() - whitespace_token.text_range().start();
             let (whitespace_before, _) = whitespace_text.split_at(start.into());
             let (_, whitespace_after) = whitespace_text.split_at(end.into());
             (whitespace_before, whitespace_after)
-- 
2.43.0


From 95261f2b5effd0bcaf1734ff0a1b2a0b3a7aa824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:09 +0000
Subject: [PATCH 12/64] fix: compute valid text ranges for malformed ink!
 attribute arguments

---
 crates/ir/src/attrs/meta.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/crates/ir/src/attrs/meta.rs b/crates/ir/src/attrs/meta.rs
index 27e0df0..69658b8 100644
--- a/crates/ir/src/attrs/meta.rs
+++ b/crates/ir/src/attrs/meta.rs
@@ -125,10 +125,9 @@ impl MetaNameValue {
         let mut end: Option<TextSize> = None;
 
         let mut update_start_and_end = |range: TextRange| {
-            if start.is_none() {
-                start = Some(range.start());
-            }
-            end = Some(range.end());
+            // Parts of incomplete or malformed arguments aren't always in order.
+            start = Some(start.map_or(range.start(), |start| start.min(range.start())));
+            end = Some(end.map_or(range.end(), |end| end.max(range.end())));
         };
 
         let get_items_text_range = |items: &[SyntaxElement]| -> Option<TextRange> {
-- 
2.43.0


From d01d656109cc7e2f9486b39e073ffa8bf16620c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:28 +0000
Subject: [PATCH 13/64] fix: don't suggest moving an item into itself

---
 crates/analyzer/src/analysis/actions.rs       | 20 +++++++----
 .../src/analysis/diagnostics/common.rs        | 35 +++++++++----------
 .../src/analysis/diagnostics/contract.rs      |  7 ++--
 .../analysis/diagnostics/contract/ink_impl.rs |  7 ++--
 4 files changed, 39 insertions(+), 30 deletions(-)

diff --git a/crates/analyzer/src/analysis/actions.rs b/crates/analyzer/src/analysis/actions.rs
index fe018f6..cb727e8 100644
--- a/crates/analyzer/src/analysis/actions.rs
+++ b/crates/analyzer/src/analysis/actions.rs
@@ -81,12 +81,15 @@ impl Action {
     }
 
     /// Moves an item (i.e a syntax node) to a new location.
+    ///
+    /// Returns `None` if the new location is inside the item itself
+    /// (e.g. when an incomplete item is attached to the target item list by the parser).
     pub(crate) fn move_item(
         item: &SyntaxNode,
         offset: TextSize,
         label: String,
         indent_option: Option<&str>,
-    ) -> Self {
+    ) -> Option<Self> {
         Self::move_item_with_affixes(item, offset, label, indent_option, None, None)
     }
 
@@ -98,7 +101,12 @@ impl Action {
         indent_option: Option<&str>,
         prefix_option: Option<&str>,
         suffix_option: Option<&str>,
-    ) -> Self {
+    ) -> Option<Self> {
+        let item_range = item.text_range();
+        if item_range.start() < offset && offset < item_range.end() {
+            return None;
+        }
+
         // Gets the unindented insert text.
         // NOTE: removes item's top-level indenting (if any).
         let mut insert_text = utils::item_indenting(item)
@@ -122,17 +130,17 @@ impl Action {
             insert_text = format!("{insert_text}{suffix}");
         }
 
-        Self {
+        Some(Self {
             label,
             kind: ActionKind::QuickFix,
-            range: item.text_range(),
+            range: item_range,
             edits: vec![
                 // Insert a copy of the item at the specified offset.
                 TextEdit::insert(insert_text, offset),
                 // Delete the item from current location.
-                TextEdit::delete(item.text_range()),
+                TextEdit::delete(item_range),
             ],
-        }
+        })
     }
 }
 
diff --git a/crates/analyzer/src/analysis/diagnostics/common.rs b/crates/analyzer/src/analysis/diagnostics/common.rs
index 3a69e06..8aabca9 100644
--- a/crates/analyzer/src/analysis/diagnostics/common.rs
+++ b/crates/analyzer/src/analysis/diagnostics/common.rs
@@ -757,8 +757,8 @@ fn validate_entity_attributes(
                 ),
                 range: primary_ink_attr_candidate.syntax().text_range(),
                 severity: Severity::Error,
-                quickfixes: primary_attr_insert_offset_option().map(|insert_offset| {
-                    vec![Action::move_item(
+                quickfixes: primary_attr_insert_offset_option().and_then(|insert_offset| {
+                    Action::move_item(
                         primary_ink_attr_candidate.syntax(),
                         insert_offset,
                         format!(
@@ -766,7 +766,8 @@ fn validate_entity_attributes(
                             primary_ink_attr_candidate.syntax(),
                         ),
                         None,
-                    )]
+                    )
+                    .map(|action| vec![action])
                 }),
             });
         }
@@ -1719,13 +1720,14 @@ where
             .as_ref()
             .and_then(Contract::module)
             .and_then(|mod_item| Some(mod_item).zip(mod_item.item_list()))
-            .map(|(mod_item, item_list)| {
-                vec![Action::move_item(
+            .and_then(|(mod_item, item_list)| {
+                Action::move_item(
                     item.syntax(),
                     utils::item_insert_offset_by_scope_name(&item_list, ink_scope_name),
                     "Move item to the root of the closest ink! contract's `mod` item.".to_owned(),
                     Some(utils::item_children_indenting(mod_item.syntax()).as_str()),
-                )]
+                )
+                .map(|action| vec![action])
             }),
     })
 }
@@ -1754,30 +1756,32 @@ where
         })
         .as_ref()
         .and_then(|impl_item| Some(impl_item).zip(impl_item.assoc_item_list()))
-        .map(|(impl_item, assoc_item_list)| {
+        .and_then(|(impl_item, assoc_item_list)| {
             // Moves the item to the root of the closest parent/ancestor or sibling `impl` block.
-            vec![Action::move_item(
+            Action::move_item(
                 item.syntax(),
                 utils::assoc_item_insert_offset_end(&assoc_item_list),
                 "Move item to the root of the closest `impl` block.".to_owned(),
                 Some(utils::item_children_indenting(impl_item.syntax()).as_str()),
-            )]
+            )
+            .map(|action| vec![action])
         })
         .or_else(|| {
             ink_analyzer_ir::ink_ancestors::<Contract>(item.syntax())
                 .next()
                 .and_then(|contract| {
                     // Moves the item to the first non-trait `impl` block or creates a new `impl` block if necessary for the parent ink! contract (if any).
-                    utils::callable_insert_offset_indent_and_affixes(&contract).map(
+                    utils::callable_insert_offset_indent_and_affixes(&contract).and_then(
                         |(insert_offset, indent, prefix, suffix)| {
-                            vec![Action::move_item_with_affixes(
+                            Action::move_item_with_affixes(
                                 item.syntax(),
                                 insert_offset,
                                 "Move item to the root of the closest `impl` block.".to_owned(),
                                 Some(indent.as_str()),
                                 prefix.as_deref(),
                                 suffix.as_deref(),
-                            )]
+                            )
+                            .map(|action| vec![action])
                         },
                     )
                 })
@@ -2069,12 +2073,7 @@ pub fn ensure_impl_scale_codec_traits(
                     .is_some_and(|attr| attr.args().iter().any(|arg| *arg.kind() == arg_kind));
             let is_derived = || {
                 derived_items.iter().any(|path| {
-                    resolution::is_external_crate_item(
-                        trait_name,
-                        path,
-                        qualifiers,
-                        adt.syntax(),
-                    )
+                    resolution::is_external_crate_item(trait_name, path, qualifiers, adt.syntax())
                 })
             };
             // Finds trait implementation for the custom type (if any).
diff --git a/crates/analyzer/src/analysis/diagnostics/contract.rs b/crates/analyzer/src/analysis/diagnostics/contract.rs
index 176e3c9..b542ef0 100644
--- a/crates/analyzer/src/analysis/diagnostics/contract.rs
+++ b/crates/analyzer/src/analysis/diagnostics/contract.rs
@@ -601,14 +601,15 @@ where
         quickfixes: contract
             .module()
             .and_then(ast::Module::item_list)
-            .map(|item_list| {
+            .and_then(|item_list| {
                 // Moves the item to the root of the ink! contract's `mod` item.
-                vec![Action::move_item(
+                Action::move_item(
                     item.syntax(),
                     utils::item_insert_offset_by_scope_name(&item_list, ink_scope_name),
                     "Move item to the root of the ink! contract's `mod` item.".to_owned(),
                     Some(utils::item_children_indenting(contract.syntax()).as_str()),
-                )]
+                )
+                .map(|action| vec![action])
             }),
     })
 }
diff --git a/crates/analyzer/src/analysis/diagnostics/contract/ink_impl.rs b/crates/analyzer/src/analysis/diagnostics/contract/ink_impl.rs
index d720fbe..cee85e9 100644
--- a/crates/analyzer/src/analysis/diagnostics/contract/ink_impl.rs
+++ b/crates/analyzer/src/analysis/diagnostics/contract/ink_impl.rs
@@ -322,14 +322,15 @@ where
         quickfixes: ink_impl
             .impl_item()
             .and_then(|it| it.assoc_item_list())
-            .map(|assoc_item_list| {
+            .and_then(|assoc_item_list| {
                 // Moves the item to the root of the `impl` block.
-                vec![Action::move_item(
+                Action::move_item(
                     item.syntax(),
                     utils::assoc_item_insert_offset_end(&assoc_item_list),
                     "Move item to the root of the ink! contract's `impl` block.".to_owned(),
                     Some(utils::item_children_indenting(ink_impl.syntax()).as_str()),
-                )]
+                )
+                .map(|action| vec![action])
             }),
     })
 }
-- 
2.43.0


From 6233278e60205ef854a36c952ad2c47703839a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:02 +0000
Subject: [PATCH 14/64] fix: visit conditions, iterables, match guards and
 let-else blocks when migrating function bodies

---
 .../analyzer/src/analysis/migrate/traversal.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/crates/analyzer/src/analysis/migrate/traversal.rs b/crates/analyzer/src/analysis/migrate/traversal.rs
index 75150f4..956b285 100644
--- a/crates/analyzer/src/analysis/migrate/traversal.rs
+++ b/crates/analyzer/src/analysis/migrate/traversal.rs
@@ -52,6 +52,7 @@ pub fn walk_expr<V: Visitor>(visitor: &mut V, expr: &ast::Expr) {
             visit_sub_expr_opt!(visitor, expr.body());
         }
         ast::Expr::ForExpr(expr) => {
+            visit_sub_expr_opt!(visitor, expr.iterable());
             if let Some(body) = expr.loop_body() {
                 visitor.visit_block(&body);
             }
@@ -76,8 +77,10 @@ pub fn walk_expr<V: Visitor>(visitor: &mut V, expr: &ast::Expr) {
         ast::Expr::MatchExpr(expr) => {
             visit_sub_expr!(visitor, expr);
             if let Some(arms) = expr.match_arm_list().as_ref().map(ast::MatchArmList::arms) {
-                let arms_exprs = arms.filter_map(|arm| arm.expr());
-                visit_sub_exprs_iter!(visitor, arms_exprs);
+                for arm in arms {
+                    visit_sub_expr_opt!(visitor, arm.guard().and_then(|guard| guard.condition()));
+                    visit_sub_expr_opt!(visitor, arm.expr());
+                }
             }
         }
         ast::Expr::MethodCallExpr(expr) => {
@@ -99,6 +102,7 @@ pub fn walk_expr<V: Visitor>(visitor: &mut V, expr: &ast::Expr) {
             visit_sub_exprs_iter!(visitor, expr.fields());
         }
         ast::Expr::WhileExpr(expr) => {
+            visit_sub_expr_opt!(visitor, expr.condition());
             if let Some(body) = expr.loop_body() {
                 visitor.visit_block(&body);
             }
@@ -126,6 +130,10 @@ pub fn walk_block<V: Visitor>(visitor: &mut V, block_expr: &ast::BlockExpr) {
         return;
     };
     for stmt in stmt_list.statements() {
+        let else_block = match &stmt {
+            ast::Stmt::LetStmt(let_stmt) => let_stmt.let_else().and_then(|it| it.block_expr()),
+            _ => None,
+        };
         let expr = match stmt {
             ast::Stmt::ExprStmt(expr_stmt) => expr_stmt.expr(),
             ast::Stmt::LetStmt(let_stmt) => let_stmt.initializer(),
@@ -135,6 +143,9 @@ pub fn walk_block<V: Visitor>(visitor: &mut V, block_expr: &ast::BlockExpr) {
         if let Some(expr) = expr {
             visitor.visit_expr(&expr);
         }
+        if let Some(block) = else_block {
+            visitor.visit_block(&block);
+        }
     }
     let Some(expr) = stmt_list.tail_expr() else {
         return;
@@ -152,6 +163,9 @@ pub fn walk_call<V: Visitor>(visitor: &mut V, expr: &ast::CallExpr) {
 }
 
 pub fn walk_if_expr<V: Visitor>(visitor: &mut V, if_expr: &ast::IfExpr) {
+    if let Some(expr) = if_expr.condition() {
+        visitor.visit_expr(&expr);
+    }
     if let Some(expr) = if_expr.then_branch() {
         visitor.visit_block(&expr);
     }
-- 
2.43.0


From 8b3e753c3cb4e1d6ef9a01067f2bc468f5e540e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:28 +0000
Subject: [PATCH 15/64] fix: make the order of migration edits deterministic

---
 crates/analyzer/src/analysis/migrate.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/analyzer/src/analysis/migrate.rs b/crates/analyzer/src/analysis/migrate.rs
index 2088c43..ffa64f3 100644
--- a/crates/analyzer/src/analysis/migrate.rs
+++ b/crates/analyzer/src/analysis/migrate.rs
@@ -9,7 +9,7 @@ use ink_analyzer_ir::ast::HasName;
 use ink_analyzer_ir::syntax::{AstNode, AstToken, SyntaxKind, SyntaxToken, TextRange, TextSize};
 use ink_analyzer_ir::{ast, ChainExtension, InkArg, InkArgKind, InkEntity, InkFile, IsInkStruct};
 use itertools::Itertools;
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 
 use super::{utils, TextEdit};
 use crate::analysis::text_edit::format_edits;
@@ -152,7 +152,7 @@ fn chain_extensions(results: &mut Vec<TextEdit>, file: &InkFile) {
 fn scale_derive(results: &mut Vec<TextEdit>, file: &InkFile) {
     // Mapping from target item (via location/start offset) to scale traits to derive and their insert offset.
     // Used to consolidate scale item traits from multiple attributes into a single new `scale_derive` attribute.
-    let mut scale_items_map: HashMap<TextSize, (TextSize, Vec<InkArgKind>)> = HashMap::new();
+    let mut scale_items_map: BTreeMap<TextSize, (TextSize, Vec<InkArgKind>)> = BTreeMap::new();
     let scale_trait_options: [(&str, &[&str], InkArgKind); 3] = [
         ("Encode", &resolution::SCALE_QUALIFIERS, InkArgKind::Encode),
         ("Decode", &resolution::SCALE_QUALIFIERS, InkArgKind::Decode),
-- 
2.43.0


From 7c84e7316c7587a0595d97cb70b805565678da60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:30 +0000
Subject: [PATCH 16/64] fix: only replace the event's own attributes when
 migrating events

---
 crates/analyzer/src/analysis/migrate.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/crates/analyzer/src/analysis/migrate.rs b/crates/analyzer/src/analysis/migrate.rs
index ffa64f3..4e8434f 100644
--- a/crates/analyzer/src/analysis/migrate.rs
+++ b/crates/analyzer/src/analysis/migrate.rs
@@ -51,10 +51,11 @@ fn events(results: &mut Vec<TextEdit>, file: &InkFile) {
         for event in contract.events() {
             if let Some(ink_attr) = event.ink_attr() {
                 // Replace legacy event with event 2.0.
+                let event_start = event.syntax().text_range().start();
                 let mut code = event.syntax().to_string();
-                code = code.replace(
-                    &ink_attr.syntax().to_string(),
-                    &format!(
+                let mut replacements = vec![(
+                    ink_attr.syntax().text_range(),
+                    format!(
                         "#[ink::event{}]",
                         if event.anonymous_arg().is_some() {
                             "(anonymous)"
@@ -62,7 +63,7 @@ fn events(results: &mut Vec<TextEdit>, file: &InkFile) {
                             ""
                         }
                     ),
-                );
+                )];
 
                 // Remove standalone `anonymous` attribute (if any).
                 if let Some(arg) = event.anonymous_arg() {
@@ -72,11 +73,21 @@ fn events(results: &mut Vec<TextEdit>, file: &InkFile) {
                         .contains_range(arg.text_range())
                     {
                         if let Some(anonymous_attr) = arg.parent_attr() {
-                            code = code.replace(&anonymous_attr.syntax().to_string(), "");
+                            replacements
+                                .push((anonymous_attr.syntax().text_range(), String::new()));
                         }
                     }
                 }
 
+                // Applies replacements from last to first, so that offsets remain valid.
+                replacements.sort_by_key(|(range, _)| range.start());
+                for (range, replacement) in replacements.into_iter().rev() {
+                    code.replace_range(
+                        std::ops::Range::<usize>::from(range - event_start),
+                        &replacement,
+                    );
+                }
+
                 // Update indenting.
                 if let Some(indent) = utils::item_indenting(event.syntax()) {
                     code = utils::reduce_indenting(&code, &indent);
-- 
2.43.0


From efe4c99c00cc9b7eaab7679e4671265a779c3966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:31 +0000
Subject: [PATCH 17/64] fix: never emit overlapping migration edits

---
 crates/analyzer/src/analysis/migrate.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/crates/analyzer/src/analysis/migrate.rs b/crates/analyzer/src/analysis/migrate.rs
index 4e8434f..dc48017 100644
--- a/crates/analyzer/src/analysis/migrate.rs
+++ b/crates/analyzer/src/analysis/migrate.rs
@@ -35,7 +35,22 @@ pub fn migrate(file: &InkFile) -> Vec<TextEdit> {
     e2e_test::migrate(&mut results, file);
 
     // Format and return edits.
-    format_edits(results.into_iter().unique(), file).collect()
+    format_edits(non_overlapping(results).into_iter(), file).collect()
+}
+
+/// Removes duplicates, and edits that overlap with an earlier edit
+/// (e.g. edits for code inside an event that's moved out of the contract).
+fn non_overlapping(edits: Vec<TextEdit>) -> Vec<TextEdit> {
+    let mut results: Vec<TextEdit> = Vec::new();
+    for edit in edits.into_iter().unique() {
+        let is_overlapping = results
+            .iter()
+            .any(|it| it.range.start() < edit.range.end() && edit.range.start() < it.range.end());
+        if !is_overlapping {
+            results.push(edit);
+        }
+    }
+    results
 }
 
 /// Computes text edits for migrating ink! events to ink! 5.0 standalone events (a.k.a events 2.0).
-- 
2.43.0


From 37b7da5fe8f9450f7c3a553c04e70bade144b088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:55 +0000
Subject: [PATCH 18/64] fix: consider sibling attributes when checking for
 complement selectors on constructors

---
 crates/analyzer/src/analysis/diagnostics/common.rs | 5 +----
 crates/analyzer/src/analysis/inlay_hints.rs        | 5 +++--
 crates/analyzer/src/analysis/utils.rs              | 8 ++++++++
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/crates/analyzer/src/analysis/diagnostics/common.rs b/crates/analyzer/src/analysis/diagnostics/common.rs
index 8aabca9..2eab9df 100644
--- a/crates/analyzer/src/analysis/diagnostics/common.rs
+++ b/crates/analyzer/src/analysis/diagnostics/common.rs
@@ -190,10 +190,7 @@ fn validate_arg(
         }
         arg_kind => {
             let arg_value_kind = if version == Version::V5 {
-                InkArgValueKind::from_v5(
-                    *arg_kind,
-                    attr.map(|attr| *attr.kind() == InkAttributeKind::Arg(InkArgKind::Constructor)),
-                )
+                InkArgValueKind::from_v5(*arg_kind, attr.map(utils::is_constructor_attr))
             } else {
                 InkArgValueKind::from(*arg_kind)
             };
diff --git a/crates/analyzer/src/analysis/inlay_hints.rs b/crates/analyzer/src/analysis/inlay_hints.rs
index c5444a1..63febdc 100644
--- a/crates/analyzer/src/analysis/inlay_hints.rs
+++ b/crates/analyzer/src/analysis/inlay_hints.rs
@@ -1,8 +1,9 @@
 //! ink! attribute argument inlay hints.
 
 use ink_analyzer_ir::syntax::{AstToken, TextRange, TextSize};
-use ink_analyzer_ir::{InkArg, InkArgKind, InkArgValueKind, InkAttributeKind, InkEntity, InkFile};
+use ink_analyzer_ir::{InkArg, InkArgValueKind, InkEntity, InkFile};
 
+use super::utils;
 use crate::Version;
 
 /// An ink! attribute argument inlay hint.
@@ -56,7 +57,7 @@ pub fn inlay_hints(file: &InkFile, range: Option<TextRange>, version: Version) -
     for attr in file.tree().ink_attrs_in_scope() {
         // Returns inlay hints for all ink! attribute arguments with values in the selection range.
         for arg in attr.args() {
-            let is_constructor = *attr.kind() == InkAttributeKind::Arg(InkArgKind::Constructor);
+            let is_constructor = utils::is_constructor_attr(&attr);
             process_inlay_hint(arg, is_constructor);
 
             let mut nested_arg = None;
diff --git a/crates/analyzer/src/analysis/utils.rs b/crates/analyzer/src/analysis/utils.rs
index 58f414d..e40010d 100644
--- a/crates/analyzer/src/analysis/utils.rs
+++ b/crates/analyzer/src/analysis/utils.rs
@@ -1265,6 +1265,14 @@ pub fn covering_ink_attribute<T: InkEntity>(item: &T, range: TextRange) -> Optio
     covering_attribute(item, range).and_then(InkAttribute::cast)
 }
 
+/// Returns true if the ink! attribute annotates an ink! constructor
+/// (i.e. it's either an ink! constructor attribute or it complements one).
+pub fn is_constructor_attr(attr: &InkAttribute) -> bool {
+    let is_constructor =
+        |it: &InkAttribute| *it.kind() == InkAttributeKind::Arg(InkArgKind::Constructor);
+    is_constructor(attr) || attr.siblings().any(|it| is_constructor(&it))
+}
+
 /// Returns the parent AST item for the text range (if any).
 pub fn parent_ast_item<T: InkEntity>(item: &T, range: TextRange) -> Option<ast::Item> {
     if range.is_empty() {
-- 
2.43.0


From 0747f2101cfaa6abd29bd10343089a654e320fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:42 +0000
Subject: [PATCH 19/64] fix: include closing delimiters in the text range of
 nested ink! arguments

---
 crates/analyzer/src/analysis/utils.rs | 23 +++++++++++++++++++----
 crates/ir/src/attrs/meta.rs           | 11 ++++++++++-
 2 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/crates/analyzer/src/analysis/utils.rs b/crates/analyzer/src/analysis/utils.rs
index e40010d..e7502d0 100644
--- a/crates/analyzer/src/analysis/utils.rs
+++ b/crates/analyzer/src/analysis/utils.rs
@@ -1548,10 +1548,25 @@ pub fn ink_arg_and_delimiter_removal_range(
     parent_attr_option: Option<&InkAttribute>,
 ) -> TextRange {
     // Gets the last token of the ink! attribute argument (if any).
-    let last_token_option = arg.meta().elements().last().and_then(|elem| match elem {
-        SyntaxElement::Node(node) => node.last_token(),
-        SyntaxElement::Token(token) => Some(token.clone()),
-    });
+    let last_token_option = arg
+        .meta()
+        .elements()
+        .last()
+        .and_then(|elem| match elem {
+            SyntaxElement::Node(node) => node.last_token(),
+            SyntaxElement::Token(token) => Some(token.clone()),
+        })
+        .map(|token| {
+            // Includes closing delimiters for nested arguments.
+            let mut last_token = token;
+            while last_token.text_range().end() < arg.text_range().end() {
+                match last_token.next_token() {
+                    Some(next_token) => last_token = next_token,
+                    None => break,
+                }
+            }
+            last_token
+        });
 
     // Determines the parent attribute for the argument.
     if let Some(attr) = parent_attr_option.cloned().or_else(|| {
diff --git a/crates/ir/src/attrs/meta.rs b/crates/ir/src/attrs/meta.rs
index 69658b8..b4a5708 100644
--- a/crates/ir/src/attrs/meta.rs
+++ b/crates/ir/src/attrs/meta.rs
@@ -8,7 +8,7 @@ mod value;
 use std::fmt;
 
 use itertools::Itertools;
-use ra_ap_syntax::{ast, AstNode, AstToken, SyntaxElement, TextRange, TextSize};
+use ra_ap_syntax::{ast, AstNode, AstToken, SyntaxElement, SyntaxKind, TextRange, TextSize};
 
 use crate::closest_ancestor_ast_type;
 
@@ -158,6 +158,15 @@ impl MetaNameValue {
         // Parse start and end from nested meta item.
         if let Some(nested_meta) = &self.nested {
             update_start_and_end(nested_meta.text_range());
+            // Includes the delimiters (i.e. parentheses) of the nested meta item.
+            if let Some(nested_tt) = nested_meta
+                .elements()
+                .next()
+                .and_then(|elem| elem.parent())
+                .filter(|node| node.kind() == SyntaxKind::TOKEN_TREE)
+            {
+                update_start_and_end(nested_tt.text_range());
+            }
         }
 
         // Parse start and end from value field.
-- 
2.43.0


From 8cb50d100c3ac550aaef310c1e8e14249db5f26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:42 +0000
Subject: [PATCH 20/64] fix: only suggest moving functions, and only into
 inherent impl blocks

---
 crates/analyzer/src/analysis/diagnostics/common.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/crates/analyzer/src/analysis/diagnostics/common.rs b/crates/analyzer/src/analysis/diagnostics/common.rs
index 2eab9df..8f2d4fe 100644
--- a/crates/analyzer/src/analysis/diagnostics/common.rs
+++ b/crates/analyzer/src/analysis/diagnostics/common.rs
@@ -1734,6 +1734,10 @@ pub fn ensure_impl_parent<T>(item: &T, ink_scope_name: &str) -> Option<Diagnosti
 where
     T: HasInkImplParent,
 {
+    // Only `fn` items can be moved, and only to inherent `impl` blocks.
+    let is_fn = ast::Fn::can_cast(item.syntax().kind());
+    let inherent_impl =
+        |node: SyntaxNode| ast::Impl::cast(node).filter(|impl_item| impl_item.trait_().is_none());
     item.parent_impl_item().is_none().then(|| Diagnostic {
         message: format!("ink! {ink_scope_name} must be defined in the root of an `impl` block."),
         range: item.syntax().text_range(),
@@ -1741,16 +1745,18 @@ where
         quickfixes: ink_analyzer_ir::closest_ancestor_ast_type::<SyntaxNode, ast::Impl>(
             item.syntax(),
         )
+        .filter(|impl_item| impl_item.trait_().is_none())
         .or_else(|| {
             item.syntax()
                 .siblings(ink_analyzer_ir::syntax::Direction::Prev)
-                .find_map(ast::Impl::cast)
+                .find_map(inherent_impl)
                 .or_else(|| {
                     item.syntax()
                         .siblings(ink_analyzer_ir::syntax::Direction::Next)
-                        .find_map(ast::Impl::cast)
+                        .find_map(inherent_impl)
                 })
         })
+        .filter(|_| is_fn)
         .as_ref()
         .and_then(|impl_item| Some(impl_item).zip(impl_item.assoc_item_list()))
         .and_then(|(impl_item, assoc_item_list)| {
@@ -1766,6 +1772,7 @@ where
         .or_else(|| {
             ink_analyzer_ir::ink_ancestors::<Contract>(item.syntax())
                 .next()
+                .filter(|_| is_fn)
                 .and_then(|contract| {
                     // Moves the item to the first non-trait `impl` block or creates a new `impl` block if necessary for the parent ink! contract (if any).
                     utils::callable_insert_offset_indent_and_affixes(&contract).and_then(
-- 
2.43.0


From 2c02edf896ad4106d2c161c6e5585601f72e3b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:42 +0000
Subject: [PATCH 21/64] fix: keep edits from joining adjacent tokens or
 removing whitespace at which another edit applies

---
 crates/analyzer/src/analysis/text_edit.rs | 36 ++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/crates/analyzer/src/analysis/text_edit.rs b/crates/analyzer/src/analysis/text_edit.rs
index 09f4655..a5f5aee 100644
--- a/crates/analyzer/src/analysis/text_edit.rs
+++ b/crates/analyzer/src/analysis/text_edit.rs
@@ -69,7 +69,21 @@ pub fn format_edits<'a>(
     edits: impl Iterator<Item = TextEdit> + 'a,
     file: &'a InkFile,
 ) -> impl Iterator<Item = TextEdit> + 'a {
-    edits.map(|item| format_edit(item, file))
+    let edits: Vec<_> = edits.collect();
+    let offsets: Vec<_> = edits.iter().map(|edit| edit.range.start()).collect();
+    edits.into_iter().map(move |edit| {
+        let range = edit.range;
+        let mut formatted_edit = format_edit(edit, file);
+        // Doesn't remove whitespace at which another edit is applied.
+        if formatted_edit.range.end() > range.end()
+            && offsets
+                .iter()
+                .any(|offset| range.end() <= *offset && *offset < formatted_edit.range.end())
+        {
+            formatted_edit.range = range;
+        }
+        formatted_edit
+    })
 }
 
 /// Format text edit (i.e. add indenting and new lines based on context).
@@ -171,8 +185,22 @@ pub fn format_edit(mut edit: TextEdit, file: &InkFile) -> TextEdit {
             }
         });
 
+    // Determines the separators needed to keep the edit from being joined with the adjacent tokens (if any),
+    // for edits that remove the only separator (e.g. removing `<T>` from `impl<T>Type`).
+    let is_word_char = |c: char| c.is_alphanumeric() || c == '_';
+    let is_after_word = token_before_option.as_ref().is_some_and(|token| {
+        token.text_range().end() == edit.range.start() && token.text().ends_with(is_word_char)
+    });
+    let is_before_word = token_after_option.as_ref().is_some_and(|token| {
+        token.text_range().start() == edit.range.end() && token.text().starts_with(is_word_char)
+    });
+
     if edit.text.is_empty() {
         // Handles deletes.
+        if is_after_word && is_before_word && !edit.range.is_empty() {
+            edit.text = " ".to_owned();
+            return edit;
+        }
         // Removes whitespace immediately following a delete if the text is surrounded by whitespace,
         // but only when the token right after the whitespace is not a closing curly bracket
         // (because it would otherwise break the indenting of the closing curly bracket).
@@ -321,6 +349,12 @@ pub fn format_edit(mut edit: TextEdit, file: &InkFile) -> TextEdit {
         };
 
         // Adds formatting if necessary.
+        let prefix = prefix.or_else(|| {
+            (is_after_word && edit.text.starts_with(is_word_char)).then(|| " ".to_owned())
+        });
+        let suffix = suffix.or_else(|| {
+            (is_before_word && edit.text.ends_with(is_word_char)).then(|| " ".to_owned())
+        });
         add_affixes(&mut edit, prefix, suffix);
     }
     edit
-- 
2.43.0


From bf9960f61b7687e58fb2d332079765a3726ea25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:46 +0000
Subject: [PATCH 22/64] fix: don't duplicate entities with repeated ink!
 attributes in the entity tree

---
 crates/ir/src/tree/utils.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/ir/src/tree/utils.rs b/crates/ir/src/tree/utils.rs
index 267b2cf..3e8228c 100644
--- a/crates/ir/src/tree/utils.rs
+++ b/crates/ir/src/tree/utils.rs
@@ -130,7 +130,10 @@ pub fn ink_descendants<T>(node: &SyntaxNode) -> impl Iterator<Item = T>
 where
     T: InkEntity,
 {
-    ink_attrs_descendants(node).filter_map(ink_attr_to_entity)
+    ink_attrs_descendants(node)
+        .filter_map(ink_attr_to_entity)
+        // Deduplicate by wrapped syntax node.
+        .unique_by(|item: &T| item.syntax().clone())
 }
 
 /// Returns the syntax node's descendant ink! entities of IR type `T` that don't have any
@@ -139,7 +142,10 @@ pub fn ink_closest_descendants<T>(node: &SyntaxNode) -> impl Iterator<Item = T>
 where
     T: InkEntity,
 {
-    ink_attrs_closest_descendants(node).filter_map(ink_attr_to_entity)
+    ink_attrs_closest_descendants(node)
+        .filter_map(ink_attr_to_entity)
+        // Deduplicate by wrapped syntax node.
+        .unique_by(|item: &T| item.syntax().clone())
 }
 
 /// Returns the syntax node's parent ink! entity of IR type `T` (if any).
-- 
2.43.0


From f3b6185cbf96dcd0600014adef1029e0b4e75eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:06 +0000
Subject: [PATCH 23/64] fix: merge overlapping deletions when migrating

---
 crates/analyzer/src/analysis/migrate.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/crates/analyzer/src/analysis/migrate.rs b/crates/analyzer/src/analysis/migrate.rs
index dc48017..1335922 100644
--- a/crates/analyzer/src/analysis/migrate.rs
+++ b/crates/analyzer/src/analysis/migrate.rs
@@ -38,15 +38,26 @@ pub fn migrate(file: &InkFile) -> Vec<TextEdit> {
     format_edits(non_overlapping(results).into_iter(), file).collect()
 }
 
-/// Removes duplicates, and edits that overlap with an earlier edit
+/// Removes duplicates, merges overlapping deletions, and removes edits that overlap with an earlier edit
 /// (e.g. edits for code inside an event that's moved out of the contract).
 fn non_overlapping(edits: Vec<TextEdit>) -> Vec<TextEdit> {
     let mut results: Vec<TextEdit> = Vec::new();
-    for edit in edits.into_iter().unique() {
-        let is_overlapping = results
+    for mut edit in edits.into_iter().unique() {
+        let is_overlapping =
+            |a: TextRange, b: TextRange| a.start() < b.end() && b.start() < a.end();
+        if edit.text.is_empty() {
+            // Merges overlapping deletions (e.g. adjacent arguments that share a delimiter).
+            while let Some(idx) = results
+                .iter()
+                .position(|it| it.text.is_empty() && is_overlapping(it.range, edit.range))
+            {
+                edit.range = edit.range.cover(results.remove(idx).range);
+            }
+        }
+        if !results
             .iter()
-            .any(|it| it.range.start() < edit.range.end() && edit.range.start() < it.range.end());
-        if !is_overlapping {
+            .any(|it| is_overlapping(it.range, edit.range))
+        {
             results.push(edit);
         }
     }
-- 
2.43.0


From bc7a30379ab9d07cf0068d19059ef92139d5762e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:19 +0000
Subject: [PATCH 24/64] fix: insert e2e trait imports in a deterministic order
 when migrating

---
 crates/analyzer/src/analysis/migrate.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/analyzer/src/analysis/migrate.rs b/crates/analyzer/src/analysis/migrate.rs
index 1335922..0ad1000 100644
--- a/crates/analyzer/src/analysis/migrate.rs
+++ b/crates/analyzer/src/analysis/migrate.rs
@@ -32,7 +32,12 @@ pub fn migrate(file: &InkFile) -> Vec<TextEdit> {
     host_fn::migrate(&mut results, file);
 
     // Migrate e2e tests.
+    let n_edits = results.len();
     e2e_test::migrate(&mut results, file);
+    // The required e2e trait imports are inserted (at the same offset) in an unspecified order.
+    for edits in results[n_edits..].chunk_by_mut(|a, b| a.range.is_empty() && a.range == b.range) {
+        edits.sort_by(|a, b| a.text.cmp(&b.text));
+    }
 
     // Format and return edits.
     format_edits(non_overlapping(results).into_iter(), file).collect()
-- 
2.43.0


From 90e32255362eae6468b5b9789a66af5952f873b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:19 +0000
Subject: [PATCH 25/64] fix: parse integer literals with any radix, digit
 separators and integer suffixes

---
 crates/ir/src/attrs/meta/value.rs | 35 ++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/crates/ir/src/attrs/meta/value.rs b/crates/ir/src/attrs/meta/value.rs
index b0cb142..7172a74 100644
--- a/crates/ir/src/attrs/meta/value.rs
+++ b/crates/ir/src/attrs/meta/value.rs
@@ -144,32 +144,39 @@ impl MetaValue {
         self.kind() == SyntaxKind::AT
     }
 
-    /// Converts the value if it's an integer literal (decimal or hexadecimal) into a `u16`.
+    /// Converts the value if it's an integer literal into a `u16`.
     pub fn as_u16(&self) -> Option<u16> {
         self.as_int()
     }
 
-    /// Converts the value if it's an integer literal (decimal or hexadecimal) into a `u32`.
+    /// Converts the value if it's an integer literal into a `u32`.
     pub fn as_u32(&self) -> Option<u32> {
         self.as_int()
     }
 
-    /// Converts the value if it's an integer literal (decimal or hexadecimal) into a integer.
+    /// Converts the value if it's an integer literal into a integer.
     pub fn as_int<T>(&self) -> Option<T>
     where
         T: IsIntId,
     {
-        if self.kind() == SyntaxKind::INT_NUMBER {
-            let value = self.to_string();
-            if value.starts_with("0x") {
-                // Parse as hex.
-                T::from_str_radix(value.strip_prefix("0x").unwrap(), 16).ok()
-            } else {
-                // Parse as decimal.
-                value.parse::<T>().ok()
-            }
-        } else {
-            None
+        let number = self.literal().and_then(ast::IntNumber::cast)?;
+        // Only integer suffixes are allowed (e.g. `1u32` but not `1f32`).
+        if number
+            .suffix()
+            .is_some_and(|suffix| suffix.starts_with('f'))
+        {
+            return None;
+        }
+        // Handles all radixes (i.e. decimal, hexadecimal, octal and binary) and digit separators.
+        let value = number.value().ok()?;
+        T::from_str_radix(&value.to_string(), 10).ok()
+    }
+
+    /// Returns the literal token if the value is a literal.
+    fn literal(&self) -> Option<SyntaxToken> {
+        match self.expr.as_ref()? {
+            ast::Expr::Literal(lit) => Some(lit.token()),
+            _ => None,
         }
     }
 
-- 
2.43.0


From 9eb2978902641b26acc2fcb03adbddcb3250c568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:19 +0000
Subject: [PATCH 26/64] fix: only treat trait paths with leading colons as full
 paths in selectors

---
 crates/ir/src/selector.rs | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/crates/ir/src/selector.rs b/crates/ir/src/selector.rs
index f49789c..a6b1b86 100644
--- a/crates/ir/src/selector.rs
+++ b/crates/ir/src/selector.rs
@@ -5,7 +5,7 @@ use blake2::digest::Digest;
 use blake2::Blake2b;
 use itertools::Itertools;
 use ra_ap_syntax::ast::HasName;
-use ra_ap_syntax::{ast, AstNode, SyntaxKind, TextRange};
+use ra_ap_syntax::{ast, AstNode, SyntaxElement, SyntaxKind, TextRange};
 
 use crate::meta::MetaValue;
 use crate::traits::{HasInkImplParent, IsInkCallable};
@@ -118,20 +118,27 @@ impl Selector {
         match callable.parent_impl_item()?.trait_()? {
             ast::Type::PathType(trait_path_type) => {
                 let trait_path = trait_path_type.path()?;
+                // Only paths with leading colons are full paths.
                 let is_full_path = trait_path
-                    .qualifier()
-                    .is_some_and(|qualifier| qualifier.coloncolon_token().is_some());
+                    .first_segment()
+                    .is_some_and(|segment| segment.coloncolon_token().is_some());
                 let trait_ident = if is_full_path {
-                    let mut full_path = trait_path.to_string();
-                    full_path.retain(|c| !c.is_whitespace());
-                    full_path
+                    // Includes all path segments (without trivia) for full paths.
+                    trait_path
+                        .syntax()
+                        .descendants_with_tokens()
+                        .filter_map(SyntaxElement::into_token)
+                        .filter(|token| !token.kind().is_trivia())
+                        .join("")
                 } else {
+                    // Only includes the last segment's identifier for relative paths and simple identifiers.
                     trait_path
-                        .segments()
-                        .last()
-                        .map(|segment| segment.to_string())
+                        .segment()
+                        .and_then(|segment| segment.name_ref())
+                        .map(|name| name.to_string())
                         .unwrap_or_else(String::new)
                 };
+
                 (!trait_ident.is_empty()).then_some(trait_ident)
             }
             _ => None,
-- 
2.43.0


From 0ee1962caaca42ec327d6ed76f3eb3ef181c992b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:21 +0000
Subject: [PATCH 27/64] fix: unescape string literal values and support raw
 strings

---
 crates/ir/src/attrs/meta/value.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/crates/ir/src/attrs/meta/value.rs b/crates/ir/src/attrs/meta/value.rs
index 7172a74..3078123 100644
--- a/crates/ir/src/attrs/meta/value.rs
+++ b/crates/ir/src/attrs/meta/value.rs
@@ -191,14 +191,10 @@ impl MetaValue {
 
     /// Converts the value if it's a string literal into a `String`.
     pub fn as_string(&self) -> Option<String> {
-        (self.kind() == SyntaxKind::STRING).then_some(
-            // Parses string value (removes escaped leading and trailing quotes).
-            self.to_string()
-                .chars()
-                .skip_while(|char| *char == '\"')
-                .take_while(|char| *char != '\"')
-                .join(""),
-        )
+        // Unescapes the literal and removes its quotes (and raw string delimiters).
+        self.literal()
+            .and_then(ast::String::cast)
+            .and_then(|lit| lit.value().map(Into::into))
     }
 
     /// Converts the value if it's a path expression into a `Path` with an inaccurate text range.
-- 
2.43.0


From e67bede0412a7db23e88248dd623b96ca0ede52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:01 +0000
Subject: [PATCH 28/64] fix: keep translated client positions inside the line
 and on character boundaries

---
 crates/lsp-server/src/translator/from_lsp.rs | 26 +++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/crates/lsp-server/src/translator/from_lsp.rs b/crates/lsp-server/src/translator/from_lsp.rs
index eb94e67..41e7519 100644
--- a/crates/lsp-server/src/translator/from_lsp.rs
+++ b/crates/lsp-server/src/translator/from_lsp.rs
@@ -5,17 +5,22 @@ use line_index::{LineCol, WideEncoding, WideLineCol};
 use super::PositionTranslationContext;
 
 /// Translates LSP position to ink! analyzer offset.
+///
+/// **NOTE:** A character past the end of the line defaults back to the end of the line,
+/// while a position inside a character defaults back to the start of the character.
 pub fn offset(
     position: lsp_types::Position,
     context: &PositionTranslationContext,
 ) -> Option<ink_analyzer::TextSize> {
+    // No line is longer than the document (in any encoding).
+    let character = position.character.min(context.line_index.len().into());
     let line_col = if context.encoding == lsp_types::PositionEncodingKind::UTF16
         || context.encoding == lsp_types::PositionEncodingKind::UTF32
     {
         // Handles wide position encodings.
         let wide_line_col = WideLineCol {
             line: position.line,
-            col: position.character,
+            col: character,
         };
         let wide_encoding = if context.encoding == lsp_types::PositionEncodingKind::UTF32 {
             WideEncoding::Utf32
@@ -27,11 +32,26 @@ pub fn offset(
         // Handles uft-8 position encoding.
         LineCol {
             line: position.line,
-            col: position.character,
+            col: character,
         }
     };
 
-    context.line_index.offset(line_col)
+    let line_start = |line| context.line_index.offset(LineCol { line, col: 0 });
+    let start = line_start(line_col.line)?;
+    let end = line_col
+        .line
+        .checked_add(1)
+        .and_then(line_start)
+        // Excludes the newline character.
+        .map(|next_line_start| next_line_start - ink_analyzer::TextSize::from(1))
+        .unwrap_or(context.line_index.len());
+    let mut offset = start
+        .checked_add(line_col.col.into())
+        .map_or(end, |offset| offset.min(end));
+    while context.line_index.try_line_col(offset).is_none() {
+        offset -= ink_analyzer::TextSize::from(1);
+    }
+    Some(offset)
 }
 
 /// Translates LSP range to ink! analyzer text range.
-- 
2.43.0


From 0747bb65e8cdb4e0e87b3e5236dc8a1d5122033d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:02 +0000
Subject: [PATCH 29/64] fix: reject extract event ranges that are reversed or
 outside the document

---
 crates/lsp-server/src/dispatch/handlers/command.rs | 2 ++
 crates/lsp-server/src/dispatch/handlers/request.rs | 6 ++++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/lsp-server/src/dispatch/handlers/command.rs b/crates/lsp-server/src/dispatch/handlers/command.rs
index 4078853..eeac267 100644
--- a/crates/lsp-server/src/dispatch/handlers/command.rs
+++ b/crates/lsp-server/src/dispatch/handlers/command.rs
@@ -150,6 +150,8 @@ pub fn handle_extract_event(
     // Retrieves snapshot and computes extraction.
     let Some((extraction, snapshot)) = snapshots
         .get(&id)
+        // Ignores ranges that aren't in the document.
+        .filter(|snapshot| range.end() <= snapshot.context.line_index.len())
         .and_then(|snapshot| snapshot.analysis.extract(range).zip(Some(snapshot)))
     else {
         return Err(anyhow::format_err!("Failed to extract ink! event."));
diff --git a/crates/lsp-server/src/dispatch/handlers/request.rs b/crates/lsp-server/src/dispatch/handlers/request.rs
index 616c81e..18c22c5 100644
--- a/crates/lsp-server/src/dispatch/handlers/request.rs
+++ b/crates/lsp-server/src/dispatch/handlers/request.rs
@@ -322,10 +322,12 @@ fn parse_range(value: &serde_json::Value) -> Option<ink_analyzer::TextRange> {
                 .and_then(serde_json::Value::as_u64)
                 .zip(arg.get("end").and_then(serde_json::Value::as_u64))
         })
+        .and_then(|(start, end)| u32::try_from(start).ok().zip(u32::try_from(end).ok()))
+        .filter(|(start, end)| start <= end)
         .map(|(start, end)| {
             ink_analyzer::TextRange::new(
-                ink_analyzer::TextSize::from(start as u32),
-                ink_analyzer::TextSize::from(end as u32),
+                ink_analyzer::TextSize::from(start),
+                ink_analyzer::TextSize::from(end),
             )
         })
 }
-- 
2.43.0


From ed8b245865b6cd1e39cf014d6a64e725eb551fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:03 +0000
Subject: [PATCH 30/64] fix: keep serving after a malformed notification

---
 crates/lsp-server/src/dispatch.rs | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/crates/lsp-server/src/dispatch.rs b/crates/lsp-server/src/dispatch.rs
index b09bbf5..d828137 100644
--- a/crates/lsp-server/src/dispatch.rs
+++ b/crates/lsp-server/src/dispatch.rs
@@ -187,17 +187,24 @@ impl<'a> Dispatcher<'a> {
     pub fn handle_notification(&mut self, not: lsp_server::Notification) -> anyhow::Result<()> {
         // Routes notification to appropriate handler (if any).
         let mut router = NotificationRouter::new(not, &mut self.memory);
-        router
-            .process::<lsp_types::notification::DidOpenTextDocument>(
-                handlers::notification::handle_did_open_text_document,
-            )?
-            .process::<lsp_types::notification::DidChangeTextDocument>(
-                handlers::notification::handle_did_change_text_document,
-            )?
-            .process::<lsp_types::notification::DidCloseTextDocument>(
-                handlers::notification::handle_did_close_text_document,
-            )?
-            .finish();
+        let result: anyhow::Result<bool> = (|| {
+            Ok(router
+                .process::<lsp_types::notification::DidOpenTextDocument>(
+                    handlers::notification::handle_did_open_text_document,
+                )?
+                .process::<lsp_types::notification::DidChangeTextDocument>(
+                    handlers::notification::handle_did_change_text_document,
+                )?
+                .process::<lsp_types::notification::DidCloseTextDocument>(
+                    handlers::notification::handle_did_close_text_document,
+                )?
+                .finish())
+        })();
+        // Notifications have no response and a malformed one mustn't stop the server,
+        // so errors (if any) are only logged.
+        if let Err(error) = result {
+            eprintln!("{error}");
+        }
 
         // Process memory changes (if any) made by notification handlers.
         self.process_changes()?;
-- 
2.43.0


From a9ee1a57191a300df582a0e85fccb7447b0b225c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:04 +0000
Subject: [PATCH 31/64] fix: determine the ink! version from the major version
 of the requirement

---
 crates/lsp-server/src/dispatch.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/lsp-server/src/dispatch.rs b/crates/lsp-server/src/dispatch.rs
index d828137..8470879 100644
--- a/crates/lsp-server/src/dispatch.rs
+++ b/crates/lsp-server/src/dispatch.rs
@@ -551,7 +551,9 @@ impl InkProjectVersion {
 ///
 /// NOTE: We intentionally match `>5.x.x` to v5, because no version greater than v5 currently exists.
 fn is_v5_version_string(text: &str) -> bool {
-    static RE: Lazy<Regex> = Lazy::new(|| Regex::new(r"(^|\b)(([\^~>=])|(>=))?(\s)*5\.").unwrap());
+    // Matches the major version of any of the comma separated requirements.
+    static RE: Lazy<Regex> =
+        Lazy::new(|| Regex::new(r"(^|,)\s*([\^~>=]|(>=))?\s*5\s*(\.|,|$)").unwrap());
     RE.is_match(text)
 }
 
-- 
2.43.0


From e001b4a9d24d385f455be3c1fe00b9326753318f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:05 +0000
Subject: [PATCH 32/64] fix: resolve workspace dependencies of packages that
 are the workspace root

---
 crates/lsp-server/src/dispatch.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/lsp-server/src/dispatch.rs b/crates/lsp-server/src/dispatch.rs
index 8470879..d4b9044 100644
--- a/crates/lsp-server/src/dispatch.rs
+++ b/crates/lsp-server/src/dispatch.rs
@@ -436,6 +436,13 @@ fn parse_ink_project_version(doc_uri: &lsp_types::Url) -> Option<InkProjectVersi
                 let is_workspace_dependency =
                     project_version.as_ref().is_some_and(|it| it.workspace);
                 if is_workspace_dependency {
+                    // Handles packages that are also the workspace root.
+                    let root_project_version =
+                        parse_ink_project_version_inner(&cargo_toml_path, true);
+                    if root_project_version.is_some() {
+                        return root_project_version;
+                    }
+
                     // Finds `Cargo.toml` in workspace root directory (if any).
                     let mut parent_dir = cargo_toml_path.clone();
                     parent_dir.pop();
-- 
2.43.0


From 73b734df44541cc1f7e7614a3a08cb7c604d2dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:36 +0000
Subject: [PATCH 33/64] fix: extract events at the root of a file

---
 crates/analyzer/src/analysis/extract.rs | 43 +++++++++++++++++++++----
 1 file changed, 36 insertions(+), 7 deletions(-)

diff --git a/crates/analyzer/src/analysis/extract.rs b/crates/analyzer/src/analysis/extract.rs
index 31fcd8e..1d36ee3 100644
--- a/crates/analyzer/src/analysis/extract.rs
+++ b/crates/analyzer/src/analysis/extract.rs
@@ -2,7 +2,7 @@
 
 use ink_analyzer_ir::ast::edit_in_place::AttrsOwnerEdit;
 use ink_analyzer_ir::ast::{HasAttrs, HasName};
-use ink_analyzer_ir::syntax::{AstNode, AstToken, TextRange};
+use ink_analyzer_ir::syntax::{AstNode, AstToken, SyntaxElement, TextRange};
 use ink_analyzer_ir::{ast, Event, EventV2, InkArgKind, InkAttribute, InkEntity, InkFile};
 use itertools::Itertools;
 
@@ -43,13 +43,18 @@ pub fn extract(file: &InkFile, range: TextRange) -> Option<Extraction> {
     })?;
     let name = struct_item.name().as_ref().map(ToString::to_string)?;
 
-    // Finds enclosing module and retrieves the insert offset and indent for the import (if any).
+    // Finds enclosing module (or file) and retrieves the insert offset and indent for the import.
     let module_item =
-        ink_analyzer_ir::closest_ancestor_ast_type::<_, ast::Module>(struct_item.syntax())?;
-    let import_offset = module_item
-        .item_list()
-        .map(|item_list| utils::item_insert_offset_start(&item_list))?;
-    let import_indent = format!("\n{}", utils::item_children_indenting(module_item.syntax()));
+        ink_analyzer_ir::closest_ancestor_ast_type::<_, ast::Module>(struct_item.syntax());
+    let (import_offset, import_indent) = match module_item {
+        Some(module_item) => (
+            module_item
+                .item_list()
+                .map(|item_list| utils::item_insert_offset_start(&item_list))?,
+            format!("\n{}", utils::item_children_indenting(module_item.syntax())),
+        ),
+        None => (file_import_offset(file), "\n".to_owned()),
+    };
 
     // Composes content of extracted ink! event.
     // Effectively migrates event to 2.0 if necessary.
@@ -93,6 +98,30 @@ pub fn extract(file: &InkFile, range: TextRange) -> Option<Extraction> {
     })
 }
 
+/// Returns the insert offset for an import at the root of the file
+/// (i.e. after the last `use` item or inner attribute/doc comment, or else at the start of the file).
+fn file_import_offset(file: &InkFile) -> TextSize {
+    let end_of_last = |pred: fn(&SyntaxElement) -> bool| {
+        file.syntax()
+            .children_with_tokens()
+            .filter(pred)
+            .last()
+            .map(|elem| elem.text_range().end())
+    };
+    end_of_last(|elem| ast::Use::can_cast(elem.kind()))
+        .or_else(|| {
+            end_of_last(|elem| match elem {
+                SyntaxElement::Node(node) => {
+                    ast::Attr::cast(node.clone()).is_some_and(|attr| attr.excl_token().is_some())
+                }
+                SyntaxElement::Token(token) => {
+                    ast::Comment::cast(token.clone()).is_some_and(|comment| comment.is_inner())
+                }
+            })
+        })
+        .unwrap_or_else(|| file.syntax().text_range().start())
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 9661a7085d59c3cad76c52a91101a8957c25cbf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:27 +0000
Subject: [PATCH 34/64] fix: keep comments between the tokens of an extracted
 event declaration

---
 crates/analyzer/src/analysis/extract.rs | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/crates/analyzer/src/analysis/extract.rs b/crates/analyzer/src/analysis/extract.rs
index 1d36ee3..e8ae54c 100644
--- a/crates/analyzer/src/analysis/extract.rs
+++ b/crates/analyzer/src/analysis/extract.rs
@@ -1,8 +1,7 @@
 //! ink! event extraction.
 
-use ink_analyzer_ir::ast::edit_in_place::AttrsOwnerEdit;
 use ink_analyzer_ir::ast::{HasAttrs, HasName};
-use ink_analyzer_ir::syntax::{AstNode, AstToken, SyntaxElement, TextRange};
+use ink_analyzer_ir::syntax::{AstNode, AstToken, SyntaxElement, SyntaxKind, TextRange};
 use ink_analyzer_ir::{ast, Event, EventV2, InkArgKind, InkAttribute, InkEntity, InkFile};
 use itertools::Itertools;
 
@@ -58,9 +57,19 @@ pub fn extract(file: &InkFile, range: TextRange) -> Option<Extraction> {
 
     // Composes content of extracted ink! event.
     // Effectively migrates event to 2.0 if necessary.
+    // Only comments that precede the `struct` declaration are extracted separately.
+    let declaration = struct_item
+        .syntax()
+        .children_with_tokens()
+        .find(|elem| {
+            !ast::Attr::can_cast(elem.kind())
+                && !matches!(elem.kind(), SyntaxKind::COMMENT | SyntaxKind::WHITESPACE)
+        })
+        .map(|elem| elem.text_range().start())?;
     let comments = struct_item
         .syntax()
         .children_with_tokens()
+        .filter(|elem| elem.text_range().end() <= declaration)
         .filter_map(|elem| elem.into_token().and_then(ast::Comment::cast))
         .join("\n");
     let non_ink_attrs = struct_item
@@ -74,9 +83,13 @@ pub fn extract(file: &InkFile, range: TextRange) -> Option<Extraction> {
         .map(|arg| format!("({arg})"));
     let event_attr = format!("#[ink::event{}]", event_arg.as_deref().unwrap_or_default());
     let struct_indent = utils::item_indenting(struct_item.syntax());
-    let mutable_struct = struct_item.clone_for_update();
-    mutable_struct.remove_attrs_and_docs();
-    let mut struct_content = mutable_struct.syntax().to_string();
+    let struct_range = struct_item.syntax().text_range();
+    let declaration_range = TextRange::new(declaration, struct_range.end()) - struct_range.start();
+    let mut struct_content = struct_item
+        .syntax()
+        .text()
+        .slice(declaration_range)
+        .to_string();
     if let Some(struct_indent) = struct_indent {
         struct_content = utils::reduce_indenting(&struct_content, &struct_indent);
     }
-- 
2.43.0


From 098ce8042a54cd2eab4d9d45baf962f2f939d3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:27 +0000
Subject: [PATCH 35/64] fix: give the package of an extracted event a unique
 and valid name

---
 .../src/dispatch/handlers/command.rs          | 115 ++++++++++++++++--
 1 file changed, 102 insertions(+), 13 deletions(-)

diff --git a/crates/lsp-server/src/dispatch/handlers/command.rs b/crates/lsp-server/src/dispatch/handlers/command.rs
index eeac267..b44be6e 100644
--- a/crates/lsp-server/src/dispatch/handlers/command.rs
+++ b/crates/lsp-server/src/dispatch/handlers/command.rs
@@ -164,21 +164,33 @@ pub fn handle_extract_event(
         ));
     };
 
+    // Reads contract's `Cargo.toml` file.
+    let Ok(contract_cargo_toml) = fs::read_to_string(&cargo_path) else {
+        return Err(anyhow::format_err!(
+            "Failed to extract ink! event.\nCouldn't read `Cargo.toml` file."
+        ));
+    };
+
     // Creates names and uris for new event package.
     // See `package_name` doc for difference btn `event_package_name` and `event_crate_name`.
-    let (event_package_name, event_crate_name) = package_name(&extraction.name)?;
+    let (base_package_name, base_crate_name) = package_name(&extraction.name)?;
+    let (mut event_package_name, mut event_crate_name) =
+        (base_package_name.clone(), base_crate_name.clone());
     let mut event_package_path = cargo_path.clone();
     event_package_path.pop();
-    let mut event_package_dir = event_package_name.clone();
-    event_package_path.push(&event_package_dir);
+    event_package_path.push(&event_package_name);
     let mut count = 0u8;
-    while event_package_path.exists() && count < 10 {
+    let is_taken = |path: &std::path::Path, name: &str| {
+        path.exists() || !is_available_package_name(name, &contract_cargo_toml)
+    };
+    while is_taken(&event_package_path, &event_package_name) && count < 10 {
         count += 1;
         event_package_path.pop();
-        event_package_dir = format!("{event_package_name}{count}");
-        event_package_path.push(&event_package_dir);
+        event_package_name = format!("{base_package_name}{count}");
+        event_crate_name = format!("{base_crate_name}{count}");
+        event_package_path.push(&event_package_name);
     }
-    if event_package_path.exists() {
+    if is_taken(&event_package_path, &event_package_name) {
         return Err(anyhow::format_err!(
             "Failed to extract ink! event.\n\
             Couldn't find a unique name for the new package directory."
@@ -232,11 +244,6 @@ pub fn handle_extract_event(
         .collect();
 
     // Computes edits for contract's `Cargo.toml` file.
-    let Ok(contract_cargo_toml) = fs::read_to_string(&cargo_path) else {
-        return Err(anyhow::format_err!(
-            "Failed to extract ink! event.\nCouldn't read `Cargo.toml` file."
-        ));
-    };
     let Ok(cargo_uri) = lsp_types::Url::from_file_path(cargo_path) else {
         return Err(anyhow::format_err!(
             "Failed to extract ink! event.\nCouldn't convert `Cargo.toml` path into a URI."
@@ -245,7 +252,7 @@ pub fn handle_extract_event(
     let mut event_package_dep = toml_edit::InlineTable::new();
     event_package_dep.insert(
         "path",
-        toml_edit::Value::from(event_package_dir.to_string()),
+        toml_edit::Value::from(event_package_name.to_string()),
     );
     event_package_dep.insert("default-features", toml_edit::Value::from(false));
     let contract_cargo_toml_updates = add_dependency_to_cargo_toml(
@@ -451,6 +458,88 @@ fn package_name(name: &str) -> anyhow::Result<(String, String)> {
     Ok((name, crate_name))
 }
 
+/// Returns true if a package name can be used for a new dependency of a `Cargo.toml` file
+/// (i.e. it's neither reserved, nor the name of the package itself or one of its dependencies).
+fn is_available_package_name(name: &str, cargo_toml: &str) -> bool {
+    // Rust keywords and built-in crates.
+    // Ref: <https://doc.rust-lang.org/reference/keywords.html>.
+    const RESERVED: &[&str] = &[
+        "abstract",
+        "alloc",
+        "as",
+        "async",
+        "await",
+        "become",
+        "box",
+        "break",
+        "const",
+        "continue",
+        "core",
+        "crate",
+        "do",
+        "dyn",
+        "else",
+        "enum",
+        "extern",
+        "false",
+        "final",
+        "fn",
+        "for",
+        "gen",
+        "if",
+        "impl",
+        "in",
+        "let",
+        "loop",
+        "macro",
+        "match",
+        "mod",
+        "move",
+        "mut",
+        "override",
+        "priv",
+        "proc-macro",
+        "pub",
+        "ref",
+        "return",
+        "self",
+        "static",
+        "std",
+        "struct",
+        "super",
+        "test",
+        "trait",
+        "true",
+        "try",
+        "type",
+        "typeof",
+        "unsafe",
+        "unsized",
+        "use",
+        "virtual",
+        "where",
+        "while",
+        "yield",
+    ];
+    if RESERVED.contains(&name) {
+        return false;
+    }
+    let Ok(doc) = cargo_toml.parse::<toml_edit::DocumentMut>() else {
+        return true;
+    };
+    let is_name = |other: &str| other.replace('_', "-") == name;
+    let is_package = doc
+        .get("package")
+        .and_then(|package| package.get("name"))
+        .and_then(toml_edit::Item::as_str)
+        .is_some_and(is_name);
+    let is_dependency = ["dependencies", "dev-dependencies", "build-dependencies"]
+        .iter()
+        .filter_map(|key| doc.get(key).and_then(toml_edit::Item::as_table_like))
+        .any(|deps| deps.iter().any(|(key, _)| is_name(key)));
+    !is_package && !is_dependency
+}
+
 impl From<CreateProjectResponse> for lsp_types::DocumentChanges {
     fn from(value: CreateProjectResponse) -> Self {
         let doc_changes = value
-- 
2.43.0


From 5c0dbb92be2649dc4293c8658a5eb0878cc818e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:35 +0000
Subject: [PATCH 36/64] fix: reject project names that are not Rust identifiers
 and keep the module name intact

---
 crates/analyzer/src/codegen.rs | 14 ++++++++++----
 crates/analyzer/src/utils.rs   | 21 +++++++++++++++++++++
 2 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/crates/analyzer/src/codegen.rs b/crates/analyzer/src/codegen.rs
index 617e5b7..19ce2c9 100644
--- a/crates/analyzer/src/codegen.rs
+++ b/crates/analyzer/src/codegen.rs
@@ -64,6 +64,12 @@ pub fn new_project(name: String, version: Version) -> Result<Project, Error> {
     let module_name = name.replace('-', "_");
     let struct_name = utils::pascal_case(&module_name);
 
+    // Validates that the generated names are valid Rust identifiers
+    // (e.g. Rust keywords and non-identifier numeric characters aren't).
+    if !utils::is_identifier(&module_name) || !utils::is_identifier(&struct_name) {
+        return Err(Error::ContractName);
+    }
+
     // Returns project code stubs/snippets.
     Ok(Project {
         // Generates `lib.rs`.
@@ -73,16 +79,16 @@ pub fn new_project(name: String, version: Version) -> Result<Project, Error> {
             } else {
                 CONTRACT_PLAIN
             }
-            .replace("my_contract", &module_name)
-            .replace("MyContract", &struct_name),
+            .replace("MyContract", &struct_name)
+            .replace("my_contract", &module_name),
             snippet: Some(
                 if version == Version::V5 {
                     CONTRACT_SNIPPET_V5
                 } else {
                     CONTRACT_SNIPPET
                 }
-                .replace("my_contract", &module_name)
-                .replace("MyContract", &struct_name),
+                .replace("MyContract", &struct_name)
+                .replace("my_contract", &module_name),
             ),
         },
         // Generates `Cargo.toml`.
diff --git a/crates/analyzer/src/utils.rs b/crates/analyzer/src/utils.rs
index 4f7cccd..6c5509e 100644
--- a/crates/analyzer/src/utils.rs
+++ b/crates/analyzer/src/utils.rs
@@ -1,5 +1,26 @@
 //! Generic utilities.
 
+use ink_analyzer_ir::ast::HasName;
+use ink_analyzer_ir::{ast, syntax};
+
+/// Returns true if the name is a valid (non-raw) Rust identifier.
+pub fn is_identifier(name: &str) -> bool {
+    // Keywords that are reserved for future use.
+    // Ref: <https://doc.rust-lang.org/reference/keywords.html#reserved-keywords>.
+    const RESERVED: &[&str] = &[
+        "abstract", "become", "box", "do", "final", "macro", "override", "priv", "try", "typeof",
+        "unsized", "virtual", "yield",
+    ];
+    let parse = syntax::SourceFile::parse(&format!("mod {name} {{}}"));
+    !RESERVED.contains(&name)
+        && parse.errors().is_empty()
+        && syntax::AstNode::syntax(&parse.tree())
+            .children()
+            .find_map(<ast::Module as syntax::AstNode>::cast)
+            .and_then(|module| module.name())
+            .is_some_and(|it| it.text() == name)
+}
+
 /// Converts a name to Pascal case (i.e. UpperCamelCase).
 ///
 /// Ref: <https://github.com/serde-rs/serde/blob/dad15b9fd0bef97b7a7c90a8a165b6ffbc682cae/serde_derive/src/internals/case.rs#L86-L100>.
-- 
2.43.0


From 3511d52eb418ed7b70d40c4a9492f0371c6332eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:25 +0000
Subject: [PATCH 37/64] fix: limit signature help for incomplete ink!
 attributes to arguments of the parent scope

---
 crates/analyzer/src/analysis/signature_help.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/analyzer/src/analysis/signature_help.rs b/crates/analyzer/src/analysis/signature_help.rs
index 8792ef6..b0e63fc 100644
--- a/crates/analyzer/src/analysis/signature_help.rs
+++ b/crates/analyzer/src/analysis/signature_help.rs
@@ -118,11 +118,7 @@ pub fn signature_help(file: &InkFile, offset: TextSize, version: Version) -> Vec
                             // (also accounts for parent scope).
                             let mut possible_args =
                                 utils::valid_ink_args_by_syntax_kind(parent_item_kind, version);
-                            if let Some(attr_parent) = ink_attr
-                                .syntax()
-                                .parent()
-                                .filter(|it| it.kind() == parent_item_kind)
-                            {
+                            if let Some(attr_parent) = ink_attr.syntax().parent() {
                                 utils::remove_invalid_ink_arg_suggestions_for_parent_ink_scope(
                                     &mut possible_args,
                                     &attr_parent,
@@ -155,7 +151,11 @@ pub fn signature_help(file: &InkFile, offset: TextSize, version: Version) -> Vec
                                                 InkAttributeKind::Arg(*arg_kind),
                                                 version,
                                             ))
-                                            .filter(|arg_kind| arg_kind.is_entity_type())
+                                            .filter(|arg_kind| {
+                                                arg_kind.is_entity_type()
+                                                    // Only includes primary arguments for the parent scope.
+                                                    && possible_args.contains(arg_kind)
+                                            })
                                             .collect();
                                         if primary_args.is_empty() {
                                             vec![*arg_kind]
-- 
2.43.0


From 79f3e1acffa6d6906922111f54ed2bf7f1984355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:39 +0000
Subject: [PATCH 38/64] fix: report missing trait messages and arguments in
 declaration order

---
 .../src/analysis/diagnostics/contract/ink_impl.rs         | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/analyzer/src/analysis/diagnostics/contract/ink_impl.rs b/crates/analyzer/src/analysis/diagnostics/contract/ink_impl.rs
index cee85e9..6c6773f 100644
--- a/crates/analyzer/src/analysis/diagnostics/contract/ink_impl.rs
+++ b/crates/analyzer/src/analysis/diagnostics/contract/ink_impl.rs
@@ -517,7 +517,11 @@ fn ensure_trait_definition_impl_invariants(
         }
 
         // Computes diagnostic for missing messages (if any).
-        let mut missing_messages = message_index.values().filter_map(|message| {
+        // Sorts by declaration order for deterministic results.
+        let sorted_messages = message_index
+            .values()
+            .sorted_by_key(|message| message.syntax().text_range().start());
+        let mut missing_messages = sorted_messages.filter_map(|message| {
             // Filters missing messages (with valid names).
             message.fn_item().and_then(|fn_item| {
                 fn_item
@@ -820,6 +824,8 @@ fn ensure_trait_definition_impl_message_args(
         .filter(|arg| {
             !seen_arg_kinds.contains(arg.kind()) && allowed_arg_kinds.contains(arg.kind())
         })
+        // Sorts by declaration order first for deterministic results (`sorted` is stable).
+        .sorted_by_key(|arg| arg.text_range().start())
         .sorted();
     if let Some(first_arg) = missing_args.next() {
         // Determines a "valid" attribute to extend (if possible).
-- 
2.43.0


From 36b22c812d14e5836d999a10f5cc5d83926545ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:40 +0000
Subject: [PATCH 39/64] fix: ignore whitespace and comments when adding an
 argument to an ink! attribute

---
 crates/analyzer/src/analysis/utils.rs | 44 +++++++++++++++++----------
 1 file changed, 28 insertions(+), 16 deletions(-)

diff --git a/crates/analyzer/src/analysis/utils.rs b/crates/analyzer/src/analysis/utils.rs
index e7502d0..fa85dcf 100644
--- a/crates/analyzer/src/analysis/utils.rs
+++ b/crates/analyzer/src/analysis/utils.rs
@@ -1054,14 +1054,20 @@ pub fn ink_arg_insert_offset_and_affixes(
                                 token_tree
                                     .r_paren_token()
                                     .and_then(|r_paren| {
-                                        r_paren.prev_token().and_then(|penultimate_token| {
-                                            match penultimate_token.kind() {
-                                                SyntaxKind::COMMA | SyntaxKind::L_PAREN => None,
-                                                // Adds a comma if the token before the right parenthesis is
-                                                // neither a comma nor the left parenthesis.
-                                                _ => Some(", "),
-                                            }
-                                        })
+                                        ink_analyzer_ir::closest_non_trivia_token(
+                                            &r_paren,
+                                            SyntaxToken::prev_token,
+                                        )
+                                        .and_then(
+                                            |penultimate_token| {
+                                                match penultimate_token.kind() {
+                                                    SyntaxKind::COMMA | SyntaxKind::L_PAREN => None,
+                                                    // Adds a comma if the token before the right parenthesis is
+                                                    // neither a comma nor the left parenthesis.
+                                                    _ => Some(", "),
+                                                }
+                                            },
+                                        )
                                     })
                                     .or_else(|| {
                                         token_tree.syntax().last_token().and_then(|last_token| {
@@ -1090,14 +1096,20 @@ pub fn ink_arg_insert_offset_and_affixes(
                                 token_tree
                                     .l_paren_token()
                                     .and_then(|l_paren| {
-                                        l_paren.next_token().and_then(|first_token| {
-                                            match first_token.kind() {
-                                                SyntaxKind::COMMA | SyntaxKind::R_PAREN => None,
-                                                // Adds a comma if the token after the left parenthesis is
-                                                // neither a comma nor the right parenthesis.
-                                                _ => Some(", "),
-                                            }
-                                        })
+                                        ink_analyzer_ir::closest_non_trivia_token(
+                                            &l_paren,
+                                            SyntaxToken::next_token,
+                                        )
+                                        .and_then(
+                                            |first_token| {
+                                                match first_token.kind() {
+                                                    SyntaxKind::COMMA | SyntaxKind::R_PAREN => None,
+                                                    // Adds a comma if the token after the left parenthesis is
+                                                    // neither a comma nor the right parenthesis.
+                                                    _ => Some(", "),
+                                                }
+                                            },
+                                        )
                                     })
                                     .or_else(|| {
                                         token_tree.syntax().first_token().and_then(|first_token| {
-- 
2.43.0


From 53e5c4e206b484f85c62fe7d191b108a0bc76f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:40 +0000
Subject: [PATCH 40/64] fix: ignore comments in conditional compilation
 attributes

---
 crates/analyzer/src/analysis/utils.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/crates/analyzer/src/analysis/utils.rs b/crates/analyzer/src/analysis/utils.rs
index fa85dcf..a934681 100644
--- a/crates/analyzer/src/analysis/utils.rs
+++ b/crates/analyzer/src/analysis/utils.rs
@@ -723,10 +723,10 @@ pub fn remove_invalid_ink_macro_suggestions_for_parent_cfg_scope(
 /// Returns true if the attribute is a conditional compilation flag for test builds.
 pub fn is_cfg_test_attr(attr: &ast::Attr) -> bool {
     attr.path()
-        .is_some_and(|path| path.to_string().trim() == "cfg")
+        .is_some_and(|path| ink_analyzer_ir::path_to_string(&path) == "cfg")
         && attr.token_tree().is_some_and(|token_tree| {
             static RE: Lazy<Regex> = Lazy::new(|| Regex::new(r"[(,]\s*test\s*[,)]").unwrap());
-            RE.is_match(&token_tree.syntax().to_string())
+            RE.is_match(&text_without_comments(token_tree.syntax()))
         })
 }
 
@@ -737,10 +737,19 @@ pub fn is_cfg_e2e_tests_attr(attr: &ast::Attr) -> bool {
         && attr.token_tree().is_some_and(|token_tree| {
             static RE: Lazy<Regex> =
                 Lazy::new(|| Regex::new(r#"[(,]\s*feature\s*=\s*"e2e-tests"\s*[,)]"#).unwrap());
-            RE.is_match(&token_tree.syntax().to_string())
+            RE.is_match(&text_without_comments(token_tree.syntax()))
         })
 }
 
+/// Returns the text of the syntax node without comments.
+fn text_without_comments(node: &SyntaxNode) -> String {
+    node.descendants_with_tokens()
+        .filter_map(|elem| elem.into_token())
+        .filter(|token| token.kind() != SyntaxKind::COMMENT)
+        .map(|token| token.to_string())
+        .collect()
+}
+
 /// Returns the insert text and snippet (if appropriate) for ink! attribute argument including
 /// the `=` symbol after the ink! attribute argument name if necessary.
 ///
-- 
2.43.0


From 8d95e5f889d29aba2a31fb773b68f107f10131b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:40 +0000
Subject: [PATCH 41/64] fix: treat nested arguments with only whitespace and
 comments as empty

---
 crates/ir/src/attrs/parser.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/crates/ir/src/attrs/parser.rs b/crates/ir/src/attrs/parser.rs
index 4362cb4..793316b 100644
--- a/crates/ir/src/attrs/parser.rs
+++ b/crates/ir/src/attrs/parser.rs
@@ -92,17 +92,25 @@ fn parse_meta_items(token_tree: &ast::TokenTree) -> Vec<MetaNameValue> {
                 let mut nested_meta = None;
                 if n_nested_tts == 1 {
                     if let Some(nested_token_tree) = nested_token_tree {
+                        // Handles incomplete nested args (i.e. `(` or `()`, incl. any whitespace and comments).
+                        let is_empty =
+                            nested_token_tree
+                                .syntax()
+                                .children_with_tokens()
+                                .all(|elem| {
+                                    elem.kind().is_trivia()
+                                        || matches!(elem.kind(), T!['('] | T![')'])
+                                });
                         let nested_meta_items = parse_meta_items(&nested_token_tree);
-                        // At the moment, ink! syntax (specifically v5) only nests a single meta item.
-                        if nested_meta_items.len() == 1 {
-                            nested_meta = Some(Box::new(nested_meta_items[0].to_owned()));
-                        } else if matches!(nested_token_tree.to_string().as_str(), "(" | "()") {
-                            // Handles incomplete nested args.
+                        if is_empty {
                             nested_meta = Some(Box::new(MetaNameValue::empty(
                                 nested_token_tree.syntax().text_range().start(),
                                 Some(nested_token_tree.syntax().text_range().end()),
                                 token_tree.clone(),
                             )));
+                        } else if nested_meta_items.len() == 1 {
+                            // At the moment, ink! syntax (specifically v5) only nests a single meta item.
+                            nested_meta = Some(Box::new(nested_meta_items[0].to_owned()));
                         }
                         if nested_meta.is_some() {
                             // Remove the nested token tree from the name.
-- 
2.43.0


From f7a2de9d0a5b6061cbafc6d652d7b4ff90afe36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:40 +0000
Subject: [PATCH 42/64] fix: keep comments, keys and valid features when
 migrating Cargo.toml

---
 .../src/dispatch/handlers/command.rs          | 89 +++++++++++--------
 1 file changed, 50 insertions(+), 39 deletions(-)

diff --git a/crates/lsp-server/src/dispatch/handlers/command.rs b/crates/lsp-server/src/dispatch/handlers/command.rs
index b44be6e..30437c9 100644
--- a/crates/lsp-server/src/dispatch/handlers/command.rs
+++ b/crates/lsp-server/src/dispatch/handlers/command.rs
@@ -312,37 +312,17 @@ fn migrate_cargo_toml(input: &str) -> anyhow::Result<String> {
     let Some(ink_dep) = deps.get_mut("ink") else {
         return Err(anyhow::format_err!("Failed to parse `Cargo.toml` file."));
     };
-    let new_ink_dep_value = match ink_dep {
-        toml_edit::Item::Table(ink_dep_value) => {
-            let mut new_ink_dep_value = ink_dep_value.clone();
-            new_ink_dep_value.insert(
-                "version",
-                toml_edit::Item::Value(toml_edit::Value::from("5.0.0")),
-            );
-            if !new_ink_dep_value.contains_key("default-features") {
-                new_ink_dep_value.insert(
-                    "default-features",
-                    toml_edit::Item::Value(toml_edit::Value::from(false)),
-                );
-            }
-            new_ink_dep_value.into_inline_table()
-        }
-        toml_edit::Item::Value(toml_edit::Value::InlineTable(ink_dep_value)) => {
-            let mut new_ink_dep_value = ink_dep_value.clone();
-            new_ink_dep_value.insert("version", toml_edit::Value::from("5.0.0"));
-            if !new_ink_dep_value.contains_key("default-features") {
-                new_ink_dep_value.insert("default-features", toml_edit::Value::from(false));
-            }
-            new_ink_dep_value
-        }
-        _ => {
-            let mut new_ink_dep_value = toml_edit::InlineTable::new();
-            new_ink_dep_value.insert("version", toml_edit::Value::from("5.0.0"));
-            new_ink_dep_value.insert("default-features", toml_edit::Value::from(false));
-            new_ink_dep_value
+    if let Some(ink_dep_table) = ink_dep.as_table_like_mut() {
+        upgrade_dependency_version(ink_dep_table);
+        if !ink_dep_table.contains_key("default-features") {
+            ink_dep_table.insert("default-features", toml_edit::value(false));
         }
-    };
-    *ink_dep = toml_edit::Item::Value(toml_edit::Value::InlineTable(new_ink_dep_value));
+    } else {
+        let mut new_ink_dep_value = toml_edit::InlineTable::new();
+        new_ink_dep_value.insert("version", toml_edit::Value::from("5.0.0"));
+        new_ink_dep_value.insert("default-features", toml_edit::Value::from(false));
+        replace_value(ink_dep, toml_edit::Value::InlineTable(new_ink_dep_value));
+    }
 
     // Remove `scale` and `scale-info` dependencies (if any).
     if let Some(scale_dep) = deps.get_mut("scale") {
@@ -358,28 +338,59 @@ fn migrate_cargo_toml(input: &str) -> anyhow::Result<String> {
         .and_then(toml_edit::Item::as_table_mut)
     {
         if let Some(ink_e2e_dep) = dev_deps.get_mut("ink_e2e") {
-            *ink_e2e_dep = toml_edit::Item::Value(toml_edit::Value::from("5.0.0"));
+            // Preserves other keys (e.g. features).
+            let has_only_version = ink_e2e_dep
+                .as_inline_table()
+                .is_some_and(|table| table.iter().all(|(key, _)| key == "version"));
+            match ink_e2e_dep.as_table_like_mut() {
+                Some(ink_e2e_dep_table) if !has_only_version => {
+                    upgrade_dependency_version(ink_e2e_dep_table);
+                }
+                _ => replace_value(ink_e2e_dep, toml_edit::Value::from("5.0.0")),
+            }
         }
     }
 
-    // Remove `scale/std` and `scale-info/std` features (if any).
+    // Remove features that reference the `scale` and `scale-info` dependencies (if any)
+    // (e.g. `scale/std`, `scale-info?/std` or `dep:scale-info`).
     if let Some(features) = doc
         .get_mut("features")
         .and_then(toml_edit::Item::as_table_mut)
     {
-        if let Some(std_features) = features
-            .get_mut("std")
-            .and_then(toml_edit::Item::as_array_mut)
-        {
-            std_features.retain(|feature| {
-                !matches!(feature.as_str(), Some("scale/std" | "scale-info/std"))
-            });
+        for (_, feature_items) in features.iter_mut() {
+            if let Some(feature_items) = feature_items.as_array_mut() {
+                feature_items.retain(|feature| {
+                    !feature.as_str().is_some_and(|feature| {
+                        let dep = feature.split('/').next().unwrap_or(feature);
+                        let dep = dep.strip_prefix("dep:").unwrap_or(dep);
+                        matches!(dep.trim_end_matches('?'), "scale" | "scale-info")
+                    })
+                });
+            }
         }
     }
 
     Ok(doc.to_string())
 }
 
+/// Upgrades the version requirement of a dependency table to ink! 5.0.
+fn upgrade_dependency_version(dep_table: &mut dyn toml_edit::TableLike) {
+    match dep_table.get_mut("version") {
+        Some(version) => replace_value(version, toml_edit::Value::from("5.0.0")),
+        None => {
+            dep_table.insert("version", toml_edit::value("5.0.0"));
+        }
+    }
+}
+
+/// Replaces the value of an item while preserving its decor (i.e. surrounding whitespace and comments).
+fn replace_value(item: &mut toml_edit::Item, mut new_value: toml_edit::Value) {
+    if let Some(value) = item.as_value() {
+        *new_value.decor_mut() = value.decor().clone();
+    }
+    *item = toml_edit::Item::Value(new_value);
+}
+
 /// Add a dependency to a `Cargo.toml` file.
 fn add_dependency_to_cargo_toml(
     input: &str,
-- 
2.43.0


From 341bc5804b116073391653ef8bea53b62400ed9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:57 +0000
Subject: [PATCH 43/64] fix: do not emit overlapping edits when removing
 conflicting ink! arguments

---
 .../src/analysis/diagnostics/common.rs         | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/crates/analyzer/src/analysis/diagnostics/common.rs b/crates/analyzer/src/analysis/diagnostics/common.rs
index 8f2d4fe..05e5ee2 100644
--- a/crates/analyzer/src/analysis/diagnostics/common.rs
+++ b/crates/analyzer/src/analysis/diagnostics/common.rs
@@ -1064,13 +1064,21 @@ fn validate_entity_attributes(
                                         edits: conflicting_args
                                             .iter()
                                             .map(|arg| {
-                                                TextEdit::delete(
-                                                    utils::ink_arg_and_delimiter_removal_range(
-                                                        arg,
-                                                        Some(attr),
-                                                    ),
+                                                utils::ink_arg_and_delimiter_removal_range(
+                                                    arg,
+                                                    Some(attr),
                                                 )
                                             })
+                                            // Merges ranges that share a delimiter.
+                                            .sorted_by_key(|range| range.start())
+                                            .coalesce(|prev, next| {
+                                                if next.start() < prev.end() {
+                                                    Ok(prev.cover(next))
+                                                } else {
+                                                    Err((prev, next))
+                                                }
+                                            })
+                                            .map(TextEdit::delete)
                                             .collect(),
                                     }
                                 }
-- 
2.43.0


From 5c5f9c5cd2b6d29c04a7229622f4999611e38766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:41:51 +0000
Subject: [PATCH 44/64] fix: only migrate host function calls on the contract's
 environment

---
 crates/analyzer/src/analysis/migrate/host_fn.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/analyzer/src/analysis/migrate/host_fn.rs b/crates/analyzer/src/analysis/migrate/host_fn.rs
index 247e34d..441ff6c 100644
--- a/crates/analyzer/src/analysis/migrate/host_fn.rs
+++ b/crates/analyzer/src/analysis/migrate/host_fn.rs
@@ -225,10 +225,11 @@ impl Visitor for BodyVisitor {
                         .name_ref()
                         .is_some_and(|name| name.to_string() == "env")
             });
-        if !is_self_env_call {
+        if is_self_env_call {
+            chained_env_host_fn_call(&mut self.results, expr.syntax());
+        } else {
             walk_method_call(self, expr);
         }
-        chained_env_host_fn_call(&mut self.results, expr.syntax());
     }
 }
 
-- 
2.43.0


From 3d49c6f2a32e879b2ac0c3582300cddccd31c1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:37 +0000
Subject: [PATCH 45/64] fix: migrate host function calls in arguments of other
 host function calls

---
 crates/analyzer/src/analysis/migrate/host_fn.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/analyzer/src/analysis/migrate/host_fn.rs b/crates/analyzer/src/analysis/migrate/host_fn.rs
index 441ff6c..205485a 100644
--- a/crates/analyzer/src/analysis/migrate/host_fn.rs
+++ b/crates/analyzer/src/analysis/migrate/host_fn.rs
@@ -137,8 +137,10 @@ impl Visitor for BodyVisitor {
         } else {
             None
         };
+        // Visits the arguments (they may contain other calls to migrate).
+        walk_call(self, expr);
+
         let Some(host_fn_wrapper_path) = host_fn_wrapper_path else {
-            walk_call(self, expr);
             return;
         };
 
-- 
2.43.0


From 32ce021198f2f8d4f5705f6b1cac2f26903317b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:15 +0000
Subject: [PATCH 46/64] fix: do not add a crate-level inner attribute after
 other items

---
 .../analyzer/src/analysis/actions/entity.rs   |  3 +-
 crates/analyzer/src/analysis/actions/item.rs  |  1 +
 crates/analyzer/src/analysis/completions.rs   |  2 +-
 .../analyzer/src/analysis/text_edit/common.rs | 34 +++++++++++++------
 4 files changed, 27 insertions(+), 13 deletions(-)

diff --git a/crates/analyzer/src/analysis/actions/entity.rs b/crates/analyzer/src/analysis/actions/entity.rs
index 91ccb21..a9cc2fa 100644
--- a/crates/analyzer/src/analysis/actions/entity.rs
+++ b/crates/analyzer/src/analysis/actions/entity.rs
@@ -493,12 +493,13 @@ pub fn add_contract(
     kind: ActionKind,
     indent_option: Option<&str>,
     version: Version,
+    file: &InkFile,
 ) -> Action {
     Action {
         label: "Add ink! contract `mod`.".to_owned(),
         kind,
         range,
-        edits: vec![text_edit::add_contract(range, indent_option, version)],
+        edits: vec![text_edit::add_contract(range, indent_option, version, file)],
     }
 }
 
diff --git a/crates/analyzer/src/analysis/actions/item.rs b/crates/analyzer/src/analysis/actions/item.rs
index e3b75b7..eec699c 100644
--- a/crates/analyzer/src/analysis/actions/item.rs
+++ b/crates/analyzer/src/analysis/actions/item.rs
@@ -617,6 +617,7 @@ fn root_ink_entity_actions(
             ActionKind::Refactor,
             None,
             version,
+            file,
         ));
     }
 
diff --git a/crates/analyzer/src/analysis/completions.rs b/crates/analyzer/src/analysis/completions.rs
index ef011da..babed68 100644
--- a/crates/analyzer/src/analysis/completions.rs
+++ b/crates/analyzer/src/analysis/completions.rs
@@ -850,7 +850,7 @@ pub fn entity_completions(
             results.push(Completion {
                 label: "#[ink::contract]..mod contract {...}".to_owned(),
                 range,
-                edit: text_edit::add_contract(range, None, version),
+                edit: text_edit::add_contract(range, None, version, file),
                 detail: Some("ink! contract".to_owned()),
                 kind: CompletionKind::Mod,
             });
diff --git a/crates/analyzer/src/analysis/text_edit/common.rs b/crates/analyzer/src/analysis/text_edit/common.rs
index 8e53b39..79d21c2 100644
--- a/crates/analyzer/src/analysis/text_edit/common.rs
+++ b/crates/analyzer/src/analysis/text_edit/common.rs
@@ -73,19 +73,31 @@ macro_rules! mod_item_names {
 }
 
 /// Creates text edit for ink! contract.
-pub fn add_contract(range: TextRange, indent: Option<&str>, version: Version) -> TextEdit {
+pub fn add_contract(
+    range: TextRange,
+    indent: Option<&str>,
+    version: Version,
+    file: &InkFile,
+) -> TextEdit {
+    let (text, snippet) = if version == Version::V5 {
+        (CONTRACT_PLAIN_V5, CONTRACT_SNIPPET_V5)
+    } else {
+        (CONTRACT_PLAIN, CONTRACT_SNIPPET)
+    };
+    // The crate-level inner attribute is only valid before the first item.
+    let is_after_item = file
+        .syntax()
+        .children()
+        .filter_map(ast::Item::cast)
+        .any(|item| item.syntax().text_range().start() < range.start());
+    let strip_inner_attr = |code: &'static str| match code.find("\n\n") {
+        Some(idx) if is_after_item && code.starts_with("#![") => &code[idx + 2..],
+        _ => code,
+    };
     text_edit_with_indent(
-        if version == Version::V5 {
-            CONTRACT_PLAIN_V5
-        } else {
-            CONTRACT_PLAIN
-        },
+        strip_inner_attr(text),
         range,
-        Some(if version == Version::V5 {
-            CONTRACT_SNIPPET_V5
-        } else {
-            CONTRACT_SNIPPET
-        }),
+        Some(strip_inner_attr(snippet)),
         indent,
     )
 }
-- 
2.43.0


From f6fabfc26b71e7df24a4d9dcbd8ebe1270c22892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:48 +0000
Subject: [PATCH 47/64] fix: do not replace closing delimiters when accepting
 completions

---
 crates/analyzer/src/analysis/completions.rs | 42 ++++++++++++---------
 1 file changed, 25 insertions(+), 17 deletions(-)

diff --git a/crates/analyzer/src/analysis/completions.rs b/crates/analyzer/src/analysis/completions.rs
index babed68..467bc54 100644
--- a/crates/analyzer/src/analysis/completions.rs
+++ b/crates/analyzer/src/analysis/completions.rs
@@ -107,13 +107,8 @@ pub fn macro_completions(
                 || prev_token_is_left_bracket
                 || focused_token_is_in_ink_crate_path_segment
             {
-                // Removes the delimiter (i.e `[`) from text range if it's the focused token.
-                let edit_range = if focused_token_is_left_bracket {
-                    let focused_token_end = focused_token.text_range().end();
-                    TextRange::new(focused_token_end, focused_token_end)
-                } else {
-                    focused_token.text_range()
-                };
+                // Removes the delimiter (i.e `[` or `]`) from text range if it's the focused token.
+                let edit_range = typed_range(focused_token, offset);
 
                 // Only suggest ink! attribute macros if the AST item has no other ink! attributes.
                 let mut ink_macro_suggestions = Vec::new();
@@ -300,6 +295,11 @@ pub fn argument_completions(
             let prev_non_trivia_token_is_comma = item_at_offset
                 .prev_non_trivia_token()
                 .map_or(false, |prev_token| prev_token.kind() == SyntaxKind::COMMA);
+            // `true` for whitespace before the closing delimiter (i.e nothing has been typed yet).
+            let focused_token_is_blank = focused_token.kind() == SyntaxKind::WHITESPACE
+                && item_at_offset
+                    .next_non_trivia_token()
+                    .map_or(true, |token| token.kind() == SyntaxKind::R_PAREN);
             let prev_token_is_whitespace = focused_token.prev_token().map_or(true, |prev_token| {
                 prev_token.kind() == SyntaxKind::WHITESPACE
             });
@@ -419,7 +419,10 @@ pub fn argument_completions(
                 }
 
                 // Filters suggestions by the focused prefix if the focused token is not a delimiter.
-                if !focused_token_is_left_parenthesis && !focused_token_is_comma {
+                if !focused_token_is_left_parenthesis
+                    && !focused_token_is_comma
+                    && !focused_token_is_blank
+                {
                     if let Some(prefix) = item_at_offset.focused_token_prefix() {
                         ink_arg_suggestions.retain(|arg_kind| {
                             format!("{arg_kind}").starts_with(prefix)
@@ -441,15 +444,7 @@ pub fn argument_completions(
                         ("", "")
                     };
 
-                    let range = edit_range.unwrap_or(
-                        if focused_token_is_left_parenthesis || focused_token_is_comma {
-                            // Removes the delimiter (i.e `(` and `,`) from text range if it's the focused token.
-                            let focused_token_end = focused_token.text_range().end();
-                            TextRange::new(focused_token_end, focused_token_end)
-                        } else {
-                            focused_token.text_range()
-                        },
-                    );
+                    let range = edit_range.unwrap_or_else(|| typed_range(focused_token, offset));
                     let (edit, snippet) =
                         utils::ink_arg_insert_text(arg_kind, Some(range.end()), Some(&ink_attr));
                     results.push(Completion {
@@ -469,6 +464,19 @@ pub fn argument_completions(
     }
 }
 
+/// Returns the range of the text that's being typed (i.e an empty range for delimiters and whitespace).
+fn typed_range(focused_token: &SyntaxToken, offset: TextSize) -> TextRange {
+    match focused_token.kind() {
+        SyntaxKind::L_BRACK | SyntaxKind::L_PAREN | SyntaxKind::COMMA => {
+            TextRange::empty(focused_token.text_range().end())
+        }
+        SyntaxKind::R_BRACK | SyntaxKind::R_PAREN | SyntaxKind::WHITESPACE => {
+            TextRange::empty(offset)
+        }
+        _ => focused_token.text_range(),
+    }
+}
+
 /// Computes ink! entity completions at the given offset.
 pub fn entity_completions(
     results: &mut Vec<Completion>,
-- 
2.43.0


From 1c819b4cc0cc748fcb5ac7d15f68f17835f2f66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:25 +0000
Subject: [PATCH 48/64] fix: do not suggest ink! attributes on items that
 cannot be annotated

---
 crates/analyzer/src/analysis/completions.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/crates/analyzer/src/analysis/completions.rs b/crates/analyzer/src/analysis/completions.rs
index 467bc54..a754aa7 100644
--- a/crates/analyzer/src/analysis/completions.rs
+++ b/crates/analyzer/src/analysis/completions.rs
@@ -131,6 +131,8 @@ pub fn macro_completions(
                         Some((ast_item_keyword, ..)) => {
                             utils::valid_ink_macros_by_syntax_kind(ast_item_keyword.kind(), version)
                         }
+                        // Handles AST items that can't be annotated with ink! attribute macros.
+                        None if is_attached_to_other_item(&attr) => Vec::new(),
                         // Handles the case where the AST item type is unknown.
                         None => {
                             // Returns all valid ink! attribute macro suggestions if focused token is part of an ink! path segment.
@@ -368,6 +370,7 @@ pub fn argument_completions(
                                 // Handles cases where either the parent item kind is unknown.
                                 // Returns all attribute arguments that don't require a macro
                                 // if the AST item type is unknown.
+                                None if is_attached_to_other_item(ink_attr.ast()) => Vec::new(),
                                 None => {
                                     if version == Version::V5 {
                                         vec![
@@ -464,6 +467,21 @@ pub fn argument_completions(
     }
 }
 
+/// Returns true if the attribute is attached to a known item (or field) and isn't just dangling.
+///
+/// **NOTE:** Should only be used for items that aren't recognized as potential ink! attribute targets.
+fn is_attached_to_other_item(attr: &ast::Attr) -> bool {
+    attr.r_brack_token().is_some()
+        && attr.syntax().parent().is_some_and(|parent| {
+            let kind = parent.kind();
+            (ast::Item::can_cast(kind) && kind != SyntaxKind::MACRO_CALL)
+                || matches!(
+                    kind,
+                    SyntaxKind::RECORD_FIELD | SyntaxKind::TUPLE_FIELD | SyntaxKind::VARIANT
+                )
+        })
+}
+
 /// Returns the range of the text that's being typed (i.e an empty range for delimiters and whitespace).
 fn typed_range(focused_token: &SyntaxToken, offset: TextSize) -> TextRange {
     match focused_token.kind() {
-- 
2.43.0


From ccbeec7053abf10a5e67104197b1c57c5f23802b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:07 +0000
Subject: [PATCH 49/64] fix: do not suggest ink! arguments in scopes that do
 not allow any

---
 crates/analyzer/src/analysis/utils.rs | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/crates/analyzer/src/analysis/utils.rs b/crates/analyzer/src/analysis/utils.rs
index a934681..cdba18b 100644
--- a/crates/analyzer/src/analysis/utils.rs
+++ b/crates/analyzer/src/analysis/utils.rs
@@ -628,17 +628,24 @@ pub fn remove_invalid_ink_arg_suggestions_for_parent_ink_scope(
     attr_parent: &SyntaxNode,
     version: Version,
 ) {
-    let parent_ink_scope_valid_ink_args: Vec<InkArgKind> =
-        ink_analyzer_ir::ink_attrs_closest_ancestors(attr_parent)
-            .flat_map(|attr| valid_quasi_direct_descendant_ink_args(*attr.kind(), version))
-            .collect();
+    let parent_ink_attrs: Vec<InkAttribute> =
+        ink_analyzer_ir::ink_attrs_closest_ancestors(attr_parent).collect();
+    let is_known_ink_scope = !parent_ink_attrs.is_empty()
+        && !parent_ink_attrs.iter().any(|attr| {
+            matches!(
+                attr.kind(),
+                InkAttributeKind::Macro(InkMacroKind::Unknown)
+                    | InkAttributeKind::Arg(InkArgKind::Unknown)
+            )
+        });
+    let parent_ink_scope_valid_ink_args: Vec<InkArgKind> = parent_ink_attrs
+        .iter()
+        .flat_map(|attr| valid_quasi_direct_descendant_ink_args(*attr.kind(), version))
+        .collect();
 
     // Filters out invalid arguments for the parent ink! scope (if any).
-    if !parent_ink_scope_valid_ink_args.is_empty() {
-        suggestions.retain(|arg_kind| {
-            parent_ink_scope_valid_ink_args.is_empty()
-                || parent_ink_scope_valid_ink_args.contains(arg_kind)
-        });
+    if is_known_ink_scope || !parent_ink_scope_valid_ink_args.is_empty() {
+        suggestions.retain(|arg_kind| parent_ink_scope_valid_ink_args.contains(arg_kind));
     }
 }
 
-- 
2.43.0


From 196190e52c7945ff7d820c0f83148dec6ba2a027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:36 +0000
Subject: [PATCH 50/64] fix: do not suggest the namespace argument for trait
 implementation blocks

---
 crates/analyzer/src/analysis/utils.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/analyzer/src/analysis/utils.rs b/crates/analyzer/src/analysis/utils.rs
index cdba18b..d64e4cf 100644
--- a/crates/analyzer/src/analysis/utils.rs
+++ b/crates/analyzer/src/analysis/utils.rs
@@ -664,6 +664,9 @@ pub fn remove_duplicate_conflicting_and_invalid_scope_ink_arg_suggestions(
         // Filters out conflicting ink! attribute argument actions.
         remove_conflicting_ink_arg_suggestions(suggestions, &attr_parent, version);
 
+        // Filters out invalid ink! attribute argument actions based on the parent item.
+        remove_invalid_ink_arg_suggestions_for_parent_item(suggestions, &attr_parent);
+
         // Filters out invalid (based on parent ink! scope) ink! attribute argument actions,
         // Doesn't apply to ink! attribute macros as their arguments are not influenced by the parent scope.
         if let InkAttributeKind::Arg(_) = ink_attr.kind() {
-- 
2.43.0


From 370aacffc98051049303ac3332014138d583e688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:21 +0000
Subject: [PATCH 51/64] fix: recognize items with restricted visibility or
 qualifiers after unclosed attributes

---
 crates/ir/src/tree/item_at_offset.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/crates/ir/src/tree/item_at_offset.rs b/crates/ir/src/tree/item_at_offset.rs
index 0f71e4f..524e9ba 100644
--- a/crates/ir/src/tree/item_at_offset.rs
+++ b/crates/ir/src/tree/item_at_offset.rs
@@ -180,11 +180,22 @@ impl ItemAtOffset {
                                     | SyntaxKind::IMPL_KW
                             )
                         },
-                        // We only continue searching if the current token is either trivia, punctuation or the `pub` keyword.
+                        // We only continue searching if the current token is either trivia, punctuation,
+                        // or part of a visibility or an item qualifier (e.g. `pub(crate)` or `async`).
                         |subject| {
                             !subject.kind().is_trivia()
                                 && !subject.kind().is_punct()
-                                && subject.kind() != SyntaxKind::PUB_KW
+                                && !matches!(
+                                    subject.kind(),
+                                    SyntaxKind::PUB_KW
+                                        | SyntaxKind::CRATE_KW
+                                        | SyntaxKind::SUPER_KW
+                                        | SyntaxKind::SELF_KW
+                                        | SyntaxKind::IN_KW
+                                        | SyntaxKind::ASYNC_KW
+                                        | SyntaxKind::CONST_KW
+                                        | SyntaxKind::UNSAFE_KW
+                                )
                         },
                     )
                     .map(|keyword| {
-- 
2.43.0


From 9674b684cb888f335c8ab3e194e5151c46f2a38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:23 +0000
Subject: [PATCH 52/64] fix: do not replace comments when accepting completions

---
 crates/analyzer/src/analysis/completions.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/crates/analyzer/src/analysis/completions.rs b/crates/analyzer/src/analysis/completions.rs
index a754aa7..b1f8156 100644
--- a/crates/analyzer/src/analysis/completions.rs
+++ b/crates/analyzer/src/analysis/completions.rs
@@ -482,15 +482,14 @@ fn is_attached_to_other_item(attr: &ast::Attr) -> bool {
         })
 }
 
-/// Returns the range of the text that's being typed (i.e an empty range for delimiters and whitespace).
+/// Returns the range of the text that's being typed (i.e an empty range for delimiters and trivia).
 fn typed_range(focused_token: &SyntaxToken, offset: TextSize) -> TextRange {
     match focused_token.kind() {
         SyntaxKind::L_BRACK | SyntaxKind::L_PAREN | SyntaxKind::COMMA => {
             TextRange::empty(focused_token.text_range().end())
         }
-        SyntaxKind::R_BRACK | SyntaxKind::R_PAREN | SyntaxKind::WHITESPACE => {
-            TextRange::empty(offset)
-        }
+        SyntaxKind::R_BRACK | SyntaxKind::R_PAREN => TextRange::empty(offset),
+        kind if kind.is_trivia() => TextRange::empty(offset),
         _ => focused_token.text_range(),
     }
 }
-- 
2.43.0


From 44b6999843f8bfcdfdaf4a6e092036d219a7c73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:28 +0000
Subject: [PATCH 53/64] fix: suggest arguments of ink! macros that are next to
 another ink! macro

---
 crates/analyzer/src/analysis/utils.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/analyzer/src/analysis/utils.rs b/crates/analyzer/src/analysis/utils.rs
index d64e4cf..4fc8bad 100644
--- a/crates/analyzer/src/analysis/utils.rs
+++ b/crates/analyzer/src/analysis/utils.rs
@@ -662,7 +662,14 @@ pub fn remove_duplicate_conflicting_and_invalid_scope_ink_arg_suggestions(
         remove_duplicate_ink_arg_suggestions(suggestions, &attr_parent);
 
         // Filters out conflicting ink! attribute argument actions.
-        remove_conflicting_ink_arg_suggestions(suggestions, &attr_parent, version);
+        // Doesn't apply to ink! attribute macros next to another one (e.g. `#[ink::scale_derive]`),
+        // as their arguments are independent.
+        let is_secondary_macro = matches!(ink_attr.kind(), InkAttributeKind::Macro(_))
+            && primary_ink_attribute_candidate(ink_analyzer_ir::ink_attrs(&attr_parent))
+                .is_some_and(|(primary_attr, ..)| primary_attr.syntax() != ink_attr.syntax());
+        if !is_secondary_macro {
+            remove_conflicting_ink_arg_suggestions(suggestions, &attr_parent, version);
+        }
 
         // Filters out invalid ink! attribute argument actions based on the parent item.
         remove_invalid_ink_arg_suggestions_for_parent_item(suggestions, &attr_parent);
-- 
2.43.0


From bd4f9658067c2e48eba33712d24e467b8d1a8190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:39 +0000
Subject: [PATCH 54/64] fix: suggest unused names and ids for new ink! 5
 extension functions

---
 .../analyzer/src/analysis/text_edit/common.rs | 47 ++++++++++++++-----
 1 file changed, 35 insertions(+), 12 deletions(-)

diff --git a/crates/analyzer/src/analysis/text_edit/common.rs b/crates/analyzer/src/analysis/text_edit/common.rs
index 79d21c2..8ee1d5b 100644
--- a/crates/analyzer/src/analysis/text_edit/common.rs
+++ b/crates/analyzer/src/analysis/text_edit/common.rs
@@ -5,8 +5,8 @@ use std::collections::HashSet;
 use ink_analyzer_ir::ast::{HasModuleItem, HasName};
 use ink_analyzer_ir::syntax::{AstNode, TextRange};
 use ink_analyzer_ir::{
-    ast, ChainExtension, Contract, Extension, InkEntity, InkFile, IsInkFn, IsInkTrait, Message,
-    TraitDefinition, Version,
+    ast, ChainExtension, Contract, Extension, Function, InkEntity, InkFile, IsInkFn, IsInkTrait,
+    Message, TraitDefinition, Version,
 };
 
 use super::{utils, TextEdit};
@@ -320,10 +320,22 @@ pub fn add_extension(
 ) -> TextEdit {
     // Sets insert indent and suggested name.
     let indent = utils::item_children_indenting(chain_extension.syntax());
-    let names = chain_extension
-        .extensions()
-        .iter()
-        .filter_map(Extension::fn_item)
+    let fn_items = if version == Version::V5 {
+        itertools::Either::Left(
+            chain_extension
+                .functions()
+                .iter()
+                .filter_map(Function::fn_item),
+        )
+    } else {
+        itertools::Either::Right(
+            chain_extension
+                .extensions()
+                .iter()
+                .filter_map(Extension::fn_item),
+        )
+    };
+    let names = fn_items
         .filter_map(|fn_item| fn_item.name().as_ref().map(ToString::to_string))
         .collect();
     let (mut text, mut snippet) = if version == Version::V5 {
@@ -341,12 +353,23 @@ pub fn add_extension(
             EXTENSION_FN_SNIPPET.replace(preferred_name, &suggested_name),
         )
     };
-    let unavailable_ids = chain_extension
-        .extensions()
-        .iter()
-        .filter_map(Extension::id)
-        .collect();
-    let id = utils::suggest_unique_id(None, &unavailable_ids).unwrap_or(1);
+    let id = if version == Version::V5 {
+        let unavailable_ids = chain_extension
+            .functions()
+            .iter()
+            .filter_map(Function::id)
+            .collect();
+        utils::suggest_unique_id(None, &unavailable_ids)
+            .unwrap_or(1)
+            .into()
+    } else {
+        let unavailable_ids = chain_extension
+            .extensions()
+            .iter()
+            .filter_map(Extension::id)
+            .collect();
+        utils::suggest_unique_id(None, &unavailable_ids).unwrap_or(1)
+    };
     if id > 1 {
         text = text.replace("1)]", &format!("{id})]"));
         snippet = snippet.replace("1})]", &format!("{id}}})]"));
-- 
2.43.0


From 4d3a2d3cff951bd78946baf3926f5bbd81c0cff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:52 +0000
Subject: [PATCH 55/64] fix: suggest unused selectors for constructors with
 several ink! attributes

---
 crates/analyzer/src/analysis/utils.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/crates/analyzer/src/analysis/utils.rs b/crates/analyzer/src/analysis/utils.rs
index 4fc8bad..02c1eeb 100644
--- a/crates/analyzer/src/analysis/utils.rs
+++ b/crates/analyzer/src/analysis/utils.rs
@@ -948,10 +948,7 @@ pub fn ink_arg_insert_text(
                             .filter_map(|msg| msg.composed_selector().map(Selector::into_be_u32))
                             .collect();
                     } else if let Some(contract) = parent_contract() {
-                        let is_ctor = ink_attr
-                            .args()
-                            .iter()
-                            .any(|arg| *arg.kind() == InkArgKind::Constructor);
+                        let is_ctor = is_constructor_attr(ink_attr);
                         unavailable_ids = if is_ctor {
                             contract
                                 .constructors()
-- 
2.43.0


From d5df7ee4241bfaed5225a0f5b7c188108f1b88d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:46 +0000
Subject: [PATCH 56/64] fix: don't suggest `keep_attr` arguments for ink! impl
 blocks

---
 crates/analyzer/src/analysis/utils.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/analyzer/src/analysis/utils.rs b/crates/analyzer/src/analysis/utils.rs
index 02c1eeb..42d1bc9 100644
--- a/crates/analyzer/src/analysis/utils.rs
+++ b/crates/analyzer/src/analysis/utils.rs
@@ -611,9 +611,12 @@ pub fn remove_invalid_ink_arg_suggestions_for_parent_item(
     suggestions: &mut Vec<InkArgKind>,
     attr_parent: &SyntaxNode,
 ) {
-    // Removes namespace suggestions for trait `impl` blocks.
-    // Ref: <https://github.com/paritytech/ink/blob/v4.1.0/crates/ink/ir/src/ir/item_impl/mod.rs#L316-L320>.
     if ast::Impl::can_cast(attr_parent.kind()) {
+        // Removes `keep_attr` suggestions, because it's only a valid sibling for `namespace` arguments of attribute macros.
+        suggestions.retain(|arg_kind| *arg_kind != InkArgKind::KeepAttr);
+
+        // Removes namespace suggestions for trait `impl` blocks.
+        // Ref: <https://github.com/paritytech/ink/blob/v4.1.0/crates/ink/ir/src/ir/item_impl/mod.rs#L316-L320>.
         let impl_item =
             ast::Impl::cast(attr_parent.clone()).expect("Should be able to cast to `impl` item.");
         if impl_item.trait_().is_some() {
-- 
2.43.0


From 911b989e9ccf8723655077fe582edf6e87667f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:10 +0000
Subject: [PATCH 57/64] fix: add ink! entities inside the item when several of
 its children are selected

---
 crates/analyzer/src/analysis/actions/item.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/analyzer/src/analysis/actions/item.rs b/crates/analyzer/src/analysis/actions/item.rs
index eec699c..9b12934 100644
--- a/crates/analyzer/src/analysis/actions/item.rs
+++ b/crates/analyzer/src/analysis/actions/item.rs
@@ -94,7 +94,10 @@ pub fn actions(results: &mut Vec<Action>, file: &InkFile, range: TextRange, vers
                             item_ink_entity_actions(
                                 results,
                                 &ast_item,
-                                is_focused_on_body.then(focused_elem_edit_range),
+                                // Selections of several elements (i.e. no focused token) have no
+                                // location of their own, so the default insert location is used.
+                                (is_focused_on_body && focused_elem.as_token().is_some())
+                                    .then(focused_elem_edit_range),
                                 version,
                             );
                         }
-- 
2.43.0


From 979477fe6de6a2729478f2ba8048483ebebd7e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:11 +0000
Subject: [PATCH 58/64] fix: suggest actions for a selected field

---
 crates/analyzer/src/analysis/actions/item.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/analyzer/src/analysis/actions/item.rs b/crates/analyzer/src/analysis/actions/item.rs
index 9b12934..66bd97c 100644
--- a/crates/analyzer/src/analysis/actions/item.rs
+++ b/crates/analyzer/src/analysis/actions/item.rs
@@ -40,7 +40,13 @@ pub fn actions(results: &mut Vec<Action>, file: &InkFile, range: TextRange, vers
                         // Gets the covering struct record field (if any).
                         let record_field: Option<ast::RecordField> =
                             if matches!(ast_item, ast::Item::Struct(_)) {
-                                ink_analyzer_ir::closest_ancestor_ast_type(&focused_elem)
+                                focused_elem
+                                    .as_node()
+                                    .cloned()
+                                    .and_then(ast::RecordField::cast)
+                                    .or_else(|| {
+                                        ink_analyzer_ir::closest_ancestor_ast_type(&focused_elem)
+                                    })
                             } else {
                                 None
                             };
-- 
2.43.0


From 4aabd1cb25501650ce175e0e84ed759c0a699493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:52:23 +0000
Subject: [PATCH 59/64] fix: resolve paths through nested modules and repeated
 super qualifiers

---
 crates/ir/src/tree/ast_ext.rs | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/crates/ir/src/tree/ast_ext.rs b/crates/ir/src/tree/ast_ext.rs
index 1be7471..a5a12da 100644
--- a/crates/ir/src/tree/ast_ext.rs
+++ b/crates/ir/src/tree/ast_ext.rs
@@ -217,10 +217,14 @@ fn resolve_qualifier_inner(
         return None;
     }
 
+    // Resolves parent module (if any).
+    let resolve_parent_module =
+        |module: &SyntaxNode| module.parent().as_ref().and_then(resolve_current_module);
+
     // Resolves next child module.
     let mut resolve_next_child_module = |name: &ast::NameRef, root: &SyntaxNode| {
         let resolve_child = || {
-            root.children().find(|it| {
+            resolve_item_list_root(root).children().find(|it| {
                 ast::Module::can_cast(it.kind())
                     && ast::Module::cast(it.clone())
                         .and_then(|module| module.name())
@@ -271,9 +275,7 @@ fn resolve_qualifier_inner(
             // Resolve from parent module.
             resolve_current_module(ref_node)
                 .as_ref()
-                .and_then(SyntaxNode::parent)
-                .as_ref()
-                .and_then(resolve_current_module)
+                .and_then(resolve_parent_module)
         } else {
             resolve_current_module(ref_node)
                 .zip(root_segment.name_ref())
@@ -285,9 +287,14 @@ fn resolve_qualifier_inner(
 
     // Resolves the remaining qualifier segments (if any).
     while let Some((node, segment)) = resolution_root_option.as_ref().zip(path_segments.next()) {
-        resolution_root_option = segment
-            .name_ref()
-            .and_then(|name| resolve_next_child_module(&name, node));
+        resolution_root_option = if segment.super_token().is_some() {
+            // Resolve from parent module (e.g. `super::super`).
+            resolve_parent_module(node)
+        } else {
+            segment
+                .name_ref()
+                .and_then(|name| resolve_next_child_module(&name, node))
+        };
     }
 
     resolution_root_option
-- 
2.43.0


From 8589f241a5df144a6e34f1f9d494a349eb66019c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:54:06 +0000
Subject: [PATCH 60/64] fix: resolve external items that are referenced via
 re-exports of local modules

---
 crates/analyzer/src/resolution.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/crates/analyzer/src/resolution.rs b/crates/analyzer/src/resolution.rs
index 4e1222b..1bedbf2 100644
--- a/crates/analyzer/src/resolution.rs
+++ b/crates/analyzer/src/resolution.rs
@@ -246,9 +246,29 @@ fn is_external_crate_item_inner(
                 )
             };
 
+            // Checks if the path is for an item that's re-exported by a local module.
+            let path_is_local_re_export = || {
+                path.qualifier().is_some() && {
+                    let (use_paths, item_aliases) = match_path_to_external_crate_in_scope(
+                        &ink_analyzer_ir::path_to_string(path),
+                        &crates,
+                        &root_node,
+                        &mut HashSet::new(),
+                    );
+                    exhaustive_qualifiers(qualifiers)
+                        .into_iter()
+                        .map(|prefix| format!("{prefix}::{name}"))
+                        .any(|item_path| {
+                            use_paths.contains(&item_path)
+                                || item_aliases.values().any(|it| *it == item_path)
+                        })
+                }
+            };
+
             (name_is_path_target
                 && (unqualified_target_name_in_scope() || sub_qualifier_or_alias_in_scope()))
                 || target_is_name_alias()
+                || path_is_local_re_export()
                 || path_is_type_alias_for_name()
         })
 }
-- 
2.43.0


From ce4a4b971d5363115ad09c3efaae23f752775779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:54:08 +0000
Subject: [PATCH 61/64] fix: keep aliases of external items when resolving
 chained re-exports

---
 crates/analyzer/src/resolution.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/crates/analyzer/src/resolution.rs b/crates/analyzer/src/resolution.rs
index 1bedbf2..1734aeb 100644
--- a/crates/analyzer/src/resolution.rs
+++ b/crates/analyzer/src/resolution.rs
@@ -457,8 +457,19 @@ fn match_path_to_external_crate_in_scope(
                         &qualifier_ref_node,
                         active,
                     );
-                    use_paths.extend(result.0);
-                    item_aliases.extend(result.1);
+                    if resolved_path_str.ends_with(&format!("::{target_name}")) {
+                        use_paths.extend(result.0);
+                        item_aliases.extend(result.1);
+                    } else {
+                        // The target name is an alias for the resolved item.
+                        item_aliases.extend(
+                            result
+                                .0
+                                .into_iter()
+                                .chain(result.1.into_values())
+                                .map(|item_path| (target_name.clone(), item_path)),
+                        );
+                    }
                 }
             }
         }
-- 
2.43.0


From d860de22ccb1cac80b3cd89b82d02db18275e568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:56:53 +0000
Subject: [PATCH 62/64] fix: resolve aliases of items without a qualifier

---
 crates/ir/src/tree/ast_ext.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/crates/ir/src/tree/ast_ext.rs b/crates/ir/src/tree/ast_ext.rs
index a5a12da..6ff2f07 100644
--- a/crates/ir/src/tree/ast_ext.rs
+++ b/crates/ir/src/tree/ast_ext.rs
@@ -99,7 +99,6 @@ macro_rules! resolve_item_path_from_use_scope_and_aliases {
                 }
             }))
             .filter_map(|path_str| $crate::path_from_str(&path_str))
-            .filter(|path| path.qualifier().is_some())
     }};
 }
 
-- 
2.43.0


From 11ab6063430363cd2c91ae2cf1fc7e629dc499fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:59:43 +0000
Subject: [PATCH 63/64] fix: order the modules in suggested item paths from the
 outermost to the innermost

---
 crates/analyzer/src/resolution.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/crates/analyzer/src/resolution.rs b/crates/analyzer/src/resolution.rs
index 1734aeb..5d81b71 100644
--- a/crates/analyzer/src/resolution.rs
+++ b/crates/analyzer/src/resolution.rs
@@ -16,14 +16,22 @@ where
     T: HasName,
 {
     item.name().map(|name| {
-        iter::once(String::from("crate"))
-            .chain(item.syntax().ancestors().filter_map(|node| {
+        // Ancestor modules ordered from the outermost to the innermost.
+        let mut modules: Vec<_> = item
+            .syntax()
+            .ancestors()
+            .filter_map(|node| {
                 ast::Module::cast(node)
                     .as_ref()
                     .and_then(HasName::name)
                     .as_ref()
                     .map(ToString::to_string)
-            }))
+            })
+            .collect();
+        modules.reverse();
+
+        iter::once(String::from("crate"))
+            .chain(modules)
             .chain(iter::once(name.to_string()))
             .join("::")
     })
-- 
2.43.0


From 80b98f565d07a81556f06b07028bf8be206c1ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:07:58 +0000
Subject: [PATCH 64/64] fix: keep the parentheses when replacing an empty
 nested ink! argument

---
 crates/analyzer/src/analysis/diagnostics/common.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/analyzer/src/analysis/diagnostics/common.rs b/crates/analyzer/src/analysis/diagnostics/common.rs
index 05e5ee2..44fd7a8 100644
--- a/crates/analyzer/src/analysis/diagnostics/common.rs
+++ b/crates/analyzer/src/analysis/diagnostics/common.rs
@@ -402,6 +402,12 @@ fn validate_arg(
                 validate_arg(results, &nested_arg, version, attr);
             } else {
                 let edit_range = nested_arg.text_range();
+                // The range of an empty nested meta item includes the parentheses.
+                let (prefix, suffix) = if nested_arg.meta().is_empty() {
+                    ("(", ")")
+                } else {
+                    ("", "")
+                };
                 let quickfixes: Vec<_> = options
                     .iter()
                     .map(|option| Action {
@@ -409,9 +415,9 @@ fn validate_arg(
                         kind: ActionKind::QuickFix,
                         range: edit_range,
                         edits: vec![TextEdit::replace_with_snippet(
-                            format!("{option}"),
+                            format!("{prefix}{option}{suffix}"),
                             edit_range,
-                            Some(format!("${{1:{option}}}")),
+                            Some(format!("{prefix}${{1:{option}}}{suffix}")),
                         )],
                     })
                     .collect();
-- 
2.43.0

