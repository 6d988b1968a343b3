From 6f73352cdba8ff8f0c1c2856843f3363517b2fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:53 +0000
Subject: [PATCH 01/42] fix: visit every imported file once, so shared and
 cyclic imports terminate

---
 src/graphql.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/graphql.rs b/src/graphql.rs
index a07afad..3a2b1fe 100644
--- a/src/graphql.rs
+++ b/src/graphql.rs
@@ -147,6 +147,13 @@ fn add_imported_fragments(
         let location =
             LocationInformation::new_from_line_and_column(line_index + 1, line, IMPORT_START.len());
         let file_path = get_file_path_of_fragment(config, line, &current_dir);
+        // Imports may be shared or cyclic, but each file only needs to be visited once
+        let import_key = file_path
+            .canonicalize()
+            .unwrap_or_else(|_| file_path.clone());
+        if import_contents.contains_key(&import_key) {
+            continue;
+        }
         let other_file_contents = match read_graphql_file(&file_path) {
             Ok(c) => c,
             Err(mut sub_message) => {
@@ -155,6 +162,7 @@ fn add_imported_fragments(
                 continue;
             }
         };
+        import_contents.insert(import_key, (other_file_contents.clone(), location));
         add_imported_fragments(
             config,
             &file_path,
@@ -162,7 +170,6 @@ fn add_imported_fragments(
             import_contents,
             messages,
         );
-        import_contents.insert(file_path, (other_file_contents, location));
     }
 }
 
-- 
2.43.0


From 11a39683491b491fcd93c450426385faae5b7336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:18 +0000
Subject: [PATCH 02/42] fix: report cyclic fragment spreads instead of
 overflowing the stack

---
 src/graphql/ir.rs | 82 ++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 81 insertions(+), 1 deletion(-)

diff --git a/src/graphql/ir.rs b/src/graphql/ir.rs
index c726853..eb9c2da 100644
--- a/src/graphql/ir.rs
+++ b/src/graphql/ir.rs
@@ -6,7 +6,7 @@ use crate::graphql::variable;
 use graphql_parser::query as parsed_query;
 use graphql_parser::Pos;
 use std::collections::hash_map::Entry;
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::convert::{TryFrom, TryInto};
 use std::path::Path;
 
@@ -89,6 +89,7 @@ impl ForeignFragmentJumpState {
 pub enum Error {
     SelectionSetAsOperationUnsupported(Pos),
     UnknownFragment(String, Pos, Vec<String>),
+    CyclicFragment(String, Pos),
     MissingTypeConditionOnInlineFragment(Pos),
     SelectionSetOnWrongType(String, Pos),
     MissingSelectionSetOnType(String, Pos),
@@ -134,6 +135,13 @@ impl From<(&str, &Path, Error)> for PrintableMessage {
                     Some(&format!("This fragment name doesn't appear to be in scope.{extra}")),
                 )
             }
+            Error::CyclicFragment(name, position) => PrintableMessage::new_compile_error(
+                &format!("cyclic spread of fragment `{name}`"),
+                file_path,
+                contents,
+                &position,
+                Some("A fragment cannot contain itself, neither directly nor through the fragments it spreads."),
+            ),
             Error::MissingTypeConditionOnInlineFragment(position) => PrintableMessage::new_compile_error(
                 "fragment missing type condition on inline fragment",
                 file_path,
@@ -214,6 +222,71 @@ impl<'a, 'b> CompileContext<'a, 'b> {
     fn push_warning(&self, warning: Warning) {
         self.warnings.borrow_mut().push(warning);
     }
+
+    fn is_cyclic_fragment(&self, name: &str) -> bool {
+        is_cyclic_fragment(
+            &self.imported_fragments,
+            name,
+            &mut Vec::new(),
+            &mut HashSet::new(),
+        )
+    }
+}
+
+/// Whether expanding the selections leads to a fragment that contains itself
+fn contains_cyclic_spread<'f>(
+    fragments: &'f ImportedFragments<'_>,
+    selection_set: &'f parsed_query::SelectionSet<'_, ParsedTextType>,
+    open_fragments: &mut Vec<&'f str>,
+    acyclic_fragments: &mut HashSet<&'f str>,
+) -> bool {
+    selection_set.items.iter().any(|selection| match selection {
+        parsed_query::Selection::Field(field) => contains_cyclic_spread(
+            fragments,
+            &field.selection_set,
+            open_fragments,
+            acyclic_fragments,
+        ),
+        parsed_query::Selection::InlineFragment(inline) => contains_cyclic_spread(
+            fragments,
+            &inline.selection_set,
+            open_fragments,
+            acyclic_fragments,
+        ),
+        parsed_query::Selection::FragmentSpread(spread) => is_cyclic_fragment(
+            fragments,
+            &spread.fragment_name,
+            open_fragments,
+            acyclic_fragments,
+        ),
+    })
+}
+
+fn is_cyclic_fragment<'f>(
+    fragments: &'f ImportedFragments<'_>,
+    name: &'f str,
+    open_fragments: &mut Vec<&'f str>,
+    acyclic_fragments: &mut HashSet<&'f str>,
+) -> bool {
+    if open_fragments.contains(&name) {
+        return true;
+    }
+    let fragment = match fragments.get(name) {
+        Some(fragment) if !acyclic_fragments.contains(name) => fragment,
+        _ => return false,
+    };
+    open_fragments.push(name);
+    let is_cyclic = contains_cyclic_spread(
+        fragments,
+        &fragment.selection_set,
+        open_fragments,
+        acyclic_fragments,
+    );
+    open_fragments.pop();
+    if !is_cyclic {
+        acyclic_fragments.insert(name);
+    }
+    is_cyclic
 }
 
 // For a few conversions with ?
@@ -742,6 +815,13 @@ fn collect_fields_from_selection_set<'a, 'b>(
                 }
             }
             parsed_query::Selection::FragmentSpread(spread) => {
+                if context.is_cyclic_fragment(&spread.fragment_name) {
+                    errors.push(Error::CyclicFragment(
+                        spread.fragment_name.clone(),
+                        spread.position,
+                    ));
+                    continue;
+                }
                 match context.imported_fragments.get(&spread.fragment_name) {
                     Some(fragment_def) => {
                         let parsed_query::TypeCondition::On(ref type_name) =
-- 
2.43.0


From b815f3696ac98cabc6776d8d645f9fbf2580150f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:41 +0000
Subject: [PATCH 03/42] fix: descend into recursive input objects only once

---
 src/typescript.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/typescript.rs b/src/typescript.rs
index 8ac2104..050b92e 100644
--- a/src/typescript.rs
+++ b/src/typescript.rs
@@ -171,8 +171,10 @@ fn add_sub_input_object_field<'a>(
             let global_type = schema
                 .get_type_for_name(type_name)
                 .ok_or_else(|| Error::MissingType(type_name.to_string()))?;
-            name_to_type.insert(type_name, global_type);
-            add_sub_input_objects(name_to_type, schema, global_type)?;
+            // Input objects may be recursive, so only descend on the first visit
+            if name_to_type.insert(type_name, global_type).is_none() {
+                add_sub_input_objects(name_to_type, schema, global_type)?;
+            }
         }
         schema_field::FieldTypeDefinition::Enum => {
             let global_type = schema
-- 
2.43.0


From d7f066901fafd07ed8f514afcd60d63b9f39590a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:09 +0000
Subject: [PATCH 04/42] fix: keep the inner list of a nullable list of non-null
 lists

---
 src/graphql/schema/field.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/graphql/schema/field.rs b/src/graphql/schema/field.rs
index 6bd21e4..9613fd1 100644
--- a/src/graphql/schema/field.rs
+++ b/src/graphql/schema/field.rs
@@ -109,6 +109,11 @@ impl ModifierBuilder {
                 self.higher_order_modifiers.push(FieldTypeModifier::List);
                 FieldTypeModifier::ListOfNullable
             }
+            FieldTypeModifier::NullableList => {
+                self.higher_order_modifiers
+                    .push(FieldTypeModifier::NullableList);
+                FieldTypeModifier::ListOfNullable
+            }
             FieldTypeModifier::ListOfNullable => {
                 self.higher_order_modifiers
                     .push(FieldTypeModifier::ListOfNullable);
@@ -119,10 +124,6 @@ impl ModifierBuilder {
                     .push(FieldTypeModifier::NullableListOfNullable);
                 FieldTypeModifier::NullableListOfNullable
             }
-            old_concrete => {
-                self.higher_order_modifiers.push(old_concrete.clone());
-                FieldTypeModifier::new()
-            }
         };
     }
 }
-- 
2.43.0


From f330fdb30f12861d88aa5933d966d74456258f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:33 +0000
Subject: [PATCH 05/42] fix: keep all list levels of input object fields

---
 src/graphql/schema/field.rs |  5 +++++
 src/typescript.rs           | 28 ++++++++++++----------------
 2 files changed, 17 insertions(+), 16 deletions(-)

diff --git a/src/graphql/schema/field.rs b/src/graphql/schema/field.rs
index 9613fd1..a8ed881 100644
--- a/src/graphql/schema/field.rs
+++ b/src/graphql/schema/field.rs
@@ -146,6 +146,11 @@ impl FieldTypeModifiers {
         &self.last
     }
 
+    /// Modifier of the outermost list, or of the type itself if not a list of lists
+    pub fn outermost(&self) -> &FieldTypeModifier {
+        self.rest.last().unwrap_or(&self.last)
+    }
+
     pub fn rest_modifiers_iter(&self) -> impl Iterator<Item = &'_ FieldTypeModifier> {
         self.rest.iter()
     }
diff --git a/src/typescript.rs b/src/typescript.rs
index 050b92e..a61a228 100644
--- a/src/typescript.rs
+++ b/src/typescript.rs
@@ -102,23 +102,19 @@ fn input_def_from_type(
     for (name, field) in sorted.into_iter() {
         let doc = compile_documentation(&field.documentation, field.deprecated, 2);
         let field_type = from_input_def_field_def(config, name, field)?;
-        let ts_field = match field.type_description.type_modifiers().last() {
-            schema_field::FieldTypeModifier::None => format!("  {doc}{name}: {field_type};"),
-            schema_field::FieldTypeModifier::Nullable => {
-                format!("  {doc}{name}?: {field_type} | null;")
-            }
-            schema_field::FieldTypeModifier::NullableList => {
-                format!("  {doc}{name}?: {field_type}[] | null;")
-            }
-            schema_field::FieldTypeModifier::List => {
-                format!("  {doc}{name}: {field_type}[];")
-            }
-            schema_field::FieldTypeModifier::ListOfNullable => {
-                format!("  {doc}{name}: ({field_type} | null)[];")
-            }
-            schema_field::FieldTypeModifier::NullableListOfNullable => {
-                format!("  {doc}{name}?: ({field_type} | null)[] | null;")
+        let modifiers = field.type_description.type_modifiers();
+        let prop_type = prop_type_def(
+            modifiers.rest_modifiers_iter(),
+            modifiers.last(),
+            field_type,
+        );
+        let ts_field = match modifiers.outermost() {
+            schema_field::FieldTypeModifier::Nullable
+            | schema_field::FieldTypeModifier::NullableList
+            | schema_field::FieldTypeModifier::NullableListOfNullable => {
+                format!("  {doc}{name}?: {prop_type};")
             }
+            _ => format!("  {doc}{name}: {prop_type};"),
         };
         fields.push(ts_field);
     }
-- 
2.43.0


From 5a1288ae1fbddcea7244411ad778a284d8787aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:20 +0000
Subject: [PATCH 06/42] fix: merge repeated fields by field name, so covariant
 fields are not duplicated

---
 src/graphql/ir.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/graphql/ir.rs b/src/graphql/ir.rs
index eb9c2da..8f3b6fa 100644
--- a/src/graphql/ir.rs
+++ b/src/graphql/ir.rs
@@ -754,7 +754,7 @@ fn insert_field<'a, 'b>(
         }
         (true, false) => {
             let terminal = TerminalTraversal::from(field_type_name);
-            traversal.insert_terminal(alias, field_type_name, field, terminal)?;
+            traversal.insert_terminal(alias, name, field, terminal)?;
         }
         (false, true) => {
             let mut sub_parent =
@@ -765,7 +765,7 @@ fn insert_field<'a, 'b>(
                 &mut sub_parent,
                 jump_state,
             )?;
-            traversal.insert_complex(alias, field_type_name, field, sub_parent)?;
+            traversal.insert_complex(alias, name, field, sub_parent)?;
         }
     };
 
-- 
2.43.0


From e647bba7b88d5d96e3f2fddd4a779ec1c1c723c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:44 +0000
Subject: [PATCH 07/42] fix: let object types share one type only if their
 nested types agree

---
 src/graphql/schema/field.rs |  6 ++--
 src/typescript.rs           | 61 +++++++++++++++++++++++++++++++------
 2 files changed, 55 insertions(+), 12 deletions(-)

diff --git a/src/graphql/schema/field.rs b/src/graphql/schema/field.rs
index a8ed881..99d78c0 100644
--- a/src/graphql/schema/field.rs
+++ b/src/graphql/schema/field.rs
@@ -1,7 +1,7 @@
 use super::{json, Documentation, Error};
 use std::convert::{TryFrom, TryInto};
 
-#[derive(Debug, Clone)]
+#[derive(Debug, Clone, PartialEq, Eq)]
 pub enum ScalarType {
     Custom(String),
     Boolean,
@@ -44,7 +44,7 @@ impl FieldTypeDefinition {
     }
 }
 
-#[derive(Debug, Clone)]
+#[derive(Debug, Clone, PartialEq, Eq)]
 pub enum FieldTypeModifier {
     /// No modifier or "flat"
     None,
@@ -128,7 +128,7 @@ impl ModifierBuilder {
     }
 }
 
-#[derive(Debug, Clone)]
+#[derive(Debug, Clone, PartialEq, Eq)]
 pub struct FieldTypeModifiers {
     last: FieldTypeModifier,
     rest: Vec<FieldTypeModifier>,
diff --git a/src/typescript.rs b/src/typescript.rs
index a61a228..9296443 100644
--- a/src/typescript.rs
+++ b/src/typescript.rs
@@ -313,6 +313,46 @@ fn field_ids_for_complex_ir(complex: &ir::Complex) -> HashSet<&str> {
         .collect()
 }
 
+/// Whether one type definition can describe both, apart from the name in the type name property
+fn have_same_fields(left: &ir::Complex, right: &ir::Complex) -> bool {
+    left.fields.len() == right.fields.len()
+        && left
+            .fields
+            .iter()
+            .zip(&right.fields)
+            .all(|(left_field, right_field)| {
+                left_field.prop_name == right_field.prop_name
+                    && left_field.type_modifiers == right_field.type_modifiers
+                    && have_same_type(&left_field.type_ir, &right_field.type_ir)
+            })
+}
+
+fn have_same_type(left: &ir::FieldType, right: &ir::FieldType) -> bool {
+    match (left, right) {
+        (ir::FieldType::TypeName, ir::FieldType::TypeName) => true,
+        (ir::FieldType::Enum(left_name), ir::FieldType::Enum(right_name)) => {
+            left_name == right_name
+        }
+        (ir::FieldType::Scalar(left_scalar), ir::FieldType::Scalar(right_scalar)) => {
+            left_scalar == right_scalar
+        }
+        (ir::FieldType::Complex(left_collection), ir::FieldType::Complex(right_collection)) => {
+            let lefts = &left_collection.possibilities;
+            let rights = &right_collection.possibilities;
+            lefts.len() == rights.len()
+                && lefts.iter().zip(rights).all(|(left, right)| {
+                    let is_name_visible = lefts.len() > 1
+                        || left
+                            .fields
+                            .iter()
+                            .any(|field| matches!(field.type_ir, ir::FieldType::TypeName));
+                    (left.name == right.name || !is_name_visible) && have_same_fields(left, right)
+                })
+        }
+        _ => false,
+    }
+}
+
 fn type_definitions_from_smoosh_complex_ir<'a>(
     config: &CompileConfig,
     global_types: &mut HashSet<String>,
@@ -348,19 +388,24 @@ fn type_definitions_from_complex_field_collection(
     // Let's try to reduce output and improve readability and convenience by outputing a "smooshed type"
     // of common/completely repeated properties, since this is so common for interface types.
     let mut common_props = field_ids_for_complex_ir(first_possiblity);
-    let mut all_fields = Vec::with_capacity(collection.possibilities.len());
-    all_fields.push((&first_possiblity.name[..], common_props.clone()));
     for possibility in &collection.possibilities[1..] {
         let pos_props = field_ids_for_complex_ir(possibility);
         common_props.retain(|prop_name| pos_props.contains(prop_name));
-        all_fields.push((&possibility.name[..], pos_props));
     }
 
     // These will represent all the types can can be smooshed down
-    let repeated_possiblities: HashSet<&str> = all_fields
-        .into_iter()
-        .filter(|(_, fields)| common_props == *fields)
-        .map(|(name, _)| name)
+    let maybe_common_representative = collection
+        .possibilities
+        .iter()
+        .rfind(|possibility| field_ids_for_complex_ir(possibility) == common_props);
+    let repeated_possiblities: HashSet<&str> = collection
+        .possibilities
+        .iter()
+        .filter(|possibility| {
+            maybe_common_representative
+                .map_or(false, |common| have_same_fields(common, possibility))
+        })
+        .map(|possibility| &possibility.name[..])
         .collect();
 
     let num_repeats = repeated_possiblities.len();
@@ -377,10 +422,8 @@ fn type_definitions_from_complex_field_collection(
 
     let mut definitions = Vec::new();
     let mut names = Vec::new();
-    let mut maybe_common_representative: Option<&ir::Complex> = None;
     for possibility in collection.possibilities.iter() {
         if repeated_possiblities.contains(&possibility.name[..]) {
-            maybe_common_representative = Some(possibility);
             continue;
         }
         let possiblity_prop_path = format!("{main_type}_{}", possibility.name);
-- 
2.43.0


From 0c22577ecfad17c8609a1e040194ec5d2248c829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:17 +0000
Subject: [PATCH 08/42] fix: end an import path at its closing quote, and
 accept its absence

---
 src/graphql.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/graphql.rs b/src/graphql.rs
index 3a2b1fe..cf78821 100644
--- a/src/graphql.rs
+++ b/src/graphql.rs
@@ -104,10 +104,10 @@ fn get_file_path_of_fragment(
     import_comment: &str,
     current_dir: &Path,
 ) -> PathBuf {
-    let last_quote = import_comment
-        .rfind('"')
-        .unwrap_or(import_comment.len() - 1);
-    let import_path = &import_comment[IMPORT_START.len()..last_quote];
+    let after_quote = &import_comment[IMPORT_START.len()..];
+    let import_path = after_quote
+        .find('"')
+        .map_or(after_quote, |closing_quote| &after_quote[..closing_quote]);
 
     config
         .root_dir_import_prefix
-- 
2.43.0


From d71e90e764e1132f17f1a8be04494b1e33156186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:31 +0000
Subject: [PATCH 09/42] fix: honour imports behind a byte order mark

---
 src/graphql.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/graphql.rs b/src/graphql.rs
index cf78821..b430658 100644
--- a/src/graphql.rs
+++ b/src/graphql.rs
@@ -123,6 +123,11 @@ fn get_file_path_of_fragment(
         })
 }
 
+/// A byte order mark is insignificant in GraphQL, and must not hide an import that follows it
+fn without_byte_order_mark(contents: &str) -> &str {
+    contents.strip_prefix('\u{feff}').unwrap_or(contents)
+}
+
 fn add_imported_fragments(
     config: &CompileConfig,
     current_file: &Path,
@@ -132,7 +137,10 @@ fn add_imported_fragments(
 ) {
     let mut current_dir = current_file.to_owned();
     current_dir.pop();
-    for (line_index, line) in current_file_contents.lines().enumerate() {
+    for (line_index, line) in without_byte_order_mark(current_file_contents)
+        .lines()
+        .enumerate()
+    {
         if line.is_empty() || line.trim().is_empty() {
             continue;
         }
-- 
2.43.0


From 70bf155944e2dc2b95f8d6b6f2664fd124a2f2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:14 +0000
Subject: [PATCH 10/42] fix: keep descriptions from forming a comment delimiter
 when others are removed

---
 src/typescript.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/typescript.rs b/src/typescript.rs
index 9296443..e6da0b8 100644
--- a/src/typescript.rs
+++ b/src/typescript.rs
@@ -234,6 +234,15 @@ pub fn compile_globals(
     })
 }
 
+fn without_comment_delimiters(docs: &str) -> String {
+    let mut result = docs.to_string();
+    // Removing a delimiter can join its surroundings into a new one
+    while result.contains("/*") || result.contains("*/") {
+        result = result.replace("/*", EMPTY).replace("*/", EMPTY);
+    }
+    result
+}
+
 fn compile_documentation(
     documentation: &schema::Documentation,
     deprecated: bool,
@@ -241,11 +250,9 @@ fn compile_documentation(
 ) -> Typescript {
     let tab = " ".repeat(tab_width);
 
-    let processed_documentation = documentation.as_deref().map(|docs| {
-        docs.replace('\n', &format!("\n {tab}* "))
-            .replace("/*", EMPTY)
-            .replace("*/", EMPTY)
-    });
+    let processed_documentation = documentation
+        .as_deref()
+        .map(|docs| without_comment_delimiters(docs).replace('\n', &format!("\n {tab}* ")));
 
     let wrap = |content: &str| format!("/**\n {tab}* {content}\n {tab}*/\n{tab}");
 
-- 
2.43.0


From a74a4a7b682b2b22c9c27203f9ee6ffb9b52bc93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:14 +0000
Subject: [PATCH 11/42] fix: choose the plural of warnings by their own number

---
 src/cli.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cli.rs b/src/cli.rs
index bb46df6..022a15c 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -544,7 +544,7 @@ pub fn print_exit_info(exit_info: impl ExitInformation) -> ! {
         );
     }
     if warning_count > 0 {
-        let plural = if error_count > 1 { "s" } else { "" };
+        let plural = if warning_count > 1 { "s" } else { "" };
         println!(
             "{}",
             PrintableMessage::new_simple_compile_warning(&format!(
-- 
2.43.0


From d6dc51f5f160e6511ffa1a33a03ae05f93722c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:15 +0000
Subject: [PATCH 12/42] fix: compile with one worker when zero threads are
 requested

---
 src/cli.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cli.rs b/src/cli.rs
index 022a15c..dd95f6f 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -442,7 +442,9 @@ impl RuntimeConfig {
             number_threads: cli_args
                 .num_threads
                 .or(config_file_args.num_threads)
-                .unwrap_or_else(|| std::cmp::min(num_cpus::get(), 8)),
+                .unwrap_or_else(|| std::cmp::min(num_cpus::get(), 8))
+                // Without any worker nothing would be compiled
+                .max(1),
             root_dir_import_prefix: cli_args
                 .root_dir_import_prefix
                 .or(config_file_args.root_dir_import_prefix),
-- 
2.43.0


From 7f4d03697c922355197904f6af54338a224227c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:15 +0000
Subject: [PATCH 13/42] fix: resolve equally named imported fragments
 deterministically

---
 src/graphql.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/graphql.rs b/src/graphql.rs
index b430658..d482f83 100644
--- a/src/graphql.rs
+++ b/src/graphql.rs
@@ -2,7 +2,7 @@ use super::cli::{LocationInformation, PrintableMessage, RuntimeConfig};
 use crate::typescript;
 use graphql_parser::query::{Definition, Document, FragmentDefinition, OperationDefinition};
 use schema::Schema;
-use std::collections::{HashMap, HashSet};
+use std::collections::{BTreeMap, HashMap, HashSet};
 use std::fs::File;
 use std::io::{BufReader, Read};
 use std::path::{Path, PathBuf};
@@ -132,7 +132,7 @@ fn add_imported_fragments(
     config: &CompileConfig,
     current_file: &Path,
     current_file_contents: &str,
-    import_contents: &mut HashMap<PathBuf, (String, LocationInformation)>,
+    import_contents: &mut BTreeMap<PathBuf, (String, LocationInformation)>,
     messages: &mut Vec<PrintableMessage>,
 ) {
     let mut current_dir = current_file.to_owned();
@@ -183,7 +183,7 @@ fn add_imported_fragments(
 
 fn parse_foreign_fragments<'a>(
     path: &Path,
-    imported_contents: &'a HashMap<PathBuf, (String, LocationInformation)>,
+    imported_contents: &'a BTreeMap<PathBuf, (String, LocationInformation)>,
     messages: &mut Vec<PrintableMessage>,
 ) -> HashMap<String, FragmentDefinition<'a, ParsedTextType>> {
     let mut parsed_imported_fragments = HashMap::new();
@@ -223,7 +223,8 @@ pub fn compile_file(
     let parsed = parse_graphql_file(&contents, path).map_err(|e| vec![e])?;
 
     let mut messages = Vec::new();
-    let mut imported_contents = HashMap::new();
+    // Ordered, so that of two fragments with the same name always the same one is used
+    let mut imported_contents = BTreeMap::new();
     add_imported_fragments(
         config,
         path,
-- 
2.43.0


From 868a915cc4c398f1f37c468c295300845452c5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:15 +0000
Subject: [PATCH 14/42] fix: attribute a non-fragment import to the file and
 line that import it

---
 src/graphql.rs | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/graphql.rs b/src/graphql.rs
index d482f83..019ea04 100644
--- a/src/graphql.rs
+++ b/src/graphql.rs
@@ -15,6 +15,9 @@ const IMPORT_START: &str = "#import \"";
 
 pub type ParsedTextType = String;
 
+/// Contents, importing file, and location of the import in that file
+type ImportedFile = (String, PathBuf, LocationInformation);
+
 #[derive(Debug)]
 pub struct CompileReport {
     pub messages: Vec<PrintableMessage>,
@@ -132,7 +135,7 @@ fn add_imported_fragments(
     config: &CompileConfig,
     current_file: &Path,
     current_file_contents: &str,
-    import_contents: &mut BTreeMap<PathBuf, (String, LocationInformation)>,
+    import_contents: &mut BTreeMap<PathBuf, ImportedFile>,
     messages: &mut Vec<PrintableMessage>,
 ) {
     let mut current_dir = current_file.to_owned();
@@ -170,7 +173,14 @@ fn add_imported_fragments(
                 continue;
             }
         };
-        import_contents.insert(import_key, (other_file_contents.clone(), location));
+        import_contents.insert(
+            import_key,
+            (
+                other_file_contents.clone(),
+                current_file.to_owned(),
+                location,
+            ),
+        );
         add_imported_fragments(
             config,
             &file_path,
@@ -182,12 +192,11 @@ fn add_imported_fragments(
 }
 
 fn parse_foreign_fragments<'a>(
-    path: &Path,
-    imported_contents: &'a BTreeMap<PathBuf, (String, LocationInformation)>,
+    imported_contents: &'a BTreeMap<PathBuf, ImportedFile>,
     messages: &mut Vec<PrintableMessage>,
 ) -> HashMap<String, FragmentDefinition<'a, ParsedTextType>> {
     let mut parsed_imported_fragments = HashMap::new();
-    for (other_path, (contents, location)) in imported_contents.iter() {
+    for (other_path, (contents, importing_path, location)) in imported_contents.iter() {
         if let Ok(mut parsed) = parse_graphql_file(contents, other_path) {
             // We already know there is exactly one definition since read_graphql_file
             // throws away documents that contain more or less than one defintion.
@@ -200,11 +209,11 @@ fn parse_foreign_fragments<'a>(
                     _ => {
                         let mut message = PrintableMessage::new_simple_compile_error(&format!(
                             "cannot import non-fragment GraphQL document `{}`",
-                            path.display()
+                            other_path.display()
                         ));
                         let mut location = location.clone();
                         location.with_help_text("This document is not a fragment, and importing it is probably a mistake.");
-                        message.with_source_information(path, Some(location));
+                        message.with_source_information(importing_path, Some(location));
                         messages.push(message);
                     }
                 }
@@ -232,8 +241,7 @@ pub fn compile_file(
         &mut imported_contents,
         &mut messages,
     );
-    let parsed_imported_fragments =
-        parse_foreign_fragments(path, &imported_contents, &mut messages);
+    let parsed_imported_fragments = parse_foreign_fragments(&imported_contents, &mut messages);
 
     let (op_ir, warnings) = match ir::Operation::compile(
         &parsed.definitions[0],
-- 
2.43.0


From df04070d9dec752dd19595bb064a9ecf03b00789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:15 +0000
Subject: [PATCH 15/42] fix: name the globals module when it cannot be written

---
 src/graphql.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/graphql.rs b/src/graphql.rs
index 019ea04..9581142 100644
--- a/src/graphql.rs
+++ b/src/graphql.rs
@@ -314,8 +314,8 @@ pub fn compile_global_types_file(
     } else {
         output_path.with_extension("ts")
     };
-    std::fs::write(output_path_with_ext, the_compile.contents).map_err(|io_error| {
-        PrintableMessage::new_compile_error_from_write_io_error(&io_error, root_path)
+    std::fs::write(&output_path_with_ext, the_compile.contents).map_err(|io_error| {
+        PrintableMessage::new_compile_error_from_write_io_error(&io_error, &output_path_with_ext)
     })?;
     Ok(())
 }
-- 
2.43.0


From 3b7a40d6a30d20cfefbec8b8bf9412bcf79f3714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:47 +0000
Subject: [PATCH 16/42] fix: list names in diagnostics in a stable order

---
 src/cli.rs        |  4 +++-
 src/graphql/ir.rs | 13 ++++++++-----
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/cli.rs b/src/cli.rs
index dd95f6f..b31d540 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -505,11 +505,13 @@ pub fn similar_help_suggestions(
     possible_names: impl Iterator<Item = String>,
 ) -> Option<String> {
     let comparison_name = comparison_name.as_ref();
-    let similar_names: Vec<_> = possible_names
+    let mut similar_names: Vec<_> = possible_names
         .filter(|possible_field_name| {
             generic_damerau_levenshtein(comparison_name, possible_field_name.as_ref()) < 3
         })
         .collect();
+    // For output stability
+    similar_names.sort_unstable();
     if similar_names.is_empty() {
         None
     } else {
diff --git a/src/graphql/ir.rs b/src/graphql/ir.rs
index 8f3b6fa..83323d3 100644
--- a/src/graphql/ir.rs
+++ b/src/graphql/ir.rs
@@ -392,13 +392,16 @@ impl<'a, 'b> ComplexTraversal<'a> {
             base.concrete_objects
                 .retain(|type_name, _| self.concrete_objects.contains_key(type_name));
             if !jump_state.is_fully_jumped() && base.concrete_objects.is_empty() {
+                let mut possible_types = self
+                    .concrete_objects
+                    .keys()
+                    .map(|key| key.to_string())
+                    .collect::<Vec<_>>();
+                // For output stability
+                possible_types.sort_unstable();
                 context.push_warning(Warning::OverFragmentNarrowing {
                     position,
-                    possible_types: self
-                        .concrete_objects
-                        .keys()
-                        .map(|key| key.to_string())
-                        .collect(),
+                    possible_types,
                     spread_type_name: spread_type_name.to_string(),
                 });
             }
-- 
2.43.0


From 2a2bfd5abbd76e0c1b265af175ae38dbb77760b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:02 +0000
Subject: [PATCH 17/42] fix: do not quit workers while work is in flight

---
 src/worker_pool.rs | 119 +++++++++++++--------------------------------
 1 file changed, 33 insertions(+), 86 deletions(-)

diff --git a/src/worker_pool.rs b/src/worker_pool.rs
index fe1dbfb..ef27948 100644
--- a/src/worker_pool.rs
+++ b/src/worker_pool.rs
@@ -9,12 +9,6 @@ use std::sync::atomic::{AtomicUsize, Ordering};
 use std::thread;
 use std::time::Duration;
 
-#[derive(Debug)]
-enum Message {
-    Work(Work),
-    Quit,
-}
-
 #[derive(Debug)]
 enum WorkResult {
     MoreWork(Vec<Work>),
@@ -121,18 +115,29 @@ impl Work {
 
 struct Worker<'a> {
     pool: &'a WorkerPool,
-    is_waiting: bool,
-    is_quitting: bool,
     aggregate: WorkAggregateResult,
-    num_waiting: &'a AtomicUsize,
-    num_quitting: &'a AtomicUsize,
-    tx: channel::Sender<Message>,
-    rx: channel::Receiver<Message>,
+    num_pending: &'a AtomicUsize,
+    tx: channel::Sender<Work>,
+    rx: channel::Receiver<Work>,
+}
+
+/// Counts a piece of work as pending until dropped, which includes unwinding
+struct PendingWork<'a> {
+    num_pending: &'a AtomicUsize,
+}
+
+impl Drop for PendingWork<'_> {
+    fn drop(&mut self) {
+        self.num_pending.fetch_sub(1, Ordering::SeqCst);
+    }
 }
 
 impl<'a> Worker<'a> {
     fn run(mut self) -> WorkAggregateResult {
         while let Some(work) = self.pop_work() {
+            let _pending_work = PendingWork {
+                num_pending: self.num_pending,
+            };
             match work.run(&self.pool.compile_config, &self.pool.schema) {
                 WorkResult::CompileResult {
                     global_types_used,
@@ -143,7 +148,8 @@ impl<'a> Worker<'a> {
                 }
                 WorkResult::MoreWork(additional_work) => {
                     for work in additional_work {
-                        self.tx.send(Message::Work(work)).unwrap();
+                        self.num_pending.fetch_add(1, Ordering::SeqCst);
+                        self.tx.send(work).unwrap();
                     }
                 }
                 WorkResult::DirIoError(io_error, path) => {
@@ -158,73 +164,17 @@ impl<'a> Worker<'a> {
 
     fn pop_work(&mut self) -> Option<Work> {
         loop {
-            match self.rx.try_recv() {
-                Ok(Message::Work(work)) => {
-                    self.set_waiting(false);
-                    self.set_quitting(false);
-                    return Some(work);
-                }
-                Ok(Message::Quit) => {
-                    self.set_waiting(true);
-                    self.set_quitting(true);
-                    loop {
-                        let nwait = self.num_waiting();
-                        let nquit = self.num_quitting();
-                        let threads = self.pool.thread_count;
-                        // If the number of waiting workers dropped, then abort our attempt to quit.
-                        // Sometimes work will come back.
-                        if nwait < threads {
-                            break;
-                        }
-                        // If all workers are in this quit loop, then we can stop.
-                        if nquit == threads {
-                            return None;
-                        }
-                    }
-                }
-                Err(_) => {
-                    let threads = self.pool.thread_count;
-                    self.set_waiting(true);
-                    self.set_quitting(false);
-                    if self.num_waiting() == threads {
-                        for _ in 0..threads {
-                            self.tx.send(Message::Quit).unwrap();
-                        }
-                    } else {
-                        // This is a bit weird, I know, but we want producers to catch up
-                        // without burning the CPU too hard.
-                        thread::sleep(Duration::from_millis(1));
-                    }
-                }
+            if let Ok(work) = self.rx.try_recv() {
+                return Some(work);
             }
-        }
-    }
-
-    fn num_waiting(&self) -> usize {
-        self.num_waiting.load(Ordering::SeqCst)
-    }
-
-    fn num_quitting(&self) -> usize {
-        self.num_quitting.load(Ordering::SeqCst)
-    }
-
-    fn set_waiting(&mut self, desired: bool) {
-        if desired && !self.is_waiting {
-            self.is_waiting = true;
-            self.num_waiting.fetch_add(1, Ordering::SeqCst);
-        } else if !desired && self.is_waiting {
-            self.is_waiting = false;
-            self.num_waiting.fetch_sub(1, Ordering::SeqCst);
-        }
-    }
-
-    fn set_quitting(&mut self, desired: bool) {
-        if desired && !self.is_quitting {
-            self.is_quitting = true;
-            self.num_quitting.fetch_add(1, Ordering::SeqCst);
-        } else if !desired && self.is_quitting {
-            self.is_quitting = false;
-            self.num_quitting.fetch_sub(1, Ordering::SeqCst);
+            // Work counts as pending from before it is sent until all work it leads to is counted
+            // as well, so only when nothing is pending no more work will ever come.
+            if self.num_pending.load(Ordering::SeqCst) == 0 {
+                return None;
+            }
+            // This is a bit weird, I know, but we want producers to catch up
+            // without burning the CPU too hard.
+            thread::sleep(Duration::from_millis(1));
         }
     }
 }
@@ -247,23 +197,20 @@ impl WorkerPool {
     }
 
     pub fn work(&self) -> impl ExitInformation {
-        let num_waiting = AtomicUsize::new(0);
-        let num_quitting = AtomicUsize::new(0);
+        // The root directory
+        let num_pending = AtomicUsize::new(1);
 
         let mut aggregate = thread::scope(|s| {
             let (tx, rx) = channel::unbounded();
-            let initial_work = Message::Work(Work::DirEntry(self.root_dir_path.clone()));
+            let initial_work = Work::DirEntry(self.root_dir_path.clone());
             tx.send(initial_work).unwrap();
 
             let handles = (0..self.thread_count)
                 .map(|_| {
                     let worker = Worker {
                         pool: self,
-                        num_quitting: &num_quitting,
-                        num_waiting: &num_waiting,
+                        num_pending: &num_pending,
                         aggregate: WorkAggregateResult::new(),
-                        is_quitting: false,
-                        is_waiting: false,
                         tx: tx.clone(),
                         rx: rx.clone(),
                     };
-- 
2.43.0


From f2895b84ca858c2ef67a967ebf6f86aa6611c32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:19 +0000
Subject: [PATCH 18/42] verif: schedule points in the worker pool, behind
 cfg(qlc_verif)

---
 src/main.rs        |   3 +
 src/verif_sched.rs | 177 +++++++++++++++++++++++++++++++++++++++++++++
 src/worker_pool.rs |  20 +++++
 3 files changed, 200 insertions(+)
 create mode 100644 src/verif_sched.rs

diff --git a/src/main.rs b/src/main.rs
index d134bb2..b0ab0e3 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1,8 +1,11 @@
 #![deny(rust_2018_idioms)]
+#![allow(unexpected_cfgs)]
 
 mod cli;
 mod graphql;
 mod typescript;
+#[cfg(qlc_verif)]
+mod verif_sched;
 mod worker_pool;
 
 fn main() {
diff --git a/src/verif_sched.rs b/src/verif_sched.rs
new file mode 100644
index 0000000..7227967
--- /dev/null
+++ b/src/verif_sched.rs
@@ -0,0 +1,177 @@
+//! Only compiled with `--cfg qlc_verif`: lets a test harness own the interleaving of the workers.
+//!
+//! With QLC_SCHED_SEED set, workers run one at a time, and at every schedule point a pseudo random
+//! generator with that seed chooses which of them goes on. Without it all of this is inert.
+//! QLC_SCHED_STEPS bounds the number of schedule points; beyond it the process exits with 97.
+
+use std::sync::{Condvar, Mutex, MutexGuard, OnceLock};
+use std::time::Duration;
+
+const DEFAULT_STEPS: u64 = 3_000_000;
+/// A running worker that reaches no point for this long is taken to be blocked by another one
+const STUCK: Duration = Duration::from_secs(5);
+
+struct State {
+    random: u64,
+    expected: usize,
+    arrived: usize,
+    alive: Vec<bool>,
+    weights: Vec<u64>,
+    next_reweigh: u64,
+    current: Option<usize>,
+    steps: u64,
+    max_steps: u64,
+    free_running: bool,
+}
+
+static STATE: OnceLock<Option<(Mutex<State>, Condvar)>> = OnceLock::new();
+
+thread_local! {
+    static ME: std::cell::Cell<Option<usize>> = const { std::cell::Cell::new(None) };
+}
+
+fn env_number(name: &str) -> Option<u64> {
+    std::env::var(name).ok()?.parse().ok()
+}
+
+fn state() -> Option<&'static (Mutex<State>, Condvar)> {
+    STATE
+        .get_or_init(|| {
+            env_number("QLC_SCHED_SEED").map(|seed| {
+                let state = State {
+                    random: seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0x1234_5678_9ABC_DEF1,
+                    expected: 0,
+                    arrived: 0,
+                    alive: Vec::new(),
+                    weights: Vec::new(),
+                    next_reweigh: 0,
+                    current: None,
+                    steps: 0,
+                    max_steps: env_number("QLC_SCHED_STEPS").unwrap_or(DEFAULT_STEPS),
+                    free_running: false,
+                };
+                (Mutex::new(state), Condvar::new())
+            })
+        })
+        .as_ref()
+}
+
+fn lock(mutex: &Mutex<State>) -> MutexGuard<'_, State> {
+    mutex
+        .lock()
+        .unwrap_or_else(|poisoned| poisoned.into_inner())
+}
+
+impl State {
+    fn draw(&mut self, bound: u64) -> u64 {
+        self.random ^= self.random << 13;
+        self.random ^= self.random >> 7;
+        self.random ^= self.random << 17;
+        (self.random >> 11) % bound.max(1)
+    }
+
+    fn choose_next(&mut self) {
+        self.steps += 1;
+        if self.steps > self.max_steps {
+            println!("verif_sched: no end after {} steps", self.max_steps);
+            std::process::exit(97);
+        }
+        if self.steps >= self.next_reweigh {
+            // Mostly long phases in which some workers hardly get to run at all
+            self.next_reweigh = self.steps + 5 + self.draw(120);
+            for index in 0..self.weights.len() {
+                self.weights[index] = [1, 1, 30, 1000][self.draw(4) as usize];
+            }
+        }
+        let total: u64 = (0..self.alive.len())
+            .filter(|index| self.alive[*index])
+            .map(|index| self.weights[index])
+            .sum();
+        if total == 0 {
+            self.current = None;
+            return;
+        }
+        let mut rest = self.draw(total);
+        for index in 0..self.alive.len() {
+            if !self.alive[index] {
+                continue;
+            }
+            if rest < self.weights[index] {
+                self.current = Some(index);
+                return;
+            }
+            rest -= self.weights[index];
+        }
+    }
+}
+
+fn wait_for_turn(mut guard: MutexGuard<'_, State>, turn: &Condvar, me: usize) {
+    while !guard.free_running && guard.current != Some(me) {
+        let steps = guard.steps;
+        let (new_guard, timeout) = match turn.wait_timeout(guard, STUCK) {
+            Ok(pair) => pair,
+            Err(poisoned) => poisoned.into_inner(),
+        };
+        guard = new_guard;
+        if timeout.timed_out() && guard.steps == steps && guard.arrived == guard.expected {
+            guard.free_running = true;
+            turn.notify_all();
+        }
+    }
+}
+
+/// Whether schedules are controlled in this run
+pub fn is_active() -> bool {
+    state().is_some()
+}
+
+/// To be called once, before the workers are started
+pub fn start(workers: usize) {
+    if let Some((mutex, _)) = state() {
+        lock(mutex).expected = workers;
+    }
+}
+
+/// Registration of a worker for as long as the value lives
+pub struct Registration;
+
+pub fn enter() -> Registration {
+    if let Some((mutex, turn)) = state() {
+        let mut guard = lock(mutex);
+        let me = guard.arrived;
+        ME.with(|cell| cell.set(Some(me)));
+        guard.arrived += 1;
+        guard.alive.push(true);
+        guard.weights.push(1);
+        if guard.arrived == guard.expected {
+            guard.choose_next();
+            turn.notify_all();
+        }
+        wait_for_turn(guard, turn, me);
+    }
+    Registration
+}
+
+impl Drop for Registration {
+    fn drop(&mut self) {
+        if let (Some((mutex, turn)), Some(me)) = (state(), ME.with(|cell| cell.get())) {
+            let mut guard = lock(mutex);
+            guard.alive[me] = false;
+            guard.choose_next();
+            turn.notify_all();
+        }
+    }
+}
+
+/// A place at which another worker may be scheduled
+pub fn point() {
+    if let (Some((mutex, turn)), Some(me)) = (state(), ME.with(|cell| cell.get())) {
+        let mut guard = lock(mutex);
+        if guard.free_running {
+            return;
+        }
+        guard.choose_next();
+        turn.notify_all();
+        wait_for_turn(guard, turn, me);
+    }
+}
diff --git a/src/worker_pool.rs b/src/worker_pool.rs
index ef27948..84f66b3 100644
--- a/src/worker_pool.rs
+++ b/src/worker_pool.rs
@@ -134,7 +134,11 @@ impl Drop for PendingWork<'_> {
 
 impl<'a> Worker<'a> {
     fn run(mut self) -> WorkAggregateResult {
+        #[cfg(qlc_verif)]
+        let _registration = crate::verif_sched::enter();
         while let Some(work) = self.pop_work() {
+            #[cfg(qlc_verif)]
+            crate::verif_sched::point();
             let _pending_work = PendingWork {
                 num_pending: self.num_pending,
             };
@@ -148,7 +152,11 @@ impl<'a> Worker<'a> {
                 }
                 WorkResult::MoreWork(additional_work) => {
                     for work in additional_work {
+                        #[cfg(qlc_verif)]
+                        crate::verif_sched::point();
                         self.num_pending.fetch_add(1, Ordering::SeqCst);
+                        #[cfg(qlc_verif)]
+                        crate::verif_sched::point();
                         self.tx.send(work).unwrap();
                     }
                 }
@@ -158,20 +166,30 @@ impl<'a> Worker<'a> {
                     );
                 }
             }
+            #[cfg(qlc_verif)]
+            crate::verif_sched::point();
         }
         self.aggregate
     }
 
     fn pop_work(&mut self) -> Option<Work> {
         loop {
+            #[cfg(qlc_verif)]
+            crate::verif_sched::point();
             if let Ok(work) = self.rx.try_recv() {
                 return Some(work);
             }
+            #[cfg(qlc_verif)]
+            crate::verif_sched::point();
             // Work counts as pending from before it is sent until all work it leads to is counted
             // as well, so only when nothing is pending no more work will ever come.
             if self.num_pending.load(Ordering::SeqCst) == 0 {
                 return None;
             }
+            #[cfg(qlc_verif)]
+            if crate::verif_sched::is_active() {
+                continue;
+            }
             // This is a bit weird, I know, but we want producers to catch up
             // without burning the CPU too hard.
             thread::sleep(Duration::from_millis(1));
@@ -200,6 +218,8 @@ impl WorkerPool {
         // The root directory
         let num_pending = AtomicUsize::new(1);
 
+        #[cfg(qlc_verif)]
+        crate::verif_sched::start(self.thread_count);
         let mut aggregate = thread::scope(|s| {
             let (tx, rx) = channel::unbounded();
             let initial_work = Work::DirEntry(self.root_dir_path.clone());
-- 
2.43.0


From 252e0908975dfe3a35a79b4ff31bc8e5de42ec92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:06 +0000
Subject: [PATCH 19/42] fix: fail the schema download when the response is cut
 short

---
 pkg/npm/lib/download.js | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/npm/lib/download.js b/pkg/npm/lib/download.js
index c812f4d..7b28970 100644
--- a/pkg/npm/lib/download.js
+++ b/pkg/npm/lib/download.js
@@ -1,6 +1,7 @@
 "use strict";
 
 const { unlink, createWriteStream } = require("fs");
+const { pipeline } = require("stream");
 const { URL } = require("url");
 
 const introspectionQuery = `
@@ -107,8 +108,7 @@ function download() {
         if (response.statusCode !== 200) {
           return cleanup(new Error(`Download failed with ${response.statusCode}`));
         }
-        response.pipe(outFile);
-        outFile.on("finish", resolve);
+        pipeline(response, outFile, (err) => (err ? cleanup(err) : resolve()));
       })
       .on("error", cleanup)
       .end(JSON.stringify({ query: introspectionQuery }));
-- 
2.43.0


From b5b2a385593d12cf3f6d804e59f5fc63deaa2849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:06 +0000
Subject: [PATCH 20/42] fix: request deprecations when downloading a schema

---
 pkg/npm/lib/download.js | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/npm/lib/download.js b/pkg/npm/lib/download.js
index 7b28970..2fbd440 100644
--- a/pkg/npm/lib/download.js
+++ b/pkg/npm/lib/download.js
@@ -28,6 +28,7 @@ const introspectionQuery = `
       type {
         ...TypeRef
       }
+      isDeprecated
     }
     inputFields {
       ...InputValue
-- 
2.43.0


From 204874cb92fff91528f0a0259b49fcbfea7c6d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:06 +0000
Subject: [PATCH 21/42] fix: fail the installation when the download is cut
 short

---
 pkg/npm/lib/postinstall.js | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/npm/lib/postinstall.js b/pkg/npm/lib/postinstall.js
index 7ee3192..444e07c 100644
--- a/pkg/npm/lib/postinstall.js
+++ b/pkg/npm/lib/postinstall.js
@@ -8,6 +8,7 @@ const { get: httpsGet } = require("https");
 const { join } = require("path");
 const { createHash } = require("crypto");
 const { spawn } = require("child_process");
+const { pipeline } = require("stream");
 
 const {
   version: VERSION,
@@ -47,7 +48,9 @@ function download(fullUrl, dest) {
     httpsGet(opts, (response) => {
       switch (response.statusCode) {
         case 200:
-          return response.pipe(createWriteStream(dest).on("finish", resolve));
+          return pipeline(response, createWriteStream(dest), (err) =>
+            err ? cleanup(err) : resolve(),
+          );
         case 302:
           return download(response.headers.location, dest)
             .then(resolve)
-- 
2.43.0


From 0fc9e49640a8c05878219354dc8a3ae0f4f0ae47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:56 +0000
Subject: [PATCH 22/42] fix: tell the kinds of typed document nodes apart when
 extracting data and variables

---
 pkg/npm/lib/typed-documentnode.d.ts | 37 +++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/pkg/npm/lib/typed-documentnode.d.ts b/pkg/npm/lib/typed-documentnode.d.ts
index d58a7fa..a2b5c93 100644
--- a/pkg/npm/lib/typed-documentnode.d.ts
+++ b/pkg/npm/lib/typed-documentnode.d.ts
@@ -35,6 +35,10 @@ export type FragmentDocumentNode<Data extends BasicObject> = DocumentNode & {
   readonly __typedDocumentNodeFragment?: () => Data;
 };
 
+// The markers are optional properties, so a node of any kind could be assigned to all other kinds.
+// Only once they are required do they tell the kinds apart.
+type MarkersOf<T> = T extends unknown ? Required<T> : never;
+
 /**
  * Helper for extracting a data type from a typed DocumentNode
  * @example
@@ -42,13 +46,21 @@ export type FragmentDocumentNode<Data extends BasicObject> = DocumentNode & {
  * // MyQuery is QueryDocumentNode<D, V>
  * type MyQuerysData = DataOf<typeof MyQuery>; // MyQuerysData is now type D
  */
-export type DataOf<T> = T extends QueryDocumentNode<infer Data, infer Variables>
+export type DataOf<T> = DataOfMarkers<MarkersOf<T>>;
+
+type DataOfMarkers<T> = T extends {
+  readonly __typedDocumentNodeQuery: (v: infer Variables) => infer Data;
+}
   ? Data
-  : T extends MutationDocumentNode<infer Data, infer Variables>
+  : T extends {
+      readonly __typedDocumentNodeMutation: (v: infer Variables) => infer Data;
+    }
   ? Data
-  : T extends SubscriptionDocumentNode<infer Data, infer Variables>
+  : T extends {
+      readonly __typedDocumentNodeSubscription: (v: infer Variables) => infer Data;
+    }
   ? Data
-  : T extends FragmentDocumentNode<infer Data>
+  : T extends { readonly __typedDocumentNodeFragment: () => infer Data }
   ? Data
   : never;
 
@@ -59,13 +71,18 @@ export type DataOf<T> = T extends QueryDocumentNode<infer Data, infer Variables>
  * // MyMutation is MutationDocumentNode<D, V>
  * type MyMutationsVars = VariablesOf<typeof MyMutation>; // MyMutationsVars is now type V
  */
-export type VariablesOf<T> = T extends QueryDocumentNode<
-  infer Data,
-  infer Variables
->
+export type VariablesOf<T> = VariablesOfMarkers<MarkersOf<T>>;
+
+type VariablesOfMarkers<T> = T extends {
+  readonly __typedDocumentNodeQuery: (v: infer Variables) => infer Data;
+}
   ? Variables
-  : T extends MutationDocumentNode<infer Data, infer Variables>
+  : T extends {
+      readonly __typedDocumentNodeMutation: (v: infer Variables) => infer Data;
+    }
   ? Variables
-  : T extends SubscriptionDocumentNode<infer Data, infer Variables>
+  : T extends {
+      readonly __typedDocumentNodeSubscription: (v: infer Variables) => infer Data;
+    }
   ? Variables
   : never;
-- 
2.43.0


From a645e326865754a96b3f72bac85fd7bc443bc554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:21 +0000
Subject: [PATCH 23/42] fix: name the document in errors without a position

---
 src/cli.rs     |  8 ++++++++
 src/graphql.rs | 10 +++++++---
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/cli.rs b/src/cli.rs
index b31d540..91f1252 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -264,6 +264,14 @@ impl PrintableMessage {
         self
     }
 
+    /// Names the file the message is about, unless it already points somewhere
+    pub fn or_source_file(mut self, source_file_path: &Path) -> Self {
+        if self.source_information.is_none() {
+            self.with_source_information(source_file_path, None);
+        }
+        self
+    }
+
     fn new_compile_error_from_io_error(
         operation_name: &str,
         error: &std::io::Error,
diff --git a/src/graphql.rs b/src/graphql.rs
index 9581142..45dc1c8 100644
--- a/src/graphql.rs
+++ b/src/graphql.rs
@@ -80,7 +80,8 @@ fn parse_graphql_file<'a>(
     let num_defintions = parsed.definitions.len();
     if num_defintions == 0 {
         let message =
-            PrintableMessage::new_simple_compile_error("missing defintion in the document");
+            PrintableMessage::new_simple_compile_error("missing defintion in the document")
+                .or_source_file(file_path);
         return Err(message);
     } else if num_defintions > 1 {
         let mut message =
@@ -254,7 +255,10 @@ pub fn compile_file(
             messages.extend(
                 ir_errors
                     .into_iter()
-                    .map(|ir_error| PrintableMessage::from((contents.as_ref(), path, ir_error)))
+                    .map(|ir_error| {
+                        PrintableMessage::from((contents.as_ref(), path, ir_error))
+                            .or_source_file(path)
+                    })
                     .chain(warnings.into_iter().map(|ir_warning| {
                         PrintableMessage::from((contents.as_ref(), path, ir_warning))
                     })),
@@ -272,7 +276,7 @@ pub fn compile_file(
     let the_compile = match typescript::compile_ir(&op_ir, config, schema) {
         Ok(c) => c,
         Err(inner_message) => {
-            messages.push(inner_message.into());
+            messages.push(PrintableMessage::from(inner_message).or_source_file(path));
             return Err(messages);
         }
     };
-- 
2.43.0


From 37cc2f90cbea98eeaa2d30c15a2b22998e47c42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:34 +0000
Subject: [PATCH 24/42] fix: reject variables whose type is not an input type

---
 src/graphql/schema.rs   |  8 ++++++++
 src/graphql/variable.rs | 18 +++++++++++++++++-
 2 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/graphql/schema.rs b/src/graphql/schema.rs
index cfb2b02..662194e 100644
--- a/src/graphql/schema.rs
+++ b/src/graphql/schema.rs
@@ -67,6 +67,14 @@ pub enum TypeDefinition {
 }
 
 impl TypeDefinition {
+    /// Whether values of the type can be passed to the server
+    pub fn is_input(&self) -> bool {
+        matches!(
+            self,
+            TypeDefinition::Enum(_) | TypeDefinition::Scalar(_) | TypeDefinition::InputObject(_)
+        )
+    }
+
     pub fn get_fields_lookup(&self) -> Option<&FieldsLookup> {
         match self {
             TypeDefinition::Object(object_type) => Some(&object_type.fields),
diff --git a/src/graphql/variable.rs b/src/graphql/variable.rs
index 94d75e0..aff93a7 100644
--- a/src/graphql/variable.rs
+++ b/src/graphql/variable.rs
@@ -10,6 +10,7 @@ use std::path::Path;
 #[derive(Debug)]
 pub enum Error {
     UnknownCustomeVariableType(String, Pos),
+    NotInputVariableType(String, Pos),
     UnprocessableVariableType(String, Pos),
     ListOfListNotSupported(String, Pos),
 }
@@ -42,7 +43,15 @@ impl<'a, 'b, 'c> TryFrom<(&'a CompileContext<'a, 'b>, &'c str, Pos)> for Variabl
                         from.2,
                     ))
                 }
-                Some(_) => VariableType::Custom(custom_type_name),
+                Some(custom_type) if custom_type.definition.is_input() => {
+                    VariableType::Custom(custom_type_name)
+                }
+                Some(_) => {
+                    return Err(Error::NotInputVariableType(
+                        custom_type_name.to_string(),
+                        from.2,
+                    ))
+                }
             },
         };
         Ok(var)
@@ -61,6 +70,13 @@ impl From<(&str, &Path, Error)> for PrintableMessage {
                     None,
                 )
             }
+            Error::NotInputVariableType(name, position) => PrintableMessage::new_compile_error(
+                &format!("invalid type for variable `{name}`"),
+                file_path,
+                contents,
+                &position,
+                Some("Only scalars, enums and input objects can be the type of a variable."),
+            ),
             Error::UnprocessableVariableType(name, position) => {
                 PrintableMessage::new_program_error(
                     &format!("failed to process variable `{name}`"),
-- 
2.43.0


From 6f5c115e656f2f45a1a22b43480e8b32ed8a993d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:49 +0000
Subject: [PATCH 25/42] fix: narrow fields of an object type to the types it
 declares for them

An object may declare a field with a narrower type than the interface the
field is selected on. The generated type had alternatives for types that
cannot occur there, with only some of their keys.
---
 src/graphql/ir.rs     | 28 +++++++++++++++++++++++++---
 src/graphql/schema.rs | 12 ++++++++++++
 2 files changed, 37 insertions(+), 3 deletions(-)

diff --git a/src/graphql/ir.rs b/src/graphql/ir.rs
index 83323d3..dd3390d 100644
--- a/src/graphql/ir.rs
+++ b/src/graphql/ir.rs
@@ -429,17 +429,39 @@ impl<'a, 'b> ComplexTraversal<'a> {
 
     fn insert_complex(
         &mut self,
+        schema: &schema::Schema,
         alias: &'a str,
         name: &'a str,
         field: &'a schema_field::Field,
         complex: ComplexTraversal<'a>,
     ) -> Result<()> {
-        for uniques in self.concrete_objects.values_mut() {
-            uniques.insert(alias, name, field, FieldTraversal::Complex(complex.clone()))?;
+        for (object_name, uniques) in self.concrete_objects.iter_mut() {
+            let mut complex = complex.clone();
+            complex.narrow_to_field_of_object(schema, object_name, name);
+            uniques.insert(alias, name, field, FieldTraversal::Complex(complex))?;
         }
         Ok(())
     }
 
+    /// An object may declare a field with a narrower type than the interface it was selected on
+    fn narrow_to_field_of_object(
+        &mut self,
+        schema: &schema::Schema,
+        object_name: &str,
+        field_name: &str,
+    ) {
+        let possible_types = schema
+            .get_type_for_name(object_name)
+            .and_then(|object| object.definition.get_fields_lookup())
+            .and_then(|fields_lookup| fields_lookup.get(field_name))
+            .map(|field| schema.get_possible_types(&field.type_description.reveal_concrete().name))
+            .unwrap_or_default();
+        let is_possible = |type_name: &str| possible_types.iter().any(|name| name == &type_name);
+        if self.concrete_objects.keys().any(|name| is_possible(name)) {
+            self.concrete_objects.retain(|name, _| is_possible(name));
+        }
+    }
+
     fn extend_from(&mut self, other: Self) -> Result<()> {
         for (type_name, other_uniques) in other.concrete_objects.into_iter() {
             if let Some(uniques) = self.concrete_objects.get_mut(type_name) {
@@ -768,7 +790,7 @@ fn insert_field<'a, 'b>(
                 &mut sub_parent,
                 jump_state,
             )?;
-            traversal.insert_complex(alias, name, field, sub_parent)?;
+            traversal.insert_complex(context.schema, alias, name, field, sub_parent)?;
         }
     };
 
diff --git a/src/graphql/schema.rs b/src/graphql/schema.rs
index 662194e..821942c 100644
--- a/src/graphql/schema.rs
+++ b/src/graphql/schema.rs
@@ -203,6 +203,18 @@ impl Schema {
     pub fn get_type_for_name(&self, name: &str) -> Option<&Type> {
         self.types.get(name)
     }
+
+    /// Names of the object types a value of the type can have
+    pub fn get_possible_types<'a>(&'a self, name: &'a str) -> Vec<&'a str> {
+        match self.get_type_for_name(name).map(|t| &t.definition) {
+            Some(TypeDefinition::Object(_)) => vec![name],
+            Some(
+                TypeDefinition::Interface(InterfaceType { possible_types, .. })
+                | TypeDefinition::Union(UnionType { possible_types, .. }),
+            ) => possible_types.iter().map(String::as_str).collect(),
+            _ => Vec::new(),
+        }
+    }
 }
 
 fn printable_message_error(reason: &str) -> PrintableMessage {
-- 
2.43.0


From 2afa3ac3b4d6f2f08349ff23a1fde96ed61b7384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:32 +0000
Subject: [PATCH 26/42] fix: follow long chains of imports without recursion

---
 src/graphql.rs | 68 +++++++++++++++++++++++++++++++++-----------------
 1 file changed, 45 insertions(+), 23 deletions(-)

diff --git a/src/graphql.rs b/src/graphql.rs
index 45dc1c8..bb41b55 100644
--- a/src/graphql.rs
+++ b/src/graphql.rs
@@ -18,6 +18,12 @@ pub type ParsedTextType = String;
 /// Contents, importing file, and location of the import in that file
 type ImportedFile = (String, PathBuf, LocationInformation);
 
+struct Import {
+    file_path: PathBuf,
+    importing_file: PathBuf,
+    location: LocationInformation,
+}
+
 #[derive(Debug)]
 pub struct CompileReport {
     pub messages: Vec<PrintableMessage>,
@@ -132,13 +138,13 @@ fn without_byte_order_mark(contents: &str) -> &str {
     contents.strip_prefix('\u{feff}').unwrap_or(contents)
 }
 
-fn add_imported_fragments(
+/// The imports at the head of a file
+fn imports_of_file(
     config: &CompileConfig,
     current_file: &Path,
     current_file_contents: &str,
-    import_contents: &mut BTreeMap<PathBuf, ImportedFile>,
-    messages: &mut Vec<PrintableMessage>,
-) {
+) -> Vec<Import> {
+    let mut imports = Vec::new();
     let mut current_dir = current_file.to_owned();
     current_dir.pop();
     for (line_index, line) in without_byte_order_mark(current_file_contents)
@@ -156,38 +162,54 @@ fn add_imported_fragments(
             // Stop reading lines as soon as we find a non-comment, non-empty line
             break;
         }
-        let location =
-            LocationInformation::new_from_line_and_column(line_index + 1, line, IMPORT_START.len());
-        let file_path = get_file_path_of_fragment(config, line, &current_dir);
+        imports.push(Import {
+            file_path: get_file_path_of_fragment(config, line, &current_dir),
+            importing_file: current_file.to_owned(),
+            location: LocationInformation::new_from_line_and_column(
+                line_index + 1,
+                line,
+                IMPORT_START.len(),
+            ),
+        });
+    }
+    imports
+}
+
+fn add_imported_fragments(
+    config: &CompileConfig,
+    root_file: &Path,
+    root_file_contents: &str,
+    import_contents: &mut BTreeMap<PathBuf, ImportedFile>,
+    messages: &mut Vec<PrintableMessage>,
+) {
+    // Depth first, in the order of the lines. Chains of imports may be too long for recursion.
+    let mut pending_imports = imports_of_file(config, root_file, root_file_contents);
+    pending_imports.reverse();
+    while let Some(import) = pending_imports.pop() {
         // Imports may be shared or cyclic, but each file only needs to be visited once
-        let import_key = file_path
+        let import_key = import
+            .file_path
             .canonicalize()
-            .unwrap_or_else(|_| file_path.clone());
+            .unwrap_or_else(|_| import.file_path.clone());
         if import_contents.contains_key(&import_key) {
             continue;
         }
-        let other_file_contents = match read_graphql_file(&file_path) {
+        let other_file_contents = match read_graphql_file(&import.file_path) {
             Ok(c) => c,
             Err(mut sub_message) => {
-                sub_message.with_source_information(current_file, Some(location));
+                sub_message.with_source_information(&import.importing_file, Some(import.location));
                 messages.push(sub_message);
                 continue;
             }
         };
+        pending_imports.extend(
+            imports_of_file(config, &import.file_path, &other_file_contents)
+                .into_iter()
+                .rev(),
+        );
         import_contents.insert(
             import_key,
-            (
-                other_file_contents.clone(),
-                current_file.to_owned(),
-                location,
-            ),
-        );
-        add_imported_fragments(
-            config,
-            &file_path,
-            &other_file_contents,
-            import_contents,
-            messages,
+            (other_file_contents, import.importing_file, import.location),
         );
     }
 }
-- 
2.43.0


From b1325e2ca8f4f81873dec71ac38692094c116071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:27 +0000
Subject: [PATCH 27/42] fix: give workers stacks for deeply nested documents

---
 src/worker_pool.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/worker_pool.rs b/src/worker_pool.rs
index 84f66b3..5f4a504 100644
--- a/src/worker_pool.rs
+++ b/src/worker_pool.rs
@@ -9,6 +9,9 @@ use std::sync::atomic::{AtomicUsize, Ordering};
 use std::thread;
 use std::time::Duration;
 
+/// Compilation recurses into nested selections, through any number of fragments
+const WORKER_STACK_SIZE: usize = 32 * 1024 * 1024;
+
 #[derive(Debug)]
 enum WorkResult {
     MoreWork(Vec<Work>),
@@ -234,7 +237,10 @@ impl WorkerPool {
                         tx: tx.clone(),
                         rx: rx.clone(),
                     };
-                    s.spawn(|| worker.run())
+                    thread::Builder::new()
+                        .stack_size(WORKER_STACK_SIZE)
+                        .spawn_scoped(s, || worker.run())
+                        .unwrap()
                 })
                 .collect::<Vec<_>>();
 
-- 
2.43.0


From 9a56358ba082377251389db7d904ea06c11f909f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:36 +0000
Subject: [PATCH 28/42] fix: limit the number of threads to what can be started

---
 src/cli.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cli.rs b/src/cli.rs
index 91f1252..8defb8a 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -9,6 +9,8 @@ use std::io::{BufReader, Error as IOError};
 use std::path::{Path, PathBuf};
 use strsim::generic_damerau_levenshtein;
 
+const MAX_THREADS: usize = 128;
+
 #[derive(Debug)]
 enum MessageLevel {
     CompileWarning,
@@ -451,8 +453,8 @@ impl RuntimeConfig {
                 .num_threads
                 .or(config_file_args.num_threads)
                 .unwrap_or_else(|| std::cmp::min(num_cpus::get(), 8))
-                // Without any worker nothing would be compiled
-                .max(1),
+                // Without any worker nothing would be compiled, and too many cannot be started
+                .clamp(1, MAX_THREADS),
             root_dir_import_prefix: cli_args
                 .root_dir_import_prefix
                 .or(config_file_args.root_dir_import_prefix),
-- 
2.43.0


From 6e744b38be1d096c7464a65e3582b11a5062de4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:23 +0000
Subject: [PATCH 29/42] fix: follow long chains of input objects without
 recursion

---
 src/typescript.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/typescript.rs b/src/typescript.rs
index e6da0b8..2af15e4 100644
--- a/src/typescript.rs
+++ b/src/typescript.rs
@@ -146,9 +146,19 @@ fn add_sub_input_objects<'a>(
     schema: &'a schema::Schema,
     current_type: &'a schema::Type,
 ) -> Result<()> {
-    if let schema::TypeDefinition::InputObject(input_object_type) = &current_type.definition {
-        for field in input_object_type.fields.values() {
-            add_sub_input_object_field(name_to_type, schema, &field.type_description, &field.name)?;
+    // Input objects may form chains too long to descend by recursion
+    let mut pending = vec![current_type];
+    while let Some(pending_type) = pending.pop() {
+        if let schema::TypeDefinition::InputObject(input_object_type) = &pending_type.definition {
+            for field in input_object_type.fields.values() {
+                add_sub_input_object_field(
+                    name_to_type,
+                    &mut pending,
+                    schema,
+                    &field.type_description,
+                    &field.name,
+                )?;
+            }
         }
     }
     Ok(())
@@ -156,6 +166,7 @@ fn add_sub_input_objects<'a>(
 
 fn add_sub_input_object_field<'a>(
     name_to_type: &mut HashMap<&'a str, &'a schema::Type>,
+    pending: &mut Vec<&'a schema::Type>,
     schema: &'a schema::Schema,
     field_type: &'a schema_field::FieldType,
     field_name: &'a str,
@@ -169,7 +180,7 @@ fn add_sub_input_object_field<'a>(
                 .ok_or_else(|| Error::MissingType(type_name.to_string()))?;
             // Input objects may be recursive, so only descend on the first visit
             if name_to_type.insert(type_name, global_type).is_none() {
-                add_sub_input_objects(name_to_type, schema, global_type)?;
+                pending.push(global_type);
             }
         }
         schema_field::FieldTypeDefinition::Enum => {
-- 
2.43.0


From e9735df09fe47016c720b5b524dc8fb418c33266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:04 +0000
Subject: [PATCH 30/42] fix: use the configured prefix for custom scalars
 enabled on the command line

---
 src/cli.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/cli.rs b/src/cli.rs
index 8defb8a..6be93f6 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -444,11 +444,9 @@ impl RuntimeConfig {
                 || config_file_args.use_custom_scalars.unwrap_or(false),
             disable_readonly_types: cli_args.disable_readonly_types
                 || config_file_args.disable_readonly_types.unwrap_or(false),
-            custom_scalar_prefix: cli_args.custom_scalar_prefix.or_else(|| {
-                config_file_args
-                    .use_custom_scalars
-                    .and(config_file_args.custom_scalar_prefix)
-            }),
+            custom_scalar_prefix: cli_args
+                .custom_scalar_prefix
+                .or(config_file_args.custom_scalar_prefix),
             number_threads: cli_args
                 .num_threads
                 .or(config_file_args.num_threads)
-- 
2.43.0


From 9c911e557c0b171d7844526fff16bdff8de442e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:25 +0000
Subject: [PATCH 31/42] fix: name the schema file in errors about its contents

---
 src/graphql/schema.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graphql/schema.rs b/src/graphql/schema.rs
index 821942c..be6e39e 100644
--- a/src/graphql/schema.rs
+++ b/src/graphql/schema.rs
@@ -252,6 +252,6 @@ pub fn parse_schema(path: &Path) -> Result<Schema, Vec<PrintableMessage>> {
                 printable_message_error(&format!("JSON parse error: {serde_error}"))
             }
         };
-        vec![printable_message]
+        vec![printable_message.or_source_file(path)]
     })
 }
-- 
2.43.0


From 8f78be172092d8ae6f27223a89c9ad68db2320d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:27 +0000
Subject: [PATCH 32/42] fix: keep the messages of a document whose output
 cannot be written

---
 src/graphql.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/graphql.rs b/src/graphql.rs
index bb41b55..a3f29a3 100644
--- a/src/graphql.rs
+++ b/src/graphql.rs
@@ -304,12 +304,13 @@ pub fn compile_file(
     };
 
     let output_path = path.with_extension("graphql.d.ts");
-    std::fs::write(&output_path, the_compile.contents).map_err(|io_error| {
-        vec![PrintableMessage::new_compile_error_from_write_io_error(
+    if let Err(io_error) = std::fs::write(&output_path, the_compile.contents) {
+        messages.push(PrintableMessage::new_compile_error_from_write_io_error(
             &io_error,
             &output_path,
-        )]
-    })?;
+        ));
+        return Err(messages);
+    }
 
     Ok(CompileReport {
         messages,
-- 
2.43.0


From 6ee42412b619d7fbe0f61968660fc71b959c40db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:33 +0000
Subject: [PATCH 33/42] fix: no file is left behind when a schema cannot be
 downloaded

---
 pkg/npm/lib/download.js | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/pkg/npm/lib/download.js b/pkg/npm/lib/download.js
index 2fbd440..e34e5a6 100644
--- a/pkg/npm/lib/download.js
+++ b/pkg/npm/lib/download.js
@@ -1,7 +1,7 @@
 "use strict";
 
 const { unlink, createWriteStream } = require("fs");
-const { pipeline } = require("stream");
+const { finished, pipeline } = require("stream");
 const { URL } = require("url");
 
 const introspectionQuery = `
@@ -91,11 +91,17 @@ function download() {
   }
   const outFilePath = outFilePathRaw || "schema.json";
   return new Promise((resolve, reject) => {
-    const outFile = createWriteStream(outFilePath);
+    let outFile;
     const cleanup = (err) => {
-      return unlink(outFilePath, (deleteErr) => {
-        console.error(deleteErr);
-        reject(err);
+      if (!outFile) {
+        return reject(err);
+      }
+      // While the file is still being opened, deleting it has no lasting effect
+      return finished(outFile.destroy(), () => {
+        unlink(outFilePath, (deleteErr) => {
+          console.error(deleteErr);
+          reject(err);
+        });
       });
     };
     const parsedUrl = new URL(endpoint);
@@ -109,6 +115,7 @@ function download() {
         if (response.statusCode !== 200) {
           return cleanup(new Error(`Download failed with ${response.statusCode}`));
         }
+        outFile = createWriteStream(outFilePath).on("error", cleanup);
         pipeline(response, outFile, (err) => (err ? cleanup(err) : resolve()));
       })
       .on("error", cleanup)
-- 
2.43.0


From e4c6c7618b921c49f2306eadace230693453d463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:33 +0000
Subject: [PATCH 34/42] fix: no part of an archive is left behind when its
 download fails

---
 pkg/npm/lib/postinstall.js | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/pkg/npm/lib/postinstall.js b/pkg/npm/lib/postinstall.js
index 444e07c..9945da3 100644
--- a/pkg/npm/lib/postinstall.js
+++ b/pkg/npm/lib/postinstall.js
@@ -8,7 +8,7 @@ const { get: httpsGet } = require("https");
 const { join } = require("path");
 const { createHash } = require("crypto");
 const { spawn } = require("child_process");
-const { pipeline } = require("stream");
+const { finished, pipeline } = require("stream");
 
 const {
   version: VERSION,
@@ -34,12 +34,20 @@ function getTarget() {
 
 function download(fullUrl, dest) {
   return new Promise((resolve, reject) => {
-    const cleanup = (err) =>
-      unlink(dest)
-        .catch(console.error)
-        .finally(() => {
-          reject(err);
-        });
+    let file;
+    const cleanup = (err) => {
+      if (!file) {
+        return reject(err);
+      }
+      // While the file is still being opened, deleting it has no lasting effect
+      return finished(file.destroy(), () => {
+        unlink(dest)
+          .catch(console.error)
+          .finally(() => {
+            reject(err);
+          });
+      });
+    };
     const opts = {
       ...url.parse(fullUrl),
       timeout: 20000,
@@ -48,7 +56,8 @@ function download(fullUrl, dest) {
     httpsGet(opts, (response) => {
       switch (response.statusCode) {
         case 200:
-          return pipeline(response, createWriteStream(dest), (err) =>
+          file = createWriteStream(dest).on("error", cleanup);
+          return pipeline(response, file, (err) =>
             err ? cleanup(err) : resolve(),
           );
         case 302:
-- 
2.43.0


From 0073d955c5cbd555fbad69b06488487c33297fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:33 +0000
Subject: [PATCH 35/42] fix: follow redirects to relative locations when
 installing

---
 pkg/npm/lib/postinstall.js | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/npm/lib/postinstall.js b/pkg/npm/lib/postinstall.js
index 9945da3..02d57eb 100644
--- a/pkg/npm/lib/postinstall.js
+++ b/pkg/npm/lib/postinstall.js
@@ -61,7 +61,8 @@ function download(fullUrl, dest) {
             err ? cleanup(err) : resolve(),
           );
         case 302:
-          return download(response.headers.location, dest)
+          return Promise.resolve(response.headers.location)
+            .then((location) => download(url.resolve(fullUrl, location), dest))
             .then(resolve)
             .catch(reject);
         default:
-- 
2.43.0


From 660df12eff914241a3bfaf299e122bf70991bf6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:34 +0000
Subject: [PATCH 36/42] fix: give up on a download that stalls when installing

---
 pkg/npm/lib/postinstall.js | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/npm/lib/postinstall.js b/pkg/npm/lib/postinstall.js
index 02d57eb..6499e12 100644
--- a/pkg/npm/lib/postinstall.js
+++ b/pkg/npm/lib/postinstall.js
@@ -53,7 +53,7 @@ function download(fullUrl, dest) {
       timeout: 20000,
       headers: { Accept: "application/octet-stream" },
     };
-    httpsGet(opts, (response) => {
+    const request = httpsGet(opts, (response) => {
       switch (response.statusCode) {
         case 200:
           file = createWriteStream(dest).on("error", cleanup);
@@ -61,6 +61,7 @@ function download(fullUrl, dest) {
             err ? cleanup(err) : resolve(),
           );
         case 302:
+          response.destroy();
           return Promise.resolve(response.headers.location)
             .then((location) => download(url.resolve(fullUrl, location), dest))
             .then(resolve)
@@ -72,6 +73,7 @@ function download(fullUrl, dest) {
       }
     })
       .on("error", cleanup)
+      .on("timeout", () => request.destroy(new Error("Download timed out")))
       .end();
   });
 }
-- 
2.43.0


From 9f7e5254323d29fbcf43ec2a093790fd7712b8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:34 +0000
Subject: [PATCH 37/42] fix: give up on endless redirects when installing

---
 pkg/npm/lib/postinstall.js | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pkg/npm/lib/postinstall.js b/pkg/npm/lib/postinstall.js
index 6499e12..93b34b3 100644
--- a/pkg/npm/lib/postinstall.js
+++ b/pkg/npm/lib/postinstall.js
@@ -32,7 +32,7 @@ function getTarget() {
   }
 }
 
-function download(fullUrl, dest) {
+function download(fullUrl, dest, redirects = 20) {
   return new Promise((resolve, reject) => {
     let file;
     const cleanup = (err) => {
@@ -62,8 +62,13 @@ function download(fullUrl, dest) {
           );
         case 302:
           response.destroy();
+          if (redirects === 0) {
+            return reject(new Error("Too many redirects"));
+          }
           return Promise.resolve(response.headers.location)
-            .then((location) => download(url.resolve(fullUrl, location), dest))
+            .then((location) =>
+              download(url.resolve(fullUrl, location), dest, redirects - 1),
+            )
             .then(resolve)
             .catch(reject);
         default:
-- 
2.43.0


From f25fa41919c746fd1016541e076ca4db96e1e101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:34 +0000
Subject: [PATCH 38/42] fix: no archive is left behind when it cannot be
 unpacked

---
 pkg/npm/lib/postinstall.js | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/pkg/npm/lib/postinstall.js b/pkg/npm/lib/postinstall.js
index 93b34b3..43aeac1 100644
--- a/pkg/npm/lib/postinstall.js
+++ b/pkg/npm/lib/postinstall.js
@@ -121,15 +121,11 @@ async function main() {
   ]);
   try {
     await checksum(tarballFileName, target);
-  } catch (error) {
+    await untar(tarballFileName, BIN_PATH);
+  } finally {
     await unlink(tarballFileName);
-    throw error;
   }
-  await untar(tarballFileName, BIN_PATH);
-  await Promise.all([
-    unlink(tarballFileName),
-    chmod(join(BIN_PATH, "qlc"), "755"),
-  ]);
+  await chmod(join(BIN_PATH, "qlc"), "755");
 }
 
 main()
-- 
2.43.0


From c92c0a9d9aa97a8ef4080d83cf918920363c1a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:03 +0000
Subject: [PATCH 39/42] fix: operations select from the root types that the
 schema names

---
 src/graphql/ir.rs          | 35 +++++++++++++++++++----------------
 src/graphql/schema.rs      | 13 ++++++++++++-
 src/graphql/schema/json.rs |  6 ++++++
 3 files changed, 37 insertions(+), 17 deletions(-)

diff --git a/src/graphql/ir.rs b/src/graphql/ir.rs
index dd3390d..6eda67e 100644
--- a/src/graphql/ir.rs
+++ b/src/graphql/ir.rs
@@ -583,17 +583,6 @@ pub struct ComplexCollection {
     pub possibilities: Vec<Complex>,
 }
 
-impl From<&str> for OperationKind {
-    fn from(name: &str) -> Self {
-        match name {
-            "Mutation" => OperationKind::Mutation,
-            "Subscription" => OperationKind::Subscription,
-            "Query" => OperationKind::Query,
-            _ => OperationKind::Fragment,
-        }
-    }
-}
-
 #[derive(Debug)]
 pub enum OperationKind {
     Query,
@@ -671,10 +660,20 @@ fn build_from_operation<'a>(
     operation: &'a parsed_query::OperationDefinition<'a, ParsedTextType>,
     jump_state: ForeignFragmentJumpState,
 ) -> ResultMany<Operation<'a>> {
+    let schema = context.schema;
+    let kind = match operation {
+        parsed_query::OperationDefinition::Mutation(_) => OperationKind::Mutation,
+        parsed_query::OperationDefinition::Subscription(_)
+            if schema.subscription_type_name.is_some() =>
+        {
+            OperationKind::Subscription
+        }
+        _ => OperationKind::Query,
+    };
     let (op_type_name, fallback_name, op_name, selection_set, var_defs, position) = match operation
     {
         parsed_query::OperationDefinition::Query(query) => (
-            "Query",
+            &schema.query_type_name,
             "Query",
             &query.name,
             &query.selection_set,
@@ -682,7 +681,7 @@ fn build_from_operation<'a>(
             query.position,
         ),
         parsed_query::OperationDefinition::Mutation(mutation) => (
-            "Mutation",
+            &schema.mutation_type_name,
             "Mutation",
             &mutation.name,
             &mutation.selection_set,
@@ -690,7 +689,11 @@ fn build_from_operation<'a>(
             mutation.position,
         ),
         parsed_query::OperationDefinition::Subscription(subscription) => (
-            "Query", // We look in query as our type for subscriptions
+            // We look in query as our type for subscriptions if they have none of their own
+            schema
+                .subscription_type_name
+                .as_ref()
+                .unwrap_or(&schema.query_type_name),
             "Subscription",
             &subscription.name,
             &subscription.selection_set,
@@ -703,7 +706,7 @@ fn build_from_operation<'a>(
             )]);
         }
     };
-    let mut parent = ComplexTraversal::try_from((context, op_type_name, position))?;
+    let mut parent = ComplexTraversal::try_from((context, op_type_name.as_ref(), position))?;
     collect_fields_from_selection_set(context, selection_set, &mut parent, jump_state)?;
     Ok(Operation {
         name: op_name
@@ -712,7 +715,7 @@ fn build_from_operation<'a>(
             .unwrap_or_else(|| fallback_name.to_string()),
         collection: parent.try_into()?,
         variables: variable::try_build_variable_ir(context, var_defs).map_err(Error::Variable)?,
-        kind: OperationKind::from(op_type_name),
+        kind,
     })
 }
 
diff --git a/src/graphql/schema.rs b/src/graphql/schema.rs
index be6e39e..91cc5a7 100644
--- a/src/graphql/schema.rs
+++ b/src/graphql/schema.rs
@@ -188,6 +188,9 @@ impl TryFrom<json::Type> for Type {
 
 pub struct Schema {
     types: HashMap<String, Type>,
+    pub query_type_name: String,
+    pub mutation_type_name: String,
+    pub subscription_type_name: Option<String>,
 }
 
 impl Schema {
@@ -197,7 +200,15 @@ impl Schema {
         for type_json in schema_json.types {
             types.insert(type_json.name.clone(), Type::try_from(type_json)?);
         }
-        Ok(Schema { types })
+        let name_or = |root: Option<json::ComplexObjectDescription>, name: &str| {
+            root.map_or_else(|| name.to_string(), |root| root.name)
+        };
+        Ok(Schema {
+            types,
+            query_type_name: name_or(schema_json.query_type, "Query"),
+            mutation_type_name: name_or(schema_json.mutation_type, "Mutation"),
+            subscription_type_name: schema_json.subscription_type.map(|root| root.name),
+        })
     }
 
     pub fn get_type_for_name(&self, name: &str) -> Option<&Type> {
diff --git a/src/graphql/schema/json.rs b/src/graphql/schema/json.rs
index 239f959..75017a1 100644
--- a/src/graphql/schema/json.rs
+++ b/src/graphql/schema/json.rs
@@ -41,6 +41,12 @@ pub struct Type {
 
 #[derive(Deserialize, Debug)]
 pub struct Schema {
+    #[serde(rename(deserialize = "queryType"))]
+    pub query_type: Option<ComplexObjectDescription>,
+    #[serde(rename(deserialize = "mutationType"))]
+    pub mutation_type: Option<ComplexObjectDescription>,
+    #[serde(rename(deserialize = "subscriptionType"))]
+    pub subscription_type: Option<ComplexObjectDescription>,
     pub types: Vec<Type>,
 }
 
-- 
2.43.0


From 7e04fb8e498f74e6752079fe22b1a242b5317e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:05 +0000
Subject: [PATCH 40/42] fix: go on with fewer workers when not all threads can
 be started

---
 src/worker_pool.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/worker_pool.rs b/src/worker_pool.rs
index 5f4a504..af46e0c 100644
--- a/src/worker_pool.rs
+++ b/src/worker_pool.rs
@@ -228,8 +228,9 @@ impl WorkerPool {
             let initial_work = Work::DirEntry(self.root_dir_path.clone());
             tx.send(initial_work).unwrap();
 
+            // Fewer workers will do if no more can be started
             let handles = (0..self.thread_count)
-                .map(|_| {
+                .map_while(|_| {
                     let worker = Worker {
                         pool: self,
                         num_pending: &num_pending,
@@ -240,11 +241,15 @@ impl WorkerPool {
                     thread::Builder::new()
                         .stack_size(WORKER_STACK_SIZE)
                         .spawn_scoped(s, || worker.run())
-                        .unwrap()
+                        .ok()
                 })
                 .collect::<Vec<_>>();
 
             let mut aggregate = WorkAggregateResult::new();
+            if handles.is_empty() {
+                let error = PrintableMessage::new_simple_program_error("unable to start a thread");
+                aggregate.append_message(error);
+            }
             for handle in handles {
                 aggregate.extend_from(handle.join().unwrap());
             }
-- 
2.43.0


From 189ed278bbc22752eedbfdbb2a6a05edf01854b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:17 +0000
Subject: [PATCH 41/42] fix: an empty prefix for the root directory does not
 redirect relative imports

---
 src/graphql.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/graphql.rs b/src/graphql.rs
index a3f29a3..27b39e4 100644
--- a/src/graphql.rs
+++ b/src/graphql.rs
@@ -122,6 +122,8 @@ fn get_file_path_of_fragment(
     config
         .root_dir_import_prefix
         .as_deref()
+        // Every path starts with an empty prefix, even one relative to the current directory
+        .filter(|root_dir_prefix| !root_dir_prefix.is_empty())
         .and_then(|root_dir_prefix| import_path.strip_prefix(root_dir_prefix))
         .map(|import_path_without_prefix| config.root_dir.join(import_path_without_prefix))
         .unwrap_or_else(|| {
-- 
2.43.0


From 5dffc2ce3ab8dfa94c64ff3362611227b33f902a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:17 +0000
Subject: [PATCH 42/42] Hook: do not wait for workers that never arrive

---
 src/verif_sched.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/verif_sched.rs b/src/verif_sched.rs
index 7227967..34e045c 100644
--- a/src/verif_sched.rs
+++ b/src/verif_sched.rs
@@ -8,7 +8,8 @@ use std::sync::{Condvar, Mutex, MutexGuard, OnceLock};
 use std::time::Duration;
 
 const DEFAULT_STEPS: u64 = 3_000_000;
-/// A running worker that reaches no point for this long is taken to be blocked by another one
+/// A running worker that reaches no point for this long is taken to be blocked by another one, and
+/// workers that have not arrived by then are taken not to exist
 const STUCK: Duration = Duration::from_secs(5);
 
 struct State {
@@ -107,13 +108,13 @@ impl State {
 
 fn wait_for_turn(mut guard: MutexGuard<'_, State>, turn: &Condvar, me: usize) {
     while !guard.free_running && guard.current != Some(me) {
-        let steps = guard.steps;
+        let progress = (guard.steps, guard.arrived);
         let (new_guard, timeout) = match turn.wait_timeout(guard, STUCK) {
             Ok(pair) => pair,
             Err(poisoned) => poisoned.into_inner(),
         };
         guard = new_guard;
-        if timeout.timed_out() && guard.steps == steps && guard.arrived == guard.expected {
+        if timeout.timed_out() && progress == (guard.steps, guard.arrived) {
             guard.free_running = true;
             turn.notify_all();
         }
-- 
2.43.0

