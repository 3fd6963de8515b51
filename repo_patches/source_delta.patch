From 2a6d75585c2efd1ff380d1687c82d6abddc918c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:19 +0000
Subject: [PATCH 01/19] fix: do not panic on a string default of a char, bit,
 varchar or varbit column without a length

---
 src/analyzer/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/analyzer/mod.rs b/src/analyzer/mod.rs
index 95018ec..dbde7bf 100644
--- a/src/analyzer/mod.rs
+++ b/src/analyzer/mod.rs
@@ -339,12 +339,12 @@ pub fn analyze(schema_block: &SchemaBlock) -> AnalyzerResult<AnalyzedIndexer> {
                 match type_name {
                   ColumnTypeName::Bit
                   | ColumnTypeName::Char
-                  if matches!(col.r#type.args[0], Value::Integer(len) if val.len() as i64 != len) => {
+                  if matches!(col.r#type.args.first(), Some(&Value::Integer(len)) if val.len() as i64 != len) => {
                     throw_err(err.clone(), &span_range, input)?;
                   }
                   ColumnTypeName::Varbit
                   | ColumnTypeName::VarChar
-                  if matches!(col.r#type.args[0], Value::Integer(cap) if val.len() as i64 > cap) => {
+                  if matches!(col.r#type.args.first(), Some(&Value::Integer(cap)) if val.len() as i64 > cap) => {
                     throw_err(err.clone(), &span_range, input)?;
                   }
                   _ => ()
-- 
2.43.0


From a97746957791733e9afcc603679204399975b1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:19 +0000
Subject: [PATCH 02/19] fix: measure string defaults in characters, not bytes,
 against the column length

---
 src/analyzer/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/analyzer/mod.rs b/src/analyzer/mod.rs
index dbde7bf..199af7a 100644
--- a/src/analyzer/mod.rs
+++ b/src/analyzer/mod.rs
@@ -339,12 +339,12 @@ pub fn analyze(schema_block: &SchemaBlock) -> AnalyzerResult<AnalyzedIndexer> {
                 match type_name {
                   ColumnTypeName::Bit
                   | ColumnTypeName::Char
-                  if matches!(col.r#type.args.first(), Some(&Value::Integer(len)) if val.len() as i64 != len) => {
+                  if matches!(col.r#type.args.first(), Some(&Value::Integer(len)) if val.chars().count() as i64 != len) => {
                     throw_err(err.clone(), &span_range, input)?;
                   }
                   ColumnTypeName::Varbit
                   | ColumnTypeName::VarChar
-                  if matches!(col.r#type.args.first(), Some(&Value::Integer(cap)) if val.len() as i64 > cap) => {
+                  if matches!(col.r#type.args.first(), Some(&Value::Integer(cap)) if val.chars().count() as i64 > cap) => {
                     throw_err(err.clone(), &span_range, input)?;
                   }
                   _ => ()
-- 
2.43.0


From c0727eff22a570ba90eb20c9283fa8c5ee457790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:19 +0000
Subject: [PATCH 03/19] fix: accept the largest bigint as a default, every
 64-bit integer fits a bigint column

---
 src/analyzer/mod.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/analyzer/mod.rs b/src/analyzer/mod.rs
index 199af7a..0b0caa3 100644
--- a/src/analyzer/mod.rs
+++ b/src/analyzer/mod.rs
@@ -364,10 +364,6 @@ pub fn analyze(schema_block: &SchemaBlock) -> AnalyzerResult<AnalyzedIndexer> {
                   if (*val > i32::MAX as i64) || (*val < i32::MIN as i64) => {
                     throw_err(err.clone(), &span_range, input)?;
                   }
-                  ColumnTypeName::BigInt
-                  if val.overflowing_add(1).1 || val.overflowing_sub(1).1 => {
-                    throw_err(err.clone(), &span_range, input)?;
-                  }
                   _ => ()
                 };
               },
-- 
2.43.0


From 876546bb10ead6f45ed690ba3e09fff81864b22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:19 +0000
Subject: [PATCH 04/19] fix: do not look up a null or expression default among
 the values of an enum

---
 src/analyzer/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/analyzer/mod.rs b/src/analyzer/mod.rs
index 0b0caa3..ee809ff 100644
--- a/src/analyzer/mod.rs
+++ b/src/analyzer/mod.rs
@@ -293,7 +293,8 @@ pub fn analyze(schema_block: &SchemaBlock) -> AnalyzerResult<AnalyzedIndexer> {
                   };
 
                   match &col.settings {
-                    Some(ColumnSettings { attributes, default: Some(default_value), .. }) => {
+                    Some(ColumnSettings { attributes, default: Some(default_value), .. })
+                    if !matches!(default_value, Value::Null | Value::Expr(_)) => {
                       let default_value_span = attributes.iter()
                         .find_map(|attr| {
                           (attr.key.to_string == "default").then(|| attr.value.as_ref().map(|v| &v.span_range))
-- 
2.43.0


From 980518c7b9ba640f977a9658f45d99cd0bed2bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:19 +0000
Subject: [PATCH 05/19] fix: report the left type, not the left column, in a
 mismatched foreign key type error

---
 src/analyzer/indexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/analyzer/indexer.rs b/src/analyzer/indexer.rs
index 2ea2b2d..efad448 100644
--- a/src/analyzer/indexer.rs
+++ b/src/analyzer/indexer.rs
@@ -398,7 +398,7 @@ impl IndexedRef {
           r_ident: r.to_string.clone(),
           l_ident: l.to_string.clone(),
           r_type: r_type.raw.clone(),
-          l_type: l.raw.clone(),
+          l_type: l_type.raw.clone(),
         };
 
         throw_err(err, &self.span_range, input)?;
-- 
2.43.0


From 00e7a58dc97392232345ae106e7089af5be756e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:19 +0000
Subject: [PATCH 06/19] fix: require both sides of a single column many-to-many
 relation to be keys, as for composites

---
 src/analyzer/indexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/analyzer/indexer.rs b/src/analyzer/indexer.rs
index efad448..aafc607 100644
--- a/src/analyzer/indexer.rs
+++ b/src/analyzer/indexer.rs
@@ -411,7 +411,7 @@ impl IndexedRef {
           r_col.settings.as_ref().is_some_and(|s| s.is_pk || s.is_unique),
         ) {
           (Relation::One2One, false, false) => Some((InvalidForeignKeyErr::One2One, &self.span_range)),
-          (Relation::Many2Many, false, false) => Some((InvalidForeignKeyErr::Many2Many, &self.span_range)),
+          (Relation::Many2Many, false, _) | (Relation::Many2Many, _, false) => Some((InvalidForeignKeyErr::Many2Many, &self.span_range)),
           (Relation::One2Many, false, _) => {
             Some((InvalidForeignKeyErr::NitherUniqueKeyNorPrimaryKey, &self.lhs.span_range))
           }
-- 
2.43.0


From 9f6d1a3af694d331b6e210421bc1a17076f37e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:19 +0000
Subject: [PATCH 07/19] fix: reject a table group item whose qualified table
 does not exist

---
 src/analyzer/indexer.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/analyzer/indexer.rs b/src/analyzer/indexer.rs
index aafc607..288b210 100644
--- a/src/analyzer/indexer.rs
+++ b/src/analyzer/indexer.rs
@@ -153,7 +153,13 @@ impl Indexer {
       let mut indexed_items = BTreeSet::new();
       for group_item in &table_group.items {
         let ident = match &group_item.schema {
-          Some(item_schema) => (item_schema.to_string.clone(), group_item.ident_alias.to_string.clone()),
+          Some(item_schema) => {
+            if !self.contains_table(&item_schema.to_string, &group_item.ident_alias.to_string) {
+              throw_err(Err::TableNotFound, &group_item.span_range, input)?;
+            }
+
+            (item_schema.to_string.clone(), group_item.ident_alias.to_string.clone())
+          }
           None => {
             match self.resolve_alias(&group_item.ident_alias.to_string) {
               Some(ident) => ident.clone(),
-- 
2.43.0


From ab4e294bce2e392d20b5fd885cb3ef6bd61dd5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:19 +0000
Subject: [PATCH 08/19] fix: check the settings of table groups for duplicate
 keys

---
 src/analyzer/indexer.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/analyzer/indexer.rs b/src/analyzer/indexer.rs
index 288b210..401243b 100644
--- a/src/analyzer/indexer.rs
+++ b/src/analyzer/indexer.rs
@@ -146,6 +146,10 @@ impl Indexer {
   /// - `DuplicateTableGroupItem`
   pub(super) fn index_table_groups(&mut self, table_groups: &Vec<&TableGroupBlock>, input: &str) -> AnalyzerResult<()> {
     for table_group in table_groups {
+      if let Some(settings) = &table_group.settings {
+        check_attr_duplicate_keys(&settings.attributes, input)?;
+      }
+
       if self.table_group_map.get(&table_group.ident.to_string).is_some() {
         throw_err(Err::DuplicateTableGroupName, &table_group.ident.span_range, input)?;
       }
-- 
2.43.0


From f077affc9b88362cd121e38ef0ed31b563c1d27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:19 +0000
Subject: [PATCH 09/19] fix: parse words beginning with true, false or null as
 words

---
 src/dbml.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dbml.pest b/src/dbml.pest
index bd013ed..854e348 100644
--- a/src/dbml.pest
+++ b/src/dbml.pest
@@ -30,7 +30,7 @@ string_value = { triple_quoted_string | single_quoted_string }
 integer = @{ ASCII_DIGIT+ }
 decimal = @{ ASCII_DIGIT+ ~ "." ~ ASCII_DIGIT* }
 number_value = { decimal | integer }
-boolean_value = @{ "true" | "false" | "null" }
+boolean_value = @{ ("true" | "false" | "null") ~ !(ASCII_ALPHANUMERIC | "_") }
 hex_value = @{ "#" ~ (ASCII_HEX_DIGIT{3}){1,2} }
 value = { string_value | backquoted_quoted_string | boolean_value | number_value | hex_value }
 
-- 
2.43.0


From bc44d2037c57404f5d27fb7e5803f1e9ea08ba94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:19 +0000
Subject: [PATCH 10/19] fix: do not take comment markers at the start of a
 quoted text for comments

---
 src/dbml.pest | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dbml.pest b/src/dbml.pest
index 854e348..5678494 100644
--- a/src/dbml.pest
+++ b/src/dbml.pest
@@ -7,13 +7,13 @@ multi_line_comment = { "/*" ~ (!"*/" ~ ANY)* ~ "*/" }
 
 // literals
 double_quoted_value = @{ (!"\"" ~ ANY)* }
-double_quoted_string = { "\"" ~ double_quoted_value ~ "\"" }
+double_quoted_string = ${ "\"" ~ WHITESPACE* ~ double_quoted_value ~ "\"" }
 single_quoted_value = @{ (!"'" ~ ANY)* }
-single_quoted_string = { "'" ~ single_quoted_value ~ "'"}
+single_quoted_string = ${ "'" ~ WHITESPACE* ~ single_quoted_value ~ "'" }
 backquoted_quoted_value = @{ (!"`" ~ ANY)* }
-backquoted_quoted_string = { "`" ~ backquoted_quoted_value ~ "`" }
+backquoted_quoted_string = ${ "`" ~ WHITESPACE* ~ backquoted_quoted_value ~ "`" }
 triple_quoted_value = @{ (!"'''" ~ ANY)* }
-triple_quoted_string = { "'''" ~ triple_quoted_value ~ "'''" }
+triple_quoted_string = ${ "'''" ~ WHITESPACE* ~ triple_quoted_value ~ "'''" }
 
 var = @{ ASCII_ALPHA ~ (ASCII_ALPHANUMERIC | "_")* }
 spaced_var = @{ ASCII_ALPHA ~ (" "? ~ (ASCII_ALPHANUMERIC | "_"))* }
-- 
2.43.0


From 66f0a322453c408f1123668651d9a4bba80b8c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:56 +0000
Subject: [PATCH 11/19] fix: resolve tables in the default schema alike by bare
 name, qualified name and alias

---
 src/analyzer/indexer.rs | 21 ++++++++++++++++++---
 src/utils/mod.rs        |  4 +++-
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/analyzer/indexer.rs b/src/analyzer/indexer.rs
index 401243b..332d852 100644
--- a/src/analyzer/indexer.rs
+++ b/src/analyzer/indexer.rs
@@ -281,7 +281,7 @@ impl Indexer {
     self.table_alias_map.get(table_alias)
   }
 
-  /// Gets a new ref block if it is pointing to an alias.
+  /// Gets a new ref block qualified with its schema, and with the table name if it is pointing to an alias.
   pub fn resolve_ref_alias(&self, ident: &RefIdent) -> RefIdent {
     match self.resolve_alias(&ident.table.to_string) {
       Some((schema, table)) => {
@@ -300,11 +300,25 @@ impl Indexer {
           compositions: ident.compositions.clone(),
         }
       }
-      None => ident.clone(),
+      None => {
+        RefIdent {
+          schema: ident.schema.clone().or_else(|| Some(default_schema(&ident.span_range))),
+          ..ident.clone()
+        }
+      }
     }
   }
 }
 
+/// The default schema as written nowhere in the input, located at the given span.
+fn default_schema(span_range: &SpanRange) -> Ident {
+  Ident {
+    span_range: span_range.clone(),
+    raw: DEFAULT_SCHEMA.to_string(),
+    to_string: DEFAULT_SCHEMA.to_string(),
+  }
+}
+
 /// A normalized reference block.
 #[derive(Debug, Clone, Default)]
 pub struct IndexedRef {
@@ -357,7 +371,8 @@ impl IndexedRef {
       tables
         .iter()
         .find(|table| {
-          table.ident.schema.as_ref().map(|s| &s.to_string) == ref_ident.schema.as_ref().map(|s| &s.to_string)
+          Some(table.ident.schema.as_ref().map_or(DEFAULT_SCHEMA, |s| s.to_string.as_str()))
+            == ref_ident.schema.as_ref().map(|s| s.to_string.as_str())
             && table.ident.name.to_string == ref_ident.table.to_string
         })
         .map(Ok)
diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index 250fee3..aeb16a2 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -1,5 +1,6 @@
 use crate::analyzer::*;
 use crate::ast::*;
+use crate::DEFAULT_SCHEMA;
 
 /// Gets all relations associated with a table, including references to other tables, references from other tables, and self-references.
 ///
@@ -35,7 +36,8 @@ pub fn get_table_refs(table_ident: &TableIdent, analyzed_indexer: &AnalyzedIndex
   let mut ref_self_blocks = vec![];
 
   let eq = |table_ident: &TableIdent, ref_ident: &RefIdent| {
-    table_ident.schema.clone().map(|s| s.to_string) == ref_ident.schema.clone().map(|s| s.to_string)
+    Some(table_ident.schema.as_ref().map_or(DEFAULT_SCHEMA, |s| s.to_string.as_str()))
+      == ref_ident.schema.as_ref().map(|s| s.to_string.as_str())
       && table_ident.name.to_string == ref_ident.table.to_string
   };
 
-- 
2.43.0


From 7a7546c3ba55fd96ca146ed03a64020e2f153cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:56 +0000
Subject: [PATCH 12/19] fix: do not take a table name qualified with a schema
 for an alias

---
 src/analyzer/indexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/analyzer/indexer.rs b/src/analyzer/indexer.rs
index 332d852..4e73bfd 100644
--- a/src/analyzer/indexer.rs
+++ b/src/analyzer/indexer.rs
@@ -283,7 +283,7 @@ impl Indexer {
 
   /// Gets a new ref block qualified with its schema, and with the table name if it is pointing to an alias.
   pub fn resolve_ref_alias(&self, ident: &RefIdent) -> RefIdent {
-    match self.resolve_alias(&ident.table.to_string) {
+    match self.resolve_alias(&ident.table.to_string).filter(|_| ident.schema.is_none()) {
       Some((schema, table)) => {
         RefIdent {
           span_range: ident.span_range.clone(),
-- 
2.43.0


From 363c81ce4c41061dcf67bb71eb3bfa9879642967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:56 +0000
Subject: [PATCH 13/19] fix: attribute an inline relation to its own table even
 if another table has its name as alias

---
 src/analyzer/indexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/analyzer/indexer.rs b/src/analyzer/indexer.rs
index 4e73bfd..91018e9 100644
--- a/src/analyzer/indexer.rs
+++ b/src/analyzer/indexer.rs
@@ -339,7 +339,7 @@ impl IndexedRef {
 
         let lhs = RefIdent {
           span_range: span_range.clone(),
-          schema: table_ident.schema.clone(),
+          schema: table_ident.schema.clone().or_else(|| Some(default_schema(&span_range))),
           table: table_ident.name.clone(),
           compositions: vec![col_name.clone()],
         };
-- 
2.43.0


From 6f6fde8122241c0238244715afdc4bf59abba00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:56 +0000
Subject: [PATCH 14/19] fix: tell indexes over different expressions apart when
 looking for duplicates

---
 src/analyzer/mod.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/analyzer/mod.rs b/src/analyzer/mod.rs
index ee809ff..adf7584 100644
--- a/src/analyzer/mod.rs
+++ b/src/analyzer/mod.rs
@@ -150,18 +150,16 @@ pub fn analyze(schema_block: &SchemaBlock) -> AnalyzerResult<AnalyzedIndexer> {
           throw_err(Err::EmptyIndexesBlock, &indexes_block.span_range, input)?;
         }
 
-        let idents: Vec<_> = def
+        let ident_strings: Vec<_> = def
           .cols
           .iter()
-          .filter_map(|id| {
+          .map(|id| {
             match id {
-              IndexesColumnType::String(s) => Some(s),
-              _ => None,
+              IndexesColumnType::String(s) => s.to_string.clone(),
+              IndexesColumnType::Expr(expr) => expr.raw.clone(),
             }
           })
-          .cloned()
           .collect();
-        let ident_strings: Vec<_> = idents.iter().map(|s| s.to_string.clone()).collect();
 
         for ident in &def.cols {
           if let IndexesColumnType::String(col_name) = ident {
@@ -194,7 +192,7 @@ pub fn analyze(schema_block: &SchemaBlock) -> AnalyzerResult<AnalyzedIndexer> {
               if tmp_table_indexer
                 .unique_list
                 .iter()
-                .any(|uniq_item| idents.iter().all(|id| uniq_item.contains(&id.to_string)))
+                .any(|uniq_item| ident_strings.iter().all(|id| uniq_item.contains(id)))
               {
                 throw_err(Err::DuplicateUniqueKey, &def.span_range, input)?;
               }
-- 
2.43.0


From 47a0f379ccc2d3ce36eba0eb39a66cdb1412c19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:56 +0000
Subject: [PATCH 15/19] fix: take a single column made a key in the indexes
 block for a key of a relation

---
 src/analyzer/indexer.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/analyzer/indexer.rs b/src/analyzer/indexer.rs
index 91018e9..f353849 100644
--- a/src/analyzer/indexer.rs
+++ b/src/analyzer/indexer.rs
@@ -432,8 +432,10 @@ impl IndexedRef {
       if composition_len == 1 {
         let err = match (
           &self.rel,
-          l_col.settings.as_ref().is_some_and(|s| s.is_pk || s.is_unique),
-          r_col.settings.as_ref().is_some_and(|s| s.is_pk || s.is_unique),
+          l_col.settings.as_ref().is_some_and(|s| s.is_pk || s.is_unique)
+            || is_valid_composite(&lhs_ident.compositions, &lhs_table.indexes),
+          r_col.settings.as_ref().is_some_and(|s| s.is_pk || s.is_unique)
+            || is_valid_composite(&rhs_ident.compositions, &rhs_table.indexes),
         ) {
           (Relation::One2One, false, false) => Some((InvalidForeignKeyErr::One2One, &self.span_range)),
           (Relation::Many2Many, false, _) | (Relation::Many2Many, _, false) => Some((InvalidForeignKeyErr::Many2Many, &self.span_range)),
-- 
2.43.0


From b4631db7737c4cae164ffe68f6fe734433c204e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:56 +0000
Subject: [PATCH 16/19] fix: tell enums of different schemas apart when
 comparing the types of a relation

---
 src/analyzer/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/analyzer/mod.rs b/src/analyzer/mod.rs
index adf7584..d75a8e6 100644
--- a/src/analyzer/mod.rs
+++ b/src/analyzer/mod.rs
@@ -290,6 +290,8 @@ pub fn analyze(schema_block: &SchemaBlock) -> AnalyzerResult<AnalyzedIndexer> {
                     _ => throw_err(Err::InvalidEnum, &col.r#type.span_range, input)?,
                   };
 
+                  let qualified_name = format!("{}.{}", enum_schema.as_deref().unwrap_or(DEFAULT_SCHEMA), enum_name);
+
                   match &col.settings {
                     Some(ColumnSettings { attributes, default: Some(default_value), .. })
                     if !matches!(default_value, Value::Null | Value::Expr(_)) => {
@@ -304,11 +306,11 @@ pub fn analyze(schema_block: &SchemaBlock) -> AnalyzerResult<AnalyzedIndexer> {
                         (false, (_, _)) => throw_err(Err::SchemaNotFound, &col.r#type.span_range, input)?,
                         (true, (false, _)) => throw_err(Err::EnumNotFound, &col.r#type.span_range, input)?,
                         (true, (true, f)) if f.iter().any(|f| f == &false) => throw_err(Err::EnumValueNotFound, &default_value_span, input)?,
-                        _ => ColumnTypeName::Enum(enum_name)
+                        _ => ColumnTypeName::Enum(qualified_name)
                       }
                     }
                     _ => {
-                      ColumnTypeName::Enum(enum_name)
+                      ColumnTypeName::Enum(qualified_name)
                     }
                   }
                 }
-- 
2.43.0


From dd8f08ed69604a106f5cb98c452d7eee00f8f2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:18 +0000
Subject: [PATCH 17/19] Verification hook (cfg dbml_verif): relation query on
 an analyzed tree

---
 src/lib.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index aa5fb07..a8c4573 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -61,3 +61,12 @@ pub fn parse_dbml(input: &str) -> Result<SchemaBlock, ParseError<parser::Rule>>
 
   analyze(&ast).map(|_| ast)
 }
+
+/// Verification hook: runs the semantic analysis and the relation query for a table on its result.
+#[cfg(dbml_verif)]
+pub fn verif_table_refs(
+  ast: &SchemaBlock,
+  table: &ast::TableIdent,
+) -> Result<analyzer::TableRef, pest::error::Error<parser::Rule>> {
+  analyzer::analyze(ast).map(|indexer| utils::get_table_refs(table, &indexer))
+}
-- 
2.43.0


From cc3805929498eed8b69160d7e0ad870f859fee7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:53 +0000
Subject: [PATCH 18/19] fix: relationships that differ in one side do not
 conflict

---
 src/analyzer/indexer.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/analyzer/indexer.rs b/src/analyzer/indexer.rs
index f353849..649b410 100644
--- a/src/analyzer/indexer.rs
+++ b/src/analyzer/indexer.rs
@@ -505,14 +505,15 @@ impl IndexedRef {
 
     match (&self.rel, &other.rel) {
       (Relation::Many2Many, Relation::Many2Many) | (Relation::One2One, Relation::One2One) => {
-        [&self.lhs, &self.rhs].iter().all(|self_side| {
-          [&other.lhs, &other.rhs].iter().any(|other_side| {
-            let self_ident = indexer.resolve_ref_alias(self_side);
-            let other_ident = indexer.resolve_ref_alias(other_side);
+        let eq_sides = |self_side: &RefIdent, other_side: &RefIdent| -> bool {
+          let self_ident = indexer.resolve_ref_alias(self_side);
+          let other_ident = indexer.resolve_ref_alias(other_side);
 
-            eq_ident(&self_ident, &other_ident)
-          })
-        })
+          eq_ident(&self_ident, &other_ident)
+        };
+
+        (eq_sides(&self.lhs, &other.lhs) && eq_sides(&self.rhs, &other.rhs))
+          || (eq_sides(&self.lhs, &other.rhs) && eq_sides(&self.rhs, &other.lhs))
       }
       _ => {
         // TODO: add support for one-to-one relation validation
-- 
2.43.0


From 27e415153c51ca393769f89e16bdfe84f468abe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:12 +0000
Subject: [PATCH 19/19] fix: an enum type may be in a schema whose name has a
 dot

---
 src/analyzer/mod.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/analyzer/mod.rs b/src/analyzer/mod.rs
index d75a8e6..5466ce0 100644
--- a/src/analyzer/mod.rs
+++ b/src/analyzer/mod.rs
@@ -282,12 +282,10 @@ pub fn analyze(schema_block: &SchemaBlock) -> AnalyzerResult<AnalyzedIndexer> {
                   type_name
                 }
                 Err(_) => {
-                  let splited: Vec<_> = raw_type.split('.').collect();
-
-                  let (enum_schema, enum_name) = match splited.len() {
-                    1 => (None, raw_type),
-                    2 => (Some(splited[0].to_string()), splited[1].to_string()),
-                    _ => throw_err(Err::InvalidEnum, &col.r#type.span_range, input)?,
+                  // only the schema may contain a dot
+                  let (enum_schema, enum_name) = match raw_type.rsplit_once('.') {
+                    Some((schema, name)) => (Some(schema.to_string()), name.to_string()),
+                    None => (None, raw_type),
                   };
 
                   let qualified_name = format!("{}.{}", enum_schema.as_deref().unwrap_or(DEFAULT_SCHEMA), enum_name);
-- 
2.43.0

