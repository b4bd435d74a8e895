From e2062f928db02d8a2481f54be0115bd126bb6488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:12 +0000
Subject: [PATCH 01/19] fix: do not panic on a string default of a character or
 bit type without length

---
 src/analyzer/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/analyzer/mod.rs b/src/analyzer/mod.rs
index 95018ec..b57ec58 100644
--- a/src/analyzer/mod.rs
+++ b/src/analyzer/mod.rs
@@ -339,12 +339,12 @@ pub fn analyze(schema_block: &SchemaBlock) -> AnalyzerResult<AnalyzedIndexer> {
                 match type_name {
                   ColumnTypeName::Bit
                   | ColumnTypeName::Char
-                  if matches!(col.r#type.args[0], Value::Integer(len) if val.len() as i64 != len) => {
+                  if matches!(col.r#type.args.first(), Some(Value::Integer(len)) if val.len() as i64 != *len) => {
                     throw_err(err.clone(), &span_range, input)?;
                   }
                   ColumnTypeName::Varbit
                   | ColumnTypeName::VarChar
-                  if matches!(col.r#type.args[0], Value::Integer(cap) if val.len() as i64 > cap) => {
+                  if matches!(col.r#type.args.first(), Some(Value::Integer(cap)) if val.len() as i64 > *cap) => {
                     throw_err(err.clone(), &span_range, input)?;
                   }
                   _ => ()
-- 
2.43.0


From 589863967b1be6646f7e505c4b7969f88531e3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:12 +0000
Subject: [PATCH 02/19] fix: accept the extreme bigint values as a default

---
 src/analyzer/mod.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/analyzer/mod.rs b/src/analyzer/mod.rs
index b57ec58..a79d7aa 100644
--- a/src/analyzer/mod.rs
+++ b/src/analyzer/mod.rs
@@ -364,10 +364,6 @@ pub fn analyze(schema_block: &SchemaBlock) -> AnalyzerResult<AnalyzedIndexer> {
                   if (*val > i32::MAX as i64) || (*val < i32::MIN as i64) => {
                     throw_err(err.clone(), &span_range, input)?;
                   }
-                  ColumnTypeName::BigInt
-                  if val.overflowing_add(1).1 || val.overflowing_sub(1).1 => {
-                    throw_err(err.clone(), &span_range, input)?;
-                  }
                   _ => ()
                 };
               },
-- 
2.43.0


From 60e9574ef98e8906652f3a5460b0b383aff1f198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:12 +0000
Subject: [PATCH 03/19] fix: measure a string default in characters, not bytes

---
 src/analyzer/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/analyzer/mod.rs b/src/analyzer/mod.rs
index a79d7aa..b923930 100644
--- a/src/analyzer/mod.rs
+++ b/src/analyzer/mod.rs
@@ -339,12 +339,12 @@ pub fn analyze(schema_block: &SchemaBlock) -> AnalyzerResult<AnalyzedIndexer> {
                 match type_name {
                   ColumnTypeName::Bit
                   | ColumnTypeName::Char
-                  if matches!(col.r#type.args.first(), Some(Value::Integer(len)) if val.len() as i64 != *len) => {
+                  if matches!(col.r#type.args.first(), Some(Value::Integer(len)) if val.chars().count() as i64 != *len) => {
                     throw_err(err.clone(), &span_range, input)?;
                   }
                   ColumnTypeName::Varbit
                   | ColumnTypeName::VarChar
-                  if matches!(col.r#type.args.first(), Some(Value::Integer(cap)) if val.len() as i64 > *cap) => {
+                  if matches!(col.r#type.args.first(), Some(Value::Integer(cap)) if val.chars().count() as i64 > *cap) => {
                     throw_err(err.clone(), &span_range, input)?;
                   }
                   _ => ()
-- 
2.43.0


From f26d6dcc567e82be6fb246a6d2521f2e382f2a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:32 +0000
Subject: [PATCH 04/19] fix: treat an omitted schema as the default one when
 resolving refs

---
 src/analyzer/helper.rs  | 5 +++++
 src/analyzer/indexer.rs | 4 ++--
 src/analyzer/mod.rs     | 1 +
 src/utils/mod.rs        | 2 +-
 4 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/analyzer/helper.rs b/src/analyzer/helper.rs
index 663fa15..97b974b 100644
--- a/src/analyzer/helper.rs
+++ b/src/analyzer/helper.rs
@@ -37,3 +37,8 @@ pub(super) fn check_prop_duplicate_keys(attrs: &Vec<Property>, input: &str) -> A
 pub(super) fn eq_elements<T: Eq + Ord>(lhs: impl Iterator<Item = T>, rhs: impl Iterator<Item = T>) -> bool {
   BTreeSet::from_iter(lhs) == BTreeSet::from_iter(rhs)
 }
+
+/// Gets the schema name, or the default one if it is not specified.
+pub fn schema_name(schema: &Option<Ident>) -> &str {
+  schema.as_ref().map_or(DEFAULT_SCHEMA, |s| s.to_string.as_str())
+}
diff --git a/src/analyzer/indexer.rs b/src/analyzer/indexer.rs
index 2ea2b2d..8e7a35d 100644
--- a/src/analyzer/indexer.rs
+++ b/src/analyzer/indexer.rs
@@ -347,7 +347,7 @@ impl IndexedRef {
       tables
         .iter()
         .find(|table| {
-          table.ident.schema.as_ref().map(|s| &s.to_string) == ref_ident.schema.as_ref().map(|s| &s.to_string)
+          schema_name(&table.ident.schema) == schema_name(&ref_ident.schema)
             && table.ident.name.to_string == ref_ident.table.to_string
         })
         .map(Ok)
@@ -468,7 +468,7 @@ impl IndexedRef {
   /// Should use after calling `validate_ref_type`.
   pub fn occupy_same_column(&self, other: &Self, indexer: &Indexer) -> bool {
     let eq_ident = |lhs: &RefIdent, rhs: &RefIdent| -> bool {
-      lhs.schema.as_ref().map(|s| &s.to_string) == rhs.schema.as_ref().map(|s| &s.to_string)
+      schema_name(&lhs.schema) == schema_name(&rhs.schema)
         && lhs.table.to_string == rhs.table.to_string
         && eq_elements(
           lhs.compositions.iter().map(|s| &s.to_string),
diff --git a/src/analyzer/mod.rs b/src/analyzer/mod.rs
index b923930..083d358 100644
--- a/src/analyzer/mod.rs
+++ b/src/analyzer/mod.rs
@@ -11,6 +11,7 @@ mod err;
 mod helper;
 mod indexer;
 
+pub(crate) use helper::schema_name;
 use helper::*;
 use indexer::*;
 
diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index 250fee3..7e9266a 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -35,7 +35,7 @@ pub fn get_table_refs(table_ident: &TableIdent, analyzed_indexer: &AnalyzedIndex
   let mut ref_self_blocks = vec![];
 
   let eq = |table_ident: &TableIdent, ref_ident: &RefIdent| {
-    table_ident.schema.clone().map(|s| s.to_string) == ref_ident.schema.clone().map(|s| s.to_string)
+    schema_name(&table_ident.schema) == schema_name(&ref_ident.schema)
       && table_ident.name.to_string == ref_ident.table.to_string
   };
 
-- 
2.43.0


From 11e96da049284ce71e70c75c37d5b20b9732998e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:32 +0000
Subject: [PATCH 05/19] fix: reject a table group item naming a missing table
 of an explicit schema

---
 src/analyzer/indexer.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/analyzer/indexer.rs b/src/analyzer/indexer.rs
index 8e7a35d..f4e1bc3 100644
--- a/src/analyzer/indexer.rs
+++ b/src/analyzer/indexer.rs
@@ -153,7 +153,13 @@ impl Indexer {
       let mut indexed_items = BTreeSet::new();
       for group_item in &table_group.items {
         let ident = match &group_item.schema {
-          Some(item_schema) => (item_schema.to_string.clone(), group_item.ident_alias.to_string.clone()),
+          Some(item_schema) => {
+            if !self.contains_table(&item_schema.to_string, &group_item.ident_alias.to_string) {
+              throw_err(Err::TableNotFound, &group_item.span_range, input)?;
+            }
+
+            (item_schema.to_string.clone(), group_item.ident_alias.to_string.clone())
+          }
           None => {
             match self.resolve_alias(&group_item.ident_alias.to_string) {
               Some(ident) => ident.clone(),
-- 
2.43.0


From ac323944b10e526b5edf12948847645d6921e4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:33 +0000
Subject: [PATCH 06/19] fix: reject duplicate attribute keys in table group
 settings

---
 src/analyzer/indexer.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/analyzer/indexer.rs b/src/analyzer/indexer.rs
index f4e1bc3..485cf7f 100644
--- a/src/analyzer/indexer.rs
+++ b/src/analyzer/indexer.rs
@@ -150,6 +150,10 @@ impl Indexer {
         throw_err(Err::DuplicateTableGroupName, &table_group.ident.span_range, input)?;
       }
 
+      if let Some(settings) = &table_group.settings {
+        check_attr_duplicate_keys(&settings.attributes, input)?;
+      }
+
       let mut indexed_items = BTreeSet::new();
       for group_item in &table_group.items {
         let ident = match &group_item.schema {
-- 
2.43.0


From e93d4861603ee6b5a9b4b5be793774adc62d1a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:38 +0000
Subject: [PATCH 07/19] fix: require both sides of a many-to-many ref to be
 keyed

---
 src/analyzer/indexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/analyzer/indexer.rs b/src/analyzer/indexer.rs
index 485cf7f..f823ea7 100644
--- a/src/analyzer/indexer.rs
+++ b/src/analyzer/indexer.rs
@@ -421,7 +421,7 @@ impl IndexedRef {
           r_col.settings.as_ref().is_some_and(|s| s.is_pk || s.is_unique),
         ) {
           (Relation::One2One, false, false) => Some((InvalidForeignKeyErr::One2One, &self.span_range)),
-          (Relation::Many2Many, false, false) => Some((InvalidForeignKeyErr::Many2Many, &self.span_range)),
+          (Relation::Many2Many, false, _) | (Relation::Many2Many, _, false) => Some((InvalidForeignKeyErr::Many2Many, &self.span_range)),
           (Relation::One2Many, false, _) => {
             Some((InvalidForeignKeyErr::NitherUniqueKeyNorPrimaryKey, &self.lhs.span_range))
           }
-- 
2.43.0


From 5b14c4024209e3964aae1d1b56d23f113d78a381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:46 +0000
Subject: [PATCH 08/19] fix: keep comment markers right after an opening quote
 as text

---
 src/dbml.pest | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dbml.pest b/src/dbml.pest
index bd013ed..334c688 100644
--- a/src/dbml.pest
+++ b/src/dbml.pest
@@ -7,13 +7,13 @@ multi_line_comment = { "/*" ~ (!"*/" ~ ANY)* ~ "*/" }
 
 // literals
 double_quoted_value = @{ (!"\"" ~ ANY)* }
-double_quoted_string = { "\"" ~ double_quoted_value ~ "\"" }
+double_quoted_string = ${ "\"" ~ WHITESPACE* ~ double_quoted_value ~ "\"" }
 single_quoted_value = @{ (!"'" ~ ANY)* }
-single_quoted_string = { "'" ~ single_quoted_value ~ "'"}
+single_quoted_string = ${ "'" ~ WHITESPACE* ~ single_quoted_value ~ "'"}
 backquoted_quoted_value = @{ (!"`" ~ ANY)* }
-backquoted_quoted_string = { "`" ~ backquoted_quoted_value ~ "`" }
+backquoted_quoted_string = ${ "`" ~ WHITESPACE* ~ backquoted_quoted_value ~ "`" }
 triple_quoted_value = @{ (!"'''" ~ ANY)* }
-triple_quoted_string = { "'''" ~ triple_quoted_value ~ "'''" }
+triple_quoted_string = ${ "'''" ~ WHITESPACE* ~ triple_quoted_value ~ "'''" }
 
 var = @{ ASCII_ALPHA ~ (ASCII_ALPHANUMERIC | "_")* }
 spaced_var = @{ ASCII_ALPHA ~ (" "? ~ (ASCII_ALPHANUMERIC | "_"))* }
-- 
2.43.0


From 9157ee490093103c8de34c8652e7e5a48998c5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:48 +0000
Subject: [PATCH 09/19] fix: do not read the prefix of a word as a boolean
 value

---
 src/dbml.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dbml.pest b/src/dbml.pest
index 334c688..e455c4a 100644
--- a/src/dbml.pest
+++ b/src/dbml.pest
@@ -30,7 +30,7 @@ string_value = { triple_quoted_string | single_quoted_string }
 integer = @{ ASCII_DIGIT+ }
 decimal = @{ ASCII_DIGIT+ ~ "." ~ ASCII_DIGIT* }
 number_value = { decimal | integer }
-boolean_value = @{ "true" | "false" | "null" }
+boolean_value = @{ ("true" | "false" | "null") ~ !(ASCII_ALPHANUMERIC | "_") }
 hex_value = @{ "#" ~ (ASCII_HEX_DIGIT{3}){1,2} }
 value = { string_value | backquoted_quoted_string | boolean_value | number_value | hex_value }
 
-- 
2.43.0


From aab0c89606be771479754e1d505efb5be94c3e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:50 +0000
Subject: [PATCH 10/19] fix: do not resolve a schema-qualified ref endpoint as
 an alias

---
 src/analyzer/indexer.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/analyzer/indexer.rs b/src/analyzer/indexer.rs
index f823ea7..1001003 100644
--- a/src/analyzer/indexer.rs
+++ b/src/analyzer/indexer.rs
@@ -283,6 +283,11 @@ impl Indexer {
 
   /// Gets a new ref block if it is pointing to an alias.
   pub fn resolve_ref_alias(&self, ident: &RefIdent) -> RefIdent {
+    // an alias stands for a whole table identifier
+    if ident.schema.is_some() {
+      return ident.clone();
+    }
+
     match self.resolve_alias(&ident.table.to_string) {
       Some((schema, table)) => {
         RefIdent {
-- 
2.43.0


From 2b6fe17b49f9409d213b56062919a81e91691186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:18 +0000
Subject: [PATCH 11/19] fix: keep the left side of an inline ref at its own
 table

---
 src/analyzer/indexer.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/analyzer/indexer.rs b/src/analyzer/indexer.rs
index 1001003..c6030db 100644
--- a/src/analyzer/indexer.rs
+++ b/src/analyzer/indexer.rs
@@ -330,7 +330,14 @@ impl IndexedRef {
 
         let lhs = RefIdent {
           span_range: span_range.clone(),
-          schema: table_ident.schema.clone(),
+          // make it explicit so that the table is never taken for an alias of another one
+          schema: table_ident.schema.clone().or_else(|| {
+            Some(Ident {
+              span_range: table_ident.span_range.clone(),
+              raw: DEFAULT_SCHEMA.to_string(),
+              to_string: DEFAULT_SCHEMA.to_string(),
+            })
+          }),
           table: table_ident.name.clone(),
           compositions: vec![col_name.clone()],
         };
-- 
2.43.0


From e6640b03f62def54562a791a0cd6768aea35e764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:20 +0000
Subject: [PATCH 12/19] fix: do not take an index over an expression for the
 key of a composite ref

---
 src/analyzer/indexer.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/analyzer/indexer.rs b/src/analyzer/indexer.rs
index c6030db..aff507c 100644
--- a/src/analyzer/indexer.rs
+++ b/src/analyzer/indexer.rs
@@ -390,6 +390,10 @@ impl IndexedRef {
           indexes.defs.iter().any(|def_item| {
             compositions.len() == def_item.cols.len()
               && def_item.settings.as_ref().is_some_and(|s| s.is_pk || s.is_unique)
+              && def_item
+                .cols
+                .iter()
+                .all(|s| matches!(s, IndexesColumnType::String(_)))
               && eq_elements(
                 compositions.iter().map(|s| &s.to_string),
                 def_item.cols.iter().filter_map(|s| {
-- 
2.43.0


From 3e72c823d9794829d7e85f4fa37918cbdf4ede6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:22 +0000
Subject: [PATCH 13/19] fix: accept a single-column key declared in the indexes
 block as a ref target

---
 src/analyzer/indexer.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/analyzer/indexer.rs b/src/analyzer/indexer.rs
index aff507c..b36b6c8 100644
--- a/src/analyzer/indexer.rs
+++ b/src/analyzer/indexer.rs
@@ -431,11 +431,12 @@ impl IndexedRef {
       }
 
       if composition_len == 1 {
-        let err = match (
-          &self.rel,
-          l_col.settings.as_ref().is_some_and(|s| s.is_pk || s.is_unique),
-          r_col.settings.as_ref().is_some_and(|s| s.is_pk || s.is_unique),
-        ) {
+        let is_l_key = l_col.settings.as_ref().is_some_and(|s| s.is_pk || s.is_unique)
+          || is_valid_composite(&lhs_ident.compositions, &lhs_table.indexes);
+        let is_r_key = r_col.settings.as_ref().is_some_and(|s| s.is_pk || s.is_unique)
+          || is_valid_composite(&rhs_ident.compositions, &rhs_table.indexes);
+
+        let err = match (&self.rel, is_l_key, is_r_key) {
           (Relation::One2One, false, false) => Some((InvalidForeignKeyErr::One2One, &self.span_range)),
           (Relation::Many2Many, false, _) | (Relation::Many2Many, _, false) => Some((InvalidForeignKeyErr::Many2Many, &self.span_range)),
           (Relation::One2Many, false, _) => {
-- 
2.43.0


From b28a6e8105adbf7a712a9f4a87390001abdd8a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:24 +0000
Subject: [PATCH 14/19] fix: name the type of the left column in a foreign key
 type mismatch

---
 src/analyzer/indexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/analyzer/indexer.rs b/src/analyzer/indexer.rs
index b36b6c8..8a792ee 100644
--- a/src/analyzer/indexer.rs
+++ b/src/analyzer/indexer.rs
@@ -424,7 +424,7 @@ impl IndexedRef {
           r_ident: r.to_string.clone(),
           l_ident: l.to_string.clone(),
           r_type: r_type.raw.clone(),
-          l_type: l.raw.clone(),
+          l_type: l_type.raw.clone(),
         };
 
         throw_err(err, &self.span_range, input)?;
-- 
2.43.0


From 491595a78b0a7c303844c4b783c9b0a285b81c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:26 +0000
Subject: [PATCH 15/19] fix: point a missing default schema error at the table
 that needs it

---
 src/analyzer/indexer.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/analyzer/indexer.rs b/src/analyzer/indexer.rs
index 8a792ee..6770a66 100644
--- a/src/analyzer/indexer.rs
+++ b/src/analyzer/indexer.rs
@@ -247,7 +247,10 @@ impl Indexer {
     fields: &Vec<Ident>,
     input: &str,
   ) -> AnalyzerResult<()> {
-    let schema_span = schema.clone().map(|s| s.span_range).unwrap_or_default();
+    let schema_span = schema
+      .clone()
+      .map(|s| s.span_range)
+      .unwrap_or_else(|| table.span_range.clone());
     let schema = schema
       .clone()
       .map(|s| s.to_string)
-- 
2.43.0


From 9984cf458620390932397c5cba4056837eefcb5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:04 +0000
Subject: [PATCH 16/19] fix: count expressions in the keys of an indexes block

---
 src/analyzer/mod.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/analyzer/mod.rs b/src/analyzer/mod.rs
index 083d358..c778a2b 100644
--- a/src/analyzer/mod.rs
+++ b/src/analyzer/mod.rs
@@ -151,18 +151,16 @@ pub fn analyze(schema_block: &SchemaBlock) -> AnalyzerResult<AnalyzedIndexer> {
           throw_err(Err::EmptyIndexesBlock, &indexes_block.span_range, input)?;
         }
 
-        let idents: Vec<_> = def
+        let ident_strings: Vec<_> = def
           .cols
           .iter()
-          .filter_map(|id| {
+          .map(|id| {
             match id {
-              IndexesColumnType::String(s) => Some(s),
-              _ => None,
+              IndexesColumnType::String(s) => s.to_string.clone(),
+              IndexesColumnType::Expr(e) => e.raw.clone(),
             }
           })
-          .cloned()
           .collect();
-        let ident_strings: Vec<_> = idents.iter().map(|s| s.to_string.clone()).collect();
 
         for ident in &def.cols {
           if let IndexesColumnType::String(col_name) = ident {
@@ -195,7 +193,7 @@ pub fn analyze(schema_block: &SchemaBlock) -> AnalyzerResult<AnalyzedIndexer> {
               if tmp_table_indexer
                 .unique_list
                 .iter()
-                .any(|uniq_item| idents.iter().all(|id| uniq_item.contains(&id.to_string)))
+                .any(|uniq_item| ident_strings.iter().all(|id| uniq_item.contains(id)))
               {
                 throw_err(Err::DuplicateUniqueKey, &def.span_range, input)?;
               }
-- 
2.43.0


From ad411b464b1727cbf0bbfa19868e1ee55f520f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:06 +0000
Subject: [PATCH 17/19] fix: report a duplicate unique key only for the same
 set of columns

---
 src/analyzer/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/analyzer/mod.rs b/src/analyzer/mod.rs
index c778a2b..421305f 100644
--- a/src/analyzer/mod.rs
+++ b/src/analyzer/mod.rs
@@ -193,7 +193,7 @@ pub fn analyze(schema_block: &SchemaBlock) -> AnalyzerResult<AnalyzedIndexer> {
               if tmp_table_indexer
                 .unique_list
                 .iter()
-                .any(|uniq_item| ident_strings.iter().all(|id| uniq_item.contains(id)))
+                .any(|uniq_item| eq_elements(uniq_item.iter(), ident_strings.iter()))
               {
                 throw_err(Err::DuplicateUniqueKey, &def.span_range, input)?;
               }
-- 
2.43.0


From 4bbdfac6fc53910e663793d85c65e9bb88a54482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:25 +0000
Subject: [PATCH 18/19] fix: tell enum types of different schemas apart in refs

---
 src/analyzer/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/analyzer/mod.rs b/src/analyzer/mod.rs
index 421305f..691f7d9 100644
--- a/src/analyzer/mod.rs
+++ b/src/analyzer/mod.rs
@@ -290,6 +290,7 @@ pub fn analyze(schema_block: &SchemaBlock) -> AnalyzerResult<AnalyzedIndexer> {
                     2 => (Some(splited[0].to_string()), splited[1].to_string()),
                     _ => throw_err(Err::InvalidEnum, &col.r#type.span_range, input)?,
                   };
+                  let qualified_name = format!("{}.{}", enum_schema.as_deref().unwrap_or(DEFAULT_SCHEMA), enum_name);
 
                   match &col.settings {
                     Some(ColumnSettings { attributes, default: Some(default_value), .. }) => {
@@ -304,11 +305,11 @@ pub fn analyze(schema_block: &SchemaBlock) -> AnalyzerResult<AnalyzedIndexer> {
                         (false, (_, _)) => throw_err(Err::SchemaNotFound, &col.r#type.span_range, input)?,
                         (true, (false, _)) => throw_err(Err::EnumNotFound, &col.r#type.span_range, input)?,
                         (true, (true, f)) if f.iter().any(|f| f == &false) => throw_err(Err::EnumValueNotFound, &default_value_span, input)?,
-                        _ => ColumnTypeName::Enum(enum_name)
+                        _ => ColumnTypeName::Enum(qualified_name)
                       }
                     }
                     _ => {
-                      ColumnTypeName::Enum(enum_name)
+                      ColumnTypeName::Enum(qualified_name)
                     }
                   }
                 }
-- 
2.43.0


From 8ed3b20837cc3b2134cd8ef195fe8006f68e38ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:04 +0000
Subject: [PATCH 19/19] hook: expose the analyzer to the verification machinery
 under cfg(dbml_verif)

---
 src/lib.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index aa5fb07..64cfb4f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -61,3 +61,14 @@ pub fn parse_dbml(input: &str) -> Result<SchemaBlock, ParseError<parser::Rule>>
 
   analyze(&ast).map(|_| ast)
 }
+
+/// Internal items that the verification machinery drives directly.
+#[cfg(dbml_verif)]
+pub mod verif_hooks {
+  pub use crate::analyzer::{
+    analyze,
+    AnalyzedIndexer,
+    TableRef,
+  };
+  pub use crate::utils::get_table_refs;
+}
-- 
2.43.0

