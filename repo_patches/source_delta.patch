From 9ad80e4392b26f7239c9ec1d59e8dc22e5bd4f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:46 +0000
Subject: [PATCH 01/36] fix: ADD COLUMN statement emits NOT NULL for not-null
 columns only

---
 src/snapshot/changes/column/add_column_change.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/snapshot/changes/column/add_column_change.rs b/src/snapshot/changes/column/add_column_change.rs
index bb62237..1fc3800 100644
--- a/src/snapshot/changes/column/add_column_change.rs
+++ b/src/snapshot/changes/column/add_column_change.rs
@@ -49,7 +49,7 @@ impl AddColumnChange {
             sql_qn(&self.column),
             self.data_type,
         )];
-        if !self.not_null {
+        if self.not_null {
             tokens.push("NOT NULL".to_string());
         }
         if let Some(default) = &self.default {
-- 
2.43.0


From 309ea58bfc2b881fc51ef0d4e59e1357f3015300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:46 +0000
Subject: [PATCH 02/36] fix: CREATE TABLE statement keeps the NOT NULL of its
 columns

---
 src/snapshot/changes/table/create_table_change.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/snapshot/changes/table/create_table_change.rs b/src/snapshot/changes/table/create_table_change.rs
index a16fcf7..014bbd2 100644
--- a/src/snapshot/changes/table/create_table_change.rs
+++ b/src/snapshot/changes/table/create_table_change.rs
@@ -68,8 +68,8 @@ impl CreateTableChange {
             sql_qa(&self.schema, &self.table),
             sql_l(self.columns.iter().map(|c| {
                 let mut tokens = vec![sql_qn(&c.name), c.data_type.clone()];
-                if !c.not_null {
-                    tokens.push("NULL".to_string());
+                if c.not_null {
+                    tokens.push("NOT NULL".to_string());
                 }
                 if let Some(default) = &c.default {
                     tokens.push(format!("DEFAULT {}", default));
-- 
2.43.0


From 0e7185a65862ed074aa8063da9825c7016c30160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:46 +0000
Subject: [PATCH 03/36] fix: ADD FOREIGN KEY statement spells out MATCH, ON
 UPDATE, ON DELETE and the deferrability

---
 .../changes/foreignkey/add_foreign_key_change.rs     | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/snapshot/changes/foreignkey/add_foreign_key_change.rs b/src/snapshot/changes/foreignkey/add_foreign_key_change.rs
index 940c8ac..db5f5ae 100644
--- a/src/snapshot/changes/foreignkey/add_foreign_key_change.rs
+++ b/src/snapshot/changes/foreignkey/add_foreign_key_change.rs
@@ -64,7 +64,7 @@ impl AddForeignKeyChange {
 
     pub fn render_sql(&self) -> String {
         format!(
-            "ALTER TABLE {} ADD CONSTRAINT {} FOREIGN KEY ({}) REFERENCES {} ({}) {} {} {}",
+            "ALTER TABLE {} ADD CONSTRAINT {} FOREIGN KEY ({}) REFERENCES {} ({}) MATCH {} ON UPDATE {} ON DELETE {} {} {}",
             sql_qa(&self.schema, &self.table),
             sql_qn(&self.constraint),
             sql_ql(&self.columns),
@@ -73,6 +73,16 @@ impl AddForeignKeyChange {
             self.match_option,
             self.update_rule,
             self.delete_rule,
+            if self.deferrable {
+                "DEFERRABLE"
+            } else {
+                "NOT DEFERRABLE"
+            },
+            if self.initially_deferred {
+                "INITIALLY DEFERRED"
+            } else {
+                "INITIALLY IMMEDIATE"
+            },
         ) + ";"
     }
 
-- 
2.43.0


From d98efe3658d7d7ddbb091383f94a3b8edb5d8e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:46 +0000
Subject: [PATCH 04/36] fix: double embedded quotes in quoted SQL identifiers

---
 src/util/sqlfmt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/sqlfmt.rs b/src/util/sqlfmt.rs
index eae728d..7173458 100644
--- a/src/util/sqlfmt.rs
+++ b/src/util/sqlfmt.rs
@@ -1,6 +1,6 @@
 // quoted name
 pub fn sql_qn(schema: &str) -> String {
-    format!("\"{}\"", schema)
+    format!("\"{}\"", schema.replace('"', "\"\""))
 }
 
 // quoted accessor
-- 
2.43.0


From 6a09f8532d5515cf7a7adb9a39c130e9d7de8c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:46 +0000
Subject: [PATCH 05/36] fix: quote the schema name in CREATE SCHEMA and DROP
 SCHEMA

---
 src/snapshot/changes/schema/create_schema_change.rs | 3 ++-
 src/snapshot/changes/schema/drop_schema_change.rs   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/snapshot/changes/schema/create_schema_change.rs b/src/snapshot/changes/schema/create_schema_change.rs
index 0d6a1dd..8d0b6ba 100644
--- a/src/snapshot/changes/schema/create_schema_change.rs
+++ b/src/snapshot/changes/schema/create_schema_change.rs
@@ -1,5 +1,6 @@
 use super::DropSchemaChange;
 use crate::snapshot::{changes::Change, Database, Schema, SnapshotError};
+use crate::util::sqlfmt::sql_qn;
 use serde::{Deserialize, Serialize};
 
 #[derive(Debug, Serialize, Deserialize, PartialEq)]
@@ -20,7 +21,7 @@ impl CreateSchemaChange {
     }
 
     pub fn render_sql(&self) -> String {
-        format!("CREATE SCHEMA {};", self.schema_name)
+        format!("CREATE SCHEMA {};", sql_qn(&self.schema_name))
     }
 
     pub fn revert(&self, source: &Database) -> Result<Change, SnapshotError> {
diff --git a/src/snapshot/changes/schema/drop_schema_change.rs b/src/snapshot/changes/schema/drop_schema_change.rs
index 5bc92e8..8650e99 100644
--- a/src/snapshot/changes/schema/drop_schema_change.rs
+++ b/src/snapshot/changes/schema/drop_schema_change.rs
@@ -1,5 +1,6 @@
 use super::CreateSchemaChange;
 use crate::snapshot::{changes::Change, Database, Schema, SnapshotError};
+use crate::util::sqlfmt::sql_qn;
 use serde::{Deserialize, Serialize};
 
 #[derive(Debug, Serialize, Deserialize, PartialEq)]
@@ -20,7 +21,7 @@ impl DropSchemaChange {
     }
 
     pub fn render_sql(&self) -> String {
-        format!("DROP SCHEMA {};", self.schema_name)
+        format!("DROP SCHEMA {};", sql_qn(&self.schema_name))
     }
 
     pub fn revert(&self, source: &Database) -> Result<Change, SnapshotError> {
-- 
2.43.0


From aaf6e85550a3d8a627d5e37c90e2406fb4810546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:46 +0000
Subject: [PATCH 06/36] fix: ALTER CONSTRAINT statements carry INITIALLY
 DEFERRED independently of DEFERRABLE

---
 src/snapshot/changes/check/alter_check_change.rs      | 11 ++++++++---
 .../changes/foreignkey/alter_foreign_key_change.rs    | 11 ++++++++---
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/snapshot/changes/check/alter_check_change.rs b/src/snapshot/changes/check/alter_check_change.rs
index a9b15c9..68586e3 100644
--- a/src/snapshot/changes/check/alter_check_change.rs
+++ b/src/snapshot/changes/check/alter_check_change.rs
@@ -36,13 +36,18 @@ impl AlterCheckChange {
 
     pub fn render_sql(&self) -> String {
         format!(
-            "ALTER TABLE {} ALTER CONSTRAINT {} {}",
+            "ALTER TABLE {} ALTER CONSTRAINT {} {} {};",
             sql_qa(&self.schema, &self.table),
             sql_qn(&self.constraint),
             if self.deferrable {
-                "DEFERRABLE INITIALLY DEFERRED"
+                "DEFERRABLE"
             } else {
-                "NOT DEFERRABLE INITIALLY IMMEDIATE"
+                "NOT DEFERRABLE"
+            },
+            if self.initially_deferred {
+                "INITIALLY DEFERRED"
+            } else {
+                "INITIALLY IMMEDIATE"
             },
         )
     }
diff --git a/src/snapshot/changes/foreignkey/alter_foreign_key_change.rs b/src/snapshot/changes/foreignkey/alter_foreign_key_change.rs
index 90f56e3..6a4757e 100644
--- a/src/snapshot/changes/foreignkey/alter_foreign_key_change.rs
+++ b/src/snapshot/changes/foreignkey/alter_foreign_key_change.rs
@@ -38,13 +38,18 @@ impl AlterForeignKeyChange {
 
     pub fn render_sql(&self) -> String {
         format!(
-            "ALTER TABLE {} ALTER CONSTRAINT {} {}",
+            "ALTER TABLE {} ALTER CONSTRAINT {} {} {};",
             sql_qa(&self.schema, &self.table),
             sql_qn(&self.constraint),
             if self.deferrable {
-                "DEFERRABLE INITIALLY DEFERRED"
+                "DEFERRABLE"
             } else {
-                "NOT DEFERRABLE INITIALLY IMMEDIATE"
+                "NOT DEFERRABLE"
+            },
+            if self.initially_deferred {
+                "INITIALLY DEFERRED"
+            } else {
+                "INITIALLY IMMEDIATE"
             },
         )
     }
-- 
2.43.0


From 067ad3f135b248f9aad7753d99b12d87ab49b4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:46 +0000
Subject: [PATCH 07/36] fix: terminate DROP FOREIGN KEY and VIEW statements
 with a semicolon

---
 src/snapshot/changes/foreignkey/drop_foreign_key_change.rs | 2 +-
 src/snapshot/changes/view/create_view_change.rs            | 2 +-
 src/snapshot/changes/view/drop_view_change.rs              | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/snapshot/changes/foreignkey/drop_foreign_key_change.rs b/src/snapshot/changes/foreignkey/drop_foreign_key_change.rs
index 4ac9549..d8d4c58 100644
--- a/src/snapshot/changes/foreignkey/drop_foreign_key_change.rs
+++ b/src/snapshot/changes/foreignkey/drop_foreign_key_change.rs
@@ -33,7 +33,7 @@ impl DropForeignKeyChange {
             "ALTER TABLE {} DROP CONSTRAINT {}",
             sql_qa(&self.schema, &self.table),
             sql_qn(&self.constraint),
-        )
+        ) + ";"
     }
 
     pub fn revert(&self, target: &Database) -> Result<Change, SnapshotError> {
diff --git a/src/snapshot/changes/view/create_view_change.rs b/src/snapshot/changes/view/create_view_change.rs
index ad10ae8..0b92995 100644
--- a/src/snapshot/changes/view/create_view_change.rs
+++ b/src/snapshot/changes/view/create_view_change.rs
@@ -34,7 +34,7 @@ impl CreateViewChange {
             "CREATE VIEW {} AS {}",
             crate::util::sqlfmt::sql_qa(&self.schema, &self.view),
             self.query
-        )
+        ) + ";"
     }
 
     pub fn revert(&self, source: &Database) -> Result<Change, SnapshotError> {
diff --git a/src/snapshot/changes/view/drop_view_change.rs b/src/snapshot/changes/view/drop_view_change.rs
index 0f7b76b..f3977c2 100644
--- a/src/snapshot/changes/view/drop_view_change.rs
+++ b/src/snapshot/changes/view/drop_view_change.rs
@@ -27,7 +27,7 @@ impl DropViewChange {
     }
 
     pub fn render_sql(&self) -> String {
-        format!("DROP VIEW {}", sqlfmt::sql_qa(&self.schema, &self.view))
+        format!("DROP VIEW {};", sqlfmt::sql_qa(&self.schema, &self.view))
     }
 
     pub fn revert(&self, source: &Database) -> Result<Change, SnapshotError> {
-- 
2.43.0


From 3020100a7dca298cd3985737d7fd34ba6c47ed88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:04 +0000
Subject: [PATCH 08/36] fix: diff notices changed table, uniqueness and method
 of an index

---
 src/snapshot/diff.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/snapshot/diff.rs b/src/snapshot/diff.rs
index 56a32fe..029639c 100644
--- a/src/snapshot/diff.rs
+++ b/src/snapshot/diff.rs
@@ -448,7 +448,11 @@ fn diff_index_create(t: &Index) -> Changeset {
 fn diff_index_update(s: &Index, t: &Index) -> Changeset {
     let mut changes = Changeset::new();
 
-    if s.key_expressions != t.key_expressions {
+    if s.table_name != t.table_name
+        || s.unique != t.unique
+        || s.method != t.method
+        || s.key_expressions != t.key_expressions
+    {
         changes.push(DropIndexChange::new(s));
         changes.push(CreateIndexChange::new(t));
     }
-- 
2.43.0


From be1a32ec4b3d2257e815b79e83df840107527671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:04 +0000
Subject: [PATCH 09/36] fix: dropping a table drops its constraints first, so
 that the drop can be reverted

---
 src/snapshot/diff.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/snapshot/diff.rs b/src/snapshot/diff.rs
index 029639c..8c63d94 100644
--- a/src/snapshot/diff.rs
+++ b/src/snapshot/diff.rs
@@ -200,6 +200,10 @@ fn diff_table_update(s: &Table, t: &Table) -> Changeset {
 fn diff_table_drop(s: &Table) -> Changeset {
     let mut changes = Changeset::new();
 
+    // dropped one by one, so that reverting the changes restores them
+    for si in s.iter_constraints() {
+        changes.append(&mut diff_constraint_drop(si));
+    }
     changes.push(DropTableChange::new(s));
 
     return changes;
-- 
2.43.0


From 0758719daeb1711910f311ff00a21d4d21c34596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:04 +0000
Subject: [PATCH 10/36] fix: DropTableChange refuses to remove a relation which
 is not a table

---
 src/snapshot/changes/table/drop_table_change.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/snapshot/changes/table/drop_table_change.rs b/src/snapshot/changes/table/drop_table_change.rs
index 6a036b9..5ccc362 100644
--- a/src/snapshot/changes/table/drop_table_change.rs
+++ b/src/snapshot/changes/table/drop_table_change.rs
@@ -22,6 +22,7 @@ impl DropTableChange {
 
     pub fn apply(&self, source: &mut Database) -> Result<(), SnapshotError> {
         let schema = source.get_schema_mut(&self.schema)?;
+        schema.get_relation(&self.table)?.as_table()?;
         schema.remove_relation(&self.table)?;
         Ok(())
     }
-- 
2.43.0


From 8c67fab0bbd87d19bd9797943425879e97986f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:04 +0000
Subject: [PATCH 11/36] fix: RenameColumnChange leaves the table untouched when
 the new name is taken

---
 src/snapshot/changes/column/rename_column_change.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/snapshot/changes/column/rename_column_change.rs b/src/snapshot/changes/column/rename_column_change.rs
index 2650e85..1aa9b37 100644
--- a/src/snapshot/changes/column/rename_column_change.rs
+++ b/src/snapshot/changes/column/rename_column_change.rs
@@ -24,6 +24,14 @@ impl RenameColumnChange {
     pub fn apply(&self, source: &mut Database) -> Result<(), SnapshotError> {
         let schema = source.get_schema_mut(&self.from_schema)?;
         let table = schema.get_relation_mut(&self.from_table)?.as_table_mut()?;
+        table.get_column(&self.from_column)?;
+        if self.to_column != self.from_column && table.has_column(&self.to_column) {
+            return Err(SnapshotError::column_already_exists(
+                &self.from_schema,
+                &self.from_table,
+                &self.to_column,
+            ));
+        }
         let mut column = table.remove_column(&self.from_column)?;
 
         column.name = self.to_column.clone();
-- 
2.43.0


From 5013d0394f0d3f57426a435415886c5925eecbcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:04 +0000
Subject: [PATCH 12/36] fix: RenameColumnChange is reverted by renaming the
 column back

---
 src/snapshot/changes/column/rename_column_change.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/snapshot/changes/column/rename_column_change.rs b/src/snapshot/changes/column/rename_column_change.rs
index 1aa9b37..29ab50f 100644
--- a/src/snapshot/changes/column/rename_column_change.rs
+++ b/src/snapshot/changes/column/rename_column_change.rs
@@ -52,13 +52,13 @@ impl RenameColumnChange {
     pub fn revert(&self, target: &Database) -> Result<Change, SnapshotError> {
         let schema = target.get_schema(&self.from_schema)?;
         let table = schema.get_relation(&self.from_table)?.as_table()?;
-        let column = table.get_column(&self.to_column)?;
+        let column = table.get_column(&self.from_column)?;
 
         Ok(RenameColumnChange {
             from_schema: schema.name.clone(),
             from_table: table.name.clone(),
-            from_column: column.name.clone(),
-            to_column: self.from_column.clone(),
+            from_column: self.to_column.clone(),
+            to_column: column.name.clone(),
         }
         .into())
     }
-- 
2.43.0


From bc76743f29f4868a8c347d285a01bb5de6bee30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:58 +0000
Subject: [PATCH 13/36] fix: FUNCTION statements keep the argument list out of
 the quoted name and quote the body

---
 src/snapshot/changes/function/create_functon_change.rs | 9 +++++----
 src/snapshot/changes/function/drop_function_change.rs  | 4 ++--
 src/util/sqlfmt.rs                                     | 5 +++++
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/snapshot/changes/function/create_functon_change.rs b/src/snapshot/changes/function/create_functon_change.rs
index d747d14..b845721 100644
--- a/src/snapshot/changes/function/create_functon_change.rs
+++ b/src/snapshot/changes/function/create_functon_change.rs
@@ -1,6 +1,6 @@
 use super::{super::Change, DropFunctionChange};
 use crate::snapshot::{Database, Function, SnapshotError};
-use crate::util::sqlfmt::sql_qa;
+use crate::util::sqlfmt::{sql_qn, sql_qs};
 use serde::{Deserialize, Serialize};
 
 #[derive(Debug, Serialize, Deserialize, PartialEq)]
@@ -41,12 +41,13 @@ impl CreateFunctionChange {
 
     pub fn render_sql(&self) -> String {
         format!(
-            "CREATE FUNCTION {} {} RETURNS {} LANGUAGE {} {}",
-            sql_qa(&self.schema, &self.function),
-            self.body,
+            "CREATE FUNCTION {}.{} RETURNS {} LANGUAGE {} {} AS {}",
+            sql_qn(&self.schema),
+            self.function,
             self.returns,
             self.language,
             self.volatility,
+            sql_qs(&self.body),
         ) + ";"
     }
 
diff --git a/src/snapshot/changes/function/drop_function_change.rs b/src/snapshot/changes/function/drop_function_change.rs
index a5e2dd9..38c3352 100644
--- a/src/snapshot/changes/function/drop_function_change.rs
+++ b/src/snapshot/changes/function/drop_function_change.rs
@@ -1,6 +1,6 @@
 use super::{super::Change, CreateFunctionChange};
 use crate::snapshot::{Database, Function, SnapshotError};
-use crate::util::sqlfmt::sql_qa;
+use crate::util::sqlfmt::sql_qn;
 use serde::{Deserialize, Serialize};
 
 #[derive(Debug, Serialize, Deserialize, PartialEq)]
@@ -25,7 +25,7 @@ impl DropFunctionChange {
     }
 
     pub fn render_sql(&self) -> String {
-        format!("DROP FUNCTION {}", sql_qa(&self.schema, &self.function),) + ";"
+        format!("DROP FUNCTION {}.{};", sql_qn(&self.schema), self.function)
     }
 
     pub fn revert(&self, target: &Database) -> Result<Change, SnapshotError> {
diff --git a/src/util/sqlfmt.rs b/src/util/sqlfmt.rs
index 7173458..6a8408e 100644
--- a/src/util/sqlfmt.rs
+++ b/src/util/sqlfmt.rs
@@ -3,6 +3,11 @@ pub fn sql_qn(schema: &str) -> String {
     format!("\"{}\"", schema.replace('"', "\"\""))
 }
 
+// quoted string literal
+pub fn sql_qs(text: &str) -> String {
+    format!("'{}'", text.replace('\'', "''"))
+}
+
 // quoted accessor
 pub fn sql_qa(schema: &str, relation: &str) -> String {
     format!("{}.{}", sql_qn(schema), sql_qn(relation))
-- 
2.43.0


From f81571c733ed26d5885d00d8256bfcc7572703c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:58 +0000
Subject: [PATCH 14/36] fix: diff drops indexes before and creates them after
 the tables they belong to

---
 src/snapshot/diff.rs | 59 +++++++++++++++++++++++++++++++++++++-------
 1 file changed, 50 insertions(+), 9 deletions(-)

diff --git a/src/snapshot/diff.rs b/src/snapshot/diff.rs
index 8c63d94..8652422 100644
--- a/src/snapshot/diff.rs
+++ b/src/snapshot/diff.rs
@@ -46,8 +46,16 @@ fn diff_schema_create(t: &Schema) -> Changeset {
 
     changes.push(CreateSchemaChange::new(t));
 
+    // indexes are created after the tables they belong to
     for ti in t.iter_relations() {
-        changes.append(&mut diff_relation_create(ti));
+        if !is_index(ti) {
+            changes.append(&mut diff_relation_create(ti));
+        }
+    }
+    for ti in t.iter_relations() {
+        if is_index(ti) {
+            changes.append(&mut diff_relation_create(ti));
+        }
     }
     for ti in t.iter_functions() {
         changes.append(&mut diff_function_create(ti));
@@ -59,17 +67,32 @@ fn diff_schema_create(t: &Schema) -> Changeset {
 fn diff_schema_update(s: &Schema, t: &Schema) -> Changeset {
     let mut changes = Changeset::new();
 
+    // indexes go away before the tables they belong to are touched
+    for si in s.iter_relations() {
+        if is_index(si) && !keeps_relation(t, si) {
+            changes.append(&mut diff_relation_drop(si));
+        }
+    }
     for ti in t.iter_relations() {
-        if !s.has_relation(ti.get_name()) {
-            changes.append(&mut diff_relation_create(ti));
+        if !is_index(ti) {
+            match s.get_relation(ti.get_name()) {
+                Ok(si) if !is_index(si) => changes.append(&mut diff_relation_update(si, ti)),
+                _ => changes.append(&mut diff_relation_create(ti)),
+            }
         }
     }
     for si in s.iter_relations() {
-        if t.has_relation(si.get_name()) {
-            let ti = t.get_relation(si.get_name()).unwrap();
-            changes.append(&mut diff_relation_update(si, ti));
-        } else {
-            changes.append(&mut diff_relation_drop(si));
+        if !is_index(si) {
+            match t.get_relation(si.get_name()) {
+                Ok(ti) if !is_index(ti) => (),
+                _ => changes.append(&mut diff_relation_drop(si)),
+            }
+        }
+    }
+    // and come back after the tables they belong to exist
+    for ti in t.iter_relations() {
+        if is_index(ti) && !keeps_relation(s, ti) {
+            changes.append(&mut diff_relation_create(ti));
         }
     }
 
@@ -94,7 +117,14 @@ fn diff_schema_drop(s: &Schema) -> Changeset {
     let mut changes = Changeset::new();
 
     for si in s.iter_relations() {
-        changes.append(&mut diff_relation_drop(si));
+        if is_index(si) {
+            changes.append(&mut diff_relation_drop(si));
+        }
+    }
+    for si in s.iter_relations() {
+        if !is_index(si) {
+            changes.append(&mut diff_relation_drop(si));
+        }
     }
     for si in s.iter_functions() {
         changes.append(&mut diff_function_drop(si));
@@ -105,6 +135,17 @@ fn diff_schema_drop(s: &Schema) -> Changeset {
     return changes;
 }
 
+fn is_index(r: &Relation) -> bool {
+    r.as_index().is_ok()
+}
+
+fn keeps_relation(schema: &Schema, r: &Relation) -> bool {
+    match schema.get_relation(r.get_name()) {
+        Ok(other) => other == r,
+        Err(_) => false,
+    }
+}
+
 fn diff_relation_create(t: &Relation) -> Changeset {
     match t {
         Relation::Table(t) => diff_table_create(t),
-- 
2.43.0


From 83872f699149f659f9bcc2407dce1a12e8146c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:36 +0000
Subject: [PATCH 15/36] fix: a cycle of previous versions is an error instead
 of an endless loop

---
 src/history/fsh.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/history/fsh.rs b/src/history/fsh.rs
index 4463aa7..9ddc043 100644
--- a/src/history/fsh.rs
+++ b/src/history/fsh.rs
@@ -55,7 +55,14 @@ impl FSHistory {
         }
 
         let mut curr_version = "init".to_string();
+        let mut visited = vec![curr_version.clone()];
         while let Some(next) = history.next_map.get(&curr_version) {
+            if visited.contains(next) {
+                return Err(FSHistoryError::Cyclic {
+                    version: next.clone(),
+                });
+            }
+            visited.push(next.clone());
             history.current_version = curr_version.clone();
             curr_version = next.clone();
         }
@@ -84,6 +91,8 @@ impl FSHistory {
 
             if curr == from {
                 break;
+            } else if versions.contains(&v.name) {
+                return Err(FSHistoryError::Cyclic { version: v.name });
             } else if let Some(previous) = v.previous.as_ref() {
                 curr = previous.clone();
                 versions.push(v.name);
@@ -123,6 +132,9 @@ pub enum FSHistoryError {
         high: String,
         low: String,
     },
+    Cyclic {
+        version: String,
+    },
     FileSystemError(std::io::Error),
     SerdeYAMLError(serde_yaml::Error),
 }
@@ -158,6 +170,9 @@ impl Display for FSHistoryError {
                 "version \"{}\" is not reachable from version \"{}\"",
                 high, low
             ),
+            FSHistoryError::Cyclic { version } => {
+                write!(f, "version \"{}\" is its own predecessor", version)
+            }
             FSHistoryError::FileSystemError(err) => write!(f, "{}", err),
             FSHistoryError::SerdeYAMLError(err) => write!(f, "{}", err),
         }
-- 
2.43.0


From d6e16dee040a59d0186d8a634121f17ed03284b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:37 +0000
Subject: [PATCH 16/36] fix: version files are recognised by removing one .yaml
 suffix, other file names are skipped

---
 src/history/fsh.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/history/fsh.rs b/src/history/fsh.rs
index 9ddc043..9c05718 100644
--- a/src/history/fsh.rs
+++ b/src/history/fsh.rs
@@ -33,12 +33,18 @@ impl FSHistory {
         for entry in dir_entries {
             let entry = entry?;
             let filetype = entry.file_type()?;
-            let filename = entry.file_name().to_str().unwrap().to_owned();
 
-            if filetype.is_dir() || !filename.ends_with(".yaml") {
+            if filetype.is_dir() {
                 continue;
             }
-            let version_name = filename.trim_end_matches(".yaml").to_owned();
+            let filename = match entry.file_name().into_string() {
+                Ok(filename) => filename,
+                Err(_) => continue,
+            };
+            let version_name = match filename.strip_suffix(".yaml") {
+                Some(name) => name.to_owned(),
+                None => continue,
+            };
 
             let v = history.get_version(&version_name)?;
 
-- 
2.43.0


From c4dcf447f128a8ea34933f8b614f595e98941326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:36 +0000
Subject: [PATCH 17/36] fix: snapshot errors are described instead of panicking

---
 src/snapshot/error.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/snapshot/error.rs b/src/snapshot/error.rs
index 5f30cbd..1eaebfb 100644
--- a/src/snapshot/error.rs
+++ b/src/snapshot/error.rs
@@ -104,7 +104,25 @@ impl SnapshotError {
 
 impl std::fmt::Display for SnapshotError {
     fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
-        panic!("unimplemented")
+        match self {
+            SnapshotError::ObjectNotFound { path, r#type } => {
+                write!(f, "{} \"{}\" does not exist", r#type, path.join("."))
+            }
+            SnapshotError::ObjectAlreadyExists { path, r#type } => {
+                write!(f, "{} \"{}\" already exists", r#type, path.join("."))
+            }
+            SnapshotError::ObjectHasUnexpectedType {
+                path,
+                expected,
+                actual,
+            } => write!(
+                f,
+                "\"{}\" is not a {} but a {}",
+                path.join("."),
+                expected,
+                actual
+            ),
+        }
     }
 }
 
-- 
2.43.0


From 42def788f493efa078776da542196b24dd83b330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:37 +0000
Subject: [PATCH 18/36] fix: a failing command exits with a non-zero status

---
 src/main.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main.rs b/src/main.rs
index b97e8f7..aa8d24f 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -87,6 +87,7 @@ fn main() {
     };
     if let Err(e) = res {
         eprintln!("{}", e);
+        std::process::exit(1);
     }
 }
 
-- 
2.43.0


From e7b0b7e1965fa0d85e369c4b7268a92d4b9b52df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:39 +0000
Subject: [PATCH 19/36] fix: the clone command accepts the profile it looks up

---
 src/main.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main.rs b/src/main.rs
index aa8d24f..28d9dce 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -58,6 +58,7 @@ fn main() {
         .subcommand(
           Command::new("clone")
           .about("inspects the database and creates snapshot and the initial migration")
+          .arg(clap::arg!(--"profile" <String>).default_value("database"))
         )
         .subcommand(
           Command::new("print")
-- 
2.43.0


From ee43ce32ac09d52dd621501f49d03513b58ce51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:40 +0000
Subject: [PATCH 20/36] fix: status, up and clone use the directories of the
 chosen profile

---
 src/cmd/clone.rs  | 2 +-
 src/cmd/status.rs | 4 ++--
 src/cmd/up.rs     | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cmd/clone.rs b/src/cmd/clone.rs
index 143d505..3c780cb 100644
--- a/src/cmd/clone.rs
+++ b/src/cmd/clone.rs
@@ -8,7 +8,7 @@ pub fn clone(profile_name: &str) -> Result<(), AnyError> {
     let cwd: std::path::PathBuf = std::env::current_dir()?;
     let project = discover_project(cwd.clone())?;
     let database_url = project.resolve_database_url(profile_name)?;
-    let definition_dir = project.resolve_default_definitions_dir()?;
+    let definition_dir = project.resolve_definitions_dir(profile_name)?;
 
     let mut pg_client = Client::connect(&database_url, NoTls)?;
     let mut tx = pg_client.transaction()?;
diff --git a/src/cmd/status.rs b/src/cmd/status.rs
index 46b53b0..ec1197a 100644
--- a/src/cmd/status.rs
+++ b/src/cmd/status.rs
@@ -15,8 +15,8 @@ use postgres::{Client, NoTls};
 pub fn status(profile_name: &str) -> Result<(), AnyError> {
     let cwd = std::env::current_dir()?;
     let project = discover_project(cwd.clone())?;
-    let history_dir = project.resolve_default_history_dir()?;
-    let definition_dir = project.resolve_default_definitions_dir()?;
+    let history_dir = project.resolve_history_dir(profile_name)?;
+    let definition_dir = project.resolve_definitions_dir(profile_name)?;
     let database_url = project.resolve_database_url(profile_name)?;
 
     let fsh = FSHistory::from_dir(&history_dir)?;
diff --git a/src/cmd/up.rs b/src/cmd/up.rs
index 4bc8edf..d187d41 100644
--- a/src/cmd/up.rs
+++ b/src/cmd/up.rs
@@ -9,7 +9,7 @@ use postgres::{Client, NoTls};
 pub fn up(profile_name: &str, version: Option<&str>) -> Result<(), AnyError> {
     let cwd: std::path::PathBuf = std::env::current_dir()?;
     let project = discover_project(cwd.clone())?;
-    let history_dir = project.resolve_default_history_dir()?;
+    let history_dir = project.resolve_history_dir(profile_name)?;
     let database_url = project.resolve_database_url(profile_name)?;
     let metadata_schema = project.resolve_metadata_schema(&profile_name)?;
 
-- 
2.43.0


From 2188fc43fa799b006eeccc6864a357831ea388d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:41 +0000
Subject: [PATCH 21/36] fix: up and down report a rejected statement instead of
 panicking

---
 src/cmd/down.rs | 6 +++---
 src/cmd/up.rs   | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/cmd/down.rs b/src/cmd/down.rs
index 58b3f3d..5b73fc5 100644
--- a/src/cmd/down.rs
+++ b/src/cmd/down.rs
@@ -37,13 +37,13 @@ pub fn down(profile_name: &str, version: Option<&str>) -> Result<(), AnyError> {
     }
 
     for name in versions {
-        let v = dbh.get_version(&mut tx, &name).unwrap();
+        let v = dbh.get_version(&mut tx, &name)?;
         println!("  Reverting version {}", v.name.green());
         for stmt in &v.down {
-            tx.execute(stmt, &[]).unwrap();
+            tx.execute(stmt, &[])?;
             println!("    {}", stmt.dimmed());
         }
-        dbh.delete_version(&mut tx, &v).unwrap();
+        dbh.delete_version(&mut tx, &v)?;
     }
 
     tx.commit()?;
diff --git a/src/cmd/up.rs b/src/cmd/up.rs
index d187d41..482cb2c 100644
--- a/src/cmd/up.rs
+++ b/src/cmd/up.rs
@@ -42,10 +42,10 @@ pub fn up(profile_name: &str, version: Option<&str>) -> Result<(), AnyError> {
         let v = fsh.get_version(&version_name)?;
         println!("  Applying version {}", v.name.green());
         for stmt in &v.up {
-            tx.execute(stmt, &[]).unwrap();
+            tx.execute(stmt, &[])?;
             println!("    {}", stmt.dimmed(),);
         }
-        dbh.save_version(&mut tx, &v).unwrap();
+        dbh.save_version(&mut tx, &v)?;
     }
 
     tx.commit()?;
-- 
2.43.0


From c208ee1a0550bf09b11f106eb760c791ea1a6dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:06 +0000
Subject: [PATCH 22/36] fix: init reports a project file it cannot write
 instead of panicking

---
 src/project/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/project/mod.rs b/src/project/mod.rs
index d49bb3e..e9a217c 100644
--- a/src/project/mod.rs
+++ b/src/project/mod.rs
@@ -124,7 +124,7 @@ pub fn initialize_project(base_dir: PathBuf) -> Result<Project, ProjectError> {
     let yaml_project = create_base_yaml_project();
     let s = serde_yaml::to_string(&yaml_project).unwrap();
     let config_file = base_dir.join(CONFIG_FILE);
-    fs::write(config_file, &s).unwrap();
+    fs::write(config_file, &s)?;
     load_project_from_str(base_dir, &s)
 }
 
-- 
2.43.0


From b636aea3eb9dc0736b00589a5f01fb34e9a09f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:54 +0000
Subject: [PATCH 23/36] fix: make refuses to overwrite an existing version

---
 src/cmd/make.rs    |  8 +++++++-
 src/history/fsh.rs | 10 ++++++++++
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/cmd/make.rs b/src/cmd/make.rs
index e6f9502..f2d87cc 100644
--- a/src/cmd/make.rs
+++ b/src/cmd/make.rs
@@ -1,6 +1,6 @@
 use crate::{
     error::AnyError,
-    history::{FSHistory, Version},
+    history::{FSHistory, FSHistoryError, Version},
     project::discover_project,
 };
 use colored::Colorize;
@@ -23,6 +23,12 @@ pub fn make(profile_name: &str, version: Option<&str>) -> Result<(), AnyError> {
         chrono::Local::now().format("%Y%m%d_%H%M%S"),
         version.unwrap_or("auto"),
     );
+    if fsh.contains_version(&to_make.name) {
+        return Err(FSHistoryError::AlreadyExists {
+            version: to_make.name,
+        }
+        .into());
+    }
     let new_stage = Version::new_stage(&to_make.name);
 
     println!("Made version: {}", &to_make.name.green());
diff --git a/src/history/fsh.rs b/src/history/fsh.rs
index 9c05718..476dbe3 100644
--- a/src/history/fsh.rs
+++ b/src/history/fsh.rs
@@ -122,6 +122,10 @@ impl FSHistory {
         Ok(())
     }
 
+    pub fn contains_version(&self, version_name: &str) -> bool {
+        self.get_version_file_path(version_name).exists()
+    }
+
     fn get_version_file_path(&self, version_name: &str) -> PathBuf {
         self.dir.join(format!("{}.yaml", version_name))
     }
@@ -141,6 +145,9 @@ pub enum FSHistoryError {
     Cyclic {
         version: String,
     },
+    AlreadyExists {
+        version: String,
+    },
     FileSystemError(std::io::Error),
     SerdeYAMLError(serde_yaml::Error),
 }
@@ -179,6 +186,9 @@ impl Display for FSHistoryError {
             FSHistoryError::Cyclic { version } => {
                 write!(f, "version \"{}\" is its own predecessor", version)
             }
+            FSHistoryError::AlreadyExists { version } => {
+                write!(f, "version \"{}\" already exists", version)
+            }
             FSHistoryError::FileSystemError(err) => write!(f, "{}", err),
             FSHistoryError::SerdeYAMLError(err) => write!(f, "{}", err),
         }
-- 
2.43.0


From b1dfbb577a68638b7d2dddbd87f8d29eacb85cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:53 +0000
Subject: [PATCH 24/36] fix: init reports a project file it cannot read instead
 of overwriting it

---
 src/cmd/init.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/cmd/init.rs b/src/cmd/init.rs
index 640bb2f..534609b 100644
--- a/src/cmd/init.rs
+++ b/src/cmd/init.rs
@@ -1,15 +1,19 @@
 use crate::definition;
 use crate::error::AnyError;
 use crate::history::{FSHistory, Version};
-use crate::project::{discover_project, initialize_project};
+use crate::project::{discover_project, initialize_project, ProjectError};
 use crate::snapshot::Database;
 
 pub fn init() -> Result<(), AnyError> {
     let cwd = std::env::current_dir()?;
 
-    if let Ok(proj) = discover_project(cwd.clone()) {
-        println!("Project already exists at: {}", proj.base_dir.display());
-        return Ok(());
+    match discover_project(cwd.clone()) {
+        Ok(proj) => {
+            println!("Project already exists at: {}", proj.base_dir.display());
+            return Ok(());
+        }
+        Err(ProjectError::ProjectNotFound { .. }) => {}
+        Err(e) => return Err(e.into()),
     }
 
     let project = initialize_project(cwd)?;
-- 
2.43.0


From 7bc27d29a6fec5dce591d11b01c4081a29afb6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:38 +0000
Subject: [PATCH 25/36] fix: the metadata schema is quoted in statements, as it
 is looked up

---
 src/history/dbh.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/history/dbh.rs b/src/history/dbh.rs
index 10efbd8..830364c 100644
--- a/src/history/dbh.rs
+++ b/src/history/dbh.rs
@@ -1,6 +1,6 @@
 use postgres::Transaction;
 
-use crate::snapshot::changes::Change;
+use crate::{snapshot::changes::Change, util::sqlfmt::sql_qn};
 
 use super::Version;
 
@@ -158,7 +158,7 @@ impl DBHistory {
 }
 
 fn format_create_schema_sql(schema: &str) -> String {
-    format!("CREATE SCHEMA {}", schema)
+    format!("CREATE SCHEMA {}", sql_qn(schema))
 }
 fn format_create_table_sql(schema: &str) -> String {
     format!(
@@ -171,20 +171,21 @@ fn format_create_table_sql(schema: &str) -> String {
     applied_at TIMESTAMP NOT NULL DEFAULT now(),
     applied_order SERIAL NOT NULL UNIQUE
 )",
-        schema, schema,
+        sql_qn(schema),
+        sql_qn(schema),
     )
 }
 fn format_insert_version_sql(schema: &str) -> String {
     format!(
         "INSERT INTO {}.version (name, previous, changes, up, down) VALUES ($1, $2, $3::TEXT::JSON, $4, $5)",
-        schema
+        sql_qn(schema)
     )
 }
 
 fn format_current_version_sql(schema: &str) -> String {
     format!(
         "SELECT name, previous, changes::TEXT, up, down, applied_at FROM {}.version ORDER BY applied_order DESC LIMIT 1",
-        schema
+        sql_qn(schema)
     )
 }
 
@@ -195,21 +196,21 @@ fn format_delete_version_sql(schema: &str) -> String {
 fn format_get_downward_range_sql(schema: &str) -> String {
     format!(
         "SELECT name FROM {}.version WHERE $1 >= applied_order AND applied_order > $2 ORDER BY applied_order DESC",
-        schema
+        sql_qn(schema)
     )
 }
 
 fn format_get_applied_order_sql(schema: &str) -> String {
     format!(
         "SELECT applied_order FROM {}.version WHERE name = $1",
-        schema
+        sql_qn(schema)
     )
 }
 
 fn format_get_version_sql(schema: &str) -> String {
     format!(
         "SELECT name, previous, changes::TEXT, up, down FROM {}.version WHERE name = $1",
-        schema
+        sql_qn(schema)
     )
 }
 
-- 
2.43.0


From 20eb3302fbd2b030ef0cb833f933036be8cf91fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:50 +0000
Subject: [PATCH 26/36] fix: removing a version quotes the metadata schema, too

---
 src/history/dbh.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/history/dbh.rs b/src/history/dbh.rs
index 830364c..ab60538 100644
--- a/src/history/dbh.rs
+++ b/src/history/dbh.rs
@@ -190,7 +190,7 @@ fn format_current_version_sql(schema: &str) -> String {
 }
 
 fn format_delete_version_sql(schema: &str) -> String {
-    format!("DELETE FROM {}.version WHERE name = $1", schema)
+    format!("DELETE FROM {}.version WHERE name = $1", sql_qn(schema))
 }
 
 fn format_get_downward_range_sql(schema: &str) -> String {
-- 
2.43.0


From 0c63d00058ca9958290040c1021a972429fa6aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:21 +0000
Subject: [PATCH 27/36] fix: definition files may use the increment and using
 attributes which snapshots are written with

---
 src/definition/base/yaml.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/definition/base/yaml.rs b/src/definition/base/yaml.rs
index a2cd5e1..3f12c6d 100644
--- a/src/definition/base/yaml.rs
+++ b/src/definition/base/yaml.rs
@@ -5,7 +5,7 @@ use super::{
     error::Error,
 };
 
-static KEYWORDS: [&str; 33] = [
+static KEYWORDS: [&str; 35] = [
     "foreign key",
     "initially deferred",
     "not null",
@@ -23,6 +23,7 @@ static KEYWORDS: [&str; 33] = [
     "deferrable",
     "function",
     "volatility",
+    "increment",
     "index",
     "language",
     "match",
@@ -38,6 +39,7 @@ static KEYWORDS: [&str; 33] = [
     "table",
     "type",
     "unique",
+    "using",
     "view",
 ];
 
-- 
2.43.0


From 8d9e87e078b71f679412d5cb19e232ebfa31f522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:21 +0000
Subject: [PATCH 28/36] fix: a keyword of a definition key is a whole word, and
 keys outside ASCII do not panic

---
 src/definition/base/yaml.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/definition/base/yaml.rs b/src/definition/base/yaml.rs
index 3f12c6d..df0cfdd 100644
--- a/src/definition/base/yaml.rs
+++ b/src/definition/base/yaml.rs
@@ -78,7 +78,7 @@ fn create_node_from_mapping_key(key: &str) -> Result<Node, Error> {
 
     let mut found = false;
     for keyword in KEYWORDS.iter() {
-        if key.to_lowercase().starts_with(keyword) {
+        if starts_with_keyword(key, keyword) {
             node.r#type = keyword;
             found = true;
             break;
@@ -94,6 +94,14 @@ fn create_node_from_mapping_key(key: &str) -> Result<Node, Error> {
     Ok(node)
 }
 
+fn starts_with_keyword(key: &str, keyword: &str) -> bool {
+    if !key.to_ascii_lowercase().starts_with(keyword) {
+        return false;
+    }
+    let rest = &key[keyword.len()..];
+    rest.is_empty() || rest.starts_with(char::is_whitespace)
+}
+
 fn parse_serde_sequence_to_ddl_list(val: &serde_yaml::Sequence) -> Result<Vec<Value>, Error> {
     let mut result: Vec<Value> = Vec::with_capacity(val.len());
     for v in val {
-- 
2.43.0


From 0bdab24ebe65439b728373dc7c98aa2c6fea52af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:21 +0000
Subject: [PATCH 29/36] fix: a mapping inside a list is an invalid value
 instead of a panic

---
 src/definition/base/yaml.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/definition/base/yaml.rs b/src/definition/base/yaml.rs
index df0cfdd..4373458 100644
--- a/src/definition/base/yaml.rs
+++ b/src/definition/base/yaml.rs
@@ -123,9 +123,6 @@ fn parse_serde_value_to_ddl_value(val: &serde_yaml::Value) -> Result<Value, Erro
         serde_yaml::Value::Bool(val_bool) => {
             return Ok(Value::Boolean(*val_bool));
         }
-        serde_yaml::Value::Mapping(_) => {
-            unreachable!()
-        }
         serde_yaml::Value::Sequence(val_sequence) => {
             let parsed = parse_serde_sequence_to_ddl_list(val_sequence)?;
             return Ok(Value::List(parsed));
-- 
2.43.0


From ab62256eaadf7c89c6370b56c2a567686a22f606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:21 +0000
Subject: [PATCH 30/36] fix: the kind of a constraint may follow its other
 attributes, and is reported when missing

---
 src/definition/ddl/constraint.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/definition/ddl/constraint.rs b/src/definition/ddl/constraint.rs
index d1a4560..1d026af 100644
--- a/src/definition/ddl/constraint.rs
+++ b/src/definition/ddl/constraint.rs
@@ -42,10 +42,13 @@ pub fn parse_constraint_definition(
                 let def = parse_check_constraint_definition(schema_name, table_name, n)?;
                 return Ok(Constraint::Check(def));
             }
-            _ => unreachable!(),
+            _ => {}
         }
     }
-    unreachable!()
+    Err(Error::new_attribute_required(
+        n,
+        "primary key, unique, foreign key or check",
+    ))
 }
 
 pub fn render_constraint_definition(ctx: &Context, c: &Constraint) -> Node {
-- 
2.43.0


From d1d19ab70b2a9d2b25c057fff46f2e5ff1ff0b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:21 +0000
Subject: [PATCH 31/36] fix: errors in an index definition are reported

---
 src/definition/ddl/index.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/definition/ddl/index.rs b/src/definition/ddl/index.rs
index 198cbc9..1e4f901 100644
--- a/src/definition/ddl/index.rs
+++ b/src/definition/ddl/index.rs
@@ -49,6 +49,10 @@ pub fn parse_index_definition(ctx: &Context, n: &Node) -> Result<Index, Error> {
         errors.push(Error::new_attribute_required(n, "on"));
     }
 
+    if !errors.is_empty() {
+        return Err(Error::new_has_errors(n, errors));
+    }
+
     Ok(Index {
         schema_name: ctx.schema_name.clone(),
         table_name: table_name.unwrap(),
-- 
2.43.0


From 7575b198a04e419034de00767e31e2da85450843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:21 +0000
Subject: [PATCH 32/36] fix: the owner of a sequence is written when both its
 table and its column are known

---
 src/definition/ddl/sequence.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/definition/ddl/sequence.rs b/src/definition/ddl/sequence.rs
index 33ac05f..9c3e4f5 100644
--- a/src/definition/ddl/sequence.rs
+++ b/src/definition/ddl/sequence.rs
@@ -124,7 +124,7 @@ pub fn render_sequence_definition(_ctx: &Context, def: &Sequence) -> Node {
     if def.cycle != defaults::get_sequence_cycle() {
         subnodes.push(Node::new("cycle").with_boolean_value(def.cycle));
     }
-    if def.owned_by_table.is_some() && def.owned_by_table.is_some() {
+    if def.owned_by_table.is_some() && def.owned_by_column.is_some() {
         subnodes.push(
             Node::new("owned by")
                 .with_name(def.owned_by_table.as_ref().unwrap().clone())
-- 
2.43.0


From f41b6d92f432fe0cfcf41905b35e4533ccdb89f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:21 +0000
Subject: [PATCH 33/36] fix: the default of a column may span several lines

---
 src/definition/ddl/column.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/definition/ddl/column.rs b/src/definition/ddl/column.rs
index 4253a37..d7cc427 100644
--- a/src/definition/ddl/column.rs
+++ b/src/definition/ddl/column.rs
@@ -33,7 +33,7 @@ pub fn render_column_definition(ctx: &Context, def: &Column) -> Node {
 }
 
 fn parse_column_expression(input: &str) -> Result<(String, bool, Option<String>), Error> {
-    let re = Regex::new(r"^(?P<type>[^=!]+)(?P<notnull>!)?(?:\s*=\s*(?P<default>.+))?$").unwrap();
+    let re = Regex::new(r"(?s)^(?P<type>[^=!]+)(?P<notnull>!)?(?:\s*=\s*(?P<default>.+))?$").unwrap();
     if let Some(caps) = re.captures(input) {
         let data_type = caps.name("type").unwrap().as_str().trim().to_string();
         let not_null = caps.name("notnull").is_some();
-- 
2.43.0


From 1aab5e7c834a4cccb0d808cc673dd2281414eee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:50 +0000
Subject: [PATCH 34/36] fix: anything but a schema at the top of a definition
 file is reported instead of panicking

---
 src/definition/ddl/schema.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/definition/ddl/schema.rs b/src/definition/ddl/schema.rs
index 9419292..fc9bc82 100644
--- a/src/definition/ddl/schema.rs
+++ b/src/definition/ddl/schema.rs
@@ -21,7 +21,9 @@ use super::{
 };
 
 pub fn parse_schema_definition(n: &Node) -> Result<Schema, Error> {
-    assert_eq!(n.r#type, "schema");
+    if n.r#type != "schema" {
+        return Err(Error::new_unexpected_node(n));
+    }
 
     let name = coerce_name(n)?;
     let child_nodes = coerce_nodes(n)?;
-- 
2.43.0


From b52fdd04a97767da3c3140cda6e0def370383d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:50 +0000
Subject: [PATCH 35/36] fix: names used twice in a definition are reported
 instead of panicking

---
 src/definition/ddl/error.rs  | 16 ++++++++++++++++
 src/definition/ddl/schema.rs |  8 ++++++--
 src/definition/ddl/table.rs  |  8 ++++++--
 3 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/definition/ddl/error.rs b/src/definition/ddl/error.rs
index 04c5782..51132eb 100644
--- a/src/definition/ddl/error.rs
+++ b/src/definition/ddl/error.rs
@@ -28,6 +28,10 @@ pub enum Error {
     InvalidColumnReference {
         column_reference: String,
     },
+    Conflict {
+        node_display_string: String,
+        message: String,
+    },
     HasErrors {
         node_display_string: String,
         errors: Vec<Error>,
@@ -71,6 +75,12 @@ impl Error {
     pub fn new_invalid_column_reference(column_reference: String) -> Error {
         Error::InvalidColumnReference { column_reference }
     }
+    pub fn new_conflict(node: &Node, message: String) -> Error {
+        Error::Conflict {
+            node_display_string: node.display_string(),
+            message,
+        }
+    }
     pub fn new_has_errors(node: &Node, errors: Vec<Error>) -> Error {
         Error::HasErrors {
             node_display_string: node.display_string(),
@@ -126,6 +136,12 @@ impl std::fmt::Display for Error {
             Error::InvalidColumnReference { column_reference } => {
                 write!(f, "invalid column reference: {}", column_reference)
             }
+            Error::Conflict {
+                node_display_string,
+                message,
+            } => {
+                write!(f, "conflict: {}: {}", node_display_string, message)
+            }
             Error::HasErrors {
                 node_display_string,
                 errors,
diff --git a/src/definition/ddl/schema.rs b/src/definition/ddl/schema.rs
index fc9bc82..d63ebf1 100644
--- a/src/definition/ddl/schema.rs
+++ b/src/definition/ddl/schema.rs
@@ -63,10 +63,14 @@ pub fn parse_schema_definition(n: &Node) -> Result<Schema, Error> {
 
     let mut schema = Schema::new(&name);
     for relation in relations {
-        schema.add_relation(relation).unwrap();
+        schema
+            .add_relation(relation)
+            .map_err(|e| Error::new_conflict(n, e.to_string()))?;
     }
     for function in functions {
-        schema.add_function(function).unwrap();
+        schema
+            .add_function(function)
+            .map_err(|e| Error::new_conflict(n, e.to_string()))?;
     }
 
     Ok(schema)
diff --git a/src/definition/ddl/table.rs b/src/definition/ddl/table.rs
index 3477ff7..02c8eaf 100644
--- a/src/definition/ddl/table.rs
+++ b/src/definition/ddl/table.rs
@@ -43,10 +43,14 @@ pub fn parse_table_definition(schema_name: &str, n: &Node) -> Result<Table, Erro
 
     let mut table = Table::new(schema_name, &name);
     for column in columns {
-        table.add_column(column).unwrap();
+        table
+            .add_column(column)
+            .map_err(|e| Error::new_conflict(n, e.to_string()))?;
     }
     for pk in constraints {
-        table.add_constraint(pk).unwrap();
+        table
+            .add_constraint(pk)
+            .map_err(|e| Error::new_conflict(n, e.to_string()))?;
     }
 
     Ok(table)
-- 
2.43.0


From 0cedd3169d95c126b3083e6617d1cdd6216c4529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:50 +0000
Subject: [PATCH 36/36] fix: a sequence of another type than int2, int4 and
 int8 requires its bounds instead of panicking

---
 src/definition/ddl/sequence.rs | 20 +++++++++++++-------
 src/definition/defaults.rs     | 24 ++++++++++++------------
 2 files changed, 25 insertions(+), 19 deletions(-)

diff --git a/src/definition/ddl/sequence.rs b/src/definition/ddl/sequence.rs
index 9c3e4f5..e9b0c13 100644
--- a/src/definition/ddl/sequence.rs
+++ b/src/definition/ddl/sequence.rs
@@ -56,18 +56,24 @@ pub fn parse_sequence_definition(ctx: &Context, n: &Node) -> Result<Sequence, Er
         increment = Some(defaults::get_sequence_increment());
     }
     if min_value.is_none() {
-        min_value = Some(defaults::get_sequence_min_value(
+        min_value = defaults::get_sequence_min_value(
             increment.unwrap(),
             data_type.as_ref().unwrap(),
-        ));
+        );
     }
     if max_value.is_none() {
-        max_value = Some(defaults::get_sequence_max_value(
+        max_value = defaults::get_sequence_max_value(
             increment.unwrap(),
             data_type.as_ref().unwrap(),
-        ));
+        );
+    }
+    if min_value.is_none() {
+        errors.push(Error::new_attribute_required(n, "minvalue"));
+    }
+    if max_value.is_none() {
+        errors.push(Error::new_attribute_required(n, "maxvalue"));
     }
-    if start.is_none() {
+    if start.is_none() && min_value.is_some() && max_value.is_some() {
         start = Some(defaults::get_sequence_start(
             increment.unwrap(),
             min_value.unwrap(),
@@ -109,10 +115,10 @@ pub fn render_sequence_definition(_ctx: &Context, def: &Sequence) -> Node {
     if def.increment != defaults::get_sequence_increment() {
         subnodes.push(Node::new("increment").with_number_integer_value(def.increment));
     }
-    if def.min_value != defaults::get_sequence_min_value(def.increment, &def.data_type) {
+    if Some(def.min_value) != defaults::get_sequence_min_value(def.increment, &def.data_type) {
         subnodes.push(Node::new("minvalue").with_number_integer_value(def.min_value));
     }
-    if def.max_value != defaults::get_sequence_max_value(def.increment, &def.data_type) {
+    if Some(def.max_value) != defaults::get_sequence_max_value(def.increment, &def.data_type) {
         subnodes.push(Node::new("maxvalue").with_number_integer_value(def.max_value));
     }
     if def.start != defaults::get_sequence_start(def.increment, def.min_value, def.max_value) {
diff --git a/src/definition/defaults.rs b/src/definition/defaults.rs
index ca8a973..f42b8f7 100644
--- a/src/definition/defaults.rs
+++ b/src/definition/defaults.rs
@@ -74,27 +74,27 @@ pub fn get_sequence_cycle() -> bool {
     false
 }
 
-pub fn get_sequence_min_value(increment: i64, data_type: &str) -> i64 {
+pub fn get_sequence_min_value(increment: i64, data_type: &str) -> Option<i64> {
     if increment >= 0 {
-        return 1;
+        return Some(1);
     }
     return match data_type {
-        "int2" => -32768,
-        "int4" => -2147483648,
-        "int8" => -9223372036854775808,
-        _ => panic!(r#"invalid sequence datatype: "{}""#, data_type),
+        "int2" => Some(-32768),
+        "int4" => Some(-2147483648),
+        "int8" => Some(-9223372036854775808),
+        _ => None,
     };
 }
 
-pub fn get_sequence_max_value(increment: i64, data_type: &str) -> i64 {
+pub fn get_sequence_max_value(increment: i64, data_type: &str) -> Option<i64> {
     if increment < 0 {
-        return -1;
+        return Some(-1);
     }
     return match data_type {
-        "int2" => 32767,
-        "int4" => 2147483647,
-        "int8" => 9223372036854775807,
-        _ => panic!(r#"invalid sequence datatype: "{}""#, data_type),
+        "int2" => Some(32767),
+        "int4" => Some(2147483647),
+        "int8" => Some(9223372036854775807),
+        _ => None,
     };
 }
 
-- 
2.43.0

