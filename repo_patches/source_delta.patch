From 0ab0be289918f72548b71d15f4c3c29c4673299b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:17 +0000
Subject: [PATCH 001/120] fix: build against the sqlparser 0.62 API that
 Cargo.toml requires

The SQL planner and expression parser were written for an older sqlparser
AST; the crate did not compile. Adapt the changed types and reject the
new, unsupported constructs with an error.
---
 src/sql/execution/expression_parser.rs | 20 ++++++++---
 src/sql/planner/plan_builder.rs        | 50 +++++++++++++++++++++++---
 src/sql/planner/query_planner.rs       |  2 ++
 3 files changed, 62 insertions(+), 10 deletions(-)

diff --git a/src/sql/execution/expression_parser.rs b/src/sql/execution/expression_parser.rs
index a5fef37..1d292ae 100644
--- a/src/sql/execution/expression_parser.rs
+++ b/src/sql/execution/expression_parser.rs
@@ -933,7 +933,7 @@ impl ExpressionParser {
                 let parsed_pattern = Arc::new(self.parse_expression(pattern, schema)?);
 
                 // Convert Option<Value> to Option<String>
-                let escape_string = escape_char.as_ref().and_then(|val| match val {
+                let escape_string = escape_char.as_ref().and_then(|val| match &val.value {
                     sqlparser::ast::Value::SingleQuotedString(s) => Some(s.clone()),
                     sqlparser::ast::Value::DoubleQuotedString(s) => Some(s.clone()),
                     sqlparser::ast::Value::EscapedStringLiteral(s) => Some(s.clone()),
@@ -1107,7 +1107,7 @@ impl ExpressionParser {
                     }),
                     CeilFloorKind::Scale(scale_expr) => {
                         let scale_expr = Expr::Value(ValueWithSpan {
-                            value: scale_expr.clone(),
+                            value: scale_expr.value.clone(),
                             span: Span {
                                 start: Location::new(0, 0),
                                 end: Location::new(0, 0),
@@ -1172,7 +1172,7 @@ impl ExpressionParser {
                     }),
                     CeilFloorKind::Scale(scale_expr) => {
                         let scale_expr = Expr::Value(ValueWithSpan {
-                            value: scale_expr.clone(),
+                            value: scale_expr.value.clone(),
                             span: Span {
                                 start: Location::new(0, 0),
                                 end: Location::new(0, 0),
@@ -1529,7 +1529,7 @@ impl ExpressionParser {
                 pattern,
                 escape_char,
             } => {
-                let escape_char = escape_char.as_ref().and_then(|val| match val {
+                let escape_char = escape_char.as_ref().and_then(|val| match &val.value {
                     sqlparser::ast::Value::SingleQuotedString(s) => s.chars().next(),
                     sqlparser::ast::Value::DoubleQuotedString(s) => s.chars().next(),
                     sqlparser::ast::Value::EscapedStringLiteral(s) => s.chars().next(),
@@ -1552,7 +1552,7 @@ impl ExpressionParser {
                 pattern,
                 escape_char,
             } => {
-                let escape_char = escape_char.as_ref().and_then(|val| match val {
+                let escape_char = escape_char.as_ref().and_then(|val| match &val.value {
                     sqlparser::ast::Value::SingleQuotedString(s) => s.chars().next(),
                     sqlparser::ast::Value::DoubleQuotedString(s) => s.chars().next(),
                     sqlparser::ast::Value::EscapedStringLiteral(s) => s.chars().next(),
@@ -2310,6 +2310,9 @@ impl ExpressionParser {
             SelectItem::Wildcard(_) | SelectItem::QualifiedWildcard(_, _) => {
                 Err("Wildcards are not supported in subqueries".to_string())
             },
+            SelectItem::ExprWithAliases { .. } => {
+                Err("Multiple aliases for one expression are not supported".to_string())
+            },
         }
     }
 
@@ -2518,6 +2521,9 @@ impl ExpressionParser {
                 )?;
                 Ok((predicate, join_operator.clone()))
             },
+            JoinOperator::ArrayJoin
+            | JoinOperator::LeftArrayJoin
+            | JoinOperator::InnerArrayJoin => Err("ARRAY JOIN is not supported".to_string()),
             JoinOperator::StraightJoin(constraint) => {
                 // Treat like INNER JOIN
                 let predicate = self.process_join_constraint(
@@ -3548,6 +3554,9 @@ impl ExpressionParser {
                                 FunctionArgExpr::QualifiedWildcard(_) => {
                                     return Err("Qualified wildcard in function arguments not yet supported".to_string());
                                 },
+                                FunctionArgExpr::WildcardWithOptions(_) => {
+                                    return Err("Wildcard options in function arguments not yet supported".to_string());
+                                },
                                 FunctionArgExpr::Wildcard => {
                                     // Allow wildcard for COUNT(*), it will be handled specially in parse_function
                                     continue;
@@ -4076,6 +4085,7 @@ impl ExpressionParser {
         match table {
             TableObject::TableName(obj_name) => self.extract_table_name(obj_name),
             TableObject::TableFunction(_) => Err("Table functions are not supported".to_string()),
+            TableObject::TableQuery(_) => Err("Table queries are not supported".to_string()),
         }
     }
 
diff --git a/src/sql/planner/plan_builder.rs b/src/sql/planner/plan_builder.rs
index cf55866..b65afa6 100644
--- a/src/sql/planner/plan_builder.rs
+++ b/src/sql/planner/plan_builder.rs
@@ -304,8 +304,9 @@ impl LogicalPlanBuilder {
             },
             SetExpr::Query(nested_query) => self.build_query_plan(nested_query)?,
             SetExpr::Values(values) => {
-                let schema = self.schema_manager.create_values_schema(&values.rows)?;
-                self.build_values_plan(&values.rows, &schema)?
+                let rows = Self::values_rows(values);
+                let schema = self.schema_manager.create_values_schema(&rows)?;
+                self.build_values_plan(&rows, &schema)?
             },
             SetExpr::Update(update_stmt) => match update_stmt {
                 Statement::Update(update) => self.build_update_plan(
@@ -557,6 +558,11 @@ impl LogicalPlanBuilder {
                         agg_exprs.push(Arc::new(parsed_expr));
                     }
                 },
+                SelectItem::ExprWithAliases { .. } => {
+                    return Err(
+                        "Multiple aliases for one expression are not supported".to_string()
+                    );
+                },
                 SelectItem::Wildcard(_) | SelectItem::QualifiedWildcard(_, _) => {
                     // We'll check for wildcards after determining if there are aggregates
                     // No action needed here
@@ -875,6 +881,11 @@ impl LogicalPlanBuilder {
                         }
                     }
                 },
+                SelectItem::ExprWithAliases { .. } => {
+                    return Err(
+                        "Multiple aliases for one expression are not supported".to_string()
+                    );
+                },
                 SelectItem::Wildcard(_) | SelectItem::QualifiedWildcard(_, _) => {
                     // This should have been caught earlier, but just in case
                     return Err("Wildcard projections are not supported with GROUP BY".to_string());
@@ -926,6 +937,11 @@ impl LogicalPlanBuilder {
         for (i, item) in projection.iter().enumerate() {
             debug!("Processing projection item {}: {:?}", i, item);
             match item {
+                SelectItem::ExprWithAliases { .. } => {
+                    return Err(
+                        "Multiple aliases for one expression are not supported".to_string()
+                    );
+                },
                 SelectItem::UnnamedExpr(expr) => {
                     debug!("Processing unnamed expression: {:?}", expr);
                     // Use the provided schema for parsing expressions
@@ -1576,6 +1592,11 @@ impl LogicalPlanBuilder {
                     return Err("OUTER APPLY joins are not yet supported".to_string());
                 },
                 // Time-series join variant
+                JoinOperator::ArrayJoin
+                | JoinOperator::LeftArrayJoin
+                | JoinOperator::InnerArrayJoin => {
+                    return Err("ARRAY JOIN is not supported".to_string());
+                },
                 JoinOperator::AsOf { .. } => {
                     return Err("AS OF joins are not yet supported".to_string());
                 },
@@ -1819,6 +1840,7 @@ impl LogicalPlanBuilder {
         let transaction_kind = match transaction {
             Some(BeginTransactionKind::Transaction) => "TRANSACTION",
             Some(BeginTransactionKind::Work) => "WORK",
+            Some(BeginTransactionKind::Tran) => "TRAN",
             None => "",
         };
 
@@ -2403,7 +2425,10 @@ impl LogicalPlanBuilder {
                         if i < 3 {
                             // Limit to first few items for brevity
                             match item {
-                                SelectItem::UnnamedExpr(expr) => proj_str.push(expr.to_string()),
+                                SelectItem::UnnamedExpr(_)
+                                | SelectItem::ExprWithAliases { .. } => {
+                                    proj_str.push(item.to_string())
+                                },
                                 SelectItem::ExprWithAlias { expr, alias } => {
                                     proj_str.push(format!("{} AS {}", expr, alias.value));
                                 },
@@ -3085,6 +3110,9 @@ impl LogicalPlanBuilder {
             TableObject::TableFunction(_) => {
                 return Err("Table functions are not supported in INSERT statements".to_string());
             },
+            TableObject::TableQuery(_) => {
+                return Err("Table queries are not supported in INSERT".to_string());
+            },
         };
 
         // Get table info from catalog
@@ -3102,7 +3130,12 @@ impl LogicalPlanBuilder {
             // If explicit columns are specified, create a schema with only those columns
             let mut columns = Vec::new();
             for column_ident in &insert.columns {
-                let column_name = column_ident.value.clone();
+                let column_name = column_ident
+                    .0
+                    .last()
+                    .and_then(|part| part.as_ident())
+                    .map(|ident| ident.value.clone())
+                    .ok_or_else(|| format!("Invalid column name '{}'", column_ident))?;
                 let column_index = full_schema.get_column_index(&column_name).ok_or_else(|| {
                     format!(
                         "Column '{}' does not exist in table '{}'",
@@ -3123,7 +3156,9 @@ impl LogicalPlanBuilder {
         // Plan the source (VALUES or SELECT)
         let source_plan = match &insert.source {
             Some(query) => match &*query.body {
-                SetExpr::Values(values) => self.build_values_plan(&values.rows, &values_schema)?,
+                SetExpr::Values(values) => {
+                    self.build_values_plan(&Self::values_rows(values), &values_schema)?
+                },
                 SetExpr::Select(select) => {
                     let select_plan = self.build_select_plan(select)?;
                     if !self
@@ -3314,4 +3349,9 @@ impl LogicalPlanBuilder {
 
         Ok(LogicalPlan::values(value_rows, schema.clone()))
     }
+
+    /// Copies the rows of a VALUES list out of the parser's `Parens` wrappers.
+    fn values_rows(values: &Values) -> Vec<Vec<Expr>> {
+        values.rows.iter().map(|row| row.content.clone()).collect()
+    }
 }
diff --git a/src/sql/planner/query_planner.rs b/src/sql/planner/query_planner.rs
index f6bfa4b..21026aa 100644
--- a/src/sql/planner/query_planner.rs
+++ b/src/sql/planner/query_planner.rs
@@ -437,6 +437,8 @@ impl QueryPlanner {
                 catalog_sync_namespace_flatten_delimiter: _catalog_sync_namespace_flatten_delimiter,
                 with_tags: _with_tags,
                 with_contacts: _with_contacts,
+                default_charset: _default_charset,
+                default_collation: _default_collation,
             } => self.plan_builder.build_create_database_plan(
                 db_name,
                 if_not_exists,
-- 
2.43.0


From 8bcf5d02a57c37552a0bdce115c9f49dcac9b57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:46 +0000
Subject: [PATCH 002/120] fix: grant queued locks to waiters without
 self-deadlock and keep upgrades compatible

Releasing a lock while another request was queued locked the request's mutex
twice and hung. Waiters were granted without entering their lock set, upgrades
ignored (and dropped) what was held, and a finished transaction's queued
requests stayed behind.
---
 src/concurrency/lock_manager.rs | 344 +++++++++++++++++++-------------
 1 file changed, 204 insertions(+), 140 deletions(-)

diff --git a/src/concurrency/lock_manager.rs b/src/concurrency/lock_manager.rs
index 3b0d102..16dbfed 100644
--- a/src/concurrency/lock_manager.rs
+++ b/src/concurrency/lock_manager.rs
@@ -163,8 +163,7 @@ use std::sync::Arc;
 use std::sync::atomic::{AtomicBool, Ordering};
 use std::{fmt, thread};
 
-use parking_lot::lock_api::MutexGuard;
-use parking_lot::{Condvar, Mutex, RawMutex};
+use parking_lot::{Condvar, Mutex};
 
 use crate::common::config::{INVALID_TXN_ID, TableOidT, TxnId};
 use crate::common::exception::LockError;
@@ -357,6 +356,17 @@ impl LockRequest {
         self.lock_mode
     }
 
+    /// A waiting copy of this request, to check without holding the request's mutex.
+    fn waiting_copy(&self) -> Self {
+        Self {
+            txn_id: self.txn_id,
+            lock_mode: self.lock_mode,
+            oid: self.oid,
+            rid: self.rid,
+            granted: false,
+        }
+    }
+
     /// Checks if this lock request has been granted.
     pub fn is_granted(&self) -> bool {
         self.granted
@@ -389,45 +399,20 @@ impl LockRequestQueue {
             return false;
         }
 
-        // Check existing locks by this transaction
-        let has_lock = false;
         for existing_req in &self.request_queue {
             let existing = existing_req.lock();
-            if existing.is_granted() && existing.get_txn_id() == txn_id {
-                //has_lock = true;
-                // Check if this is a valid lock upgrade
-                return match (existing.get_lock_mode(), new_mode) {
-                    // IS -> [S, X, IX, SIX]
-                    (LockMode::IntentionShared, _) => true,
-                    // S -> [X, SIX]
-                    (
-                        LockMode::Shared,
-                        LockMode::Exclusive | LockMode::SharedIntentionExclusive,
-                    ) => true,
-                    // IX -> [X, SIX]
-                    (
-                        LockMode::IntentionExclusive,
-                        LockMode::Exclusive | LockMode::SharedIntentionExclusive,
-                    ) => true,
-                    // SIX -> [X]
-                    (LockMode::SharedIntentionExclusive, LockMode::Exclusive) => true,
-                    // Same mode - already granted
-                    (mode1, mode2) if mode1 == mode2 => true,
-                    // Invalid upgrade
-                    _ => false,
-                };
+            if !existing.is_granted() {
+                continue;
             }
-        }
-
-        // If this transaction doesn't have a lock yet, check compatibility with all granted locks
-        if !has_lock {
-            for existing_req in &self.request_queue {
-                let existing = existing_req.lock();
-                if existing.is_granted()
-                    && !LockCompatibilityChecker::are_compatible(existing.get_lock_mode(), new_mode)
-                {
+            if existing.get_txn_id() == txn_id {
+                let held = existing.get_lock_mode();
+                if !LockCompatibilityChecker::can_upgrade(held, new_mode) {
                     return false;
                 }
+            } else if !LockCompatibilityChecker::are_compatible(existing.get_lock_mode(), new_mode)
+            {
+                // An upgrade, like a first lock, must respect the locks other transactions hold
+                return false;
             }
         }
         true
@@ -439,54 +424,127 @@ impl LockRequestQueue {
         let lock_mode = request.lock().get_lock_mode();
 
         // Check for existing locks by this transaction
-        let mut existing_lock = None;
-        for (i, existing_req) in self.request_queue.iter().enumerate() {
+        let mut held = Vec::new();
+        for existing_req in &self.request_queue {
             let existing = existing_req.lock();
-            if existing.is_granted() && existing.get_txn_id() == txn_id {
-                if existing.get_lock_mode() == lock_mode {
-                    return true; // Already have this lock
-                }
-                existing_lock = Some((i, existing.get_lock_mode()));
-                break;
+            if existing.get_txn_id() != txn_id {
+                continue;
             }
-        }
-
-        // Handle lock upgrade if needed
-        if let Some((i, old_mode)) = existing_lock {
-            // Check if upgrade is allowed
-            match (old_mode, lock_mode) {
-                // Keep both locks for valid combinations
-                (LockMode::IntentionShared, LockMode::Shared)
-                | (LockMode::IntentionExclusive, LockMode::Exclusive) => {
-                    // Don't remove the intention lock, just add the new lock
-                },
-                // For other upgrades, remove the old lock
-                _ => {
-                    if self.upgrading != INVALID_TXN_ID && self.upgrading != txn_id {
-                        return false; // Another transaction is upgrading
-                    }
-                    self.upgrading = txn_id;
-                    self.request_queue.remove(i);
-                },
+            if existing.is_granted() {
+                held.push(existing.get_lock_mode());
+            } else if existing.get_lock_mode() == lock_mode {
+                return false; // Already waiting for this lock
             }
         }
+        if held
+            .iter()
+            .any(|mode| LockCompatibilityChecker::covers(*mode, lock_mode))
+        {
+            return true; // Already have this lock, or a stronger one
+        }
+        if !held
+            .iter()
+            .all(|mode| LockCompatibilityChecker::can_upgrade(*mode, lock_mode))
+        {
+            return false; // Not an upgrade path: waiting would never help
+        }
 
         // Check compatibility with existing locks
-        if self.compatible_with_existing_locks(&request.lock()) {
+        let probe = request.lock().waiting_copy();
+        if self.compatible_with_existing_locks(&probe) {
             // Grant the new lock
             self.request_queue.push_back(request.clone());
-            request.lock().granted = true;
-            if self.upgrading == txn_id {
-                self.upgrading = INVALID_TXN_ID;
-            }
+            self.mark_granted(&request);
             self.cv.notify_all();
             return true;
         }
 
+        if !held.is_empty() {
+            if self.upgrading != INVALID_TXN_ID && self.upgrading != txn_id {
+                return false; // Another transaction is upgrading
+            }
+            // The lock already held stays in place until the upgrade is granted
+            self.upgrading = txn_id;
+        }
+
         // Add request to queue but don't grant it yet
         self.request_queue.push_back(request);
         false
     }
+
+    /// Marks a queued request as granted, dropping the weaker lock it upgrades (if any).
+    fn mark_granted(&mut self, request: &Arc<Mutex<LockRequest>>) {
+        let (txn_id, lock_mode) = {
+            let mut req = request.lock();
+            req.granted = true;
+            (req.get_txn_id(), req.get_lock_mode())
+        };
+        self.request_queue.retain(|other| {
+            if Arc::ptr_eq(other, request) {
+                return true;
+            }
+            let other = other.lock();
+            if other.get_txn_id() != txn_id || !other.is_granted() {
+                return true;
+            }
+            // An intention lock stays next to the S / X lock acquired on top of it
+            matches!(
+                (other.get_lock_mode(), lock_mode),
+                (LockMode::IntentionShared, LockMode::Shared)
+                    | (LockMode::IntentionExclusive, LockMode::Exclusive)
+            )
+        });
+        if self.upgrading == txn_id {
+            self.upgrading = INVALID_TXN_ID;
+        }
+    }
+
+    /// Removes every request of a transaction, granted or waiting.
+    ///
+    /// Returns `true` if the transaction held a granted lock.
+    fn remove_txn(&mut self, txn_id: TxnId) -> bool {
+        let mut held = false;
+        self.request_queue.retain(|req| {
+            let req = req.lock();
+            if req.get_txn_id() == txn_id {
+                held |= req.is_granted();
+                return false;
+            }
+            true
+        });
+        if self.upgrading == txn_id {
+            self.upgrading = INVALID_TXN_ID;
+        }
+        held
+    }
+
+    /// Grants every waiting request that has become compatible, in queue order.
+    ///
+    /// Returns the transactions that were granted a lock.
+    fn grant_waiting(&mut self) -> Vec<TxnId> {
+        let mut granted = Vec::new();
+        loop {
+            let before = granted.len();
+            let waiting: Vec<_> = self
+                .request_queue
+                .iter()
+                .filter(|req| !req.lock().is_granted())
+                .cloned()
+                .collect();
+            for request in waiting {
+                let probe = request.lock().waiting_copy();
+                if self.compatible_with_existing_locks(&probe) {
+                    self.mark_granted(&request);
+                    granted.push(probe.txn_id);
+                }
+            }
+            if granted.len() == before {
+                break;
+            }
+        }
+        self.cv.notify_all();
+        granted
+    }
 }
 
 impl Default for DeadlockDetector {
@@ -716,33 +774,16 @@ impl LockStateManager {
         if let Some(queue) = table_locks.get(&oid) {
             let mut queue_guard = queue.lock();
 
-            // Find and remove the lock request
-            if let Some(pos) = queue_guard.request_queue.iter().position(|req| {
-                let req = req.lock();
-                req.get_txn_id() == txn_id && req.is_granted()
-            }) {
-                // Remove the lock request
-                queue_guard.request_queue.remove(pos);
-
-                // Update transaction's lock set
+            // Remove the lock request
+            if queue_guard.remove_txn(txn_id) {
+                // Update the lock sets of the releaser and of the waiters granted in its place
                 let mut txn_locks = self.txn_lock_sets.lock();
                 if let Some(lock_state) = txn_locks.get_mut(&txn_id) {
                     lock_state.table_locks.remove(&oid);
                 }
-
-                // Try to grant waiting locks
-                let mut i = 0;
-                while i < queue_guard.request_queue.len() {
-                    let request = queue_guard.request_queue[i].clone();
-                    if !request.lock().is_granted()
-                        && queue_guard.compatible_with_existing_locks(&request.lock())
-                    {
-                        request.lock().granted = true;
-                    }
-                    i += 1;
+                for waiter in queue_guard.grant_waiting() {
+                    Self::lock_state_of(&mut txn_locks, waiter).table_locks.insert(oid);
                 }
-                queue_guard.cv.notify_all();
-
                 return Ok(());
             }
         }
@@ -757,21 +798,18 @@ impl LockStateManager {
         if let Some(queue) = row_locks.get(&rid) {
             let mut queue_guard = queue.lock();
 
-            // Find and remove the lock request
-            if let Some(pos) = queue_guard.request_queue.iter().position(|req| {
-                let req = req.lock();
-                req.get_txn_id() == txn_id && req.is_granted()
-            }) {
-                queue_guard.request_queue.remove(pos);
-
-                // Update transaction's lock set
+            // Remove the lock request
+            if queue_guard.remove_txn(txn_id) {
+                // Update the lock sets of the releaser and of the waiters granted in its place
                 let mut txn_locks = self.txn_lock_sets.lock();
                 if let Some(lock_state) = txn_locks.get_mut(&txn_id) {
                     lock_state.row_locks.remove(&(rid.get_page_id(), rid));
                 }
-
-                // Try to grant waiting locks
-                self.grant_waiting_locks(&mut queue_guard);
+                for waiter in queue_guard.grant_waiting() {
+                    Self::lock_state_of(&mut txn_locks, waiter)
+                        .row_locks
+                        .insert((rid.get_page_id(), rid));
+                }
                 return Ok(());
             }
         }
@@ -781,26 +819,18 @@ impl LockStateManager {
 
     /// Force releases all locks held by the given transaction without mutating the transaction state.
     pub fn force_release_txn(&self, txn_id: TxnId) -> Result<(), LockError> {
-        // Snapshot locks held by the transaction.
-        let (table_locks, row_locks_for_txn) = {
-            let txn_locks = self.txn_lock_sets.lock();
-            if let Some(state) = txn_locks.get(&txn_id) {
-                (state.table_locks.clone(), state.row_locks.clone())
-            } else {
-                return Ok(()); // Nothing to release
-            }
-        };
-
-        // Release row locks first to avoid table-lock ordering issues.
+        // Release row locks first to avoid table-lock ordering issues. Every queue is visited:
+        // requests still waiting are not part of the transaction's lock set.
         {
             let row_locks = self.row_locks.lock();
-            for (_, rid) in row_locks_for_txn.iter() {
-                if let Some(queue) = row_locks.get(rid) {
-                    let mut queue_guard = queue.lock();
-                    queue_guard
-                        .request_queue
-                        .retain(|req| req.lock().get_txn_id() != txn_id);
-                    self.grant_waiting_locks(&mut queue_guard);
+            for (rid, queue) in row_locks.iter() {
+                let mut queue_guard = queue.lock();
+                queue_guard.remove_txn(txn_id);
+                let mut txn_locks = self.txn_lock_sets.lock();
+                for waiter in queue_guard.grant_waiting() {
+                    Self::lock_state_of(&mut txn_locks, waiter)
+                        .row_locks
+                        .insert((rid.get_page_id(), *rid));
                 }
             }
         }
@@ -808,13 +838,14 @@ impl LockStateManager {
         // Release table locks.
         {
             let table_locks_map = self.table_lock_map.lock();
-            for oid in table_locks.iter() {
-                if let Some(queue) = table_locks_map.get(oid) {
-                    let mut queue_guard = queue.lock();
-                    queue_guard
-                        .request_queue
-                        .retain(|req| req.lock().get_txn_id() != txn_id);
-                    self.grant_waiting_locks(&mut queue_guard);
+            for (oid, queue) in table_locks_map.iter() {
+                let mut queue_guard = queue.lock();
+                queue_guard.remove_txn(txn_id);
+                let mut txn_locks = self.txn_lock_sets.lock();
+                for waiter in queue_guard.grant_waiting() {
+                    Self::lock_state_of(&mut txn_locks, waiter)
+                        .table_locks
+                        .insert(*oid);
                 }
             }
         }
@@ -826,20 +857,15 @@ impl LockStateManager {
         Ok(())
     }
 
-    /// Attempts to grant locks to waiting transactions
-    fn grant_waiting_locks(&self, queue: &mut MutexGuard<RawMutex, LockRequestQueue>) {
-        let mut i = 0;
-        while i < queue.request_queue.len() {
-            let request = queue.request_queue[i].clone();
-            if !request.lock().is_granted() && queue.compatible_with_existing_locks(&request.lock())
-            {
-                request.lock().granted = true;
-                // Don't increment i since we want to check the next request
-            } else {
-                i += 1;
-            }
-        }
-        queue.cv.notify_all();
+    /// Returns the lock set of a transaction, creating it if needed.
+    fn lock_state_of(
+        txn_locks: &mut HashMap<TxnId, TxnLockState>,
+        txn_id: TxnId,
+    ) -> &mut TxnLockState {
+        txn_locks.entry(txn_id).or_insert_with(|| TxnLockState {
+            table_locks: HashSet::new(),
+            row_locks: HashSet::new(),
+        })
     }
 
     /// Checks if a transaction has a lock on a table
@@ -868,6 +894,44 @@ impl LockStateManager {
 }
 
 impl LockCompatibilityChecker {
+    /// Checks if a transaction holding `held` may upgrade it to `requested`.
+    fn can_upgrade(held: LockMode, requested: LockMode) -> bool {
+        match (held, requested) {
+            // IS -> [S, X, IX, SIX]
+            (LockMode::IntentionShared, _) => true,
+            // S -> [X, SIX]
+            (LockMode::Shared, LockMode::Exclusive | LockMode::SharedIntentionExclusive) => true,
+            // IX -> [X, SIX]
+            (
+                LockMode::IntentionExclusive,
+                LockMode::Exclusive | LockMode::SharedIntentionExclusive,
+            ) => true,
+            // SIX -> [X]
+            (LockMode::SharedIntentionExclusive, LockMode::Exclusive) => true,
+            // Same mode - already granted
+            (mode1, mode2) if mode1 == mode2 => true,
+            // Invalid upgrade
+            _ => false,
+        }
+    }
+
+    /// Checks if holding `held` already gives everything `requested` would.
+    fn covers(held: LockMode, requested: LockMode) -> bool {
+        held == requested
+            || matches!(
+                (held, requested),
+                (LockMode::Exclusive, _)
+                    | (
+                        LockMode::SharedIntentionExclusive,
+                        LockMode::Shared
+                            | LockMode::IntentionExclusive
+                            | LockMode::IntentionShared
+                    )
+                    | (LockMode::Shared, LockMode::IntentionShared)
+                    | (LockMode::IntentionExclusive, LockMode::IntentionShared)
+            )
+    }
+
     /// Checks if two lock modes are compatible (can be held simultaneously).
     ///
     /// See module-level documentation for the full compatibility matrix.
-- 
2.43.0


From e18efef1b0f786162ee87bcf4603a95b70f727db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:03 +0000
Subject: [PATCH 003/120] fix: record row locks under their table instead of
 their page id

unlock_row returned NoLockHeld (and aborted the transaction) unless the table
oid happened to equal the row's page id, and unlock_table never saw the rows.
---
 src/concurrency/lock_manager.rs | 50 +++++++++++++++++++--------------
 1 file changed, 29 insertions(+), 21 deletions(-)

diff --git a/src/concurrency/lock_manager.rs b/src/concurrency/lock_manager.rs
index 16dbfed..cb9effe 100644
--- a/src/concurrency/lock_manager.rs
+++ b/src/concurrency/lock_manager.rs
@@ -520,8 +520,8 @@ impl LockRequestQueue {
 
     /// Grants every waiting request that has become compatible, in queue order.
     ///
-    /// Returns the transactions that were granted a lock.
-    fn grant_waiting(&mut self) -> Vec<TxnId> {
+    /// Returns the transactions that were granted a lock and the table it belongs to.
+    fn grant_waiting(&mut self) -> Vec<(TxnId, TableOidT)> {
         let mut granted = Vec::new();
         loop {
             let before = granted.len();
@@ -535,7 +535,7 @@ impl LockRequestQueue {
                 let probe = request.lock().waiting_copy();
                 if self.compatible_with_existing_locks(&probe) {
                     self.mark_granted(&request);
-                    granted.push(probe.txn_id);
+                    granted.push((probe.txn_id, probe.oid));
                 }
             }
             if granted.len() == before {
@@ -740,17 +740,20 @@ impl LockStateManager {
     ///
     /// # Returns
     /// `true` if the lock was granted, `false` if it must wait.
-    pub fn grant_row_lock(&self, txn_id: TxnId, lock_mode: LockMode, rid: RID) -> bool {
+    pub fn grant_row_lock(
+        &self,
+        txn_id: TxnId,
+        lock_mode: LockMode,
+        oid: TableOidT,
+        rid: RID,
+    ) -> bool {
         let mut row_locks = self.row_locks.lock();
         let queue = row_locks
             .entry(rid)
             .or_insert_with(|| Arc::new(Mutex::new(LockRequestQueue::new())));
 
         let request = Arc::new(Mutex::new(LockRequest::new_row_request(
-            txn_id,
-            lock_mode,
-            rid.get_page_id(),
-            rid,
+            txn_id, lock_mode, oid, rid,
         )));
         let granted = queue.lock().grant_lock(request.clone());
 
@@ -761,7 +764,7 @@ impl LockStateManager {
                 table_locks: HashSet::new(),
                 row_locks: HashSet::new(),
             });
-            lock_state.row_locks.insert((rid.get_page_id(), rid));
+            lock_state.row_locks.insert((oid, rid));
         }
 
         granted
@@ -781,7 +784,7 @@ impl LockStateManager {
                 if let Some(lock_state) = txn_locks.get_mut(&txn_id) {
                     lock_state.table_locks.remove(&oid);
                 }
-                for waiter in queue_guard.grant_waiting() {
+                for (waiter, oid) in queue_guard.grant_waiting() {
                     Self::lock_state_of(&mut txn_locks, waiter).table_locks.insert(oid);
                 }
                 return Ok(());
@@ -792,7 +795,12 @@ impl LockStateManager {
     }
 
     /// Releases a row lock
-    pub fn release_row_lock(&self, txn_id: TxnId, rid: RID) -> Result<(), LockError> {
+    pub fn release_row_lock(
+        &self,
+        txn_id: TxnId,
+        oid: TableOidT,
+        rid: RID,
+    ) -> Result<(), LockError> {
         let row_locks = self.row_locks.lock();
 
         if let Some(queue) = row_locks.get(&rid) {
@@ -803,12 +811,12 @@ impl LockStateManager {
                 // Update the lock sets of the releaser and of the waiters granted in its place
                 let mut txn_locks = self.txn_lock_sets.lock();
                 if let Some(lock_state) = txn_locks.get_mut(&txn_id) {
-                    lock_state.row_locks.remove(&(rid.get_page_id(), rid));
+                    lock_state.row_locks.remove(&(oid, rid));
                 }
-                for waiter in queue_guard.grant_waiting() {
+                for (waiter, oid) in queue_guard.grant_waiting() {
                     Self::lock_state_of(&mut txn_locks, waiter)
                         .row_locks
-                        .insert((rid.get_page_id(), rid));
+                        .insert((oid, rid));
                 }
                 return Ok(());
             }
@@ -827,10 +835,10 @@ impl LockStateManager {
                 let mut queue_guard = queue.lock();
                 queue_guard.remove_txn(txn_id);
                 let mut txn_locks = self.txn_lock_sets.lock();
-                for waiter in queue_guard.grant_waiting() {
+                for (waiter, oid) in queue_guard.grant_waiting() {
                     Self::lock_state_of(&mut txn_locks, waiter)
                         .row_locks
-                        .insert((rid.get_page_id(), *rid));
+                        .insert((oid, *rid));
                 }
             }
         }
@@ -838,14 +846,14 @@ impl LockStateManager {
         // Release table locks.
         {
             let table_locks_map = self.table_lock_map.lock();
-            for (oid, queue) in table_locks_map.iter() {
+            for queue in table_locks_map.values() {
                 let mut queue_guard = queue.lock();
                 queue_guard.remove_txn(txn_id);
                 let mut txn_locks = self.txn_lock_sets.lock();
-                for waiter in queue_guard.grant_waiting() {
+                for (waiter, oid) in queue_guard.grant_waiting() {
                     Self::lock_state_of(&mut txn_locks, waiter)
                         .table_locks
-                        .insert(*oid);
+                        .insert(oid);
                 }
             }
         }
@@ -1303,7 +1311,7 @@ impl LockManager {
         // 4. Try to grant the lock
         let granted =
             self.lock_state_manager
-                .grant_row_lock(txn.get_transaction_id(), lock_mode, rid);
+                .grant_row_lock(txn.get_transaction_id(), lock_mode, oid, rid);
 
         if !granted {
             // 5. If not granted, add edge to waits-for graph
@@ -1355,7 +1363,7 @@ impl LockManager {
 
         // 2. Release the lock
         self.lock_state_manager
-            .release_row_lock(txn.get_transaction_id(), rid)?;
+            .release_row_lock(txn.get_transaction_id(), oid, rid)?;
 
         // 3. Update transaction state based on isolation level and lock mode
         match txn.get_isolation_level() {
-- 
2.43.0


From d764a84a26ab4a546a67a485cdd920115fd054d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:38 +0000
Subject: [PATCH 004/120] fix: keep the waits-for graph in step with granted
 and upgraded locks

A waiting upgrade added an edge from the transaction to itself and a granted
waiter kept its edges, so transactions were aborted for cycles that do not
exist.
---
 src/concurrency/lock_manager.rs | 63 ++++++++++++++++++++++++++-------
 1 file changed, 51 insertions(+), 12 deletions(-)

diff --git a/src/concurrency/lock_manager.rs b/src/concurrency/lock_manager.rs
index cb9effe..a119eb7 100644
--- a/src/concurrency/lock_manager.rs
+++ b/src/concurrency/lock_manager.rs
@@ -771,7 +771,13 @@ impl LockStateManager {
     }
 
     /// Releases a table lock
-    pub fn release_table_lock(&self, txn_id: TxnId, oid: TableOidT) -> Result<(), LockError> {
+    ///
+    /// Returns the waiting transactions that were granted the lock in its place.
+    pub fn release_table_lock(
+        &self,
+        txn_id: TxnId,
+        oid: TableOidT,
+    ) -> Result<Vec<TxnId>, LockError> {
         let table_locks = self.table_lock_map.lock();
 
         if let Some(queue) = table_locks.get(&oid) {
@@ -784,10 +790,14 @@ impl LockStateManager {
                 if let Some(lock_state) = txn_locks.get_mut(&txn_id) {
                     lock_state.table_locks.remove(&oid);
                 }
+                let mut granted = Vec::new();
                 for (waiter, oid) in queue_guard.grant_waiting() {
-                    Self::lock_state_of(&mut txn_locks, waiter).table_locks.insert(oid);
+                    Self::lock_state_of(&mut txn_locks, waiter)
+                        .table_locks
+                        .insert(oid);
+                    granted.push(waiter);
                 }
-                return Ok(());
+                return Ok(granted);
             }
         }
 
@@ -795,12 +805,14 @@ impl LockStateManager {
     }
 
     /// Releases a row lock
+    ///
+    /// Returns the waiting transactions that were granted the lock in its place.
     pub fn release_row_lock(
         &self,
         txn_id: TxnId,
         oid: TableOidT,
         rid: RID,
-    ) -> Result<(), LockError> {
+    ) -> Result<Vec<TxnId>, LockError> {
         let row_locks = self.row_locks.lock();
 
         if let Some(queue) = row_locks.get(&rid) {
@@ -813,12 +825,14 @@ impl LockStateManager {
                 if let Some(lock_state) = txn_locks.get_mut(&txn_id) {
                     lock_state.row_locks.remove(&(oid, rid));
                 }
+                let mut granted = Vec::new();
                 for (waiter, oid) in queue_guard.grant_waiting() {
                     Self::lock_state_of(&mut txn_locks, waiter)
                         .row_locks
                         .insert((oid, rid));
+                    granted.push(waiter);
                 }
-                return Ok(());
+                return Ok(granted);
             }
         }
 
@@ -826,7 +840,11 @@ impl LockStateManager {
     }
 
     /// Force releases all locks held by the given transaction without mutating the transaction state.
-    pub fn force_release_txn(&self, txn_id: TxnId) -> Result<(), LockError> {
+    ///
+    /// Returns the waiting transactions that were granted a lock in its place.
+    pub fn force_release_txn(&self, txn_id: TxnId) -> Result<Vec<TxnId>, LockError> {
+        let mut granted = Vec::new();
+
         // Release row locks first to avoid table-lock ordering issues. Every queue is visited:
         // requests still waiting are not part of the transaction's lock set.
         {
@@ -839,6 +857,7 @@ impl LockStateManager {
                     Self::lock_state_of(&mut txn_locks, waiter)
                         .row_locks
                         .insert((oid, *rid));
+                    granted.push(waiter);
                 }
             }
         }
@@ -854,6 +873,7 @@ impl LockStateManager {
                     Self::lock_state_of(&mut txn_locks, waiter)
                         .table_locks
                         .insert(oid);
+                    granted.push(waiter);
                 }
             }
         }
@@ -862,7 +882,7 @@ impl LockStateManager {
         let mut txn_locks = self.txn_lock_sets.lock();
         txn_locks.remove(&txn_id);
 
-        Ok(())
+        Ok(granted)
     }
 
     /// Returns the lock set of a transaction, creating it if needed.
@@ -1119,6 +1139,10 @@ impl LockManager {
         // 1. Validate the lock request
         self.lock_validator.validate_lock_request(&txn, lock_mode)?;
 
+        // Whatever the transaction waited for before, this request replaces it
+        self.deadlock_detector
+            .remove_edge(txn.get_transaction_id());
+
         // 2. Create lock request
         let request = Arc::new(Mutex::new(LockRequest::new_table_request(
             txn.get_transaction_id(),
@@ -1150,7 +1174,7 @@ impl LockManager {
             // 6. If not granted, add edge to waits-for graph
             for existing_req in &queue_guard.request_queue {
                 let existing = existing_req.lock();
-                if existing.granted {
+                if existing.granted && existing.txn_id != txn.get_transaction_id() {
                     self.deadlock_detector
                         .add_edge(txn.get_transaction_id(), existing.txn_id);
                 }
@@ -1199,7 +1223,8 @@ impl LockManager {
         }
 
         // 3. Release the lock
-        self.lock_state_manager
+        let granted = self
+            .lock_state_manager
             .release_table_lock(txn.get_transaction_id(), oid)?;
 
         // 4. Update transaction state based on isolation level and lock mode
@@ -1233,6 +1258,9 @@ impl LockManager {
 
         // 5. Remove edges from waits-for graph
         self.deadlock_detector.remove_edge(txn.get_transaction_id());
+        for waiter in granted {
+            self.deadlock_detector.remove_edge(waiter);
+        }
 
         Ok(true)
     }
@@ -1260,6 +1288,10 @@ impl LockManager {
         // 1. Validate the lock request
         self.lock_validator.validate_lock_request(&txn, lock_mode)?;
 
+        // Whatever the transaction waited for before, this request replaces it
+        self.deadlock_detector
+            .remove_edge(txn.get_transaction_id());
+
         // 2. Check if intention locks are being attempted on row
         match lock_mode {
             LockMode::IntentionShared
@@ -1320,7 +1352,7 @@ impl LockManager {
                 let queue_guard = queue.lock();
                 for request in &queue_guard.request_queue {
                     let req = request.lock();
-                    if req.granted {
+                    if req.granted && req.txn_id != txn.get_transaction_id() {
                         self.deadlock_detector
                             .add_edge(txn.get_transaction_id(), req.txn_id);
                     }
@@ -1362,7 +1394,8 @@ impl LockManager {
         }
 
         // 2. Release the lock
-        self.lock_state_manager
+        let granted = self
+            .lock_state_manager
             .release_row_lock(txn.get_transaction_id(), oid, rid)?;
 
         // 3. Update transaction state based on isolation level and lock mode
@@ -1396,6 +1429,9 @@ impl LockManager {
 
         // 4. Remove edges from waits-for graph
         self.deadlock_detector.remove_edge(txn.get_transaction_id());
+        for waiter in granted {
+            self.deadlock_detector.remove_edge(waiter);
+        }
 
         Ok(true)
     }
@@ -1431,7 +1467,10 @@ impl LockManager {
     pub fn force_release_txn(&self, txn_id: TxnId) -> Result<(), LockError> {
         // Remove waits-for edges for this transaction as it no longer blocks others.
         self.deadlock_detector.remove_edge(txn_id);
-        self.lock_state_manager.force_release_txn(txn_id)
+        for waiter in self.lock_state_manager.force_release_txn(txn_id)? {
+            self.deadlock_detector.remove_edge(waiter);
+        }
+        Ok(())
     }
 
     /// Checks if this transaction was selected as a deadlock victim.
-- 
2.43.0


From fad16a5209ab86b73bfbd0c9bd2bc42413e41f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:38 +0000
Subject: [PATCH 005/120] fix: stop the deadlock detection thread when its lock
 manager is dropped

---
 src/concurrency/lock_manager.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/concurrency/lock_manager.rs b/src/concurrency/lock_manager.rs
index a119eb7..7a779bd 100644
--- a/src/concurrency/lock_manager.rs
+++ b/src/concurrency/lock_manager.rs
@@ -553,6 +553,15 @@ impl Default for DeadlockDetector {
     }
 }
 
+impl Drop for DeadlockDetector {
+    fn drop(&mut self) {
+        // Only the owner of the thread stops it: clones share the flag but not the handle
+        if self.detection_thread.is_some() {
+            self.enable_detection.store(false, Ordering::SeqCst);
+        }
+    }
+}
+
 impl DeadlockDetector {
     /// Creates a new deadlock detector (detection thread not started).
     pub fn new() -> Self {
-- 
2.43.0


From cc08615698b042fc1b83d39645ccc90c5e360d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:23 +0000
Subject: [PATCH 006/120] fix: refuse locks to finished transactions and after
 the first release under SERIALIZABLE

---
 src/concurrency/lock_manager.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/concurrency/lock_manager.rs b/src/concurrency/lock_manager.rs
index 7a779bd..791825d 100644
--- a/src/concurrency/lock_manager.rs
+++ b/src/concurrency/lock_manager.rs
@@ -1032,11 +1032,20 @@ impl LockValidator {
         txn: &Transaction,
         lock_mode: LockMode,
     ) -> Result<(), LockError> {
+        // A finished transaction never acquires locks, whatever its isolation level
+        match txn.get_state() {
+            TransactionState::Aborted | TransactionState::Tainted => {
+                return Err(LockError::TransactionAborted);
+            },
+            TransactionState::Committed => return Err(LockError::TransactionCommitted),
+            _ => {},
+        }
         match txn.get_isolation_level() {
             IsolationLevel::ReadUncommitted => self.validate_read_uncommitted(txn, lock_mode),
             IsolationLevel::ReadCommitted => self.validate_read_committed(txn, lock_mode),
             IsolationLevel::RepeatableRead => self.validate_repeatable_read(txn, lock_mode),
-            IsolationLevel::Serializable => Ok(()),
+            // Serializable is two-phase as well: no lock after the first release
+            IsolationLevel::Serializable => self.validate_repeatable_read(txn, lock_mode),
             IsolationLevel::Snapshot => self.validate_snapshot(txn, lock_mode),
         }
     }
-- 
2.43.0


From 3d5599c5b74f92c2950c46f41ff3b769d5342ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:08 +0000
Subject: [PATCH 007/120] fix: leave a deadlock victim's selection for the
 victim to find

Any waiter's poll cleared the selection, so the chosen transaction never learnt
of it and the cycle stayed.
---
 src/concurrency/lock_manager.rs | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/concurrency/lock_manager.rs b/src/concurrency/lock_manager.rs
index 791825d..78aa5a0 100644
--- a/src/concurrency/lock_manager.rs
+++ b/src/concurrency/lock_manager.rs
@@ -606,21 +606,26 @@ impl DeadlockDetector {
 
                 // Check for cycles
                 let mut abort_txn = INVALID_TXN_ID;
-                if Self::find_cycle_in_graph(&graph, &mut abort_txn) {
-                    // Update the latest transaction to abort
-                    let mut latest = latest_abort_txn.lock();
-                    *latest = Some(abort_txn);
-                }
+                let found = Self::find_cycle_in_graph(&graph, &mut abort_txn);
+
+                // Update the latest transaction to abort (none once the cycle is gone)
+                *latest_abort_txn.lock() = found.then_some(abort_txn);
 
                 thread::sleep(std::time::Duration::from_millis(50));
             }
         }));
     }
 
-    /// Returns and clears the latest transaction selected for deadlock abortion.
-    pub fn get_and_clear_abort_txn(&self) -> Option<TxnId> {
+    /// Returns `true`, clearing the selection, if `txn_id` was selected for deadlock abortion.
+    ///
+    /// The selection of another transaction is left for that transaction to find.
+    pub fn take_abort_of(&self, txn_id: TxnId) -> bool {
         let mut latest = self.latest_abort_txn.lock();
-        latest.take()
+        if *latest == Some(txn_id) {
+            *latest = None;
+            return true;
+        }
+        false
     }
 
     /// Checks if there is a cycle in the waits-for graph.
@@ -1495,8 +1500,9 @@ impl LockManager {
     ///
     /// If so, sets the transaction state to Aborted and returns `Ok(true)`.
     pub fn check_deadlock(&self, txn: Arc<Transaction>) -> Result<bool, LockError> {
-        if let Some(abort_txn) = self.deadlock_detector.get_and_clear_abort_txn()
-            && abort_txn == txn.get_transaction_id()
+        if self
+            .deadlock_detector
+            .take_abort_of(txn.get_transaction_id())
         {
             txn.set_state(TransactionState::Aborted);
             return Ok(true);
-- 
2.43.0


From 76082a4e754d0d769b5b8186b0164420c884b105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:53 +0000
Subject: [PATCH 008/120] fix: keep a table page's image, free space and slots
 consistent through updates, metadata growth and reloads

---
 src/storage/page/page_types/table_page.rs | 192 ++++++++++------------
 src/storage/table/tuple.rs                |   4 +
 2 files changed, 94 insertions(+), 102 deletions(-)

diff --git a/src/storage/page/page_types/table_page.rs b/src/storage/page/page_types/table_page.rs
index 7712c2e..2dba362 100644
--- a/src/storage/page/page_types/table_page.rs
+++ b/src/storage/page/page_types/table_page.rs
@@ -227,6 +227,7 @@ impl Page for TablePage {
         };
         page.data[PAGE_TYPE_OFFSET] = Self::TYPE_ID as u8;
         page.data[PAGE_ID_OFFSET..PAGE_ID_OFFSET + 8].copy_from_slice(&page_id.to_le_bytes());
+        page.sync_metadata();
 
         page
     }
@@ -242,10 +243,18 @@ impl TablePage {
         self.tuple_info.clear();
         self.is_dirty = false;
         self.data[PAGE_TYPE_OFFSET] = Self::TYPE_ID as u8;
+        self.sync_metadata();
+    }
+
+    /// Re-encodes the header and slot array into the page image, which is what the buffer pool
+    /// writes out. Must follow every change to `header` or `tuple_info`.
+    fn sync_metadata(&mut self) {
+        let image = self.serialize();
+        self.data.copy_from_slice(&image);
     }
 
     /// Gets the next offset to insert a tuple.
-    pub fn get_next_tuple_offset(&self, meta: &TupleMeta, tuple: &Tuple) -> Option<u16> {
+    pub fn get_next_tuple_offset(&self, _meta: &TupleMeta, tuple: &Tuple) -> Option<u16> {
         // First check if the tuple is too large for any page
         if self.is_tuple_too_large(tuple) {
             debug!("Tuple is too large for any page, rejecting");
@@ -268,15 +277,17 @@ impl TablePage {
             return None;
         }
 
-        let slot_end_offset = if self.header.num_tuples > 0 {
-            self.tuple_info[self.header.num_tuples as usize - 1].0
-        } else {
-            DB_PAGE_SIZE as u16
-        };
+        // Updates can move any tuple below the last inserted one, so look at all of them.
+        let slot_end_offset = self
+            .tuple_info
+            .iter()
+            .map(|(offset, _, _)| *offset)
+            .min()
+            .unwrap_or(DB_PAGE_SIZE as u16);
 
         let tuple_offset = slot_end_offset.saturating_sub(tuple_size);
 
-        let metadata_footprint = self.metadata_footprint_with_new(meta)?;
+        let metadata_footprint = self.metadata_footprint_with_new();
 
         // Ensure we have enough space for tuple data + metadata region.
         if tuple_offset < metadata_footprint as u16 {
@@ -303,42 +314,26 @@ impl TablePage {
 
         // Serialize the new tuple data
         let tuple_data = postcard::to_allocvec(tuple).map_err(|_| PageError::SerializationError)?;
-        let new_size = tuple_data.len() as u16;
+        if tuple_data.len() > TUPLE_MAX_SERIALIZED_SIZE {
+            return Err(PageError::TypeTooLarge);
+        }
+        let new_size = tuple_data.len();
 
-        // Get current tuple info
-        let (current_offset, current_size, _) = self.tuple_info[tuple_id];
-
-        // Try to update in place if the new tuple size is smaller than or equal to current size
-        if new_size <= current_size {
-            // Update metadata in tuple_info
-            self.tuple_info[tuple_id].2 = meta;
-
-            // Update the size to reflect the actual new size
-            self.tuple_info[tuple_id].1 = new_size;
-
-            // Update the tuple data
-            let start = current_offset as usize;
-            let end = start + new_size as usize;
-            if end <= self.data.len() {
-                self.data[start..end].copy_from_slice(&tuple_data);
-
-                // Clear any remaining bytes if the new tuple is smaller
-                if new_size < current_size {
-                    let clear_start = end;
-                    let clear_end = start + current_size as usize;
-                    if clear_end <= self.data.len() {
-                        self.data[clear_start..clear_end].fill(0);
-                    }
-                }
+        // The tuple may use everything up to the next tuple above it: no other tuple is ever
+        // placed there, so a version that shrank can always grow back in place.
+        let current_offset = self.tuple_info[tuple_id].0;
+        let limit = self
+            .tuple_info
+            .iter()
+            .map(|(offset, _, _)| *offset)
+            .filter(|offset| *offset > current_offset)
+            .min()
+            .unwrap_or(DB_PAGE_SIZE as u16) as usize;
 
-                self.is_dirty = true;
-                Ok(())
-            } else {
-                Err(PageError::TupleInvalid)
-            }
+        let new_offset = if current_offset as usize + new_size <= limit {
+            current_offset as usize
         } else {
-            // If new tuple is larger, we need to find a new location
-            // Calculate the minimum offset considering all existing tuples except the one being updated
+            // It has to move below every other tuple
             let min_offset = self
                 .tuple_info
                 .iter()
@@ -346,35 +341,28 @@ impl TablePage {
                 .filter(|(i, _)| *i != tuple_id) // Exclude the tuple being updated
                 .map(|(_, (offset, _, _))| *offset)
                 .min()
-                .unwrap_or(DB_PAGE_SIZE as u16);
-
-            let new_offset = min_offset.saturating_sub(new_size);
-            let header_and_tuple_info_size = self.metadata_footprint_bytes() as u16;
-
-            if new_offset < header_and_tuple_info_size {
-                return Err(PageError::TupleInvalid);
+                .unwrap_or(DB_PAGE_SIZE as u16) as usize;
+            match min_offset.checked_sub(new_size) {
+                Some(offset) if offset >= self.metadata_footprint_bytes() => offset,
+                _ => return Err(PageError::TupleInvalid),
             }
+        };
 
-            // Clear the old tuple data
-            let old_start = current_offset as usize;
-            let old_end = old_start + current_size as usize;
-            if old_end <= self.data.len() {
-                self.data[old_start..old_end].fill(0);
-            }
+        self.note_deletion_change(tuple_id, &meta);
+        self.tuple_info[tuple_id] = (new_offset as u16, new_size as u16, meta);
+        self.data[new_offset..new_offset + new_size].copy_from_slice(&tuple_data);
+        self.sync_metadata();
+        self.is_dirty = true;
+        Ok(())
+    }
 
-            // Update tuple info with new location
-            self.tuple_info[tuple_id] = (new_offset, new_size, meta);
-
-            // Write new tuple data
-            let start = new_offset as usize;
-            let end = start + new_size as usize;
-            if end <= self.data.len() {
-                self.data[start..end].copy_from_slice(&tuple_data);
-                self.is_dirty = true;
-                Ok(())
-            } else {
-                Err(PageError::TupleInvalid)
-            }
+    /// Keeps the count of deleted tuples in step with a slot about to get `meta`.
+    fn note_deletion_change(&mut self, tuple_id: usize, meta: &TupleMeta) {
+        let was_deleted = self.tuple_info[tuple_id].2.is_deleted();
+        if !was_deleted && meta.is_deleted() {
+            self.header.num_deleted_tuples += 1;
+        } else if was_deleted && !meta.is_deleted() {
+            self.header.num_deleted_tuples = self.header.num_deleted_tuples.saturating_sub(1);
         }
     }
 
@@ -436,6 +424,7 @@ impl TablePage {
 
         // Simple copy since TupleMeta is now Copy
         self.tuple_info[tuple_id].2 = meta;
+        self.sync_metadata();
         self.is_dirty = true;
 
         debug!(
@@ -546,11 +535,13 @@ impl TablePage {
 
     pub fn set_next_page_id(&mut self, page_id: PageId) {
         self.header.next_page_id = page_id;
+        self.sync_metadata();
         self.is_dirty = true;
     }
 
     pub fn set_prev_page_id(&mut self, page_id: PageId) {
         self.header.prev_page_id = page_id;
+        self.sync_metadata();
         self.is_dirty = true;
     }
 
@@ -719,6 +710,9 @@ impl TablePage {
         debug!("Reading {} tuple info entries", page.header.num_tuples);
         for i in 0..page.header.num_tuples {
             // Read tuple offset and size
+            if offset + 4 > bytes.len() {
+                return Err("Tuple info runs past the page".to_string());
+            }
             let tuple_offset = u16::from_le_bytes(bytes[offset..offset + 2].try_into().unwrap());
             let size = u16::from_le_bytes(bytes[offset + 2..offset + 4].try_into().unwrap());
             offset += 4;
@@ -738,6 +732,10 @@ impl TablePage {
             debug!("Deserialized meta with size {} bytes", meta_size);
             offset += meta_size;
 
+            if tuple_offset as usize + size as usize > bytes.len() {
+                return Err(format!("Tuple {} lies outside the page", i));
+            }
+
             page.tuple_info.push((tuple_offset, size, meta));
         }
 
@@ -838,22 +836,22 @@ impl TablePage {
         // Get current tuple info
         let (offset, size, _) = self.tuple_info[tuple_id];
 
-        // Update the tuple metadata (simple copy since TupleMeta is Copy)
-        self.tuple_info[tuple_id].2 = meta;
-
-        // Write the new tuple data
         let start = offset as usize;
         let end = start + size as usize;
-        if end > self.data.len() {
+        if end > self.data.len() || tuple_data.len() != size as usize {
             return Err(format!(
-                "Invalid tuple range: {}..{} exceeds page size {}",
+                "Tuple of {} bytes does not fit the slot range {}..{}",
+                tuple_data.len(),
                 start,
-                end,
-                self.data.len()
+                end
             ));
         }
 
+        self.note_deletion_change(tuple_id, &meta);
+        self.tuple_info[tuple_id].2 = meta;
+
         self.data[start..end].copy_from_slice(&tuple_data);
+        self.sync_metadata();
         self.is_dirty = true;
         Ok(())
     }
@@ -866,17 +864,13 @@ impl TablePage {
         ) as u16
     }
 
-    /// Returns the encoded size of all tuple-info entries (offset+size + encoded meta).
+    /// Returns the space set aside for all tuple-info entries.
+    ///
+    /// A meta grows when its version commits or gets an undo log, so every slot reserves the
+    /// largest encoding; otherwise the slot array could run into the tuple data below it.
     fn encoded_tuple_info_bytes(&self) -> usize {
-        self.tuple_info
-            .iter()
-            .map(|(_, _, meta)| {
-                // 2 bytes offset + 2 bytes size + encoded meta
-                4 + postcard::to_allocvec(meta)
-                    .expect("TupleMeta encoding should not fail")
-                    .len()
-            })
-            .sum()
+        // 2 bytes offset + 2 bytes size + meta
+        self.tuple_info.len() * (4 + TupleMeta::MAX_ENCODED_SIZE)
     }
 
     fn metadata_footprint_bytes(&self) -> usize {
@@ -887,17 +881,8 @@ impl TablePage {
             + 4 // end magic
     }
 
-    fn metadata_footprint_with_new(&self, meta: &TupleMeta) -> Option<usize> {
-        let meta_len = postcard::to_allocvec(meta).ok()?.len();
-        Some(
-            1 // page type
-                + TablePageHeader::size()
-                + 4 // start magic
-                + self.encoded_tuple_info_bytes()
-                + 4 // offset+size for new tuple
-                + meta_len
-                + 4, // end magic
-        )
+    fn metadata_footprint_with_new(&self) -> usize {
+        self.metadata_footprint_bytes() + 4 + TupleMeta::MAX_ENCODED_SIZE
     }
 
     /// Gets the total size of all tuple data in the page
@@ -941,13 +926,8 @@ impl TablePage {
             Err(_) => return true, // If we can't serialize it, consider it too large
         };
 
-        // Approximate metadata footprint if this tuple were added using a default meta.
-        // TupleMeta encoding is small; use a representative meta to reserve space.
-        let placeholder_meta = TupleMeta::new(0);
-        let meta_overhead = match self.metadata_footprint_with_new(&placeholder_meta) {
-            Some(bytes) => bytes,
-            None => return true,
-        };
+        // Metadata footprint if this tuple were added.
+        let meta_overhead = self.metadata_footprint_with_new();
 
         // Check both the absolute size and relative to page size
         serialized_size > TUPLE_MAX_SERIALIZED_SIZE // hard cap for tuple body
@@ -1204,6 +1184,12 @@ impl PageTrait for TablePage {
                 page_size: self.data.len(),
             });
         }
+        if let Ok(image) = <&[u8; DB_PAGE_SIZE as usize]>::try_from(new_data) {
+            // A whole page image (loaded from disk): adopt the header and slots it holds.
+            let loaded = Self::deserialize(image).map_err(|_| PageError::DeserializationError)?;
+            self.header = loaded.header;
+            self.tuple_info = loaded.tuple_info;
+        }
         self.data[offset..offset + new_data.len()].copy_from_slice(new_data);
         self.is_dirty = true;
         Ok(())
@@ -1218,9 +1204,11 @@ impl PageTrait for TablePage {
         self.header.prev_page_id = INVALID_PAGE_ID;
         self.header.next_page_id = INVALID_PAGE_ID;
         self.header.num_tuples = 0;
+        self.header.num_deleted_tuples = 0;
         self.tuple_info.clear();
         self.is_dirty = false;
         self.data[PAGE_TYPE_OFFSET] = Self::TYPE_ID as u8;
+        self.sync_metadata();
     }
 
     fn as_any(&self) -> &dyn Any {
diff --git a/src/storage/table/tuple.rs b/src/storage/table/tuple.rs
index ac81a10..6e00d51 100644
--- a/src/storage/table/tuple.rs
+++ b/src/storage/table/tuple.rs
@@ -234,6 +234,10 @@ pub struct TupleMeta {
 }
 
 impl TupleMeta {
+    /// Upper bound on the encoded size: three variable-length integers of at most 10 bytes, two
+    /// option tags and the deletion flag.
+    pub const MAX_ENCODED_SIZE: usize = 3 * 10 + 2 + 1;
+
     /// Creates a new `TupleMeta` instance.
     pub fn new(txn_id: TxnId) -> Self {
         Self {
-- 
2.43.0


From a00f35635f252c89df6065327eae48e9813a3560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:44 +0000
Subject: [PATCH 009/120] fix: abort restores the version a transaction first
 replaced, whatever it did to the tuple afterwards

---
 src/concurrency/transaction_manager.rs | 212 +++++++------------------
 1 file changed, 61 insertions(+), 151 deletions(-)

diff --git a/src/concurrency/transaction_manager.rs b/src/concurrency/transaction_manager.rs
index 5c33bdf..cd99eee 100644
--- a/src/concurrency/transaction_manager.rs
+++ b/src/concurrency/transaction_manager.rs
@@ -637,157 +637,8 @@ impl TransactionManager {
                 rid
             );
             if let Some(table_heap) = self.get_table_heap(table_oid) {
-                log::debug!("ABORT: Found table heap for table_oid={}", table_oid);
-                if let Some(undo_link) = self.get_undo_link(rid) {
-                    log::debug!(
-                        "ABORT: Found undo link for RID {:?}: prev_txn={}, prev_log_idx={}",
-                        rid,
-                        undo_link.prev_txn,
-                        undo_link.prev_log_idx
-                    );
-                    log::debug!(
-                        "Found undo link for RID {:?}: prev_txn={}, prev_log_idx={}",
-                        rid,
-                        undo_link.prev_txn,
-                        undo_link.prev_log_idx
-                    );
-                    // Get the undo log
-                    let undo_log = match self.get_undo_log(undo_link.clone()) {
-                        Ok(log) => log,
-                        Err(e) => {
-                            log::error!(
-                                "ABORT: Undo log not found for RID {:?} (txn={}, idx={}): {}",
-                                rid,
-                                undo_link.prev_txn,
-                                undo_link.prev_log_idx,
-                                e
-                            );
-                            continue;
-                        },
-                    };
-
-                    // Check if this was a deleted tuple that needs to be restored
-                    // If the original_rid is present, it means this was a delete operation
-                    if let Some(original_rid) = undo_log.original_rid {
-                        log::debug!(
-                            "ABORT: Restoring deleted tuple with original RID {:?}",
-                            original_rid
-                        );
-
-                        // Create metadata for the restored tuple
-                        let mut meta = TupleMeta::new(undo_link.prev_txn);
-                        if undo_log.ts == INVALID_TS {
-                            meta.set_commit_timestamp_opt(None);
-                        } else {
-                            meta.set_commit_timestamp(undo_log.ts);
-                        }
-                        meta.set_deleted(false); // Explicitly set to false for restored tuples
-                        meta.set_undo_log_idx(undo_link.prev_log_idx)
-                            .map_err(|e| format!("Invalid undo log index during restore: {}", e))
-                            .unwrap();
-
-                        // For deleted tuples, we need a different approach
-                        // First get the page directly to bypass the deletion check
-                        if let Some(page_guard) = table_heap
-                            .get_table_heap()
-                            .get_bpm()
-                            .fetch_page::<TablePage>(original_rid.get_page_id())
-                        {
-                            // First update the metadata to unmark the deletion
-                            {
-                                let mut page = page_guard.write();
-                                if let Err(e) = page.update_tuple_meta(meta, &original_rid) {
-                                    log::error!(
-                                        "Failed to update tuple metadata during restore: {}",
-                                        e
-                                    );
-                                    continue;
-                                }
-                                log::debug!(
-                                    "Successfully updated tuple metadata to unmark deletion"
-                                );
-                            }
-
-                            // Now that the tuple is no longer marked as deleted, we can restore its data
-                            if let Err(e) = table_heap.rollback_tuple(
-                                Arc::from(meta),
-                                &undo_log.tuple,
-                                original_rid,
-                            ) {
-                                log::error!("Failed to restore deleted tuple data: {}", e);
-                            } else {
-                                log::debug!(
-                                    "Successfully restored deleted tuple at RID {:?}",
-                                    original_rid
-                                );
-                            }
-                        } else {
-                            log::error!(
-                                "Failed to fetch page for deleted tuple restoration: page_id={}",
-                                original_rid.get_page_id()
-                            );
-                        }
-                    } else {
-                        // Regular update rollback
-                        // Restore the previous version
-                        let mut meta = TupleMeta::new(undo_link.prev_txn);
-                        if undo_log.ts == INVALID_TS {
-                            meta.set_commit_timestamp_opt(None);
-                        } else {
-                            meta.set_commit_timestamp(undo_log.ts);
-                        }
-                        meta.set_deleted(undo_log.is_deleted);
-                        meta.set_undo_log_idx(undo_link.prev_log_idx)
-                            .map_err(|e| format!("Invalid undo log index during rollback: {}", e))
-                            .unwrap();
-
-                        // Use a reference to the Arc<Tuple> without cloning
-                        log::debug!(
-                            "Rolling back tuple at RID {:?} with data: {:?}",
-                            rid,
-                            undo_log.tuple
-                        );
-                        if let Err(e) =
-                            table_heap.rollback_tuple(Arc::from(meta), &undo_log.tuple, rid)
-                        {
-                            log::error!("Failed to rollback tuple: {}", e);
-                        } else {
-                            log::debug!("Successfully rolled back tuple at RID {:?}", rid);
-                        }
-                    }
-
-                    // Update the undo link to point to the previous version
-                    let prev_version_link = if undo_log.prev_version.is_valid() {
-                        Some(undo_log.prev_version.clone())
-                    } else {
-                        None
-                    };
-                    self.update_undo_link(rid, prev_version_link, None);
-                } else {
-                    log::debug!(
-                        "ABORT: No undo link found for RID {:?} - marking as deleted",
-                        rid
-                    );
-                    // If no undo link exists, this was a newly inserted tuple
-                    // Mark it as deleted since it was part of an aborted transaction
-                    let mut meta = TupleMeta::new(txn.get_transaction_id());
-                    meta.set_deleted(true);
-                    // Uncommitted/aborted versions should not have a commit timestamp.
-                    meta.set_commit_timestamp_opt(None);
-
-                    // Update the tuple metadata to mark it as deleted
-                    if let Some(page_guard) = table_heap
-                        .get_table_heap()
-                        .get_bpm()
-                        .fetch_page::<TablePage>(rid.get_page_id())
-                    {
-                        let mut page = page_guard.write();
-                        if let Ok((_, _)) = page.get_tuple(&rid, true)
-                            && let Err(e) = page.update_tuple_meta(meta, &rid)
-                        {
-                            log::error!("Failed to mark tuple as deleted: {}", e);
-                        }
-                    }
+                if let Err(e) = self.rollback_write(&txn, &table_heap.get_table_heap(), rid) {
+                    log::error!("ABORT: Failed to roll back RID {:?}: {}", rid, e);
                 }
             }
         }
@@ -806,6 +657,65 @@ impl TransactionManager {
         self.prune_completed_transactions();
     }
 
+    /// Takes back everything `txn` did to one tuple.
+    ///
+    /// A transaction can have written the tuple several times, so the version to
+    /// restore is the one its *first* write replaced. If the transaction inserted
+    /// the tuple itself there is none, and the tuple is marked as deleted.
+    fn rollback_write(
+        &self,
+        txn: &Transaction,
+        table_heap: &TableHeap,
+        rid: RID,
+    ) -> Result<(), String> {
+        let txn_id = txn.get_transaction_id();
+
+        // Find this transaction's oldest undo log for the tuple.
+        let mut first_log: Option<Arc<UndoLog>> = None;
+        let mut link = self.get_undo_link(rid);
+        while let Some(current) = link {
+            if current.prev_txn != txn_id || !current.is_valid() {
+                break;
+            }
+            let log = self.get_undo_log(current)?;
+            link = Some(log.prev_version.clone());
+            first_log = Some(log);
+        }
+
+        let replaced = first_log.filter(|log| log.prev_version.prev_txn != txn_id);
+        let Some(undo_log) = replaced else {
+            // Inserted by this transaction: mark it as deleted. Aborted versions never
+            // carry a commit timestamp.
+            let mut meta = TupleMeta::new(txn_id);
+            meta.set_deleted(true);
+            meta.set_commit_timestamp_opt(None);
+            {
+                let page_guard = table_heap.get_page(rid.get_page_id())?;
+                let mut page = page_guard.write();
+                page.update_tuple_meta(meta, &rid)
+                    .map_err(|e| format!("Failed to mark tuple as deleted: {}", e))?;
+            }
+            self.update_undo_link(rid, None, None);
+            return Ok(());
+        };
+
+        // Restore the replaced version as its own creator left it.
+        let mut meta = TupleMeta::new(undo_log.prev_version.prev_txn);
+        if undo_log.ts == INVALID_TS {
+            meta.set_commit_timestamp_opt(None);
+        } else {
+            meta.set_commit_timestamp(undo_log.ts);
+        }
+        let prev_link = Some(undo_log.prev_version.clone()).filter(|link| link.is_valid());
+        if let Some(prev) = &prev_link {
+            meta.set_undo_log_idx(prev.prev_log_idx)
+                .map_err(|e| format!("Invalid undo log index: {}", e))?;
+        }
+        table_heap.update_tuple_internal(Arc::new(meta), &undo_log.tuple, rid)?;
+        self.update_undo_link(rid, prev_link, None);
+        Ok(())
+    }
+
     /// Performs garbage collection of old tuple versions.
     ///
     /// This method removes undo links and version information that are no longer
-- 
2.43.0


From 2b8bae6e561ad72bf174e36ce26d2eb03030010e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:44 +0000
Subject: [PATCH 010/120] fix: keep old versions that an active reader still
 needs during garbage collection

---
 src/concurrency/transaction_manager.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/concurrency/transaction_manager.rs b/src/concurrency/transaction_manager.rs
index cd99eee..5de0c96 100644
--- a/src/concurrency/transaction_manager.rs
+++ b/src/concurrency/transaction_manager.rs
@@ -726,8 +726,8 @@ impl TransactionManager {
     /// # Algorithm
     ///
     /// 1. Get the current watermark.
-    /// 2. For each page's version info, remove undo links pointing to
-    ///    transactions with timestamps below the watermark.
+    /// 2. For each page's version info, remove undo links of transactions that
+    ///    committed below the watermark.
     /// 3. Remove empty page version info entries.
     /// 4. Prune completed transactions that are no longer needed.
     pub fn garbage_collection(&self) {
@@ -736,10 +736,11 @@ impl TransactionManager {
 
         // Remove version info for pages that are no longer needed
         version_info.retain(|_, page_info| {
-            // Retain only links that point to transactions newer than watermark
+            // A link leads to the version that `link.prev_txn` replaced. It is still needed
+            // until that transaction's own version is visible to every active reader.
             page_info.prev_link.write().retain(|_, link| {
                 if let Some(txn) = self.state.txn_map.read().get(&link.prev_txn) {
-                    txn.read_ts() > watermark
+                    txn.get_state() != TransactionState::Committed || txn.commit_ts() >= watermark
                 } else {
                     false
                 }
-- 
2.43.0


From af0005ee81f78d0f821d0ec72b5c3a644bd09770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:29 +0000
Subject: [PATCH 011/120] fix: let no snapshot begin while a commit is still
 stamping its tuples

---
 src/concurrency/transaction_manager.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/concurrency/transaction_manager.rs b/src/concurrency/transaction_manager.rs
index 5de0c96..78304bf 100644
--- a/src/concurrency/transaction_manager.rs
+++ b/src/concurrency/transaction_manager.rs
@@ -216,7 +216,7 @@ use std::collections::HashMap;
 use std::sync::Arc;
 use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
 
-use parking_lot::RwLock;
+use parking_lot::{Mutex, RwLock};
 
 use crate::buffer::buffer_pool_manager_async::BufferPoolManager;
 use crate::common::config::{INVALID_TS, INVALID_TXN_ID, PageId, TableOidT, Timestamp, TxnId};
@@ -316,6 +316,11 @@ struct TransactionManagerState {
     /// Flag indicating whether the transaction manager is shutting down.
     /// When set, new transactions are rejected.
     is_shutdown: AtomicBool,
+    /// Held while a commit takes its timestamp and stamps the tuples it wrote, and while
+    /// a transaction takes its read timestamp, so a snapshot never starts between the two.
+    /// Pruning and garbage collection hold it too, since unstamped tuples still need the
+    /// committing transaction's undo logs. Acquired before every other lock here.
+    commit_latch: Mutex<()>,
 }
 
 /// Central coordinator for transaction lifecycle, MVCC, and undo log management.
@@ -374,6 +379,7 @@ impl TransactionManager {
                 version_info: RwLock::new(HashMap::new()),
                 table_heaps: RwLock::new(HashMap::new()),
                 is_shutdown: AtomicBool::new(false),
+                commit_latch: Mutex::new(()),
             }),
         };
 
@@ -455,6 +461,7 @@ impl TransactionManager {
 
         // Update transaction map and running transactions atomically
         {
+            let _commit_guard = self.state.commit_latch.lock();
             let mut txn_map = self.state.txn_map.write();
             let mut running_txns = self.state.running_txns.write();
 
@@ -512,6 +519,9 @@ impl TransactionManager {
             },
         }
 
+        // No snapshot may begin until every tuple written here carries its commit timestamp.
+        let commit_guard = self.state.commit_latch.lock();
+
         // Use logical watermark-based commit to set commit_ts and update running set
         {
             let mut running_txns = self.state.running_txns.write();
@@ -573,6 +583,8 @@ impl TransactionManager {
             }
         }
 
+        drop(commit_guard);
+
         // Attempt to drop completed transactions once no active reader needs them.
         self.prune_completed_transactions();
 
@@ -731,6 +743,7 @@ impl TransactionManager {
     /// 3. Remove empty page version info entries.
     /// 4. Prune completed transactions that are no longer needed.
     pub fn garbage_collection(&self) {
+        let commit_guard = self.state.commit_latch.lock();
         let watermark = self.get_watermark();
         let mut version_info = self.state.version_info.write();
 
@@ -750,6 +763,7 @@ impl TransactionManager {
 
         // Also clean up any completed transactions that are no longer visible.
         drop(version_info);
+        drop(commit_guard);
         self.prune_completed_transactions();
     }
 
@@ -1023,6 +1037,7 @@ impl TransactionManager {
     /// - They are committed with a timestamp >= watermark.
     /// - They are aborted with a read timestamp >= watermark.
     fn prune_completed_transactions(&self) {
+        let _commit_guard = self.state.commit_latch.lock();
         let watermark = self.get_watermark();
         let mut txn_map = self.state.txn_map.write();
 
-- 
2.43.0


From 2c6c0457e73f9fd2c51be92f61d84739b33bdfeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:20 +0000
Subject: [PATCH 012/120] fix: keep the version chain and the tuple in step
 while several transactions write one row

---
 src/concurrency/transaction_manager.rs        |  1 +
 src/storage/table/table_heap.rs               | 13 ++++++++-
 src/storage/table/transactional_table_heap.rs | 27 ++++++++++++++-----
 3 files changed, 34 insertions(+), 7 deletions(-)

diff --git a/src/concurrency/transaction_manager.rs b/src/concurrency/transaction_manager.rs
index 78304bf..6820bcb 100644
--- a/src/concurrency/transaction_manager.rs
+++ b/src/concurrency/transaction_manager.rs
@@ -681,6 +681,7 @@ impl TransactionManager {
         rid: RID,
     ) -> Result<(), String> {
         let txn_id = txn.get_transaction_id();
+        let _write_guard = table_heap.acquire_tuple_write_latch();
 
         // Find this transaction's oldest undo log for the tuple.
         let mut first_log: Option<Arc<UndoLog>> = None;
diff --git a/src/storage/table/table_heap.rs b/src/storage/table/table_heap.rs
index 58c5cb0..561bd1e 100644
--- a/src/storage/table/table_heap.rs
+++ b/src/storage/table/table_heap.rs
@@ -227,7 +227,7 @@ use std::fmt::{Debug, Formatter};
 use std::sync::Arc;
 
 use log::debug;
-use parking_lot::RwLock;
+use parking_lot::{Mutex, MutexGuard, RwLock};
 
 use crate::buffer::buffer_pool_manager_async::BufferPoolManager;
 use crate::catalog::schema::Schema;
@@ -275,6 +275,9 @@ pub struct TableHeap {
     last_page_id: RwLock<PageId>,
     table_oid: TableOidT,
     pub latch: RwLock<()>,
+    /// Held from reading a tuple's current version to replacing it, by transactional
+    /// updates, deletes and rollbacks. Acquired before `latch` and page latches.
+    write_latch: Mutex<()>,
 }
 
 /// The TableInfo struct maintains metadata about a table.
@@ -319,6 +322,7 @@ impl TableHeap {
             last_page_id: RwLock::new(INVALID_PAGE_ID),
             table_oid,
             latch: RwLock::new(()),
+            write_latch: Mutex::new(()),
         };
 
         // Try to create the first page - if this fails, the table will be empty
@@ -366,6 +370,7 @@ impl TableHeap {
             last_page_id: RwLock::new(resolved_last),
             table_oid,
             latch: RwLock::new(()),
+            write_latch: Mutex::new(()),
         }
     }
 
@@ -1078,6 +1083,11 @@ impl TableHeap {
             .ok_or_else(|| format!("Failed to fetch page {}", page_id))
     }
 
+    /// Serializes the read-check-replace steps of transactional writers.
+    pub fn acquire_tuple_write_latch(&self) -> MutexGuard<'_, ()> {
+        self.write_latch.lock()
+    }
+
     /// Acquires a read lock on the entire table
     pub fn acquire_table_read_lock(&self) -> parking_lot::RwLockReadGuard<'_, ()> {
         self.latch.read()
@@ -1623,6 +1633,7 @@ impl Clone for TableHeap {
             last_page_id: RwLock::new(*self.last_page_id.read()),
             table_oid: self.table_oid,
             latch: RwLock::new(()),
+            write_latch: Mutex::new(()),
         }
     }
 }
diff --git a/src/storage/table/transactional_table_heap.rs b/src/storage/table/transactional_table_heap.rs
index d351da1..528db68 100644
--- a/src/storage/table/transactional_table_heap.rs
+++ b/src/storage/table/transactional_table_heap.rs
@@ -478,7 +478,7 @@ impl TransactionalTableHeap {
 
     pub fn update_tuple(
         &self,
-        meta: &TupleMeta,
+        _meta: &TupleMeta,
         tuple: &Tuple,
         rid: RID,
         txn_ctx: Arc<TransactionContext>,
@@ -490,11 +490,14 @@ impl TransactionalTableHeap {
             return Err("Transaction not in running state".to_string());
         }
 
+        // Keep other writers out until the version chain and the tuple agree again
+        let _write_guard = self.table_heap.acquire_tuple_write_latch();
+
         // Get current version for visibility check
         let (current_meta, current_tuple) = self.table_heap.get_tuple_internal(rid, false)?;
 
         // Visibility checks
-        if current_meta.get_creator_txn_id() != meta.get_creator_txn_id()
+        if current_meta.get_creator_txn_id() != txn.get_transaction_id()
             && !current_meta.is_committed()
         {
             return Err("Cannot update uncommitted tuple from another transaction".to_string());
@@ -555,6 +558,7 @@ impl TransactionalTableHeap {
         );
 
         // Update the undo link to point to the current version
+        let undo_log_idx = undo_link.prev_log_idx;
         txn_manager.update_undo_link(rid, Some(undo_link), None);
 
         // Create new meta with current transaction as creator
@@ -562,7 +566,7 @@ impl TransactionalTableHeap {
         // Uncommitted versions should not have a commit timestamp.
         new_meta.set_commit_timestamp_opt(None);
         new_meta
-            .set_undo_log_idx(txn.get_undo_log_num() - 1)
+            .set_undo_log_idx(undo_log_idx)
             .map_err(|e| format!("Invalid undo log index: {}", e))?;
 
         log::debug!(
@@ -575,7 +579,11 @@ impl TransactionalTableHeap {
         // Perform update
         let result = self
             .table_heap
-            .update_tuple_internal(Arc::from(new_meta), tuple, rid)?;
+            .update_tuple_internal(Arc::from(new_meta), tuple, rid)
+            .inspect_err(|_| {
+                // The tuple kept its version, so the chain must not name a newer one
+                txn_manager.update_undo_link(rid, current_version_link, None);
+            })?;
         txn.append_write_set(self.table_oid, rid);
 
         Ok(result)
@@ -748,6 +756,7 @@ impl TransactionalTableHeap {
         //     .map_err(|e| format!("Failed to acquire table lock: {}", e))?;
 
         // Get the current version for visibility check
+        let _write_guard = self.table_heap.acquire_tuple_write_latch();
         let (current_meta, current_tuple) = self.table_heap.get_tuple_internal(rid, false)?;
 
         // Visibility checks
@@ -800,6 +809,8 @@ impl TransactionalTableHeap {
         );
 
         // Update version chain
+        let undo_log_idx = undo_link.prev_log_idx;
+        let current_version_link = txn_manager.get_undo_link(rid);
         txn_manager.update_undo_link(rid, Some(undo_link), None);
 
         // Create new meta with current transaction as creator
@@ -808,7 +819,7 @@ impl TransactionalTableHeap {
         // Uncommitted versions should not have a commit timestamp.
         new_meta.set_commit_timestamp_opt(None);
         new_meta
-            .set_undo_log_idx(txn.get_undo_log_num() - 1)
+            .set_undo_log_idx(undo_log_idx)
             .map_err(|e| format!("Invalid undo log index: {}", e))?;
 
         log::debug!(
@@ -820,7 +831,11 @@ impl TransactionalTableHeap {
 
         // Update the tuple with deleted metadata
         self.table_heap
-            .update_tuple_internal(Arc::from(new_meta), &current_tuple, rid)?;
+            .update_tuple_internal(Arc::from(new_meta), &current_tuple, rid)
+            .inspect_err(|_| {
+                // The tuple kept its version, so the chain must not name a newer one
+                txn_manager.update_undo_link(rid, current_version_link, None);
+            })?;
         txn.append_write_set(self.table_oid, rid);
 
         Ok(())
-- 
2.43.0


From 3f302494a6e80bf9ebfc9cb18d69a35a39150335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:20 +0000
Subject: [PATCH 013/120] fix: refuse to overwrite a version committed after
 the writer's snapshot

---
 src/storage/table/transactional_table_heap.rs | 21 +++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/storage/table/transactional_table_heap.rs b/src/storage/table/transactional_table_heap.rs
index 528db68..a2b2af2 100644
--- a/src/storage/table/transactional_table_heap.rs
+++ b/src/storage/table/transactional_table_heap.rs
@@ -502,6 +502,7 @@ impl TransactionalTableHeap {
         {
             return Err("Cannot update uncommitted tuple from another transaction".to_string());
         }
+        Self::check_first_updater(&txn, &current_meta)?;
 
         // Create undo log with link to current version
         let txn_manager = txn_ctx.get_transaction_manager();
@@ -589,6 +590,25 @@ impl TransactionalTableHeap {
         Ok(result)
     }
 
+    /// A transaction that reads from a snapshot may not overwrite a version that was
+    /// committed after that snapshot: it would silently undo the other change.
+    fn check_first_updater(txn: &Transaction, current_meta: &TupleMeta) -> Result<(), String> {
+        match txn.get_isolation_level() {
+            IsolationLevel::ReadUncommitted | IsolationLevel::ReadCommitted => Ok(()),
+            IsolationLevel::RepeatableRead
+            | IsolationLevel::Serializable
+            | IsolationLevel::Snapshot => {
+                let newer = current_meta
+                    .get_commit_timestamp()
+                    .is_some_and(|ts| ts > txn.read_ts());
+                if newer && current_meta.get_creator_txn_id() != txn.get_transaction_id() {
+                    return Err("Tuple was changed after this transaction's snapshot".to_string());
+                }
+                Ok(())
+            },
+        }
+    }
+
     // Helper method for REPEATABLE_READ and SERIALIZABLE
     fn get_visible_version(
         &self,
@@ -765,6 +785,7 @@ impl TransactionalTableHeap {
         {
             return Err("Cannot delete uncommitted tuple from another transaction".to_string());
         }
+        Self::check_first_updater(&txn, &current_meta)?;
 
         // Create undo log with a link to the current version
         let txn_manager = txn_ctx.get_transaction_manager();
-- 
2.43.0


From 44211eaca02f35872a2673d5404af13f3bf0791e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:54 +0000
Subject: [PATCH 014/120] fix: read committed sees the newest committed
 version, and a reader never mixes a tuple with another version's chain

---
 src/storage/table/transactional_table_heap.rs | 40 ++++++++++++++++---
 1 file changed, 34 insertions(+), 6 deletions(-)

diff --git a/src/storage/table/transactional_table_heap.rs b/src/storage/table/transactional_table_heap.rs
index a2b2af2..347ad19 100644
--- a/src/storage/table/transactional_table_heap.rs
+++ b/src/storage/table/transactional_table_heap.rs
@@ -256,7 +256,7 @@ use std::sync::Arc;
 use log::{debug, info, warn};
 
 use crate::catalog::schema::Schema;
-use crate::common::config::{INVALID_PAGE_ID, INVALID_TS, TableOidT};
+use crate::common::config::{INVALID_PAGE_ID, INVALID_TS, TableOidT, Timestamp};
 use crate::common::rid::RID;
 use crate::concurrency::lock_manager::LockMode;
 use crate::concurrency::transaction::{
@@ -448,7 +448,32 @@ impl TransactionalTableHeap {
 
         // Get latest version
         // Important: allow reading deleted tuples so MVCC can interpret tombstones.
-        let (meta, tuple) = self.table_heap.get_tuple_internal(rid, true)?;
+        let (mut meta, mut tuple) = self.table_heap.get_tuple_internal(rid, true)?;
+
+        // The version chain is read separately from the tuple, so what it gave counts only
+        // if the tuple still carries the same version afterwards.
+        loop {
+            let result =
+                self.get_version_for(rid, txn.clone(), txn_manager.clone(), meta.clone(), tuple);
+            if result.as_ref().is_ok_and(|(m, _)| Arc::ptr_eq(m, &meta)) {
+                return result;
+            }
+            let (meta_now, tuple_now) = self.table_heap.get_tuple_internal(rid, true)?;
+            if *meta_now == *meta {
+                return result;
+            }
+            (meta, tuple) = (meta_now, tuple_now);
+        }
+    }
+
+    fn get_version_for(
+        &self,
+        rid: RID,
+        txn: Arc<Transaction>,
+        txn_manager: Arc<TransactionManager>,
+        meta: Arc<TupleMeta>,
+        tuple: Arc<Tuple>,
+    ) -> Result<(Arc<TupleMeta>, Arc<Tuple>), String> {
 
         // Handle visibility based on isolation level
         match txn.get_isolation_level() {
@@ -468,11 +493,14 @@ impl TransactionalTableHeap {
                     }
                 } else {
                     // Head version is uncommitted by another transaction; walk the chain
-                    // to find the latest committed version that is visible.
-                    self.get_visible_version(rid, txn, txn_manager, meta, tuple)
+                    // to find the latest committed version.
+                    self.get_visible_version(rid, txn, Timestamp::MAX, txn_manager, meta, tuple)
                 }
             },
-            _ => self.get_visible_version(rid, txn, txn_manager, meta, tuple),
+            _ => {
+                let read_ts = txn.read_ts();
+                self.get_visible_version(rid, txn, read_ts, txn_manager, meta, tuple)
+            },
         }
     }
 
@@ -614,12 +642,12 @@ impl TransactionalTableHeap {
         &self,
         rid: RID,
         txn: Arc<Transaction>,
+        read_ts: Timestamp,
         txn_manager: Arc<TransactionManager>,
         meta: Arc<TupleMeta>,
         tuple: Arc<Tuple>,
     ) -> Result<(Arc<TupleMeta>, Arc<Tuple>), String> {
         let txn_id = txn.get_transaction_id();
-        let read_ts = txn.read_ts();
         log::debug!(
             "Starting version chain traversal for RID {:?} - Latest version: creator_txn={}, commit_ts={:?}, deleted={}, txn_id={}, read_ts={}",
             rid,
-- 
2.43.0


From 2bc2674874fef58eb0165f504de8334452837e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:13 +0000
Subject: [PATCH 015/120] fix: roll back a transaction that a refused lock had
 already marked as aborted

---
 src/concurrency/transaction.rs         | 10 ++++++++++
 src/concurrency/transaction_manager.rs | 14 +++++++++-----
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/concurrency/transaction.rs b/src/concurrency/transaction.rs
index a1dca3a..db579e5 100644
--- a/src/concurrency/transaction.rs
+++ b/src/concurrency/transaction.rs
@@ -169,6 +169,7 @@
 //! 4. **Write set completeness**: All modified RIDs must be in the write set
 
 use std::collections::{HashMap, HashSet};
+use std::sync::atomic::{AtomicBool, Ordering};
 use std::sync::{Arc, Mutex};
 use std::{fmt, thread};
 
@@ -451,6 +452,9 @@ pub struct Transaction {
     scan_predicates: Mutex<HashMap<u32, Vec<Arc<Expression>>>>,
     /// Previous LSN for WAL chaining.
     prev_lsn: RwLock<Lsn>,
+    /// Whether the transaction manager has taken this transaction's writes back. A
+    /// transaction can be marked as aborted (by a refused lock) before that happens.
+    rolled_back: AtomicBool,
 }
 
 impl Transaction {
@@ -474,6 +478,7 @@ impl Transaction {
             write_set: Mutex::new(HashMap::with_capacity(8)),
             scan_predicates: Mutex::new(HashMap::new()),
             prev_lsn: RwLock::new(INVALID_LSN),
+            rolled_back: AtomicBool::new(false),
         }
     }
 
@@ -503,6 +508,11 @@ impl Transaction {
         self.isolation_level
     }
 
+    /// Claims the rollback of this transaction; `true` for the first caller only.
+    pub fn start_rollback(&self) -> bool {
+        !self.rolled_back.swap(true, Ordering::AcqRel)
+    }
+
     /// Returns the transaction state.
     pub fn get_state(&self) -> TransactionState {
         *self.state.read()
diff --git a/src/concurrency/transaction_manager.rs b/src/concurrency/transaction_manager.rs
index 6820bcb..b9b7bc4 100644
--- a/src/concurrency/transaction_manager.rs
+++ b/src/concurrency/transaction_manager.rs
@@ -620,14 +620,18 @@ impl TransactionManager {
                 return;
             },
             TransactionState::Aborted => {
-                log::warn!(
-                    "ABORT: txn {} already aborted, skipping second abort",
-                    txn.txn_id_human_readable()
-                );
-                return;
+                // Marked as aborted elsewhere; its writes may still have to be undone
             },
         }
 
+        if !txn.start_rollback() {
+            log::warn!(
+                "ABORT: txn {} already aborted, skipping second abort",
+                txn.txn_id_human_readable()
+            );
+            return;
+        }
+
         // Get all modified tuples from write set
         let write_set = txn.get_write_set();
 
-- 
2.43.0


From d57bdef992cbc656ea2b15833163a86ddfac014d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:16 +0000
Subject: [PATCH 016/120] fix: give a tuple inserted or updated through the
 heap the RID of its slot, so batches of rows can be inserted

---
 src/storage/table/table_heap.rs | 87 ++++++++-------------------------
 1 file changed, 21 insertions(+), 66 deletions(-)

diff --git a/src/storage/table/table_heap.rs b/src/storage/table/table_heap.rs
index 561bd1e..25bddd0 100644
--- a/src/storage/table/table_heap.rs
+++ b/src/storage/table/table_heap.rs
@@ -930,6 +930,18 @@ impl TableHeap {
         count
     }
 
+    /// Inserts `tuple` at the page's next slot and gives it that slot's RID. Returns `None`,
+    /// and leaves the page alone, if the tuple does not fit.
+    fn place_tuple(page: &mut TablePage, meta: &TupleMeta, tuple: &Tuple) -> Option<RID> {
+        let rid = page.get_next_rid();
+        let mut tuple = tuple.clone();
+        tuple.set_rid(rid);
+        if !page.has_space_for(meta, &tuple) {
+            return None;
+        }
+        page.insert_tuple_with_rid(meta, &tuple, rid)
+    }
+
     /// Gets the table OID.
     pub fn get_table_oid(&self) -> TableOidT {
         self.table_oid
@@ -982,44 +994,8 @@ impl TableHeap {
 
         // Now insert the tuple into the new page
         let mut new_page = new_page_guard.write();
-
-        // First verify the page has space for the tuple
-        if !new_page.has_space_for(meta, tuple) {
-            debug!(
-                "New page {} unexpectedly has no space for tuple",
-                new_page_id
-            );
-            return Err(format!("New page {} has no space for tuple", new_page_id));
-        }
-
-        // Create the RID the tuple should have
-        let new_rid = RID::new(new_page_id, 0);
-        debug!(
-            "Inserting tuple with RID {:?} into new page {}",
-            new_rid, new_page_id
-        );
-
-        // Use the new method to bypass RID check
-        match new_page.insert_tuple_with_rid(meta, tuple, new_rid) {
-            Some(rid) => {
-                new_page.set_dirty(true);
-                debug!(
-                    "Successfully inserted tuple into new page {}, RID: {:?}",
-                    new_page_id, rid
-                );
-                Ok(rid)
-            },
-            None => {
-                debug!(
-                    "Failed to insert tuple into new page {} despite having space",
-                    new_page_id
-                );
-                Err(format!(
-                    "Failed to insert tuple into new page {} despite space check passing",
-                    new_page_id
-                ))
-            },
-        }
+        Self::place_tuple(&mut new_page, meta, tuple)
+            .ok_or_else(|| format!("New page {} has no space for tuple", new_page_id))
     }
 
     /// Create the first page for an empty table and insert the tuple
@@ -1055,26 +1031,8 @@ impl TableHeap {
         // Now insert the tuple into the first page
         let mut page = first_page_guard.write();
 
-        // Verify the page has space for the tuple
-        if !page.has_space_for(meta, tuple) {
-            return Err("First page has no space for tuple".to_string());
-        }
-
-        // Insert the tuple
-        match page.insert_tuple(meta, tuple) {
-            Some(rid) => {
-                page.set_dirty(true);
-                debug!(
-                    "Successfully inserted tuple into first page {}, RID: {:?}",
-                    first_page_id, rid
-                );
-                Ok(rid)
-            },
-            None => {
-                debug!("Failed to insert tuple into first page despite having space");
-                Err("Failed to insert tuple into first page".to_string())
-            },
-        }
+        Self::place_tuple(&mut page, meta, tuple)
+            .ok_or_else(|| "First page has no space for tuple".to_string())
     }
 
     pub fn get_page(&self, page_id: PageId) -> Result<PageGuard<TablePage>, String> {
@@ -1129,13 +1087,8 @@ impl TableHeap {
         // Try to insert into the current page
         {
             let mut page = page_guard.write();
-            if page.has_space_for(meta.as_ref(), tuple) {
-                return if let Some(rid) = page.insert_tuple(&meta, tuple) {
-                    page.set_dirty(true);
-                    Ok(rid)
-                } else {
-                    Err("Failed to insert tuple into page".to_string())
-                };
+            if let Some(rid) = Self::place_tuple(&mut page, &meta, tuple) {
+                return Ok(rid);
             }
         }
 
@@ -1154,7 +1107,9 @@ impl TableHeap {
         let page_guard = self.get_page(rid.get_page_id())?;
         let mut page = page_guard.write();
 
-        page.update_tuple(*meta, tuple, rid)
+        let mut tuple = tuple.clone();
+        tuple.set_rid(rid);
+        page.update_tuple(*meta, &tuple, rid)
             .map(|_| rid)
             .map_err(|e| format!("Failed to update tuple: {}", e))
     }
-- 
2.43.0


From 456aaa29dafaa6a13dba4755e41e4130640da97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:39 +0000
Subject: [PATCH 017/120] fix: one latch decides which frames may be reused, so
 pinned or unwritten pages are never lost from the buffer pool

---
 src/buffer/buffer_pool_manager_async.rs | 575 +++++++++++-------------
 1 file changed, 267 insertions(+), 308 deletions(-)

diff --git a/src/buffer/buffer_pool_manager_async.rs b/src/buffer/buffer_pool_manager_async.rs
index d9da05d..36bf641 100644
--- a/src/buffer/buffer_pool_manager_async.rs
+++ b/src/buffer/buffer_pool_manager_async.rs
@@ -204,14 +204,14 @@
 //! - **Pinning/Unpinning**: Prevents eviction of pages in use by execution threads
 //! - **Replacement Policy**: Uses `LRUKReplacer` for access-frequency-based eviction
 //! - **Cache Coordination**: Manages L1/L2 cache interaction and efficiency
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::fmt;
 use std::fmt::Debug;
 use std::sync::Arc;
 use std::sync::atomic::{AtomicU64, Ordering};
 
 use log::{error, info, trace, warn};
-use parking_lot::{RwLock, RwLockReadGuard};
+use parking_lot::{Mutex, RwLock, RwLockReadGuard};
 
 use crate::buffer::lru_k_replacer::{AccessType, LRUKReplacer};
 use crate::common::config::{DB_PAGE_SIZE, FrameId, INVALID_PAGE_ID, PageId};
@@ -241,7 +241,7 @@ pub struct BufferPoolManager {
     /// Maximum number of frames in the buffer pool.
     pool_size: usize,
     /// Atomic counter for generating unique page IDs.
-    next_page_id: AtomicU64,
+    next_page_id: Arc<AtomicU64>,
     /// Collection of page frames (L1 cache).
     pages: PageCollection,
     /// Mapping from page IDs to frame IDs.
@@ -250,6 +250,14 @@ pub struct BufferPoolManager {
     replacer: Arc<RwLock<LRUKReplacer>>,
     /// List of unoccupied frame IDs available for new pages.
     free_list: Arc<RwLock<Vec<FrameId>>>,
+    /// Pins held on each frame. Its mutex is the pool's latch: whoever changes the mapping
+    /// between pages and frames, or decides that a frame may be reused, holds it.
+    /// Page locks of pinned pages are never taken while holding it.
+    pins: Arc<Mutex<Vec<usize>>>,
+    /// Serializes flushes, so that an older image of a page never overwrites a newer one.
+    flush_latch: Arc<tokio::sync::Mutex<()>>,
+    /// New pages that were never written, clean or not: eviction must write them
+    unwritten: Arc<Mutex<HashSet<PageId>>>,
     /// Async disk manager for I/O operations (L2 cache + storage).
     disk_manager: Arc<AsyncDiskManager>,
     /// Whether to use the disk manager's read cache (L2).
@@ -258,6 +266,24 @@ pub struct BufferPoolManager {
     bypass_disk_cache_for_pinned: bool,
 }
 
+/// Keeps a frame in the pool without holding a page guard, for example during a flush.
+struct FramePin<'a> {
+    bpm: &'a BufferPoolManager,
+    frame_id: FrameId,
+    page: Arc<RwLock<dyn PageTrait>>,
+}
+
+impl Drop for FramePin<'_> {
+    fn drop(&mut self) {
+        let mut pins = self.bpm.pins.lock();
+        let pin_count = &mut pins[self.frame_id as usize];
+        *pin_count -= 1;
+        if *pin_count == 0 {
+            self.bpm.replacer.write().set_evictable(self.frame_id, true);
+        }
+    }
+}
+
 /// Manual Debug implementation that excludes the `pages` field.
 ///
 /// The pages collection contains trait objects which don't implement Debug,
@@ -329,11 +355,14 @@ impl BufferPoolManager {
 
         Ok(Self {
             pool_size,
-            next_page_id: AtomicU64::new(0),
+            next_page_id: Arc::new(AtomicU64::new(0)),
             pages: Arc::new(RwLock::new(vec![None; pool_size])),
             page_table: Arc::new(RwLock::new(HashMap::new())),
             replacer,
             free_list: Arc::new(RwLock::new(free_list)),
+            pins: Arc::new(Mutex::new(vec![0; pool_size])),
+            flush_latch: Arc::new(tokio::sync::Mutex::new(())),
+            unwritten: Arc::new(Mutex::new(HashSet::new())),
             disk_manager,
             use_disk_manager_cache,
             bypass_disk_cache_for_pinned,
@@ -423,16 +452,23 @@ impl BufferPoolManager {
     pub fn new_page<T: Page>(self: &Arc<Self>) -> Option<PageGuard<T>> {
         trace!("Creating new page of type: {:?}", T::TYPE_ID);
 
-        let frame_id = self.get_available_frame()?;
+        // Pinned before the latch is released: the constructor may use the pool itself
+        let frame_id = {
+            let mut pins = self.pins.lock();
+            let frame_id = self.get_available_frame(&pins)?;
+            pins[frame_id as usize] = 1;
+            frame_id
+        };
         trace!("Got available frame: {}", frame_id);
 
-        self.evict_page_if_necessary(frame_id);
-
         let new_page_id = self.allocate_page_id();
         trace!("Allocated new page ID: {}", new_page_id);
 
         let new_page = self.create_typed_page::<T>(new_page_id);
+        self.unwritten.lock().insert(new_page_id);
+        let pins = self.pins.lock();
         self.update_page_metadata(frame_id, new_page_id, &new_page);
+        drop(pins);
 
         trace!("Created new page {} in frame {}", new_page_id, frame_id);
         let unpinner: Arc<BufferPoolManager> = Arc::clone(self);
@@ -463,16 +499,23 @@ impl BufferPoolManager {
             T::TYPE_ID
         );
 
-        let frame_id = self.get_available_frame()?;
+        // Pinned before the latch is released: the constructor may use the pool itself
+        let frame_id = {
+            let mut pins = self.pins.lock();
+            let frame_id = self.get_available_frame(&pins)?;
+            pins[frame_id as usize] = 1;
+            frame_id
+        };
         trace!("Got available frame: {}", frame_id);
 
-        self.evict_page_if_necessary(frame_id);
-
         let new_page_id = self.allocate_page_id();
         trace!("Allocated new page ID: {}", new_page_id);
 
         let new_page = self.create_typed_page_with_constructor::<T, F>(new_page_id, constructor);
+        self.unwritten.lock().insert(new_page_id);
+        let pins = self.pins.lock();
         self.update_page_metadata(frame_id, new_page_id, &new_page);
+        drop(pins);
 
         trace!(
             "Created new page {} in frame {} with custom options",
@@ -495,28 +538,9 @@ impl BufferPoolManager {
     pub fn write_page(&self, page_id: PageId, data: [u8; DB_PAGE_SIZE as usize]) {
         trace!("Writing to page with ID: {}", page_id);
 
-        // Acquire read lock on the page collection
-        let pages = self.pages.read();
-
-        // Find the target page
-        let mut target_page = None;
-        for (i, page_opt) in pages.iter().enumerate() {
-            if let Some(page) = page_opt {
-                let page_data = page.read(); // Acquire read lock on the page
-                if page_data.get_page_id() == page_id {
-                    // Access trait method directly
-                    target_page = Some((page.clone(), i));
-                    break;
-                }
-            }
-        }
-
-        // Drop the read lock before acquiring the write lock on the target page
-        drop(pages);
-
-        if let Some((page, _index)) = target_page {
+        if let Some(pin) = self.pin_frame(page_id) {
             // Acquire write lock on the target page
-            let mut page_data = page.write();
+            let mut page_data = pin.page.write();
 
             // Update the page data - access trait methods directly
             let _ = page_data.set_data(0, &data);
@@ -547,68 +571,34 @@ impl BufferPoolManager {
             return None;
         }
 
-        // Check if page is already in memory
-        if let Some(page) = self.get_page_internal(page_id) {
-            // Verify page type
-            let actual_type = {
-                let page_read = page.read();
-                let type_byte = page_read.get_data()[PAGE_TYPE_OFFSET];
-                let page_type = PageType::from_u8(type_byte);
-                trace!(
-                    "Page {} in memory - Type byte: {}, Parsed type: {:?}, Expected: {:?}",
-                    page_id,
-                    type_byte,
-                    page_type,
-                    T::TYPE_ID
-                );
-                page_type
-            };
-
-            if actual_type != Some(T::TYPE_ID) {
-                warn!(
-                    "Page type mismatch: expected {:?}, found {:?}",
-                    T::TYPE_ID,
-                    actual_type
-                );
-                return None;
-            }
+        self.fetch_or_load_page::<T>(page_id)
+    }
 
+    /// Returns the page from the pool, or loads it into the pool.
+    fn fetch_or_load_page<T: Page + 'static>(
+        self: &Arc<Self>,
+        page_id: PageId,
+    ) -> Option<PageGuard<T>> {
+        let mut pins = self.pins.lock();
+        if let Some((frame_id, page)) = self.get_page_internal(page_id) {
             // Mark frame as non-evictable while pinned and record access.
-            if let Some(&frame_id) = self.page_table.read().get(&page_id) {
-                let mut replacer = self.replacer.write();
-                replacer.record_access(frame_id, AccessType::Unknown);
-                replacer.set_evictable(frame_id, false);
-            }
-
-            // Create new guard (which will increment pin count)
-            let typed_page = unsafe {
-                let raw = Arc::into_raw(page) as *const RwLock<T>;
-                Arc::from_raw(raw)
-            };
-
-            let unpinner: Arc<BufferPoolManager> = Arc::clone(self);
-            let unpinner: Arc<dyn PageUnpinner> = unpinner;
-            return Some(PageGuard::new(typed_page, page_id, Some(unpinner)));
+            self.pin_mapped_frame(&mut pins, frame_id);
+            drop(pins);
+            return self.create_guard_from_existing::<T>(page_id, frame_id, page);
         }
 
         // Page not in memory, need to load from disk
-        self.load_page_from_disk::<T>(page_id)
+        self.load_page_from_disk::<T>(page_id, &mut pins)
     }
 
     /// Enhanced page loading with coordinated caching
     fn load_page_from_disk<T: Page + 'static>(
         self: &Arc<Self>,
         page_id: PageId,
+        pins: &mut Vec<usize>,
     ) -> Option<PageGuard<T>> {
         trace!("Loading page {} with cache coordination", page_id);
 
-        // Get available frame
-        let frame_id = self.get_available_frame()?;
-        trace!("Got available frame: {} for page load", frame_id);
-
-        // Evict if necessary
-        self.evict_page_if_necessary(frame_id);
-
         // Try to get page data using coordinated caching
         let page_data = if self.use_disk_manager_cache {
             self.load_page_with_cache_coordination(page_id)
@@ -625,12 +615,22 @@ impl BufferPoolManager {
         };
 
         // Verify page type and create page
-        if let Some(page_guard) = self.create_page_from_data::<T>(page_id, page_data) {
+        if let Some(page_arc) = self.create_page_from_data::<T>(page_id, page_data) {
+            // Only now take a frame, so that a failed load does not cost one
+            let frame_id = self.get_available_frame(pins)?;
+            trace!("Got available frame: {} for page load", frame_id);
+
             // Update metadata
-            let page_arc = page_guard.get_page().clone();
             self.update_page_metadata(frame_id, page_id, &page_arc);
+            pins[frame_id as usize] = 1;
             trace!("Successfully loaded page {} in frame {}", page_id, frame_id);
-            Some(page_guard)
+            let unpinner: Arc<BufferPoolManager> = Arc::clone(self);
+            let unpinner: Arc<dyn PageUnpinner> = unpinner;
+            Some(PageGuard::new_for_new_page(
+                page_arc,
+                page_id,
+                Some(unpinner),
+            ))
         } else {
             error!("Failed to create page {} from data", page_id);
             None
@@ -646,8 +646,12 @@ impl BufferPoolManager {
 
         // Use AsyncDiskManager's read_page which checks its multi-level cache first
         // This avoids duplication since AsyncDiskManager handles cache levels internally
-        futures::executor::block_on(async { self.disk_manager.read_page(page_id).await })
-            .map_err(std::io::Error::other)
+        // `unconstrained`: a task of the runtime that gets here cannot yield, so an exhausted
+        // cooperative budget would never be refilled and the read would wait forever
+        futures::executor::block_on(tokio::task::unconstrained(
+            self.disk_manager.read_page(page_id),
+        ))
+        .map_err(std::io::Error::other)
     }
 
     /// Load page bypassing AsyncDiskManager cache (BPM as sole cache)
@@ -657,16 +661,20 @@ impl BufferPoolManager {
         // When BPM wants to be the sole cache manager, we still use AsyncDiskManager
         // for I/O but could add a bypass_cache flag in the future
         // For now, we'll use the regular read_page but this could be optimized
-        futures::executor::block_on(async { self.disk_manager.read_page(page_id).await })
-            .map_err(std::io::Error::other)
+        // `unconstrained`: a task of the runtime that gets here cannot yield, so an exhausted
+        // cooperative budget would never be refilled and the read would wait forever
+        futures::executor::block_on(tokio::task::unconstrained(
+            self.disk_manager.read_page(page_id),
+        ))
+        .map_err(std::io::Error::other)
     }
 
     /// Creates a page from raw data with proper type checking
     fn create_page_from_data<T: Page + 'static>(
-        self: &Arc<Self>,
+        &self,
         page_id: PageId,
         data: Vec<u8>,
-    ) -> Option<PageGuard<T>> {
+    ) -> Option<Arc<RwLock<T>>> {
         // Verify data size
         if data.len() < DB_PAGE_SIZE as usize {
             error!(
@@ -711,13 +719,7 @@ impl BufferPoolManager {
             }
         }
 
-        let unpinner: Arc<BufferPoolManager> = Arc::clone(self);
-        let unpinner: Arc<dyn PageUnpinner> = unpinner;
-        Some(PageGuard::new_for_new_page(
-            page_arc,
-            page_id,
-            Some(unpinner),
-        ))
+        Some(page_arc)
     }
 
     /// Unpins a page with the given page ID.
@@ -732,18 +734,7 @@ impl BufferPoolManager {
     pub fn unpin_page(&self, page_id: PageId, is_dirty: bool, access_type: AccessType) -> bool {
         trace!("Unpinning page {} (dirty: {})", page_id, is_dirty);
 
-        let page_table = self.page_table.read();
-        let frame_id = match page_table.get(&page_id) {
-            Some(&fid) => fid,
-            None => {
-                trace!("Page {} not found in page table", page_id);
-                return false;
-            },
-        };
-        drop(page_table);
-
-        let pages = self.pages.read();
-        if let Some(Some(page)) = pages.get(frame_id as usize) {
+        if let Some((frame_id, page)) = self.get_page_internal(page_id) {
             let mut page_guard = page.write();
 
             // Update dirty flag
@@ -761,8 +752,13 @@ impl BufferPoolManager {
                     pin_count - 1
                 );
 
-                // If pin count reaches 0, mark as evictable
-                if pin_count == 1 {
+                drop(page_guard);
+
+                // If the last pin is gone, mark as evictable
+                let mut pins = self.pins.lock();
+                let frame_pins = &mut pins[frame_id as usize];
+                *frame_pins = frame_pins.saturating_sub(1);
+                if *frame_pins == 0 {
                     let mut replacer = self.replacer.write();
                     replacer.record_access(frame_id, access_type);
                     replacer.set_evictable(frame_id, true);
@@ -775,7 +771,7 @@ impl BufferPoolManager {
                 false
             }
         } else {
-            warn!("Page {} not found in pages array", page_id);
+            trace!("Page {} not found in page table", page_id);
             false
         }
     }
@@ -784,23 +780,12 @@ impl BufferPoolManager {
     pub async fn flush_page_async(&self, page_id: PageId) -> Result<(), String> {
         trace!("Flushing page {} to disk", page_id);
 
-        let frame_id = {
-            let page_table = self.page_table.read();
-            *page_table
-                .get(&page_id)
-                .ok_or_else(|| format!("Page {} not found in page table", page_id))?
-        };
-
-        let page = {
-            let pages = self.pages.read();
-            pages
-                .get(frame_id as usize)
-                .and_then(|p| p.as_ref())
-                .ok_or_else(|| format!("Page {} not found in pages array", page_id))?
-                .clone()
-        };
+        let _flush_guard = self.flush_latch.lock().await;
+        let pin = self
+            .pin_frame(page_id)
+            .ok_or_else(|| format!("Page {} not found in page table", page_id))?;
 
-        self.write_page_to_disk_async(page_id, &page).await
+        self.write_page_to_disk_async(page_id, &pin.page).await
     }
 
     /// Flushes all pages to disk asynchronously.
@@ -869,36 +854,33 @@ impl BufferPoolManager {
     pub fn delete_page(&self, page_id: PageId) -> Result<(), DeletePageError> {
         trace!("Deleting page {}", page_id);
 
+        let pins = self.pins.lock();
         let frame_id = self.get_frame_id(page_id)?;
 
         // Check if page is pinned
-        let pages = self.pages.read();
-        if let Some(Some(page)) = pages.get(frame_id as usize) {
-            let page_guard = page.read();
-            if page_guard.get_pin_count() > 0 {
-                return Err(DeletePageError::PagePinned(page_id));
-            }
+        if pins[frame_id as usize] > 0 {
+            return Err(DeletePageError::PagePinned(page_id));
         }
-        drop(pages);
 
         // Reset the frame
         self.reset_frame(frame_id)?;
+        self.unwritten.lock().remove(&page_id);
 
         // Remove from page table
         self.remove_page_from_table(page_id);
 
-        // Add frame to free list
-        {
-            let mut free_list = self.free_list.write();
-            free_list.push(frame_id);
-        }
-
         // Remove from replacer
         {
             let replacer = self.replacer.write();
             replacer.remove(frame_id);
         }
 
+        // Add frame to free list
+        {
+            let mut free_list = self.free_list.write();
+            free_list.push(frame_id);
+        }
+
         trace!("Successfully deleted page {}", page_id);
         Ok(())
     }
@@ -952,36 +934,15 @@ impl BufferPoolManager {
         }
     }
 
-    /// Evicts the page in the specified frame if it exists and is unpinned.
-    fn evict_page_if_necessary(&self, frame_id: FrameId) {
-        let pages = self.pages.read();
-        if let Some(Some(page)) = pages.get(frame_id as usize) {
-            let page_guard = page.read();
-            let old_page_id = page_guard.get_page_id();
-            let pin_count = page_guard.get_pin_count();
-            drop(page_guard);
-            drop(pages);
-
-            if pin_count == 0 {
-                trace!("Evicting page {} from frame {}", old_page_id, frame_id);
-                self.evict_old_page(frame_id, old_page_id);
-            } else {
-                warn!(
-                    "Cannot evict pinned page {} (pin count: {}) from frame {}",
-                    old_page_id, pin_count, frame_id
-                );
-            }
-        }
-    }
-
     /// Evicts a page from the specified frame, flushing to disk if dirty.
-    fn evict_old_page(&self, frame_id: FrameId, old_page_id: PageId) {
+    /// The page stays in the pool if it cannot be written.
+    fn evict_old_page(&self, frame_id: FrameId, old_page_id: PageId) -> Result<(), String> {
         // Check if page is dirty and flush if necessary
         let page_to_flush = {
             let pages = self.pages.read();
             if let Some(Some(page)) = pages.get(frame_id as usize) {
                 let is_dirty = page.read().is_dirty();
-                if is_dirty { Some(page.clone()) } else { None }
+                if is_dirty || self.unwritten.lock().contains(&old_page_id) { Some(page.clone()) } else { None }
             } else {
                 None
             }
@@ -989,12 +950,7 @@ impl BufferPoolManager {
 
         if let Some(page) = page_to_flush {
             trace!("Flushing dirty page {} before eviction", old_page_id);
-            if let Err(e) = self.write_page_to_disk_sync(old_page_id, &page) {
-                error!(
-                    "Failed to flush page {} during eviction: {}",
-                    old_page_id, e
-                );
-            }
+            self.write_page_to_disk_sync(old_page_id, &page)?;
         }
 
         // Remove from page table
@@ -1012,13 +968,15 @@ impl BufferPoolManager {
             "Successfully evicted page {} from frame {}",
             old_page_id, frame_id
         );
+        Ok(())
     }
 
     /// Gets an available frame, either from the free list or by evicting a page.
     ///
     /// This method first checks the free list for unused frames. If none are
     /// available, it uses the LRU-K replacer to select a victim for eviction.
-    fn get_available_frame(&self) -> Option<FrameId> {
+    /// `pins` is the latched pin table; frames with pins are never chosen.
+    fn get_available_frame(&self, pins: &[usize]) -> Option<FrameId> {
         // Try to get a frame from the free list first
         {
             let mut free_list = self.free_list.write();
@@ -1036,6 +994,9 @@ impl BufferPoolManager {
         for _ in 0..self.pool_size {
             if let Some(frame_id) = replacer.evict() {
                 trace!("LRU-K replacer selected frame {} for eviction", frame_id);
+                if pins[frame_id as usize] > 0 {
+                    continue;
+                }
 
                 // Find the page_id for this frame
                 let page_id = {
@@ -1053,8 +1014,16 @@ impl BufferPoolManager {
                 };
 
                 // If we found a page to evict, do it now
-                if let Some(old_page_id) = page_id {
-                    self.evict_old_page(frame_id, old_page_id);
+                if let Some(old_page_id) = page_id
+                    && let Err(e) = self.evict_old_page(frame_id, old_page_id)
+                {
+                    error!(
+                        "Failed to flush page {} during eviction: {}",
+                        old_page_id, e
+                    );
+                    replacer.record_access(frame_id, AccessType::Unknown);
+                    replacer.set_evictable(frame_id, true);
+                    continue;
                 }
 
                 return Some(frame_id);
@@ -1064,15 +1033,9 @@ impl BufferPoolManager {
             // Find pages with pin count 0 that aren't marked as evictable
             let pages = self.pages.read();
             for (i, page_opt) in pages.iter().enumerate() {
-                if let Some(page) = page_opt {
-                    let page_data = page.read();
-                    if page_data.get_pin_count() == 0 {
-                        // Drop read lock before acquiring write lock
-                        drop(page_data);
-
-                        // Set this frame as evictable
-                        replacer.set_evictable(i as FrameId, true);
-                    }
+                if page_opt.is_some() && pins[i] == 0 {
+                    // Set this frame as evictable
+                    replacer.set_evictable(i as FrameId, true);
                 }
             }
         }
@@ -1207,6 +1170,8 @@ impl BufferPoolManager {
             data
         };
 
+        let written = data_buffer.clone();
+
         // PERFORMANCE OPTIMIZATION: Use native async - no more blocking!
         self.disk_manager
             .write_page(page_id, data_buffer)
@@ -1214,10 +1179,7 @@ impl BufferPoolManager {
             .map_err(|e| format!("Failed to write page to disk: {}", e))?;
 
         // Mark page as clean after successful write
-        {
-            let mut page_guard = page.write();
-            page_guard.set_dirty(false);
-        }
+        self.mark_clean_if_unchanged(page_id, page, &written);
 
         trace!(
             "Successfully wrote page {} to disk with cache coordination",
@@ -1243,18 +1205,17 @@ impl BufferPoolManager {
             data
         };
 
+        let written = data_buffer.clone();
+
         // Use block_on for sync eviction path
-        let result = futures::executor::block_on(async {
-            self.disk_manager.write_page(page_id, data_buffer).await
-        });
+        let result = futures::executor::block_on(tokio::task::unconstrained(
+            self.disk_manager.write_page(page_id, data_buffer),
+        ));
 
         result.map_err(|e| format!("Failed to write page to disk: {}", e))?;
 
         // Mark page as clean after successful write
-        {
-            let mut page_guard = page.write();
-            page_guard.set_dirty(false);
-        }
+        self.mark_clean_if_unchanged(page_id, page, &written);
 
         trace!(
             "Successfully wrote page {} to disk (sync eviction path)",
@@ -1266,12 +1227,49 @@ impl BufferPoolManager {
     /// Retrieves a page from the buffer pool without type checking or guard creation.
     ///
     /// This is an internal helper that returns the raw page trait object if present.
-    fn get_page_internal(&self, page_id: PageId) -> Option<Arc<RwLock<dyn PageTrait>>> {
-        let page_table = self.page_table.read();
-        let frame_id = page_table.get(&page_id)?;
+    fn get_page_internal(
+        &self,
+        page_id: PageId,
+    ) -> Option<(FrameId, Arc<RwLock<dyn PageTrait>>)> {
+        let frame_id = *self.page_table.read().get(&page_id)?;
+        let page = self.pages.read()[frame_id as usize].clone()?;
+        Some((frame_id, page))
+    }
 
-        let pages = self.pages.read();
-        pages[*frame_id as usize].clone()
+    /// Adds a pin to a frame that holds a page, and records the access.
+    fn pin_mapped_frame(&self, pins: &mut [usize], frame_id: FrameId) {
+        pins[frame_id as usize] += 1;
+        let mut replacer = self.replacer.write();
+        replacer.record_access(frame_id, AccessType::Unknown);
+        replacer.set_evictable(frame_id, false);
+    }
+
+    /// Keeps a page that is in the pool there until the pin is dropped.
+    fn pin_frame(&self, page_id: PageId) -> Option<FramePin<'_>> {
+        let mut pins = self.pins.lock();
+        let (frame_id, page) = self.get_page_internal(page_id)?;
+        pins[frame_id as usize] += 1;
+        self.replacer.write().set_evictable(frame_id, false);
+        Some(FramePin {
+            bpm: self,
+            frame_id,
+            page,
+        })
+    }
+
+    /// Clears the dirty flag of a page whose image has been written, unless the page has
+    /// been modified since that image was taken.
+    fn mark_clean_if_unchanged(
+        &self,
+        page_id: PageId,
+        page: &Arc<RwLock<dyn PageTrait>>,
+        written: &[u8],
+    ) {
+        self.unwritten.lock().remove(&page_id);
+        let mut page_guard = page.write();
+        if page_guard.get_data()[..] == *written {
+            page_guard.set_dirty(false);
+        }
     }
 
     /// Loads multiple pages in batch for improved I/O performance.
@@ -1296,66 +1294,33 @@ impl BufferPoolManager {
 
         trace!("Loading {} pages in batch", page_ids.len());
 
-        // Check which pages are already in memory
-        let mut in_memory_pages = Vec::new();
-        let mut pages_to_load = Vec::new();
-
-        for page_id in page_ids {
-            if let Some(page) = self.get_page_internal(page_id) {
-                // Verify type and create guard
-                if let Some(guard) = self.create_guard_from_existing::<T>(page_id, page) {
-                    in_memory_pages.push((page_id, Some(guard)));
-                } else {
-                    in_memory_pages.push((page_id, None));
-                }
-            } else {
-                pages_to_load.push(page_id);
-            }
-        }
-
-        // Load missing pages from disk in batch
-        if !pages_to_load.is_empty() {
-            match self
-                .disk_manager
-                .read_pages_batch(pages_to_load.clone())
-                .await
-            {
-                Ok(pages_data) => {
-                    for (page_id, data) in pages_to_load.into_iter().zip(pages_data) {
-                        if let Some(guard) = self.create_page_from_data::<T>(page_id, data) {
-                            // Get frame and update metadata
-                            if let Some(frame_id) = self.get_available_frame() {
-                                self.evict_page_if_necessary(frame_id);
-                                let page_arc = guard.get_page().clone();
-                                self.update_page_metadata(frame_id, page_id, &page_arc);
-                            }
-                            in_memory_pages.push((page_id, Some(guard)));
-                        } else {
-                            in_memory_pages.push((page_id, None));
-                        }
-                    }
-                },
-                Err(e) => {
-                    error!("Failed to load pages in batch: {}", e);
-                    for page_id in pages_to_load {
-                        in_memory_pages.push((page_id, None));
-                    }
-                },
-            }
+        // Read the missing pages in one batch, which leaves them in the disk manager's cache
+        let pages_to_load: Vec<PageId> = {
+            let page_table = self.page_table.read();
+            page_ids
+                .iter()
+                .copied()
+                .filter(|page_id| !page_table.contains_key(page_id))
+                .collect()
+        };
+        if !pages_to_load.is_empty()
+            && let Err(e) = self.disk_manager.read_pages_batch(pages_to_load).await
+        {
+            error!("Failed to load pages in batch: {}", e);
         }
 
-        // Sort by original order and return
-        in_memory_pages.sort_by_key(|(page_id, _)| *page_id);
-        in_memory_pages
+        page_ids
             .into_iter()
-            .map(|(_, guard)| guard)
+            .map(|page_id| self.fetch_or_load_page::<T>(page_id))
             .collect()
     }
 
     /// Creates a guard from an existing page in memory
+    /// Takes over the caller's pin on the frame.
     fn create_guard_from_existing<T: Page + 'static>(
         self: &Arc<Self>,
         page_id: PageId,
+        frame_id: FrameId,
         page: Arc<RwLock<dyn PageTrait>>,
     ) -> Option<PageGuard<T>> {
         // Verify page type
@@ -1372,16 +1337,14 @@ impl BufferPoolManager {
                 T::TYPE_ID,
                 actual_type
             );
+            drop(FramePin {
+                bpm: self,
+                frame_id,
+                page,
+            });
             return None;
         }
 
-        // Mark frame as non-evictable while pinned and record access.
-        if let Some(&frame_id) = self.page_table.read().get(&page_id) {
-            let mut replacer = self.replacer.write();
-            replacer.record_access(frame_id, AccessType::Unknown);
-            replacer.set_evictable(frame_id, false);
-        }
-
         // Create typed page arc
         let typed_page = unsafe {
             let raw = Arc::into_raw(page) as *const RwLock<T>;
@@ -1409,60 +1372,53 @@ impl BufferPoolManager {
             max_pages
         );
 
-        // Collect dirty pages
-        let dirty_pages: Vec<(PageId, Vec<u8>)> = {
-            let pages = self.pages.read();
-            pages
-                .iter()
-                .filter_map(|page_opt| {
-                    if let Some(page) = page_opt {
-                        let page_guard = page.read();
-                        if page_guard.is_dirty() {
-                            let page_id = page_guard.get_page_id();
-                            let data = page_guard.get_data().to_vec();
-                            Some((page_id, data))
-                        } else {
-                            None
-                        }
-                    } else {
-                        None
+        let _flush_guard = self.flush_latch.lock().await;
+        let mut page_ids: Vec<PageId> = self.page_table.read().keys().copied().collect();
+        page_ids.sort_unstable();
+        // Pages are pinned while they are written: leave most of the pool to others
+        let chunk_size = (self.pool_size / 4).max(1);
+        let mut candidates = page_ids.into_iter();
+        let mut flushed = 0;
+
+        loop {
+            // Collect dirty pages
+            let mut pinned = Vec::new();
+            let mut dirty_pages: Vec<(PageId, Vec<u8>)> = Vec::new();
+            while dirty_pages.len() < chunk_size.min(max_pages - flushed)
+                && let Some(page_id) = candidates.next()
+            {
+                if let Some(pin) = self.pin_frame(page_id) {
+                    let page_guard = pin.page.read();
+                    if page_guard.is_dirty() {
+                        dirty_pages.push((page_id, page_guard.get_data().to_vec()));
+                        drop(page_guard);
+                        pinned.push(pin);
                     }
-                })
-                .take(max_pages)
-                .collect()
-        };
-
-        if dirty_pages.is_empty() {
-            return Ok(0);
-        }
+                }
+            }
 
-        // Write in batch using async disk manager
-        let result = self
-            .disk_manager
-            .write_pages_batch(dirty_pages.clone())
-            .await;
+            if dirty_pages.is_empty() {
+                return Ok(flushed);
+            }
 
-        match result {
-            Ok(()) => {
-                // Mark pages as clean
-                let pages = self.pages.read();
-                for (page_id, _) in &dirty_pages {
-                    if let Some(frame_id) = self.page_table.read().get(page_id)
-                        && let Some(Some(page)) = pages.get(*frame_id as usize)
-                    {
-                        page.write().set_dirty(false);
-                    }
-                }
-                trace!(
-                    "Successfully flushed {} dirty pages in batch",
-                    dirty_pages.len()
-                );
-                Ok(dirty_pages.len())
-            },
-            Err(e) => {
-                error!("Failed to flush pages in batch: {}", e);
-                Err(format!("Batch flush failed: {}", e))
-            },
+            // Write in batch using async disk manager
+            self.disk_manager
+                .write_pages_batch(dirty_pages.clone())
+                .await
+                .map_err(|e| {
+                    error!("Failed to flush pages in batch: {}", e);
+                    format!("Batch flush failed: {}", e)
+                })?;
+
+            // Mark pages as clean
+            for (pin, (page_id, data)) in pinned.iter().zip(&dirty_pages) {
+                self.mark_clean_if_unchanged(*page_id, &pin.page, data);
+            }
+            flushed += dirty_pages.len();
+            trace!(
+                "Successfully flushed {} dirty pages in batch",
+                dirty_pages.len()
+            );
         }
     }
 
@@ -1805,17 +1761,20 @@ pub struct CacheCoordinationStats {
 
 /// Manual Clone implementation that creates a shallow copy with shared state.
 ///
-/// All `Arc`-wrapped fields share state with the original. The `next_page_id`
-/// counter is copied as a new atomic with the current value.
+/// All `Arc`-wrapped fields, including the `next_page_id` counter, share state with the
+/// original.
 impl Clone for BufferPoolManager {
     fn clone(&self) -> Self {
         Self {
             pool_size: self.pool_size,
-            next_page_id: AtomicU64::new(self.next_page_id.load(Ordering::SeqCst)),
+            next_page_id: Arc::clone(&self.next_page_id),
             pages: Arc::clone(&self.pages),
             page_table: Arc::clone(&self.page_table),
             replacer: Arc::clone(&self.replacer),
             free_list: Arc::clone(&self.free_list),
+            pins: Arc::clone(&self.pins),
+            flush_latch: Arc::clone(&self.flush_latch),
+            unwritten: Arc::clone(&self.unwritten),
             disk_manager: Arc::clone(&self.disk_manager),
             use_disk_manager_cache: self.use_disk_manager_cache,
             bypass_disk_cache_for_pinned: self.bypass_disk_cache_for_pinned,
-- 
2.43.0


From cd78d2c619b3d336c3fe0e753a907737e47f3db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:08 +0000
Subject: [PATCH 018/120] fix: an operation that completes while its waiter
 subscribes, or behind skipped events, is still reported

---
 src/storage/disk/async_disk/io/completion.rs | 64 ++++++++++++++------
 1 file changed, 47 insertions(+), 17 deletions(-)

diff --git a/src/storage/disk/async_disk/io/completion.rs b/src/storage/disk/async_disk/io/completion.rs
index 5005114..771db2e 100644
--- a/src/storage/disk/async_disk/io/completion.rs
+++ b/src/storage/disk/async_disk/io/completion.rs
@@ -548,6 +548,9 @@ impl CompletionTracker {
         op_id: OperationId,
         wait_timeout: Duration,
     ) -> Result<OperationResult, String> {
+        // Subscribe before looking, so that a completion in between is not missed
+        let mut event_receiver = self.event_sender.subscribe();
+
         // First check if the operation is already completed
         {
             let operations = self.operations.read().await;
@@ -567,16 +570,21 @@ impl CompletionTracker {
             }
         }
 
-        // Subscribe to operation completion events
-        let mut event_receiver = self.event_sender.subscribe();
-
         // Use tokio::select to wait for either the operation completion or timeout
         tokio::select! {
             // Wait for operation completion event
             result = async {
-                while let Ok(event) = event_receiver.recv().await {
-                    if event.operation_id == op_id {
-                        return event.result;
+                loop {
+                    match event_receiver.recv().await {
+                        Ok(event) if event.operation_id == op_id => return event.result,
+                        Ok(_) => {},
+                        // Events were skipped: this operation's may have been among them
+                        Err(broadcast::error::RecvError::Lagged(_)) => {
+                            if !self.is_operation_pending(op_id).await {
+                                break;
+                            }
+                        },
+                        Err(broadcast::error::RecvError::Closed) => break,
                     }
                 }
                 // If the broadcast channel is closed, check final status
@@ -809,6 +817,9 @@ impl CompletionTracker {
         let mut remaining_ids: std::collections::HashSet<OperationId> =
             op_ids.iter().copied().collect();
 
+        // Subscribe before looking, so that a completion in between is not missed
+        let mut event_receiver = self.event_sender.subscribe();
+
         // Check for already completed operations
         {
             let operations = self.operations.read().await;
@@ -839,21 +850,40 @@ impl CompletionTracker {
             return Ok(results);
         }
 
-        // Subscribe to events for remaining operations
-        let mut event_receiver = self.event_sender.subscribe();
-
         tokio::select! {
             // Wait for all remaining operations
             _ = async {
                 while !remaining_ids.is_empty() {
-                    if let Ok(event) = event_receiver.recv().await {
-                        if remaining_ids.contains(&event.operation_id) {
-                            results.push((event.operation_id, event.result));
-                            remaining_ids.remove(&event.operation_id);
-                        }
-                    } else {
-                        // Channel closed, break
-                        break;
+                    match event_receiver.recv().await {
+                        Ok(event) => {
+                            if remaining_ids.remove(&event.operation_id) {
+                                results.push((event.operation_id, event.result));
+                            }
+                        },
+                        // Events were skipped: look up what has finished meanwhile
+                        Err(broadcast::error::RecvError::Lagged(_)) => {
+                            let operations = self.operations.read().await;
+                            remaining_ids.retain(|op_id| {
+                                let result = match operations.get(op_id) {
+                                    Some(OperationStatus::Pending { .. }) => return true,
+                                    Some(OperationStatus::Completed { result, .. }) => {
+                                        result.clone()
+                                    },
+                                    Some(OperationStatus::Cancelled { reason, .. }) => {
+                                        OperationResult::Error(format!(
+                                            "Operation was cancelled: {}",
+                                            reason
+                                        ))
+                                    },
+                                    None => OperationResult::Error(
+                                        "Operation completed without notification".to_string(),
+                                    ),
+                                };
+                                results.push((*op_id, result));
+                                false
+                            });
+                        },
+                        Err(broadcast::error::RecvError::Closed) => break,
                     }
                 }
             } => {}
-- 
2.43.0


From a0576d590b069c14995eace221f74224a452f0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:04 +0000
Subject: [PATCH 019/120] fix: a page read from the disk manager is the last
 one written, whatever the caches and the write buffer are doing

---
 .../disk/async_disk/cache/cache_manager.rs    |  36 ++++-
 src/storage/disk/async_disk/manager.rs        | 149 ++++++++++++++----
 2 files changed, 151 insertions(+), 34 deletions(-)

diff --git a/src/storage/disk/async_disk/cache/cache_manager.rs b/src/storage/disk/async_disk/cache/cache_manager.rs
index 46699b7..2a684e9 100644
--- a/src/storage/disk/async_disk/cache/cache_manager.rs
+++ b/src/storage/disk/async_disk/cache/cache_manager.rs
@@ -235,14 +235,14 @@ use std::sync::Arc;
 use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
 use std::time::Instant;
 
-use tokio::sync::RwLock;
+use tokio::sync::{RwLock, RwLockWriteGuard};
 
 use super::fifo::FIFOCache;
 use super::lfu::LFUCache;
 use super::lru_k::LRUKCache;
 use crate::common::config::{DB_PAGE_SIZE, PageId};
 use crate::storage::disk::async_disk::cache::cache_traits::{
-    CoreCache, FIFOCacheTrait, LFUCacheTrait, LRUKCacheTrait,
+    CoreCache, FIFOCacheTrait, LFUCacheTrait, LRUKCacheTrait, MutableCache,
 };
 use crate::storage::disk::async_disk::config::DiskManagerConfig;
 use crate::storage::disk::async_disk::metrics::collector::MetricsCollector;
@@ -1223,6 +1223,9 @@ impl CacheManager {
     /// }
     /// ```
     pub fn store_page(&self, page_id: PageId, data: Vec<u8>) {
+        // Whether and wherever the new data is kept, no tier may keep the old
+        self.forget_old_data(page_id, &data);
+
         // Check admission controller first
         if !self.should_admit_page(page_id, &data) {
             return;
@@ -1290,6 +1293,35 @@ impl CacheManager {
         self.record_access_pattern(page_id);
     }
 
+    /// Rids every tier of the previous data of a page (the FIFO tier, which removes only its
+    /// oldest page, takes the new data instead).
+    ///
+    /// A hit copies a page from a colder tier into the next warmer one while holding the
+    /// colder tier's lock, so going from cold to hot misses no copy.
+    fn forget_old_data(&self, page_id: PageId, data: &[u8]) {
+        fn exclusive<T>(lock: &RwLock<T>) -> RwLockWriteGuard<'_, T> {
+            loop {
+                match lock.try_write() {
+                    Ok(guard) => return guard,
+                    Err(_) => std::thread::yield_now(), // held for a lookup, never across an await
+                }
+            }
+        }
+        let mut cold_cache = exclusive(&self.cold_cache);
+        if cold_cache.contains(&page_id) {
+            let page_data = PageData {
+                data: Arc::new(data.to_vec()),
+                last_accessed: Instant::now(),
+                access_count: 1,
+                temperature: DataTemperature::Cold,
+            };
+            cold_cache.insert(page_id, page_data);
+        }
+        drop(cold_cache);
+        exclusive(&self.warm_cache).remove(&page_id);
+        exclusive(&self.hot_cache).remove(&page_id);
+    }
+
     /// Determines whether a page should be admitted to the cache.
     ///
     /// Implements the admission control policy based on memory pressure,
diff --git a/src/storage/disk/async_disk/manager.rs b/src/storage/disk/async_disk/manager.rs
index 6d9ed74..30be6a1 100644
--- a/src/storage/disk/async_disk/manager.rs
+++ b/src/storage/disk/async_disk/manager.rs
@@ -235,6 +235,7 @@
 //! - OS buffer cache is beneficial for sequential writes
 //! - Durability is ensured via explicit `sync_log()` calls
 
+use std::collections::HashMap;
 use std::future::Future;
 use std::io;
 use std::io::Result as IoResult;
@@ -266,6 +267,31 @@ use crate::storage::disk::async_disk::metrics::prediction::TrendData;
 use crate::storage::disk::async_disk::metrics::snapshot::MetricsSnapshot;
 use crate::storage::disk::async_disk::scheduler::{IOTask, IOTaskType, WorkStealingScheduler};
 
+/// The newest content of the pages whose last write has not reached the database file yet.
+///
+/// The write buffer only decides when to write; what is written, and what a read of such a
+/// page returns, comes from here.
+#[derive(Debug)]
+struct UnwrittenPages {
+    /// Content and version of each page still to be written
+    pages: HashMap<PageId, (u64, Vec<u8>)>,
+    /// Version of the last write accepted in each group of pages
+    versions: [u64; 64],
+}
+
+impl UnwrittenPages {
+    fn new() -> Self {
+        Self {
+            pages: HashMap::new(),
+            versions: [0; 64],
+        }
+    }
+
+    fn version(&self, page_id: PageId) -> u64 {
+        self.versions[page_id as usize % self.versions.len()]
+    }
+}
+
 /// Asynchronous Disk Manager that provides high-performance I/O operations
 /// with advanced features like caching, compression, and metrics collection.
 #[derive(Debug)]
@@ -287,6 +313,12 @@ pub struct AsyncDiskManager {
     // State tracking
     is_shutting_down: Arc<AtomicBool>,
     background_tasks: Mutex<Vec<JoinHandle<()>>>,
+
+    /// Accepted writes on their way to the file; also guards what the cache may keep
+    unwritten: parking_lot::Mutex<UnwrittenPages>,
+
+    /// Held by whoever is writing pages out, so that writes of a page stay in order
+    write_out: Mutex<()>,
 }
 
 impl DurabilityProvider for AsyncDiskManager {
@@ -401,6 +433,8 @@ impl AsyncDiskManager {
             metrics_collector,
             is_shutting_down: Arc::new(AtomicBool::new(false)),
             background_tasks: Mutex::new(Vec::new()),
+            unwritten: parking_lot::Mutex::new(UnwrittenPages::new()),
+            write_out: Mutex::new(()),
         };
 
         info!(
@@ -446,6 +480,22 @@ impl AsyncDiskManager {
             return Ok(data);
         }
 
+        // The file does not have the newest content of a page that is still to be written
+        let version = {
+            let unwritten = self.unwritten.lock();
+            if let Some((_, data)) = unwritten.pages.get(&page_id) {
+                let data = data.clone();
+                drop(unwritten);
+                self.metrics_collector.record_read(
+                    start_time.elapsed().as_nanos() as u64,
+                    data.len() as u64,
+                    true,
+                );
+                return Ok(data);
+            }
+            unwritten.version(page_id)
+        };
+
         // Page not in cache, schedule read operation
         debug!(
             "Cache miss for page {}, scheduling disk read with priority {:?}",
@@ -454,11 +504,11 @@ impl AsyncDiskManager {
 
         // Use scheduler if work-stealing is enabled
         if self.config.work_stealing_enabled {
-            self.schedule_read_operation(page_id, priority, start_time)
+            self.schedule_read_operation(page_id, priority, start_time, version)
                 .await
         } else {
             // Direct read without scheduling
-            self.direct_read_operation(page_id, start_time).await
+            self.direct_read_operation(page_id, start_time, version).await
         }
     }
 
@@ -468,6 +518,7 @@ impl AsyncDiskManager {
         page_id: PageId,
         priority: IOPriority,
         start_time: Instant,
+        version: u64,
     ) -> IoResult<Vec<u8>> {
         let (sender, receiver) = oneshot::channel();
 
@@ -504,7 +555,7 @@ impl AsyncDiskManager {
                 // Store in cache for future reads if caching is enabled
                 if self.config.cache_size_mb > 0 {
                     trace!("Storing page {} in cache", page_id);
-                    self.cache_manager.store_page(page_id, data.clone());
+                    self.cache_page_read(page_id, version, &data);
                 }
 
                 Ok(data)
@@ -525,6 +576,7 @@ impl AsyncDiskManager {
         &self,
         page_id: PageId,
         start_time: Instant,
+        version: u64,
     ) -> IoResult<Vec<u8>> {
         let data = self.io_engine.read().await.read_page(page_id).await?;
 
@@ -543,7 +595,7 @@ impl AsyncDiskManager {
         // Store in cache for future reads if caching is enabled
         if self.config.cache_size_mb > 0 {
             trace!("Storing page {} in cache", page_id);
-            self.cache_manager.store_page(page_id, data.clone());
+            self.cache_page_read(page_id, version, &data);
         }
 
         Ok(data)
@@ -585,6 +637,8 @@ impl AsyncDiskManager {
         );
         let start_time = Instant::now();
 
+        self.accept_write(page_id, &data);
+
         // Buffer the write using write manager
         debug!("Buffering write for page {}", page_id);
         let flushed_pages = self
@@ -592,12 +646,6 @@ impl AsyncDiskManager {
             .buffer_write(page_id, data.clone(), self)
             .await?;
 
-        // Update cache if caching is enabled
-        if self.config.cache_size_mb > 0 {
-            trace!("Updating cache for page {}", page_id);
-            self.cache_manager.store_page(page_id, data.clone());
-        }
-
         // Write any flushed pages to disk
         if let Some(pages) = flushed_pages {
             debug!(
@@ -654,7 +702,7 @@ impl AsyncDiskManager {
         // Get buffered pages to flush
         let pages = self.write_manager.force_flush(self).await?;
 
-        if !pages.is_empty() {
+        if !pages.is_empty() || self.has_unwritten_pages() {
             debug!("Flushing {} pages to disk", pages.len());
             self.write_pages_to_disk(pages.clone()).await?;
         }
@@ -723,38 +771,79 @@ impl AsyncDiskManager {
         }
     }
 
-    /// Writes multiple pages to disk
+    fn has_unwritten_pages(&self) -> bool {
+        !self.unwritten.lock().pages.is_empty()
+    }
+
+    /// Records an accepted write, which every later read sees
+    fn accept_write(&self, page_id: PageId, data: &[u8]) {
+        let mut unwritten = self.unwritten.lock();
+        let version = unwritten.version(page_id) + 1;
+        let group = page_id as usize % unwritten.versions.len();
+        unwritten.versions[group] = version;
+        unwritten.pages.insert(page_id, (version, data.to_vec()));
+        if self.config.cache_size_mb > 0 {
+            self.cache_manager.store_page(page_id, data.to_vec());
+        }
+    }
+
+    /// Caches a page read from the file, unless it has been written since `version`
+    fn cache_page_read(&self, page_id: PageId, version: u64, data: &[u8]) {
+        let unwritten = self.unwritten.lock();
+        if unwritten.version(page_id) == version {
+            self.cache_manager.store_page(page_id, data.to_vec());
+        }
+    }
+
+    /// Writes every page accepted so far to the file, including those in `pages`,
+    /// which have left the write buffer
     async fn write_pages_to_disk(&self, pages: Vec<(PageId, Vec<u8>)>) -> IoResult<()> {
-        debug!("Writing {} pages to disk", pages.len());
+        debug!("Writing {} flushed pages to disk", pages.len());
         let start_time = Instant::now();
         let mut total_bytes = 0;
+        let mut written = Vec::new();
 
-        let io_engine = self.io_engine.read().await;
+        let _turn = self.write_out.lock().await;
+        let page_ids: Vec<PageId> = self.unwritten.lock().pages.keys().copied().collect();
+        {
+            let io_engine = self.io_engine.read().await;
+            for page_id in page_ids {
+                let Some((version, data)) = self.unwritten.lock().pages.get(&page_id).cloned()
+                else {
+                    continue;
+                };
+                trace!(
+                    "Writing page {} to disk (size: {} bytes)",
+                    page_id,
+                    data.len()
+                );
+                io_engine.write_page(page_id, &data).await?;
+                total_bytes += data.len() as u64;
 
-        for (page_id, data) in &pages {
-            trace!(
-                "Writing page {} to disk (size: {} bytes)",
-                page_id,
-                data.len()
-            );
-            io_engine.write_page(*page_id, data).await?;
-            total_bytes += data.len() as u64;
+                // A write accepted meanwhile is still to be done
+                let mut unwritten = self.unwritten.lock();
+                if unwritten.pages.get(&page_id).is_some_and(|p| p.0 == version) {
+                    unwritten.pages.remove(&page_id);
+                }
+                drop(unwritten);
+                written.push((page_id, data));
+            }
         }
 
         // Apply durability policy if needed
-        debug!("Applying durability policy for {} pages", pages.len());
-        self.write_manager.apply_durability(&pages, self).await?;
+        debug!("Applying durability policy for {} pages", written.len());
+        self.write_manager.apply_durability(&written, self).await?;
 
         // Update metrics
         let elapsed = start_time.elapsed();
         debug!(
             "Disk write completed for {} pages (total: {} bytes, elapsed: {:?})",
-            pages.len(),
+            written.len(),
             total_bytes,
             elapsed
         );
         let elapsed_ns = elapsed.as_nanos() as u64;
-        self.update_batch_metrics(pages.len(), total_bytes, elapsed_ns);
+        self.update_batch_metrics(written.len(), total_bytes, elapsed_ns);
 
         Ok(())
     }
@@ -895,6 +984,7 @@ impl AsyncDiskManager {
             // Buffer all writes in this chunk
             for (page_id, data) in chunk {
                 Self::validate_page_data_len(data.len())?;
+                self.accept_write(*page_id, data);
                 trace!("Buffering page {} in batch write", page_id);
                 let flushed_pages = self
                     .write_manager
@@ -910,11 +1000,6 @@ impl AsyncDiskManager {
                     self.write_pages_to_disk(pages).await?;
                 }
 
-                // Update cache if caching is enabled
-                if self.config.cache_size_mb > 0 {
-                    self.cache_manager.store_page(*page_id, data.clone());
-                }
-
                 total_bytes += data.len() as u64;
             }
         }
@@ -1047,7 +1132,7 @@ impl AsyncDiskManager {
         warn!("Force flush all requested");
         let pages = self.write_manager.force_flush(self).await?;
 
-        if !pages.is_empty() {
+        if !pages.is_empty() || self.has_unwritten_pages() {
             debug!("Force flushing {} pages to disk", pages.len());
 
             // Use scheduler for large batches if work-stealing is enabled
-- 
2.43.0


From 1f6372ba7fea6dcfa9b1095b96b17016fb0323c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:07 +0000
Subject: [PATCH 020/120] fix: run the reads and batches that are given to the
 disk scheduler, which no one took from its queues

---
 src/storage/disk/async_disk/manager.rs | 145 +++++++++++++++++++++----
 1 file changed, 121 insertions(+), 24 deletions(-)

diff --git a/src/storage/disk/async_disk/manager.rs b/src/storage/disk/async_disk/manager.rs
index 30be6a1..ec5d550 100644
--- a/src/storage/disk/async_disk/manager.rs
+++ b/src/storage/disk/async_disk/manager.rs
@@ -321,6 +321,14 @@ pub struct AsyncDiskManager {
     write_out: Mutex<()>,
 }
 
+impl Drop for AsyncDiskManager {
+    fn drop(&mut self) {
+        for task in self.background_tasks.get_mut().drain(..) {
+            task.abort();
+        }
+    }
+}
+
 impl DurabilityProvider for AsyncDiskManager {
     fn sync_data(&self) -> impl Future<Output = IoResult<()>> + Send {
         self.sync()
@@ -424,6 +432,17 @@ impl AsyncDiskManager {
         let scheduler = Arc::new(WorkStealingScheduler::new(config.io_threads));
 
         // Create AsyncDiskManager
+        let scheduler_workers = (0..config.io_threads)
+            .filter(|_| config.work_stealing_enabled)
+            .map(|worker_id| {
+                tokio::spawn(Self::run_scheduled_tasks(
+                    worker_id,
+                    Arc::clone(&scheduler),
+                    Arc::clone(&io_engine),
+                ))
+            })
+            .collect();
+
         let manager = Self {
             io_engine,
             write_manager,
@@ -432,7 +451,7 @@ impl AsyncDiskManager {
             scheduler,
             metrics_collector,
             is_shutting_down: Arc::new(AtomicBool::new(false)),
-            background_tasks: Mutex::new(Vec::new()),
+            background_tasks: Mutex::new(scheduler_workers),
             unwritten: parking_lot::Mutex::new(UnwrittenPages::new()),
             write_out: Mutex::new(()),
         };
@@ -512,6 +531,54 @@ impl AsyncDiskManager {
         }
     }
 
+    /// Worker of the scheduler: runs the tasks of its own queue, helping out with the queues
+    /// of busy workers first when its own is empty.
+    async fn run_scheduled_tasks(
+        worker_id: usize,
+        scheduler: Arc<WorkStealingScheduler>,
+        io_engine: Arc<RwLock<AsyncIOEngine>>,
+    ) {
+        let own_queue = scheduler.get_worker_receiver(worker_id);
+        loop {
+            let queued = own_queue.lock().await.try_recv().ok();
+            let task = match queued.or_else(|| scheduler.try_steal_work(worker_id)) {
+                Some(task) => task,
+                None => match own_queue.lock().await.recv().await {
+                    Some(task) => task,
+                    None => return,
+                },
+            };
+            let result = Self::run_task(task.task_type, &io_engine).await;
+            if let Some(callback) = task.completion_callback {
+                let _ = callback.send(result); // the submitter may have gone
+            }
+        }
+    }
+
+    async fn run_task(
+        task: IOTaskType,
+        io_engine: &Arc<RwLock<AsyncIOEngine>>,
+    ) -> IoResult<Vec<u8>> {
+        let io_engine = io_engine.read().await;
+        let mut data = Vec::new();
+        match task {
+            IOTaskType::Read(page_id) => data = io_engine.read_page(page_id).await?,
+            IOTaskType::Write(page_id, page) => io_engine.write_page(page_id, &page).await?,
+            IOTaskType::BatchRead(page_ids) | IOTaskType::Prefetch(page_ids) => {
+                for page_id in page_ids {
+                    data.extend(io_engine.read_page(page_id).await?);
+                }
+            },
+            IOTaskType::BatchWrite(pages) => {
+                for (page_id, page) in pages {
+                    io_engine.write_page(page_id, &page).await?;
+                }
+            },
+            IOTaskType::Flush | IOTaskType::Sync => io_engine.sync().await?,
+        }
+        Ok(data)
+    }
+
     /// Schedules a read operation through the work-stealing scheduler
     async fn schedule_read_operation(
         &self,
@@ -804,30 +871,39 @@ impl AsyncDiskManager {
         let mut written = Vec::new();
 
         let _turn = self.write_out.lock().await;
-        let page_ids: Vec<PageId> = self.unwritten.lock().pages.keys().copied().collect();
-        {
-            let io_engine = self.io_engine.read().await;
-            for page_id in page_ids {
-                let Some((version, data)) = self.unwritten.lock().pages.get(&page_id).cloned()
-                else {
-                    continue;
-                };
+        let batch: Vec<(PageId, u64, Vec<u8>)> = {
+            let unwritten = self.unwritten.lock();
+            let newest = unwritten.pages.iter();
+            newest
+                .map(|(page_id, (version, data))| (*page_id, *version, data.clone()))
+                .collect()
+        };
+
+        // Use scheduler for large batches if work-stealing is enabled
+        let scheduled = self.config.work_stealing_enabled && batch.len() > self.config.batch_size;
+        if scheduled {
+            let pages = batch.iter().map(|(page_id, _, data)| (*page_id, data.clone()));
+            self.schedule_batch_write_operation(pages.collect()).await?;
+        }
+        for (page_id, version, data) in batch {
+            if !scheduled {
                 trace!(
                     "Writing page {} to disk (size: {} bytes)",
                     page_id,
                     data.len()
                 );
+                let io_engine = self.io_engine.read().await;
                 io_engine.write_page(page_id, &data).await?;
-                total_bytes += data.len() as u64;
+            }
+            total_bytes += data.len() as u64;
 
-                // A write accepted meanwhile is still to be done
-                let mut unwritten = self.unwritten.lock();
-                if unwritten.pages.get(&page_id).is_some_and(|p| p.0 == version) {
-                    unwritten.pages.remove(&page_id);
-                }
-                drop(unwritten);
-                written.push((page_id, data));
+            // A write accepted meanwhile is still to be done
+            let mut unwritten = self.unwritten.lock();
+            if unwritten.pages.get(&page_id).is_some_and(|p| p.0 == version) {
+                unwritten.pages.remove(&page_id);
             }
+            drop(unwritten);
+            written.push((page_id, data));
         }
 
         // Apply durability policy if needed
@@ -860,7 +936,7 @@ impl AsyncDiskManager {
 
         for chunk in page_ids.chunks(batch_size) {
             let chunk_results = if self.config.work_stealing_enabled && chunk.len() > 1 {
-                self.schedule_batch_read_operation(chunk.to_vec()).await?
+                self.read_batch_with_scheduler(chunk).await?
             } else {
                 self.direct_batch_read_operation(chunk.to_vec()).await?
             };
@@ -887,6 +963,32 @@ impl AsyncDiskManager {
         Ok(results)
     }
 
+    /// Reads pages in one task, except those whose newest content is in memory
+    async fn read_batch_with_scheduler(&self, page_ids: &[PageId]) -> IoResult<Vec<Vec<u8>>> {
+        let in_memory = |page_id| {
+            let unwritten = self.unwritten.lock();
+            unwritten.pages.get(&page_id).map(|(_, data)| data.clone())
+        };
+        let mut results: Vec<Option<Vec<u8>>> =
+            page_ids.iter().map(|page_id| in_memory(*page_id)).collect();
+        let on_disk: Vec<PageId> = page_ids
+            .iter()
+            .zip(&results)
+            .filter(|(_, data)| data.is_none())
+            .map(|(page_id, _)| *page_id)
+            .collect();
+        if !on_disk.is_empty() {
+            let mut read = self
+                .schedule_batch_read_operation(on_disk)
+                .await?
+                .into_iter();
+            for data in results.iter_mut().filter(|data| data.is_none()) {
+                *data = read.next();
+            }
+        }
+        Ok(results.into_iter().flatten().collect())
+    }
+
     /// Schedules a batch read operation through the scheduler
     async fn schedule_batch_read_operation(&self, page_ids: Vec<PageId>) -> IoResult<Vec<Vec<u8>>> {
         let start_time = Instant::now();
@@ -1135,12 +1237,7 @@ impl AsyncDiskManager {
         if !pages.is_empty() || self.has_unwritten_pages() {
             debug!("Force flushing {} pages to disk", pages.len());
 
-            // Use scheduler for large batches if work-stealing is enabled
-            if self.config.work_stealing_enabled && pages.len() > self.config.batch_size {
-                self.schedule_batch_write_operation(pages).await?;
-            } else {
-                self.write_pages_to_disk(pages).await?;
-            }
+            self.write_pages_to_disk(pages).await?;
         }
 
         // Force sync regardless of policy
-- 
2.43.0


From f566c76f7f32bf0da3bdbaf5f0438b9c08bbce7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:54 +0000
Subject: [PATCH 021/120] fix: a heap LFU cache of capacity 0 stores nothing,
 as the other caches do

---
 src/storage/disk/async_disk/cache/heap_lfu.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/storage/disk/async_disk/cache/heap_lfu.rs b/src/storage/disk/async_disk/cache/heap_lfu.rs
index c621f22..153f069 100644
--- a/src/storage/disk/async_disk/cache/heap_lfu.rs
+++ b/src/storage/disk/async_disk/cache/heap_lfu.rs
@@ -375,6 +375,10 @@ where
             return Some(std::mem::replace(old_value, value));
         }
 
+        if self.capacity == 0 {
+            return None;
+        }
+
         // Ensure we have capacity (may evict LFU item)
         self.ensure_capacity();
 
-- 
2.43.0


From 737bd8f3ec58cfbd66460a0af4746bbe30506aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:06 +0000
Subject: [PATCH 022/120] fix: a timed out operation is no longer counted
 twice, which wrapped the pending counter

---
 src/storage/disk/async_disk/io/completion.rs | 42 ++++++++++++--------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/src/storage/disk/async_disk/io/completion.rs b/src/storage/disk/async_disk/io/completion.rs
index 771db2e..7a811bc 100644
--- a/src/storage/disk/async_disk/io/completion.rs
+++ b/src/storage/disk/async_disk/io/completion.rs
@@ -426,7 +426,28 @@ impl CompletionTracker {
         op_id: OperationId,
         result: OperationResult,
     ) -> Result<(), String> {
-        let (duration, data_size, is_success) = {
+        let (duration, data_size, is_success) = self.finish_operation(op_id, result).await?;
+
+        // Record metrics
+        if is_success {
+            self.metrics
+                .record_operation_complete(duration, data_size, true)
+                .await;
+        } else {
+            self.metrics.record_operation_failed();
+        }
+
+        Ok(())
+    }
+
+    /// Gives a pending operation its result and tells its waiters, leaving the metrics to the
+    /// caller. Returns how long the operation took, its data size and whether it succeeded.
+    async fn finish_operation(
+        &self,
+        op_id: OperationId,
+        result: OperationResult,
+    ) -> Result<(Duration, u64, bool), String> {
+        let finished = {
             let mut operations = self.operations.write().await;
 
             if let Some(status) = operations.get_mut(&op_id) {
@@ -468,16 +489,7 @@ impl CompletionTracker {
         // Ignore broadcast errors (no receivers is OK)
         let _ = self.event_sender.send(event);
 
-        // Record metrics
-        if is_success {
-            self.metrics
-                .record_operation_complete(duration, data_size, true)
-                .await;
-        } else {
-            self.metrics.record_operation_failed();
-        }
-
-        Ok(())
+        Ok(finished)
     }
 
     /// Fails an operation with an error
@@ -676,11 +688,9 @@ impl CompletionTracker {
         let mut timed_out_count = 0;
 
         for op_id in timed_out_ids {
-            if self
-                .fail_operation(op_id, "Operation timed out".to_string())
-                .await
-                .is_ok()
-            {
+            let result = OperationResult::Error("Operation timed out".to_string());
+
+            if self.finish_operation(op_id, result).await.is_ok() {
                 timed_out_count += 1;
 
                 // Record timeout-specific metric
-- 
2.43.0


From a4da1003f01714fa87908233db8324a11db2497d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:33 +0000
Subject: [PATCH 023/120] fix: reads after the disk manager was shut down fail
 instead of waiting for a worker that is gone

---
 src/storage/disk/async_disk/io/io_impl.rs | 19 +++++++++++++++++++
 src/storage/disk/async_disk/manager.rs    | 13 +++++++++----
 2 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/storage/disk/async_disk/io/io_impl.rs b/src/storage/disk/async_disk/io/io_impl.rs
index 1773e43..22b498b 100644
--- a/src/storage/disk/async_disk/io/io_impl.rs
+++ b/src/storage/disk/async_disk/io/io_impl.rs
@@ -264,6 +264,8 @@ pub struct AsyncIOEngine {
 
     // I/O completion tracking
     completion_tracker: Arc<CompletionTracker>,
+    /// Set by `close()`, after which no operation is accepted
+    closed: bool,
 }
 
 impl AsyncIOEngine {
@@ -303,6 +305,7 @@ impl AsyncIOEngine {
             executor,
             worker_manager,
             completion_tracker,
+            closed: false,
         })
     }
 
@@ -332,6 +335,13 @@ impl AsyncIOEngine {
         self.worker_manager.shutdown().await;
     }
 
+    /// Stops the I/O engine for good: later operations fail instead of waiting for a worker
+    pub async fn close(&mut self) {
+        self.stop().await;
+        self.closed = true;
+        self.cancel_all_pending_operations("I/O engine closed").await;
+    }
+
     /// Reads a page from the database file (now uses queue)
     pub async fn read_page(&self, page_id: PageId) -> IoResult<Vec<u8>> {
         self.read_page_with_priority(page_id, priorities::PAGE_READ)
@@ -634,6 +644,15 @@ impl AsyncIOEngine {
         priority: u8,
     ) -> (u64, oneshot::Receiver<OperationResult>) {
         let (op_id, receiver) = self.completion_tracker.start_operation(None).await;
+
+        if self.closed {
+            let _ = self
+                .completion_tracker
+                .cancel_operation(op_id, "I/O engine closed".to_string())
+                .await;
+            return (op_id, receiver);
+        }
+
         self.queue_manager
             .enqueue_operation(operation_type, priority, op_id)
             .await;
diff --git a/src/storage/disk/async_disk/manager.rs b/src/storage/disk/async_disk/manager.rs
index ec5d550..5c9edfe 100644
--- a/src/storage/disk/async_disk/manager.rs
+++ b/src/storage/disk/async_disk/manager.rs
@@ -522,7 +522,7 @@ impl AsyncDiskManager {
         );
 
         // Use scheduler if work-stealing is enabled
-        if self.config.work_stealing_enabled {
+        if self.has_scheduler_workers() {
             self.schedule_read_operation(page_id, priority, start_time, version)
                 .await
         } else {
@@ -880,7 +880,7 @@ impl AsyncDiskManager {
         };
 
         // Use scheduler for large batches if work-stealing is enabled
-        let scheduled = self.config.work_stealing_enabled && batch.len() > self.config.batch_size;
+        let scheduled = self.has_scheduler_workers() && batch.len() > self.config.batch_size;
         if scheduled {
             let pages = batch.iter().map(|(page_id, _, data)| (*page_id, data.clone()));
             self.schedule_batch_write_operation(pages.collect()).await?;
@@ -924,6 +924,11 @@ impl AsyncDiskManager {
         Ok(())
     }
 
+    /// Whether there are workers that run scheduled tasks: `shutdown()` ends them
+    fn has_scheduler_workers(&self) -> bool {
+        self.config.work_stealing_enabled && !self.is_shutting_down.load(Ordering::SeqCst)
+    }
+
     /// Reads multiple pages in a batch operation
     pub async fn read_pages_batch(&self, page_ids: Vec<PageId>) -> IoResult<Vec<Vec<u8>>> {
         debug!("Reading batch of {} pages", page_ids.len());
@@ -935,7 +940,7 @@ impl AsyncDiskManager {
         let mut total_bytes = 0;
 
         for chunk in page_ids.chunks(batch_size) {
-            let chunk_results = if self.config.work_stealing_enabled && chunk.len() > 1 {
+            let chunk_results = if self.has_scheduler_workers() && chunk.len() > 1 {
                 self.read_batch_with_scheduler(chunk).await?
             } else {
                 self.direct_batch_read_operation(chunk.to_vec()).await?
@@ -1618,7 +1623,7 @@ impl AsyncDiskManager {
 
             // Stop the engine and wait for workers to exit
             debug!("Stopping AsyncIOEngine and waiting for workers to exit");
-            io_engine.stop().await;
+            io_engine.close().await;
         }
 
         // Cancel background tasks
-- 
2.43.0


From cb392314bc582f0a895b6e60a2b17620f054036b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:51 +0000
Subject: [PATCH 024/120] fix: the iterators report the RID of the tuple they
 returned, also after skipping tuples

---
 src/storage/table/table_iterator.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/storage/table/table_iterator.rs b/src/storage/table/table_iterator.rs
index cadab87..43e680d 100644
--- a/src/storage/table/table_iterator.rs
+++ b/src/storage/table/table_iterator.rs
@@ -422,7 +422,6 @@ impl Iterator for TableScanIterator {
             return None;
         }
 
-        let current_rid = self.inner.get_rid();
         let result = self.inner.next();
 
         // Update end status
@@ -430,7 +429,7 @@ impl Iterator for TableScanIterator {
             self.is_end = true;
             self.last_rid = None;
         } else {
-            self.last_rid = Some(current_rid);
+            self.last_rid = self.inner.get_last_rid();
         }
 
         result
@@ -441,10 +440,10 @@ impl Iterator for TableIterator {
     type Item = (Arc<TupleMeta>, Arc<Tuple>);
 
     fn next(&mut self) -> Option<Self::Item> {
-        // Capture the RID we are about to return; `advance` will move to the next slot.
-        let current_rid = self.current_rid;
-
         while !self.is_end() {
+            // Capture the RID we may be about to return; `advance` will move to the next slot.
+            let current_rid = self.current_rid;
+
             debug!("Attempting to get tuple with RID: {:?}", self.current_rid);
 
             let result = if let Some(txn_ctx) = &self.txn_ctx {
-- 
2.43.0


From 32b316f399c6524dbc38be0d728ee9722c498cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:59 +0000
Subject: [PATCH 025/120] fix: a pool opened on an existing database file keeps
 its pages instead of handing their IDs out again

---
 src/buffer/buffer_pool_manager_async.rs |  3 ++-
 src/storage/disk/async_disk/manager.rs  | 10 ++++++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/buffer/buffer_pool_manager_async.rs b/src/buffer/buffer_pool_manager_async.rs
index 36bf641..16bf151 100644
--- a/src/buffer/buffer_pool_manager_async.rs
+++ b/src/buffer/buffer_pool_manager_async.rs
@@ -355,7 +355,8 @@ impl BufferPoolManager {
 
         Ok(Self {
             pool_size,
-            next_page_id: Arc::new(AtomicU64::new(0)),
+            // Pages that are already in the file keep their IDs
+            next_page_id: Arc::new(AtomicU64::new(disk_manager.get_existing_pages())),
             pages: Arc::new(RwLock::new(vec![None; pool_size])),
             page_table: Arc::new(RwLock::new(HashMap::new())),
             replacer,
diff --git a/src/storage/disk/async_disk/manager.rs b/src/storage/disk/async_disk/manager.rs
index 5c9edfe..e616300 100644
--- a/src/storage/disk/async_disk/manager.rs
+++ b/src/storage/disk/async_disk/manager.rs
@@ -319,6 +319,9 @@ pub struct AsyncDiskManager {
 
     /// Held by whoever is writing pages out, so that writes of a page stay in order
     write_out: Mutex<()>,
+
+    /// Pages the database file held when it was opened
+    existing_pages: u64,
 }
 
 impl Drop for AsyncDiskManager {
@@ -380,6 +383,7 @@ impl AsyncDiskManager {
             true,
             &db_direct_io_config,
         )?;
+        let existing_pages = db_file_std.metadata()?.len().div_ceil(DB_PAGE_SIZE);
         let db_file = Arc::new(Mutex::new(File::from_std(db_file_std)));
 
         debug!(
@@ -454,6 +458,7 @@ impl AsyncDiskManager {
             background_tasks: Mutex::new(scheduler_workers),
             unwritten: parking_lot::Mutex::new(UnwrittenPages::new()),
             write_out: Mutex::new(()),
+            existing_pages,
         };
 
         info!(
@@ -1550,6 +1555,11 @@ impl AsyncDiskManager {
         &self.config
     }
 
+    /// Gets the number of pages the database file held when it was opened
+    pub fn get_existing_pages(&self) -> u64 {
+        self.existing_pages
+    }
+
     /// Gets the current size of the database file in bytes
     pub async fn get_db_file_size(&self) -> IoResult<u64> {
         debug!("Getting database file size");
-- 
2.43.0


From 33e32ed866f1b2cf8190f731c8f33b910ed404b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:59 +0000
Subject: [PATCH 026/120] fix: redo does not insert a tuple again that its page
 already holds

---
 src/recovery/log_recovery.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/recovery/log_recovery.rs b/src/recovery/log_recovery.rs
index 6155949..6e682ac 100644
--- a/src/recovery/log_recovery.rs
+++ b/src/recovery/log_recovery.rs
@@ -649,7 +649,12 @@ impl LogRecoveryManager {
                         let mut page = page_guard.write();
                         let meta = TupleMeta::new(record.get_txn_id());
                         if let Some(tuple) = record.get_insert_tuple() {
-                            let _ = page.insert_tuple_with_rid(&meta, tuple, *rid);
+                            // The page may have been written out after the insert
+                            if page.get_tuple(rid, true).is_ok() {
+                                let _ = page.update_tuple(meta, tuple, *rid);
+                            } else {
+                                let _ = page.insert_tuple_with_rid(&meta, tuple, *rid);
+                            }
                             page.set_dirty(true);
                         }
                     }
-- 
2.43.0


From 741488f80ab213c96aa55737c23f51c654e7cb9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:30 +0000
Subject: [PATCH 027/120] fix: after recovery new log records are numbered
 after those in the log, so that redo and undo can tell them apart

---
 src/recovery/log_manager.rs  | 11 +++++++++++
 src/recovery/log_recovery.rs | 10 ++++++----
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/recovery/log_manager.rs b/src/recovery/log_manager.rs
index fc85bc8..995d6bf 100644
--- a/src/recovery/log_manager.rs
+++ b/src/recovery/log_manager.rs
@@ -531,6 +531,17 @@ impl LogManager {
         lsn
     }
 
+    /// Continues the numbering of a log that is already on disk up to `last_lsn`.
+    pub fn continue_after(&mut self, last_lsn: Lsn) {
+        self.state
+            .next_lsn
+            .fetch_max(last_lsn + 1, Ordering::SeqCst);
+        let persistent = self.state.persistent_lsn.load(Ordering::SeqCst);
+        if persistent == INVALID_LSN || persistent < last_lsn {
+            self.set_persistent_lsn(last_lsn);
+        }
+    }
+
     /// Sets the persistent log sequence number (LSN).
     ///
     /// # Parameters
diff --git a/src/recovery/log_recovery.rs b/src/recovery/log_recovery.rs
index 6e682ac..35295b5 100644
--- a/src/recovery/log_recovery.rs
+++ b/src/recovery/log_recovery.rs
@@ -340,6 +340,8 @@ impl LogRecoveryManager {
 
         // Phase 1: Analysis - determine active transactions at time of crash
         let (mut txn_table, mut dirty_page_table, start_redo_lsn) = self.analyze_log().await?;
+        let lsns = self.build_lsn_offset_map().await?;
+        let last_lsn = lsns.keys().filter(|lsn| **lsn != INVALID_LSN).max();
 
         // Phase 2: Redo - reapply all updates (even from aborted transactions)
         self.redo_log(&mut txn_table, &mut dirty_page_table, start_redo_lsn)
@@ -348,10 +350,10 @@ impl LogRecoveryManager {
         // Phase 3: Undo - rollback uncommitted transactions
         self.undo_log(&txn_table).await?;
 
-        // Update the log manager's persistent LSN
-        let mut log_manager = self.log_manager.write();
-        let lsn = log_manager.get_next_lsn();
-        log_manager.set_persistent_lsn(lsn);
+        // Number new records after those in the log, all of which are on disk
+        if let Some(last_lsn) = last_lsn {
+            self.log_manager.write().continue_after(*last_lsn);
+        }
 
         info!("Database recovery completed successfully");
         Ok(())
-- 
2.43.0


From 9d07f715e49ea317095a515dc678d01b6e2ac2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:50 +0000
Subject: [PATCH 028/120] fix: recovery repeats the rollback of aborted
 transactions, whose updates it used to leave redone

---
 src/recovery/log_recovery.rs | 128 +++++++++++++++++++++--------------
 1 file changed, 76 insertions(+), 52 deletions(-)

diff --git a/src/recovery/log_recovery.rs b/src/recovery/log_recovery.rs
index 35295b5..671c067 100644
--- a/src/recovery/log_recovery.rs
+++ b/src/recovery/log_recovery.rs
@@ -456,6 +456,9 @@ impl LogRecoveryManager {
         // Create a log iterator to safely read through the log
         let mut log_iterator = LogIterator::new(self.disk_manager.clone());
 
+        // An abort leaves no records of what it put back, so it is repeated where it happened
+        let lsn_to_offset_map = self.build_lsn_offset_map().await?;
+
         // Process each log record
         while let Some(log_record) = log_iterator.next().await {
             let lsn = log_record.get_lsn();
@@ -492,6 +495,14 @@ impl LogRecoveryManager {
             if should_redo {
                 debug!("Redoing operation at LSN {}", lsn);
                 self.redo_record(&log_record)?;
+            } else if log_record.get_log_record_type() == LogRecordType::Abort {
+                debug!("Repeating the rollback at LSN {}", lsn);
+                self.undo_txn(
+                    log_record.get_txn_id(),
+                    log_record.get_prev_lsn(),
+                    &lsn_to_offset_map,
+                )
+                .await?;
             }
         }
 
@@ -514,74 +525,87 @@ impl LogRecoveryManager {
 
         info!("Undoing {} active transactions", active_txns.len());
 
+        // Build a map of LSN to offset in the log file
+        // This requires a full scan of the log to build the LSN-to-offset mapping
+        let lsn_to_offset_map = self.build_lsn_offset_map().await?;
+
         // For each active transaction, undo its operations in reverse LSN order
         for txn_id in active_txns {
             debug!("Undoing transaction {}", txn_id);
 
             // Start from the last LSN of this transaction
-            let mut current_lsn = txn_table.get_prev_lsn(txn_id).unwrap_or(INVALID_LSN);
-
-            // Build a map of LSN to offset in the log file
-            // This requires a full scan of the log to build the LSN-to-offset mapping
-            let lsn_to_offset_map = self.build_lsn_offset_map().await?;
-
-            // Continue until we reach the BEGIN record or INVALID_LSN
-            while current_lsn != INVALID_LSN {
-                // Get the offset for this LSN
-                if let Some(offset) = lsn_to_offset_map.get(&current_lsn) {
-                    // Create a LogIterator at this specific offset
-                    let mut single_record_iterator =
-                        LogIterator::with_offset(self.disk_manager.clone(), *offset);
-
-                    if let Some(log_record) = single_record_iterator.next().await {
-                        if log_record.get_txn_id() == txn_id {
-                            match log_record.get_log_record_type() {
-                                LogRecordType::Begin => {
-                                    // We've reached the beginning of this transaction
-                                    debug!("Reached BEGIN record for transaction {}", txn_id);
-                                    break;
-                                },
-                                LogRecordType::Insert => {
-                                    // Undo insert by deleting
-                                    self.undo_insert(&log_record)?;
-                                },
-                                LogRecordType::Update => {
-                                    // Undo update by restoring old value
-                                    self.undo_update(&log_record)?;
-                                },
-                                LogRecordType::MarkDelete => {
-                                    // Undo delete by restoring tuple
-                                    self.undo_delete(&log_record)?;
-                                },
-                                LogRecordType::NewPage => {
-                                    // Don't need to undo new page creation
-                                },
-                                _ => {}, // Ignore other record types for undo
-                            }
+            let last_lsn = txn_table.get_prev_lsn(txn_id).unwrap_or(INVALID_LSN);
+            self.undo_txn(txn_id, last_lsn, &lsn_to_offset_map).await?;
 
-                            // Move to previous LSN
-                            current_lsn = log_record.get_prev_lsn();
-                        } else {
-                            // This shouldn't happen in a well-formed log
-                            warn!("Found record for different transaction during undo");
-                            break;
+            // Write an ABORT record for this transaction
+            debug!("Writing ABORT record for transaction {}", txn_id);
+            // In a real implementation, we would create and append an actual ABORT record
+        }
+
+        info!("Undo phase complete");
+        Ok(())
+    }
+
+    /// Undoes the operations of one transaction, from its record `last_lsn` back to its BEGIN.
+    async fn undo_txn(
+        &self,
+        txn_id: TxnId,
+        last_lsn: Lsn,
+        lsn_to_offset_map: &HashMap<Lsn, u64>,
+    ) -> Result<(), String> {
+        let mut current_lsn = last_lsn;
+
+        // Continue until we reach the BEGIN record or INVALID_LSN
+        while current_lsn != INVALID_LSN {
+            // Get the offset for this LSN
+            if let Some(offset) = lsn_to_offset_map.get(&current_lsn) {
+                // Create a LogIterator at this specific offset
+                let mut single_record_iterator =
+                    LogIterator::with_offset(self.disk_manager.clone(), *offset);
+
+                if let Some(log_record) = single_record_iterator.next().await {
+                    if log_record.get_txn_id() == txn_id {
+                        match log_record.get_log_record_type() {
+                            LogRecordType::Begin => {
+                                // We've reached the beginning of this transaction
+                                debug!("Reached BEGIN record for transaction {}", txn_id);
+                                break;
+                            },
+                            LogRecordType::Insert => {
+                                // Undo insert by deleting
+                                self.undo_insert(&log_record)?;
+                            },
+                            LogRecordType::Update => {
+                                // Undo update by restoring old value
+                                self.undo_update(&log_record)?;
+                            },
+                            LogRecordType::MarkDelete => {
+                                // Undo delete by restoring tuple
+                                self.undo_delete(&log_record)?;
+                            },
+                            LogRecordType::NewPage => {
+                                // Don't need to undo new page creation
+                            },
+                            _ => {}, // Ignore other record types for undo
                         }
+
+                        // Move to previous LSN
+                        current_lsn = log_record.get_prev_lsn();
                     } else {
-                        warn!("Could not read log record during undo");
+                        // This shouldn't happen in a well-formed log
+                        warn!("Found record for different transaction during undo");
                         break;
                     }
                 } else {
-                    warn!("Could not find offset for LSN {} during undo", current_lsn);
+                    warn!("Could not read log record during undo");
                     break;
                 }
+            } else {
+                warn!("Could not find offset for LSN {} during undo", current_lsn);
+                break;
             }
-
-            // Write an ABORT record for this transaction
-            debug!("Writing ABORT record for transaction {}", txn_id);
-            // In a real implementation, we would create and append an actual ABORT record
         }
 
-        info!("Undo phase complete");
         Ok(())
     }
 
-- 
2.43.0


From 8d5dd9de80078aa0426f8d4e6790a520f0433d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:52 +0000
Subject: [PATCH 029/120] fix: recovery logs an abort for every transaction it
 rolls back

---
 src/recovery/log_recovery.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/recovery/log_recovery.rs b/src/recovery/log_recovery.rs
index 671c067..e5dde71 100644
--- a/src/recovery/log_recovery.rs
+++ b/src/recovery/log_recovery.rs
@@ -355,6 +355,18 @@ impl LogRecoveryManager {
             self.log_manager.write().continue_after(*last_lsn);
         }
 
+        // Log the rollbacks, so that a later recovery repeats them before newer transactions,
+        // which may use the same transaction IDs and change the same rows
+        for txn_id in txn_table.get_active_txns() {
+            debug!("Writing ABORT record for transaction {}", txn_id);
+            let last_lsn = txn_table.get_prev_lsn(txn_id).unwrap_or(INVALID_LSN);
+            let record =
+                LogRecord::new_transaction_record(txn_id, last_lsn, LogRecordType::Abort);
+            self.log_manager
+                .write()
+                .append_log_record(Arc::new(record));
+        }
+
         info!("Database recovery completed successfully");
         Ok(())
     }
@@ -537,9 +549,6 @@ impl LogRecoveryManager {
             let last_lsn = txn_table.get_prev_lsn(txn_id).unwrap_or(INVALID_LSN);
             self.undo_txn(txn_id, last_lsn, &lsn_to_offset_map).await?;
 
-            // Write an ABORT record for this transaction
-            debug!("Writing ABORT record for transaction {}", txn_id);
-            // In a real implementation, we would create and append an actual ABORT record
         }
 
         info!("Undo phase complete");
-- 
2.43.0


From 4aeaec00333e649e911277fab378e7b3775e4dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:19 +0000
Subject: [PATCH 030/120] fix: tuples left on the pages by recovery are
 committed, so that new transactions see them

---
 src/recovery/log_recovery.rs | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/recovery/log_recovery.rs b/src/recovery/log_recovery.rs
index e5dde71..7fc9bcc 100644
--- a/src/recovery/log_recovery.rs
+++ b/src/recovery/log_recovery.rs
@@ -254,6 +254,7 @@ use parking_lot::RwLock;
 
 use crate::buffer::buffer_pool_manager_async::BufferPoolManager;
 use crate::common::config::{INVALID_LSN, Lsn, PageId, TxnId};
+use crate::common::rid::RID;
 use crate::recovery::log_iterator::LogIterator;
 use crate::recovery::log_manager::LogManager;
 use crate::recovery::log_record::{LogRecord, LogRecordType};
@@ -350,6 +351,9 @@ impl LogRecoveryManager {
         // Phase 3: Undo - rollback uncommitted transactions
         self.undo_log(&txn_table).await?;
 
+        // What is left on the pages is committed
+        self.settle_pages(&dirty_page_table)?;
+
         // Number new records after those in the log, all of which are on disk
         if let Some(last_lsn) = last_lsn {
             self.log_manager.write().continue_after(*last_lsn);
@@ -751,6 +755,29 @@ impl LogRecoveryManager {
         Ok(())
     }
 
+    /// Marks the tuples of the recovered pages as committed before everything that follows.
+    ///
+    /// The transactions that wrote them are over, and their timestamps and undo logs, which
+    /// lived in memory, are gone.
+    fn settle_pages(&self, dirty_page_table: &DirtyPageTable) -> Result<(), String> {
+        for (page_id, _) in dirty_page_table.get_dirty_pages() {
+            let Some(page_guard) = self.bpm.fetch_page::<TablePage>(page_id) else {
+                continue;
+            };
+            let mut page = page_guard.write();
+            for slot in 0..page.get_num_tuples() as u32 {
+                let rid = RID::new(page_id, slot);
+                if let Ok((mut meta, _)) = page.get_tuple(&rid, true) {
+                    meta.set_commit_timestamp(0);
+                    meta.clear_undo_log_idx();
+                    page.update_tuple_meta(meta, &rid)?;
+                }
+            }
+            page.set_dirty(true);
+        }
+        Ok(())
+    }
+
     /// Undo an insert operation
     ///
     /// # Parameters
-- 
2.43.0


From 44286d296c8a030386c9867cb3d1c2f62c2dd93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:49 +0000
Subject: [PATCH 031/120] fix: redo repeats a delete that was taken back

---
 src/recovery/log_recovery.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/recovery/log_recovery.rs b/src/recovery/log_recovery.rs
index 7fc9bcc..689fad9 100644
--- a/src/recovery/log_recovery.rs
+++ b/src/recovery/log_recovery.rs
@@ -742,6 +742,19 @@ impl LogRecoveryManager {
                     }
                 }
             },
+            LogRecordType::RollbackDelete => {
+                if let Some(rid) = record.get_delete_rid() {
+                    debug!("Redoing ROLLBACK_DELETE for RID {:?}", rid);
+                    if let Some(page_guard) = self.bpm.fetch_page::<TablePage>(rid.get_page_id()) {
+                        let mut page = page_guard.write();
+                        if let Ok((mut meta, tuple)) = page.get_tuple(rid, true) {
+                            meta.set_deleted(false);
+                            let _ = page.update_tuple(meta, &tuple, *rid);
+                            page.set_dirty(true);
+                        }
+                    }
+                }
+            },
             LogRecordType::NewPage => {
                 if let Some(page_id) = record.get_page_id() {
                     debug!("Redoing NEW_PAGE for page {}", page_id);
-- 
2.43.0


From 16569eb43f078ae54a61acf141a059ee72c5707c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:02 +0000
Subject: [PATCH 032/120] fix: redo of a new page recreates that page, linked
 behind its predecessor

---
 src/recovery/log_recovery.rs | 35 ++++++++++++++++++++++++++++++++---
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/src/recovery/log_recovery.rs b/src/recovery/log_recovery.rs
index 689fad9..4d2fca6 100644
--- a/src/recovery/log_recovery.rs
+++ b/src/recovery/log_recovery.rs
@@ -253,7 +253,7 @@ use log::{debug, info, warn};
 use parking_lot::RwLock;
 
 use crate::buffer::buffer_pool_manager_async::BufferPoolManager;
-use crate::common::config::{INVALID_LSN, Lsn, PageId, TxnId};
+use crate::common::config::{INVALID_LSN, INVALID_PAGE_ID, Lsn, PageId, TxnId};
 use crate::common::rid::RID;
 use crate::recovery::log_iterator::LogIterator;
 use crate::recovery::log_manager::LogManager;
@@ -758,9 +758,18 @@ impl LogRecoveryManager {
             LogRecordType::NewPage => {
                 if let Some(page_id) = record.get_page_id() {
                     debug!("Redoing NEW_PAGE for page {}", page_id);
-                    if self.bpm.fetch_page::<TablePage>(*page_id).is_none() {
-                        let _ = self.bpm.new_page::<TablePage>();
+                    // Page IDs are handed out in order, so those before it come first
+                    while self.bpm.fetch_page::<TablePage>(*page_id).is_none() {
+                        match self.bpm.new_page::<TablePage>() {
+                            Some(guard) if guard.get_page_id() <= *page_id => {
+                                let mut page = guard.write();
+                                page.init();
+                                page.set_dirty(true);
+                            },
+                            _ => break,
+                        }
                     }
+                    self.link_page(record.get_new_page_record(), *page_id);
                 }
             },
             _ => {}, // Ignore other record types for redo
@@ -768,6 +777,26 @@ impl LogRecoveryManager {
         Ok(())
     }
 
+    /// Puts a new page behind the page it was appended to.
+    fn link_page(&self, prev_page_id: Option<PageId>, page_id: PageId) {
+        let Some(prev_page_id) = prev_page_id.filter(|id| *id != INVALID_PAGE_ID) else {
+            return;
+        };
+        if let (Some(prev_guard), Some(guard)) = (
+            self.bpm.fetch_page::<TablePage>(prev_page_id),
+            self.bpm.fetch_page::<TablePage>(page_id),
+        ) {
+            {
+                let mut prev_page = prev_guard.write();
+                prev_page.set_next_page_id(page_id);
+                prev_page.set_dirty(true);
+            }
+            let mut page = guard.write();
+            page.set_prev_page_id(prev_page_id);
+            page.set_dirty(true);
+        }
+    }
+
     /// Marks the tuples of the recovered pages as committed before everything that follows.
     ///
     /// The transactions that wrote them are over, and their timestamps and undo logs, which
-- 
2.43.0


From 5069dfef415b8afcb8eb620b885c32bad088c234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:27 +0000
Subject: [PATCH 033/120] fix: recovery drops a torn record at the end of the
 log, which swallowed the records appended behind it

---
 src/recovery/log_recovery.rs               |  8 ++++++++
 src/storage/disk/async_disk/io/executor.rs | 10 ++++++++++
 src/storage/disk/async_disk/io/io_impl.rs  |  5 +++++
 src/storage/disk/async_disk/manager.rs     |  5 +++++
 4 files changed, 28 insertions(+)

diff --git a/src/recovery/log_recovery.rs b/src/recovery/log_recovery.rs
index 4d2fca6..232bd75 100644
--- a/src/recovery/log_recovery.rs
+++ b/src/recovery/log_recovery.rs
@@ -344,6 +344,14 @@ impl LogRecoveryManager {
         let lsns = self.build_lsn_offset_map().await?;
         let last_lsn = lsns.keys().filter(|lsn| **lsn != INVALID_LSN).max();
 
+        // A record that the crash cut off would swallow the records appended behind it
+        let mut log_iterator = LogIterator::new(self.disk_manager.clone());
+        while log_iterator.next().await.is_some() {}
+        self.disk_manager
+            .truncate_log(log_iterator.get_offset())
+            .await
+            .map_err(|e| format!("Failed to truncate the log: {}", e))?;
+
         // Phase 2: Redo - reapply all updates (even from aborted transactions)
         self.redo_log(&mut txn_table, &mut dirty_page_table, start_redo_lsn)
             .await?;
diff --git a/src/storage/disk/async_disk/io/executor.rs b/src/storage/disk/async_disk/io/executor.rs
index 5dd217d..d312ee0 100644
--- a/src/storage/disk/async_disk/io/executor.rs
+++ b/src/storage/disk/async_disk/io/executor.rs
@@ -577,6 +577,16 @@ impl IOOperationExecutor {
         Ok(offset)
     }
 
+    /// Removes everything from `len` on from the log file
+    pub async fn truncate_log(&self, len: u64) -> IoResult<()> {
+        let file = self.log_file.lock().await;
+        if file.metadata().await?.len() > len {
+            file.set_len(len).await?;
+            file.sync_all().await?;
+        }
+        Ok(())
+    }
+
     /// Syncs the database file to ensure data persistence (fsync)
     async fn execute_sync(&self) -> IoResult<()> {
         log::debug!("execute_sync: Starting sync_all() for database file");
diff --git a/src/storage/disk/async_disk/io/io_impl.rs b/src/storage/disk/async_disk/io/io_impl.rs
index 22b498b..53a1498 100644
--- a/src/storage/disk/async_disk/io/io_impl.rs
+++ b/src/storage/disk/async_disk/io/io_impl.rs
@@ -342,6 +342,11 @@ impl AsyncIOEngine {
         self.cancel_all_pending_operations("I/O engine closed").await;
     }
 
+    /// Removes everything from `len` on from the log file
+    pub async fn truncate_log(&self, len: u64) -> IoResult<()> {
+        self.executor.truncate_log(len).await
+    }
+
     /// Reads a page from the database file (now uses queue)
     pub async fn read_page(&self, page_id: PageId) -> IoResult<Vec<u8>> {
         self.read_page_with_priority(page_id, priorities::PAGE_READ)
diff --git a/src/storage/disk/async_disk/manager.rs b/src/storage/disk/async_disk/manager.rs
index e616300..ffa25bd 100644
--- a/src/storage/disk/async_disk/manager.rs
+++ b/src/storage/disk/async_disk/manager.rs
@@ -1526,6 +1526,11 @@ impl AsyncDiskManager {
         self.io_engine.read().await.read_log(offset, size).await
     }
 
+    /// Removes everything from `len` on from the log file
+    pub async fn truncate_log(&self, len: u64) -> IoResult<()> {
+        self.io_engine.read().await.truncate_log(len).await
+    }
+
     /// Writes a log record to the log file
     pub async fn write_log(&self, log_record: &LogRecord) -> IoResult<u64> {
         debug!("Writing log record: {:?}", log_record);
-- 
2.43.0


From 7e278a634e36eb91e8e4cc4181b490eb3e11cee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:00 +0000
Subject: [PATCH 034/120] fix: a log record is read by its length, also near
 the end of the log and beyond 1 KB

---
 src/recovery/log_manager.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/recovery/log_manager.rs b/src/recovery/log_manager.rs
index 995d6bf..b80bc61 100644
--- a/src/recovery/log_manager.rs
+++ b/src/recovery/log_manager.rs
@@ -593,7 +593,22 @@ impl LogManager {
     ) -> Option<LogRecord> {
         debug!("Reading log record from offset {}", offset);
 
-        match disk_manager.read_log(offset).await {
+        // The length of the record stands in front of it
+        let bytes = match disk_manager.read_log_sized(offset, 4).await {
+            Ok(header) => {
+                let size = header
+                    .try_into()
+                    .map_or(0, |header: [u8; 4]| i32::from_le_bytes(header));
+                if size <= 4 {
+                    warn!("Invalid log record size {} at offset {}", size, offset);
+                    return None;
+                }
+                disk_manager.read_log_sized(offset, size as usize).await
+            },
+            Err(e) => Err(e),
+        };
+
+        match bytes {
             Ok(bytes) => match LogRecord::from_bytes(&bytes) {
                 Ok(record) => {
                     debug!(
-- 
2.43.0


From 866e0bfe8f690bd0b184837acea16454a7112e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:00 +0000
Subject: [PATCH 035/120] fix: after a failed flush no later log records are
 written, which made lost records count as persistent

---
 src/recovery/log_manager.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/recovery/log_manager.rs b/src/recovery/log_manager.rs
index b80bc61..323ad34 100644
--- a/src/recovery/log_manager.rs
+++ b/src/recovery/log_manager.rs
@@ -323,9 +323,12 @@ impl LogManager {
                     }
                 }
 
-                if !records_to_flush.is_empty() {
-                    Self::perform_flush(&state, records_to_flush, max_lsn_in_batch, "periodic")
-                        .await;
+                if !records_to_flush.is_empty()
+                    && !Self::perform_flush(&state, records_to_flush, max_lsn_in_batch, "periodic")
+                        .await
+                {
+                    // Records may be missing from the log: none that follow may be written
+                    return;
                 }
             }
 
@@ -365,14 +368,18 @@ impl LogManager {
     ///
     /// If a disk write fails, the `stop_flag` is set to prevent false durability
     /// signals. Callers waiting on commit will detect this and stop waiting.
+    ///
+    /// # Returns
+    ///
+    /// Whether all records are on disk.
     async fn perform_flush(
         state: &Arc<LogManagerState>,
         records: Vec<Arc<LogRecord>>,
         max_lsn: Lsn,
         flush_reason: &str,
-    ) {
+    ) -> bool {
         if records.is_empty() {
-            return;
+            return true;
         }
 
         let disk_manager = Arc::clone(&state.disk_manager);
@@ -397,6 +404,7 @@ impl LogManager {
                         flush_reason, max_lsn
                     );
                 }
+                true
             },
             Err(e) => {
                 error!(
@@ -406,6 +414,7 @@ impl LogManager {
                 // Fail closed: stop the flush thread to avoid giving a false durability signal.
                 // Callers waiting on commit will notice stop_flag and stop waiting.
                 state.stop_flag.store(true, Ordering::SeqCst);
+                false
             },
         }
     }
-- 
2.43.0


From 1e01685501ece0c1a390ca9c4733ae4997436524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:42 +0000
Subject: [PATCH 036/120] fix: a commit whose record could not be written to
 the log fails, and a finished transaction logs no second outcome

---
 src/concurrency/transaction_manager_factory.rs | 14 ++++++++++++--
 src/recovery/wal_manager.rs                    |  6 ++++++
 src/sql/execution/execution_engine.rs          |  6 ++++++
 3 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/concurrency/transaction_manager_factory.rs b/src/concurrency/transaction_manager_factory.rs
index 788ada6..62ba17c 100644
--- a/src/concurrency/transaction_manager_factory.rs
+++ b/src/concurrency/transaction_manager_factory.rs
@@ -144,7 +144,7 @@ use log::{error, warn};
 
 use crate::buffer::buffer_pool_manager_async::BufferPoolManager;
 use crate::concurrency::lock_manager::LockManager;
-use crate::concurrency::transaction::IsolationLevel;
+use crate::concurrency::transaction::{IsolationLevel, TransactionState};
 use crate::concurrency::transaction_manager::TransactionManager;
 use crate::recovery::wal_manager::WALManager;
 use crate::sql::execution::transaction_context::TransactionContext;
@@ -306,9 +306,19 @@ impl TransactionManagerFactory {
         let txn = ctx.get_transaction();
 
         // Write commit record before persisting data (WAL-first).
-        if let Some(wal_manager) = &self.wal_manager {
+        // A transaction that is over gets no second outcome in the log.
+        let over = matches!(
+            txn.get_state(),
+            TransactionState::Aborted | TransactionState::Committed
+        );
+        if !over && let Some(wal_manager) = &self.wal_manager {
             let lsn = wal_manager.write_commit_record(txn.as_ref());
             txn.set_prev_lsn(lsn);
+            if !wal_manager.is_persistent(lsn) {
+                error!("The commit record {} could not be written", lsn);
+                self.abort_transaction(ctx);
+                return false;
+            }
         }
 
         // Transition txn state to committed and set commit timestamps/metadata.
diff --git a/src/recovery/wal_manager.rs b/src/recovery/wal_manager.rs
index 13417fb..7c08040 100644
--- a/src/recovery/wal_manager.rs
+++ b/src/recovery/wal_manager.rs
@@ -269,6 +269,12 @@ impl WALManager {
         log_manager.append_log_record(update_record)
     }
 
+    /// Whether the record with the given LSN and all records before it are on disk.
+    pub fn is_persistent(&self, lsn: u64) -> bool {
+        let persistent = self.log_manager.read().get_persistent_lsn();
+        persistent != INVALID_LSN && persistent >= lsn
+    }
+
     /// Forces the log manager's background flush thread to start.
     ///
     /// This is typically called during database initialization to ensure
diff --git a/src/sql/execution/execution_engine.rs b/src/sql/execution/execution_engine.rs
index 3a953c5..2528e70 100644
--- a/src/sql/execution/execution_engine.rs
+++ b/src/sql/execution/execution_engine.rs
@@ -884,6 +884,12 @@ impl ExecutionEngine {
 
         // Update transaction's LSN
         transaction.set_prev_lsn(lsn);
+        if !self.wal_manager.is_persistent(lsn) {
+            self.abort_transaction(txn_ctx)?;
+            return Err(DBError::Io(
+                "Failed to write the commit record".to_string(),
+            ));
+        }
 
         // Attempt to commit
         let commit_result = txn_manager
-- 
2.43.0


From 07ef15bf54390c0f4ac3bd3fb10602a169331aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:17 +0000
Subject: [PATCH 037/120] fix: <= and >= of a Float and a Decimal compare as
 doubles, like the other comparisons

---
 src/types_db/value.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/types_db/value.rs b/src/types_db/value.rs
index 66ea03f..418a9e7 100644
--- a/src/types_db/value.rs
+++ b/src/types_db/value.rs
@@ -1503,7 +1503,7 @@ impl Type for Value {
             (Val::Float(a), Val::SmallInt(b)) => CmpBool::from(*a <= *b as f32),
             (Val::Float(a), Val::Integer(b)) => CmpBool::from(*a <= *b as f32),
             (Val::Float(a), Val::BigInt(b)) => CmpBool::from(*a <= *b as f32),
-            (Val::Float(a), Val::Decimal(b)) => CmpBool::from(*a <= *b as f32),
+            (Val::Float(a), Val::Decimal(b)) => CmpBool::from((*a as f64) <= *b),
             (Val::Decimal(a), Val::Integer(b)) => CmpBool::from(*a <= *b as f64),
             (Val::Decimal(a), Val::BigInt(b)) => CmpBool::from(*a <= *b as f64),
             (Val::Decimal(a), Val::Float(b)) => CmpBool::from(*a <= *b as f64),
@@ -1616,7 +1616,7 @@ impl Type for Value {
             (Val::Float(a), Val::SmallInt(b)) => CmpBool::from(*a >= *b as f32),
             (Val::Float(a), Val::Integer(b)) => CmpBool::from(*a >= *b as f32),
             (Val::Float(a), Val::BigInt(b)) => CmpBool::from(*a >= *b as f32),
-            (Val::Float(a), Val::Decimal(b)) => CmpBool::from(*a >= *b as f32),
+            (Val::Float(a), Val::Decimal(b)) => CmpBool::from((*a as f64) >= *b),
             (Val::Float(a), Val::Float(b)) => CmpBool::from(*a >= *b),
             _ => {
                 // Check if types match before comparing values
-- 
2.43.0


From 0620913cbb8d831a722b5949df374f48f6fdb476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:38 +0000
Subject: [PATCH 038/120] fix: integer arithmetic that does not fit its type is
 an error instead of a panic or a wrapped result

---
 src/types_db/value.rs | 83 +++++++++++++++++++------------------------
 1 file changed, 37 insertions(+), 46 deletions(-)

diff --git a/src/types_db/value.rs b/src/types_db/value.rs
index 418a9e7..1f92306 100644
--- a/src/types_db/value.rs
+++ b/src/types_db/value.rs
@@ -1304,6 +1304,17 @@ impl Value {
     }
 }
 
+/// The result of integer arithmetic, or an error if it does not fit the type.
+fn int_result<T>(
+    result: Option<T>,
+    make: fn(T) -> Val,
+    type_id: TypeId,
+) -> Result<Value, String> {
+    result
+        .map(|v| Value::new_with_type(make(v), type_id))
+        .ok_or_else(|| format!("{type_id:?} value out of range"))
+}
+
 impl Type for Value {
     fn get_type_id(&self) -> TypeId {
         self.type_id_
@@ -1636,45 +1647,27 @@ impl Type for Value {
 
         match (&self.value_, &other.value_) {
             (Val::Integer(a), Val::Integer(b)) => {
-                Ok(Value::new_with_type(Val::Integer(a + b), TypeId::Integer))
+                int_result(a.checked_add(*b), Val::Integer, TypeId::Integer)
             },
             (Val::BigInt(a), Val::BigInt(b)) => {
-                Ok(Value::new_with_type(Val::BigInt(a + b), TypeId::BigInt))
+                int_result(a.checked_add(*b), Val::BigInt, TypeId::BigInt)
             },
-            (Val::Integer(a), Val::BigInt(b)) => Ok(Value::new_with_type(
-                Val::BigInt(*a as i64 + b),
-                TypeId::BigInt,
-            )),
-            (Val::BigInt(a), Val::Integer(b)) => Ok(Value::new_with_type(
-                Val::BigInt(a + *b as i64),
-                TypeId::BigInt,
-            )),
+            (Val::Integer(a), Val::BigInt(b)) => int_result((*a as i64).checked_add(*b), Val::BigInt, TypeId::BigInt),
+            (Val::BigInt(a), Val::Integer(b)) => int_result(a.checked_add(*b as i64), Val::BigInt, TypeId::BigInt),
             (Val::Decimal(a), Val::Decimal(b)) => {
                 Ok(Value::new_with_type(Val::Decimal(a + b), TypeId::Decimal))
             },
             (Val::SmallInt(a), Val::SmallInt(b)) => {
-                Ok(Value::new_with_type(Val::SmallInt(a + b), TypeId::SmallInt))
+                int_result(a.checked_add(*b), Val::SmallInt, TypeId::SmallInt)
             },
             (Val::TinyInt(a), Val::TinyInt(b)) => {
-                Ok(Value::new_with_type(Val::TinyInt(a + b), TypeId::TinyInt))
+                int_result(a.checked_add(*b), Val::TinyInt, TypeId::TinyInt)
             },
             // Promote smaller types to larger ones
-            (Val::TinyInt(a), Val::Integer(b)) => Ok(Value::new_with_type(
-                Val::Integer(*a as i32 + b),
-                TypeId::Integer,
-            )),
-            (Val::Integer(a), Val::TinyInt(b)) => Ok(Value::new_with_type(
-                Val::Integer(a + *b as i32),
-                TypeId::Integer,
-            )),
-            (Val::SmallInt(a), Val::Integer(b)) => Ok(Value::new_with_type(
-                Val::Integer(*a as i32 + b),
-                TypeId::Integer,
-            )),
-            (Val::Integer(a), Val::SmallInt(b)) => Ok(Value::new_with_type(
-                Val::Integer(a + *b as i32),
-                TypeId::Integer,
-            )),
+            (Val::TinyInt(a), Val::Integer(b)) => int_result((*a as i32).checked_add(*b), Val::Integer, TypeId::Integer),
+            (Val::Integer(a), Val::TinyInt(b)) => int_result(a.checked_add(*b as i32), Val::Integer, TypeId::Integer),
+            (Val::SmallInt(a), Val::Integer(b)) => int_result((*a as i32).checked_add(*b), Val::Integer, TypeId::Integer),
+            (Val::Integer(a), Val::SmallInt(b)) => int_result(a.checked_add(*b as i32), Val::Integer, TypeId::Integer),
 
             (Val::Boolean(_), _) => Err("Cannot add Boolean values".to_string()),
             (Val::Float(a), Val::Float(b)) => {
@@ -1684,7 +1677,7 @@ impl Type for Value {
             (Val::Date(_), _) => Err("Cannot add Date values".to_string()),
             (Val::Time(_), _) => Err("Cannot add Time values".to_string()),
             (Val::Interval(a), Val::Interval(b)) => {
-                Ok(Value::new_with_type(Val::Interval(a + b), TypeId::Interval))
+                int_result(a.checked_add(*b), Val::Interval, TypeId::Interval)
             },
             (Val::VarLen(a), Val::VarLen(b)) => Ok(Value::new_with_type(
                 Val::VarLen(a.clone() + b),
@@ -1726,22 +1719,22 @@ impl Type for Value {
             (TypeId::Integer, TypeId::Integer) => {
                 let a = self.as_integer()?;
                 let b = other.as_integer()?;
-                Ok(Value::new_with_type(Val::Integer(a - b), TypeId::Integer))
+                int_result(a.checked_sub(b), Val::Integer, TypeId::Integer)
             },
             (TypeId::BigInt, TypeId::BigInt) => {
                 let a = self.as_bigint()?;
                 let b = other.as_bigint()?;
-                Ok(Value::new_with_type(Val::BigInt(a - b), TypeId::BigInt))
+                int_result(a.checked_sub(b), Val::BigInt, TypeId::BigInt)
             },
             (TypeId::SmallInt, TypeId::SmallInt) => {
                 let a = self.as_smallint()?;
                 let b = other.as_smallint()?;
-                Ok(Value::new_with_type(Val::SmallInt(a - b), TypeId::SmallInt))
+                int_result(a.checked_sub(b), Val::SmallInt, TypeId::SmallInt)
             },
             (TypeId::TinyInt, TypeId::TinyInt) => {
                 let a = self.as_tinyint()?;
                 let b = other.as_tinyint()?;
-                Ok(Value::new_with_type(Val::TinyInt(a - b), TypeId::TinyInt))
+                int_result(a.checked_sub(b), Val::TinyInt, TypeId::TinyInt)
             },
             (TypeId::Decimal, TypeId::Decimal) => {
                 let a = self.as_decimal()?;
@@ -1768,10 +1761,7 @@ impl Type for Value {
                 let a = self.get_val();
                 let b = other.get_val();
                 if let (Val::Interval(a_val), Val::Interval(b_val)) = (a, b) {
-                    Ok(Value::new_with_type(
-                        Val::Interval(a_val - b_val),
-                        TypeId::Interval,
-                    ))
+                    int_result(a_val.checked_sub(*b_val), Val::Interval, TypeId::Interval)
                 } else {
                     Err("Invalid Interval values for subtraction".to_string())
                 }
@@ -1800,22 +1790,22 @@ impl Type for Value {
             (TypeId::Integer, TypeId::Integer) => {
                 let a = self.as_integer()?;
                 let b = other.as_integer()?;
-                Ok(Value::new_with_type(Val::Integer(a * b), TypeId::Integer))
+                int_result(a.checked_mul(b), Val::Integer, TypeId::Integer)
             },
             (TypeId::BigInt, TypeId::BigInt) => {
                 let a = self.as_bigint()?;
                 let b = other.as_bigint()?;
-                Ok(Value::new_with_type(Val::BigInt(a * b), TypeId::BigInt))
+                int_result(a.checked_mul(b), Val::BigInt, TypeId::BigInt)
             },
             (TypeId::SmallInt, TypeId::SmallInt) => {
                 let a = self.as_smallint()?;
                 let b = other.as_smallint()?;
-                Ok(Value::new_with_type(Val::SmallInt(a * b), TypeId::SmallInt))
+                int_result(a.checked_mul(b), Val::SmallInt, TypeId::SmallInt)
             },
             (TypeId::TinyInt, TypeId::TinyInt) => {
                 let a = self.as_tinyint()?;
                 let b = other.as_tinyint()?;
-                Ok(Value::new_with_type(Val::TinyInt(a * b), TypeId::TinyInt))
+                int_result(a.checked_mul(b), Val::TinyInt, TypeId::TinyInt)
             },
             (TypeId::Decimal, TypeId::Decimal) => {
                 let a = self.as_decimal()?;
@@ -1866,22 +1856,22 @@ impl Type for Value {
             (TypeId::Integer, TypeId::Integer) => {
                 let a = self.as_integer()?;
                 let b = other.as_integer()?;
-                Ok(Value::new_with_type(Val::Integer(a / b), TypeId::Integer))
+                int_result(a.checked_div(b), Val::Integer, TypeId::Integer)
             },
             (TypeId::BigInt, TypeId::BigInt) => {
                 let a = self.as_bigint()?;
                 let b = other.as_bigint()?;
-                Ok(Value::new_with_type(Val::BigInt(a / b), TypeId::BigInt))
+                int_result(a.checked_div(b), Val::BigInt, TypeId::BigInt)
             },
             (TypeId::SmallInt, TypeId::SmallInt) => {
                 let a = self.as_smallint()?;
                 let b = other.as_smallint()?;
-                Ok(Value::new_with_type(Val::SmallInt(a / b), TypeId::SmallInt))
+                int_result(a.checked_div(b), Val::SmallInt, TypeId::SmallInt)
             },
             (TypeId::TinyInt, TypeId::TinyInt) => {
                 let a = self.as_tinyint()?;
                 let b = other.as_tinyint()?;
-                Ok(Value::new_with_type(Val::TinyInt(a / b), TypeId::TinyInt))
+                int_result(a.checked_div(b), Val::TinyInt, TypeId::TinyInt)
             },
             (TypeId::Decimal, TypeId::Decimal) => {
                 let a = self.as_decimal()?;
@@ -1934,7 +1924,8 @@ impl Type for Value {
         match (self.get_type_id(), other.get_type_id()) {
             (TypeId::Integer, TypeId::Integer) => {
                 if let (Ok(a), Ok(b)) = (self.as_integer(), other.as_integer()) {
-                    Value::new_with_type(Val::Integer(a % b), TypeId::Integer)
+                    // The remainder of i32::MIN by -1 is 0, though the quotient overflows
+                    Value::new_with_type(Val::Integer(a.wrapping_rem(b)), TypeId::Integer)
                 } else {
                     Value::new(Val::Null)
                 }
-- 
2.43.0


From 097db351cb2522b7fb6c3445a087931be2f3b0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:41 +0000
Subject: [PATCH 039/120] fix: casts that cannot hold the value are refused
 instead of saturating or wrapping around

---
 src/types_db/value.rs | 73 ++++++++++++++++++++++++++-----------------
 1 file changed, 44 insertions(+), 29 deletions(-)

diff --git a/src/types_db/value.rs b/src/types_db/value.rs
index 1f92306..c5f774a 100644
--- a/src/types_db/value.rs
+++ b/src/types_db/value.rs
@@ -609,18 +609,18 @@ impl Value {
             (Val::Decimal(f), TypeId::Boolean) => {
                 Ok(Value::new_with_type(Val::Boolean(*f != 0.0), target_type))
             },
-            (Val::Decimal(f), TypeId::TinyInt) => {
-                Ok(Value::new_with_type(Val::TinyInt(*f as i8), target_type))
-            },
-            (Val::Decimal(f), TypeId::SmallInt) => {
-                Ok(Value::new_with_type(Val::SmallInt(*f as i16), target_type))
-            },
-            (Val::Decimal(f), TypeId::Integer) => {
-                Ok(Value::new_with_type(Val::Integer(*f as i32), target_type))
-            },
-            (Val::Decimal(f), TypeId::BigInt) => {
-                Ok(Value::new_with_type(Val::BigInt(*f as i64), target_type))
-            },
+            (Val::Decimal(f), TypeId::TinyInt) => whole_part(*f, i8::MIN as i64, i8::MAX as i64)
+                .map(|i| Value::new_with_type(Val::TinyInt(i as i8), target_type))
+                .ok_or_else(|| format!("Decimal value {} out of range for TinyInt", f)),
+            (Val::Decimal(f), TypeId::SmallInt) => whole_part(*f, i16::MIN as i64, i16::MAX as i64)
+                .map(|i| Value::new_with_type(Val::SmallInt(i as i16), target_type))
+                .ok_or_else(|| format!("Decimal value {} out of range for SmallInt", f)),
+            (Val::Decimal(f), TypeId::Integer) => whole_part(*f, i32::MIN as i64, i32::MAX as i64)
+                .map(|i| Value::new_with_type(Val::Integer(i as i32), target_type))
+                .ok_or_else(|| format!("Decimal value {} out of range for Integer", f)),
+            (Val::Decimal(f), TypeId::BigInt) => whole_part(*f, i64::MIN as i64, i64::MAX as i64)
+                .map(|i| Value::new_with_type(Val::BigInt(i as i64), target_type))
+                .ok_or_else(|| format!("Decimal value {} out of range for BigInt", f)),
             (Val::Decimal(f), TypeId::Float) => {
                 Ok(Value::new_with_type(Val::Float(*f as f32), target_type))
             },
@@ -637,18 +637,18 @@ impl Value {
             (Val::Float(f), TypeId::Boolean) => {
                 Ok(Value::new_with_type(Val::Boolean(*f != 0.0), target_type))
             },
-            (Val::Float(f), TypeId::TinyInt) => {
-                Ok(Value::new_with_type(Val::TinyInt(*f as i8), target_type))
-            },
-            (Val::Float(f), TypeId::SmallInt) => {
-                Ok(Value::new_with_type(Val::SmallInt(*f as i16), target_type))
-            },
-            (Val::Float(f), TypeId::Integer) => {
-                Ok(Value::new_with_type(Val::Integer(*f as i32), target_type))
-            },
-            (Val::Float(f), TypeId::BigInt) => {
-                Ok(Value::new_with_type(Val::BigInt(*f as i64), target_type))
-            },
+            (Val::Float(f), TypeId::TinyInt) => whole_part(*f as f64, i8::MIN as i64, i8::MAX as i64)
+                .map(|i| Value::new_with_type(Val::TinyInt(i as i8), target_type))
+                .ok_or_else(|| format!("Float value {} out of range for TinyInt", f)),
+            (Val::Float(f), TypeId::SmallInt) => whole_part(*f as f64, i16::MIN as i64, i16::MAX as i64)
+                .map(|i| Value::new_with_type(Val::SmallInt(i as i16), target_type))
+                .ok_or_else(|| format!("Float value {} out of range for SmallInt", f)),
+            (Val::Float(f), TypeId::Integer) => whole_part(*f as f64, i32::MIN as i64, i32::MAX as i64)
+                .map(|i| Value::new_with_type(Val::Integer(i as i32), target_type))
+                .ok_or_else(|| format!("Float value {} out of range for Integer", f)),
+            (Val::Float(f), TypeId::BigInt) => whole_part(*f as f64, i64::MIN as i64, i64::MAX as i64)
+                .map(|i| Value::new_with_type(Val::BigInt(i as i64), target_type))
+                .ok_or_else(|| format!("Float value {} out of range for BigInt", f)),
             (Val::Float(f), TypeId::Decimal) => {
                 Ok(Value::new_with_type(Val::Decimal(*f as f64), target_type))
             },
@@ -709,7 +709,7 @@ impl Value {
 
                 // Try ISO8601/RFC3339 format first
                 if let Ok(dt) = DateTime::parse_from_rfc3339(s) {
-                    let timestamp = dt.timestamp() as u64;
+                    let timestamp = unix_seconds(s, dt.timestamp())?;
                     return Ok(Value::new_with_type(Val::Timestamp(timestamp), target_type));
                 }
 
@@ -722,7 +722,7 @@ impl Value {
 
                 match NaiveDateTime::parse_from_str(s, format) {
                     Ok(dt) => {
-                        let timestamp = dt.and_utc().timestamp() as u64;
+                        let timestamp = unix_seconds(s, dt.and_utc().timestamp())?;
                         Ok(Value::new_with_type(Val::Timestamp(timestamp), target_type))
                     },
                     Err(_) => Err(format!(
@@ -848,7 +848,7 @@ impl Value {
 
                 // Try ISO8601/RFC3339 format first
                 if let Ok(dt) = DateTime::parse_from_rfc3339(s) {
-                    let timestamp = dt.timestamp() as u64;
+                    let timestamp = unix_seconds(s, dt.timestamp())?;
                     return Ok(Value::new_with_type(Val::Timestamp(timestamp), target_type));
                 }
 
@@ -861,7 +861,7 @@ impl Value {
 
                 match NaiveDateTime::parse_from_str(s, format) {
                     Ok(dt) => {
-                        let timestamp = dt.and_utc().timestamp() as u64;
+                        let timestamp = unix_seconds(s, dt.and_utc().timestamp())?;
                         Ok(Value::new_with_type(Val::Timestamp(timestamp), target_type))
                     },
                     Err(_) => Err(format!(
@@ -950,7 +950,9 @@ impl Value {
                 target_type,
             )),
             (Val::Timestamp(t), TypeId::BigInt) => {
-                Ok(Value::new_with_type(Val::BigInt(*t as i64), target_type))
+                i64::try_from(*t)
+                    .map(|t| Value::new_with_type(Val::BigInt(t), target_type))
+                    .map_err(|_| format!("Timestamp value {} out of range for BigInt", t))
             },
             (Val::Timestamp(t), TypeId::Integer) => {
                 if *t <= i32::MAX as u64 {
@@ -1304,6 +1306,19 @@ impl Value {
     }
 }
 
+/// The whole part of a number, or nothing if it is not within the bounds.
+fn whole_part(f: f64, min: i64, max: i64) -> Option<i64> {
+    let whole = f.trunc();
+    // i64::MAX has no exact double, so the upper bound is excluded one further up
+    (whole >= min as f64 && whole < max as f64 + 1.0).then_some(whole as i64)
+}
+
+/// Seconds since 1970 as a timestamp, which cannot hold earlier times.
+fn unix_seconds(text: &str, seconds: i64) -> Result<u64, String> {
+    u64::try_from(seconds)
+        .map_err(|_| format!("Cannot convert string '{}' to Timestamp: before 1970", text))
+}
+
 /// The result of integer arithmetic, or an error if it does not fit the type.
 fn int_result<T>(
     result: Option<T>,
-- 
2.43.0


From b928752fc828ae6643cddf0e0aca7ac252f2cb1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:57 +0000
Subject: [PATCH 040/120] fix: NULL minus, times or divided by a value is NULL,
 as NULL plus a value already was

---
 src/types_db/value.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/types_db/value.rs b/src/types_db/value.rs
index c5f774a..0fbcde0 100644
--- a/src/types_db/value.rs
+++ b/src/types_db/value.rs
@@ -1730,6 +1730,10 @@ impl Type for Value {
     }
 
     fn subtract(&self, other: &Value) -> Result<Value, String> {
+        if self.is_null() || other.is_null() {
+            return Ok(Value::new(Val::Null));
+        }
+
         match (self.get_type_id(), other.get_type_id()) {
             (TypeId::Integer, TypeId::Integer) => {
                 let a = self.as_integer()?;
@@ -1801,6 +1805,10 @@ impl Type for Value {
     }
 
     fn multiply(&self, other: &Value) -> Result<Value, String> {
+        if self.is_null() || other.is_null() {
+            return Ok(Value::new(Val::Null));
+        }
+
         match (self.get_type_id(), other.get_type_id()) {
             (TypeId::Integer, TypeId::Integer) => {
                 let a = self.as_integer()?;
@@ -1864,6 +1872,10 @@ impl Type for Value {
     }
 
     fn divide(&self, other: &Value) -> Result<Value, String> {
+        if self.is_null() || other.is_null() {
+            return Ok(Value::new(Val::Null));
+        }
+
         if self.is_zero(other) {
             return Err("Division by zero".to_string());
         }
-- 
2.43.0


From f535f6ef3cdb432a52bd8b4a7df29734555337cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:57 +0000
Subject: [PATCH 041/120] fix: modulo works for all integer types, it gave NULL
 for all but Integer

---
 src/types_db/value.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/types_db/value.rs b/src/types_db/value.rs
index 0fbcde0..33a4c01 100644
--- a/src/types_db/value.rs
+++ b/src/types_db/value.rs
@@ -1957,7 +1957,18 @@ impl Type for Value {
                     Value::new(Val::Null)
                 }
             },
-            _ => Value::new(Val::Null),
+            _ => match (&self.value_, &other.value_) {
+                (Val::BigInt(a), Val::BigInt(b)) => {
+                    Value::new_with_type(Val::BigInt(a.wrapping_rem(*b)), TypeId::BigInt)
+                },
+                (Val::SmallInt(a), Val::SmallInt(b)) => {
+                    Value::new_with_type(Val::SmallInt(a.wrapping_rem(*b)), TypeId::SmallInt)
+                },
+                (Val::TinyInt(a), Val::TinyInt(b)) => {
+                    Value::new_with_type(Val::TinyInt(a.wrapping_rem(*b)), TypeId::TinyInt)
+                },
+                _ => Value::new(Val::Null),
+            },
         }
     }
 
-- 
2.43.0


From 4f5d544d096ea0a87cd4da7e6e29ece8c4e0e340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:41 +0000
Subject: [PATCH 042/120] fix: expressions inside a join condition or
 projection see the rows of both sides, Cast and Case mixed up the schemas

---
 .../expressions/abstract_expression.rs        | 104 +++++++++++++-----
 1 file changed, 78 insertions(+), 26 deletions(-)

diff --git a/src/sql/execution/expressions/abstract_expression.rs b/src/sql/execution/expressions/abstract_expression.rs
index a7a201b..0d6d193 100644
--- a/src/sql/execution/expressions/abstract_expression.rs
+++ b/src/sql/execution/expressions/abstract_expression.rs
@@ -239,12 +239,18 @@ impl ExpressionOps for Expression {
                 // For mock expressions, we'll just use the regular evaluate
                 expr.evaluate(left_tuple, left_schema)
             },
-            Self::Aggregate(expr) => expr.evaluate(left_tuple, right_schema),
+            Self::Aggregate(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
             Self::Window(expr) => {
                 expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
             },
-            Self::Cast(expr) => expr.evaluate(left_tuple, right_schema),
-            Self::Case(expr) => expr.evaluate(left_tuple, right_schema),
+            Self::Cast(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::Case(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
             Self::Function(expr) => {
                 expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
             },
@@ -263,37 +269,83 @@ impl ExpressionOps for Expression {
             Self::Extract(expr) => {
                 expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
             },
-            Self::Exists(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::Regex(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::DateTime(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::Coalesce(expr) => expr.evaluate(left_tuple, left_schema),
+            Self::Exists(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::Regex(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::DateTime(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::Coalesce(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
             Self::Random(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::Trim(expr) => expr.evaluate(left_tuple, left_schema),
+            Self::Trim(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
             Self::Interval(expr) => expr.evaluate(left_tuple, left_schema),
             Self::GroupingSets(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::Filter(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::IsDistinct(expr) => expr.evaluate(left_tuple, left_schema),
+            Self::Filter(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::IsDistinct(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
             Self::Position(expr) => {
                 expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
             },
-            Self::Method(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::Struct(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::Overlay(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::Collate(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::AtTimeZone(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::MapAccess(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::Tuple(expr) => expr.evaluate(left_tuple, left_schema),
+            Self::Method(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::Struct(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::Overlay(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::Collate(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::AtTimeZone(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::MapAccess(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::Tuple(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
             Self::Wildcard(expr) => expr.evaluate(left_tuple, left_schema),
             Self::QualifiedWildcard(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::TypedString(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::Subscript(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::IsCheck(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::BinaryOp(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::Any(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::All(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::UnaryOp(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::Convert(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::CeilFloor(expr) => expr.evaluate(left_tuple, left_schema),
+            Self::TypedString(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::Subscript(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::IsCheck(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::BinaryOp(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::Any(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::All(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::UnaryOp(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::Convert(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::CeilFloor(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
             Self::Substring(expr) => {
                 expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
             },
-- 
2.43.0


From b6b338480c09752a8b6aaef674f02fd50b32da5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:41 +0000
Subject: [PATCH 043/120] fix: a binary operator in a join works on the values
 of its operands instead of evaluating them again as columns

---
 .../expressions/binary_op_expression.rs       | 27 ++++++++-----------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/src/sql/execution/expressions/binary_op_expression.rs b/src/sql/execution/expressions/binary_op_expression.rs
index 2d78b5d..f870a17 100644
--- a/src/sql/execution/expressions/binary_op_expression.rs
+++ b/src/sql/execution/expressions/binary_op_expression.rs
@@ -203,13 +203,9 @@ impl BinaryOpExpression {
             )),
         }
     }
-}
-
-impl ExpressionOps for BinaryOpExpression {
-    fn evaluate(&self, tuple: &Tuple, schema: &Schema) -> Result<Value, ExpressionError> {
-        let left_val = self.left.evaluate(tuple, schema)?;
-        let right_val = self.right.evaluate(tuple, schema)?;
 
+    /// Applies the operator to the values of the operands.
+    fn apply(&self, left_val: Value, right_val: Value) -> Result<Value, ExpressionError> {
         match self.op {
             BinaryOperator::Plus
             | BinaryOperator::Minus
@@ -241,6 +237,14 @@ impl ExpressionOps for BinaryOpExpression {
             ))),
         }
     }
+}
+
+impl ExpressionOps for BinaryOpExpression {
+    fn evaluate(&self, tuple: &Tuple, schema: &Schema) -> Result<Value, ExpressionError> {
+        let left_val = self.left.evaluate(tuple, schema)?;
+        let right_val = self.right.evaluate(tuple, schema)?;
+        self.apply(left_val, right_val)
+    }
 
     fn evaluate_join(
         &self,
@@ -256,16 +260,7 @@ impl ExpressionOps for BinaryOpExpression {
             self.right
                 .evaluate_join(left_tuple, left_schema, right_tuple, right_schema)?;
 
-        // Create a schema that matches our values
-        let temp_schema = Schema::new(vec![
-            Column::new("left_val", left_val.get_type_id()),
-            Column::new("right_val", right_val.get_type_id()),
-        ]);
-
-        self.evaluate(
-            &Tuple::new(&[left_val, right_val], &temp_schema, left_tuple.get_rid()),
-            &temp_schema,
-        )
+        self.apply(left_val, right_val)
     }
 
     fn get_child_at(&self, child_idx: usize) -> &Arc<Expression> {
-- 
2.43.0


From 5000a102240bc3e12ab87f1bfd07ad6d0bd4f151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:41 +0000
Subject: [PATCH 044/120] fix: AND, OR and || with a NULL operand follow
 three-valued logic instead of failing

---
 .../execution/expressions/binary_op_expression.rs    | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/sql/execution/expressions/binary_op_expression.rs b/src/sql/execution/expressions/binary_op_expression.rs
index f870a17..e4badd1 100644
--- a/src/sql/execution/expressions/binary_op_expression.rs
+++ b/src/sql/execution/expressions/binary_op_expression.rs
@@ -198,6 +198,15 @@ impl BinaryOpExpression {
                 };
                 Ok(Value::from(result))
             },
+            // With NULL the result is NULL, unless the other operand decides it
+            (Val::Boolean(b), Val::Null) | (Val::Null, Val::Boolean(b)) => {
+                if *b == (self.op == BinaryOperator::Or) {
+                    Ok(Value::from(*b))
+                } else {
+                    Ok(Value::new(Val::Null))
+                }
+            },
+            (Val::Null, Val::Null) => Ok(Value::new(Val::Null)),
             _ => Err(ExpressionError::InvalidOperation(
                 "Logical operations require boolean operands".to_string(),
             )),
@@ -226,6 +235,9 @@ impl BinaryOpExpression {
 
             BinaryOperator::StringConcat => match (left_val.get_val(), right_val.get_val()) {
                 (Val::VarLen(l), Val::VarLen(r)) => Ok(Value::from(format!("{}{}", l, r))),
+                (Val::Null, Val::VarLen(_) | Val::Null) | (Val::VarLen(_), Val::Null) => {
+                    Ok(Value::new(Val::Null))
+                },
                 _ => Err(ExpressionError::InvalidOperation(
                     "String concatenation requires string operands".to_string(),
                 )),
-- 
2.43.0


From 94301b438a90f2e6dd99a8f986342e9256c470af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:41 +0000
Subject: [PATCH 045/120] fix: numbers of different types compare by value, a
 fraction was cut off before comparing it with an integer

---
 src/sql/execution/expressions/comparison_expression.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sql/execution/expressions/comparison_expression.rs b/src/sql/execution/expressions/comparison_expression.rs
index 4d1c9be..e7002b0 100644
--- a/src/sql/execution/expressions/comparison_expression.rs
+++ b/src/sql/execution/expressions/comparison_expression.rs
@@ -93,7 +93,9 @@ impl ComparisonExpression {
         }
 
         // If types are different, try casting to make them comparable
-        if lhs.get_type_id() != rhs.get_type_id() {
+        // Numbers compare by value whatever their types, a cast could cut off digits
+        let numbers = lhs.is_numeric() && rhs.is_numeric();
+        if lhs.get_type_id() != rhs.get_type_id() && !numbers {
             // Try casting left to right type first
             if let Ok(cast_lhs) = lhs.cast_to(rhs.get_type_id()) {
                 let cast_result = match self.comp_type {
-- 
2.43.0


From 5a6b249b6d74f4dec9dc5121881037dcb88b9883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:41 +0000
Subject: [PATCH 046/120] fix: BETWEEN follows three-valued logic and compares
 numbers of different types by value

---
 .../expressions/between_expression.rs         | 28 ++++++++++++++-----
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/sql/execution/expressions/between_expression.rs b/src/sql/execution/expressions/between_expression.rs
index 3597c68..ccc1688 100644
--- a/src/sql/execution/expressions/between_expression.rs
+++ b/src/sql/execution/expressions/between_expression.rs
@@ -7,7 +7,8 @@ use crate::catalog::schema::Schema;
 use crate::common::exception::ExpressionError;
 use crate::sql::execution::expressions::abstract_expression::{Expression, ExpressionOps};
 use crate::storage::table::tuple::Tuple;
-use crate::types_db::value::Value;
+use crate::types_db::types::{CmpBool, Type};
+use crate::types_db::value::{Val, Value};
 
 #[derive(Clone, Debug, PartialEq)]
 pub struct BetweenExpression {
@@ -40,6 +41,23 @@ impl BetweenExpression {
     }
 }
 
+impl BetweenExpression {
+    /// `value >= low AND value <= high`, or its negation, in three-valued logic.
+    fn check(&self, value: &Value, low: &Value, high: &Value) -> Value {
+        let bounds = [
+            value.compare_greater_than_equals(low),
+            value.compare_less_than_equals(high),
+        ];
+        if bounds.contains(&CmpBool::CmpFalse) {
+            Value::new(self.negated)
+        } else if bounds.contains(&CmpBool::CmpNull) {
+            Value::new(Val::Null)
+        } else {
+            Value::new(!self.negated)
+        }
+    }
+}
+
 impl ExpressionOps for BetweenExpression {
     fn evaluate(&self, tuple: &Tuple, schema: &Schema) -> Result<Value, ExpressionError> {
         let value = self.expr.evaluate(tuple, schema)?;
@@ -47,9 +65,7 @@ impl ExpressionOps for BetweenExpression {
         let high = self.high.evaluate(tuple, schema)?;
 
         // Check if value is between low and high (inclusive)
-        let between = value >= low && value <= high;
-
-        Ok(Value::new(if self.negated { !between } else { between }))
+        Ok(self.check(&value, &low, &high))
     }
 
     fn evaluate_join(
@@ -70,9 +86,7 @@ impl ExpressionOps for BetweenExpression {
             .evaluate_join(left_tuple, left_schema, right_tuple, right_schema)?;
 
         // Check if value is between low and high (inclusive)
-        let between = value >= low && value <= high;
-
-        Ok(Value::new(if self.negated { !between } else { between }))
+        Ok(self.check(&value, &low, &high))
     }
 
     fn get_child_at(&self, child_idx: usize) -> &Arc<Expression> {
-- 
2.43.0


From a220cb6705caf4dc6498e83ad1dd02b677b4de8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:12 +0000
Subject: [PATCH 047/120] fix: LIKE gives NULL for NULL, which it matched as
 the text NULL, and no longer panics on multi-byte characters

---
 src/sql/execution/expressions/like_expression.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/sql/execution/expressions/like_expression.rs b/src/sql/execution/expressions/like_expression.rs
index 4bc970a..3af046c 100644
--- a/src/sql/execution/expressions/like_expression.rs
+++ b/src/sql/execution/expressions/like_expression.rs
@@ -7,7 +7,7 @@ use crate::catalog::schema::Schema;
 use crate::common::exception::ExpressionError;
 use crate::sql::execution::expressions::abstract_expression::{Expression, ExpressionOps};
 use crate::storage::table::tuple::Tuple;
-use crate::types_db::value::Value;
+use crate::types_db::value::{Val, Value};
 
 #[derive(Clone, Debug, PartialEq)]
 pub struct LikeExpression {
@@ -74,7 +74,8 @@ impl LikeExpression {
                     }
 
                     let remaining_value: String = value_chars.clone().collect();
-                    for i in 0..=remaining_value.len() {
+                    let starts = remaining_value.char_indices().map(|(i, _)| i);
+                    for i in starts.chain([remaining_value.len()]) {
                         let test_value = &remaining_value[i..];
                         if self.matches_pattern(test_value, &remaining_pattern, escape) {
                             return true;
@@ -120,6 +121,9 @@ impl ExpressionOps for LikeExpression {
         let value = self.get_expr().evaluate(tuple, schema)?;
         let pattern = self.get_pattern().evaluate(tuple, schema)?;
 
+        if value.is_null() || pattern.is_null() {
+            return Ok(Value::new(Val::Null));
+        }
         let value_str = value.to_string();
         let pattern_str = pattern.to_string();
 
@@ -141,6 +145,9 @@ impl ExpressionOps for LikeExpression {
             self.get_pattern()
                 .evaluate_join(left_tuple, left_schema, right_tuple, right_schema)?;
 
+        if value.is_null() || pattern.is_null() {
+            return Ok(Value::new(Val::Null));
+        }
         let value_str = value.to_string();
         let pattern_str = pattern.to_string();
 
-- 
2.43.0


From 2d0e410cfa1cb83f086e2dce95398666458b530b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:12 +0000
Subject: [PATCH 048/120] fix: CASE passes over conditions that are NULL, and
 NULL as operand matches no WHEN

---
 src/sql/execution/expressions/case_expression.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/sql/execution/expressions/case_expression.rs b/src/sql/execution/expressions/case_expression.rs
index 7b7df1b..80c6c14 100644
--- a/src/sql/execution/expressions/case_expression.rs
+++ b/src/sql/execution/expressions/case_expression.rs
@@ -8,6 +8,7 @@ use crate::common::exception::ExpressionError;
 use crate::sql::execution::expressions::abstract_expression::{Expression, ExpressionOps};
 use crate::storage::table::tuple::Tuple;
 use crate::types_db::type_id::TypeId;
+use crate::types_db::types::{CmpBool, Type};
 use crate::types_db::value::{Val, Value};
 
 #[derive(Debug, Clone, PartialEq)]
@@ -98,7 +99,7 @@ impl ExpressionOps for CaseExpression {
 
         // Debug: show the tuple being processed
         let tuple_data: Vec<String> = (0..schema.get_column_count() as usize)
-            .map(|i| tuple.get_value(i).to_string())
+            .map(|i| ToString::to_string(&tuple.get_value(i)))
             .collect();
         debug!("CASE expression evaluating tuple: {:?}", tuple_data);
 
@@ -113,7 +114,7 @@ impl ExpressionOps for CaseExpression {
             let when_value = when_expr.evaluate(tuple, schema)?;
             let matches = match &base_value {
                 // For CASE expr WHEN ... form, compare base_value with when_value
-                Some(base) => base == &when_value,
+                Some(base) => base.compare_equals(&when_value) == CmpBool::CmpTrue,
                 // For CASE WHEN ... form, check if when_value is true
                 None => match when_value.get_val() {
                     Val::Boolean(b) => {
@@ -123,6 +124,8 @@ impl ExpressionOps for CaseExpression {
                         );
                         *b
                     },
+                    // An unknown condition does not hold
+                    Val::Null => false,
                     _ => return Err(ExpressionError::InvalidType("Expected boolean".to_string())),
                 },
             };
@@ -176,9 +179,11 @@ impl ExpressionOps for CaseExpression {
             let when_value =
                 when_expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)?;
             let matches = match &base_value {
-                Some(base) => base == &when_value,
+                Some(base) => base.compare_equals(&when_value) == CmpBool::CmpTrue,
                 None => match when_value.get_val() {
                     Val::Boolean(b) => *b,
+                    // An unknown condition does not hold
+                    Val::Null => false,
                     _ => return Err(ExpressionError::InvalidType("Expected boolean".to_string())),
                 },
             };
-- 
2.43.0


From 59b27687618bebd2ecf4c3e70caaffa06a34bf91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:12 +0000
Subject: [PATCH 049/120] fix: IS DISTINCT FROM compares numbers of different
 types by value, like =

---
 src/sql/execution/expressions/is_distinct_expression.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sql/execution/expressions/is_distinct_expression.rs b/src/sql/execution/expressions/is_distinct_expression.rs
index f601fde..022335c 100644
--- a/src/sql/execution/expressions/is_distinct_expression.rs
+++ b/src/sql/execution/expressions/is_distinct_expression.rs
@@ -8,6 +8,7 @@ use crate::common::exception::ExpressionError;
 use crate::sql::execution::expressions::abstract_expression::{Expression, ExpressionOps};
 use crate::storage::table::tuple::Tuple;
 use crate::types_db::type_id::TypeId;
+use crate::types_db::types::{CmpBool, Type};
 use crate::types_db::value::Value;
 
 #[derive(Clone, Debug, PartialEq)]
@@ -50,7 +51,7 @@ impl ExpressionOps for IsDistinctExpression {
         } else if left_val.is_null() || right_val.is_null() {
             true
         } else {
-            left_val != right_val
+            left_val.compare_equals(&right_val) != CmpBool::CmpTrue
         };
 
         Ok(Value::new(if self.negated {
@@ -79,7 +80,7 @@ impl ExpressionOps for IsDistinctExpression {
         } else if left_val.is_null() || right_val.is_null() {
             true // NULL IS DISTINCT FROM any non-NULL value
         } else {
-            left_val != right_val
+            left_val.compare_equals(&right_val) != CmpBool::CmpTrue
         };
 
         Ok(Value::new(if self.negated {
-- 
2.43.0


From a4f8c671c867e894867d082c4f1d6b404563b730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:12 +0000
Subject: [PATCH 050/120] fix: arithmetic in a join computes as elsewhere, it
 swapped the operands of integer and decimal, and NULL operands give NULL

---
 .../expressions/arithmetic_expression.rs      | 129 +++---------------
 1 file changed, 17 insertions(+), 112 deletions(-)

diff --git a/src/sql/execution/expressions/arithmetic_expression.rs b/src/sql/execution/expressions/arithmetic_expression.rs
index db6e53e..c1449e2 100644
--- a/src/sql/execution/expressions/arithmetic_expression.rs
+++ b/src/sql/execution/expressions/arithmetic_expression.rs
@@ -133,13 +133,14 @@ impl ArithmeticExpression {
             )),
         }
     }
-}
-
-impl ExpressionOps for ArithmeticExpression {
-    fn evaluate(&self, tuple: &Tuple, schema: &Schema) -> Result<Value, ExpressionError> {
-        let left_value = self.get_left().evaluate(tuple, schema)?;
-        let right_value = self.get_right().evaluate(tuple, schema)?;
 
+    /// Applies the operator to the values of the operands.
+    fn apply(&self, left_value: &Value, right_value: &Value) -> Result<Value, ExpressionError> {
+        // A NULL operand that has a type makes the result NULL
+        let typed_null = |v: &Value| v.is_null() && v.get_type_id() != TypeId::Invalid;
+        if typed_null(left_value) || typed_null(right_value) {
+            return Ok(Value::new(Val::Null));
+        }
         match (left_value.get_val(), right_value.get_val()) {
             // TinyInt operations
             (Val::TinyInt(l), Val::TinyInt(r)) => {
@@ -748,6 +749,15 @@ impl ExpressionOps for ArithmeticExpression {
             _ => Err(ExpressionError::ArithmeticError(Unknown)),
         }
     }
+}
+
+impl ExpressionOps for ArithmeticExpression {
+    fn evaluate(&self, tuple: &Tuple, schema: &Schema) -> Result<Value, ExpressionError> {
+        let left_value = self.get_left().evaluate(tuple, schema)?;
+        let right_value = self.get_right().evaluate(tuple, schema)?;
+
+        self.apply(&left_value, &right_value)
+    }
 
     fn evaluate_join(
         &self,
@@ -763,112 +773,7 @@ impl ExpressionOps for ArithmeticExpression {
             self.get_right()
                 .evaluate_join(left_tuple, left_schema, right_tuple, right_schema)?;
 
-        match (left_value.get_val(), right_value.get_val()) {
-            (Val::Integer(l), Val::Integer(r)) => {
-                let result = match self.op {
-                    ArithmeticOp::Add => l.checked_add(*r),
-                    ArithmeticOp::Subtract => l.checked_sub(*r),
-                    ArithmeticOp::Multiply => l.checked_mul(*r),
-                    ArithmeticOp::Divide => l.checked_div(*r),
-                };
-                result
-                    .map(Value::from)
-                    .ok_or(ExpressionError::ArithmeticError(Overflow))
-            },
-            (Val::BigInt(l), Val::BigInt(r)) => {
-                let result = match self.op {
-                    ArithmeticOp::Add => l.checked_add(*r),
-                    ArithmeticOp::Subtract => l.checked_sub(*r),
-                    ArithmeticOp::Multiply => l.checked_mul(*r),
-                    ArithmeticOp::Divide => l.checked_div(*r),
-                };
-                result
-                    .map(Value::from)
-                    .ok_or(ExpressionError::ArithmeticError(Overflow))
-            },
-            (Val::Decimal(l), Val::Decimal(r)) => {
-                let result = match self.op {
-                    ArithmeticOp::Add => l + *r,
-                    ArithmeticOp::Subtract => l - *r,
-                    ArithmeticOp::Multiply => l * *r,
-                    ArithmeticOp::Divide => {
-                        if *r != 0.0 {
-                            Ok(l / *r)
-                        } else {
-                            Err(ExpressionError::ArithmeticError(DivisionByZero))
-                        }?
-                    },
-                };
-                Ok(Value::from(result))
-            },
-            (Val::Integer(l), Val::Decimal(r)) | (Val::Decimal(r), Val::Integer(l)) => {
-                let l = *l as f64;
-                let r = *r;
-                let result = match self.op {
-                    ArithmeticOp::Add => l + r,
-                    ArithmeticOp::Subtract => l - r,
-                    ArithmeticOp::Multiply => l * r,
-                    ArithmeticOp::Divide => {
-                        if r != 0.0 {
-                            Ok(l / r)
-                        } else {
-                            Err(ExpressionError::ArithmeticError(DivisionByZero))
-                        }?
-                    },
-                };
-                Ok(Value::from(result))
-            },
-            (Val::BigInt(l), Val::Integer(r)) => {
-                let result = match self.op {
-                    ArithmeticOp::Add => l.checked_add(*r as i64),
-                    ArithmeticOp::Subtract => l.checked_sub(*r as i64),
-                    ArithmeticOp::Multiply => l.checked_mul(*r as i64),
-                    ArithmeticOp::Divide => {
-                        if *r == 0 {
-                            return Err(ExpressionError::ArithmeticError(DivisionByZero));
-                        }
-                        l.checked_div(*r as i64)
-                    },
-                };
-                result
-                    .map(Value::from)
-                    .ok_or(ExpressionError::ArithmeticError(Overflow))
-            },
-            (Val::Integer(l), Val::BigInt(r)) => {
-                let result = match self.op {
-                    ArithmeticOp::Add => (*l as i64).checked_add(*r),
-                    ArithmeticOp::Subtract => (*l as i64).checked_sub(*r),
-                    ArithmeticOp::Multiply => (*l as i64).checked_mul(*r),
-                    ArithmeticOp::Divide => {
-                        if *r == 0 {
-                            return Err(ExpressionError::ArithmeticError(DivisionByZero));
-                        }
-                        (*l as i64).checked_div(*r)
-                    },
-                };
-                result
-                    .map(Value::from)
-                    .ok_or(ExpressionError::ArithmeticError(Overflow))
-            },
-            (Val::BigInt(l), Val::Decimal(r)) | (Val::Decimal(r), Val::BigInt(l)) => {
-                let l = *l as f64;
-                let r = *r;
-                let result = match self.op {
-                    ArithmeticOp::Add => l + r,
-                    ArithmeticOp::Subtract => l - r,
-                    ArithmeticOp::Multiply => l * r,
-                    ArithmeticOp::Divide => {
-                        if r != 0.0 {
-                            Ok(l / r)
-                        } else {
-                            Err(ExpressionError::ArithmeticError(DivisionByZero))
-                        }?
-                    },
-                };
-                Ok(Value::from(result))
-            },
-            _ => Err(ExpressionError::ArithmeticError(Unknown)),
-        }
+        self.apply(&left_value, &right_value)
     }
 
     fn get_child_at(&self, child_idx: usize) -> &Arc<Expression> {
-- 
2.43.0


From e0a5bdb7dbc06fbbf35a80af92a9a64c87e26893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:12 +0000
Subject: [PATCH 051/120] fix: negating the smallest integer of a type is an
 overflow error instead of a panic

---
 .../expressions/unary_op_expression.rs        | 22 +++++++++++--------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/sql/execution/expressions/unary_op_expression.rs b/src/sql/execution/expressions/unary_op_expression.rs
index fd49cb1..c304a99 100644
--- a/src/sql/execution/expressions/unary_op_expression.rs
+++ b/src/sql/execution/expressions/unary_op_expression.rs
@@ -5,7 +5,7 @@ use sqlparser::ast::UnaryOperator;
 
 use crate::catalog::column::Column;
 use crate::catalog::schema::Schema;
-use crate::common::exception::ExpressionError;
+use crate::common::exception::{ArithmeticExpressionError, ExpressionError};
 use crate::sql::execution::expressions::abstract_expression::{Expression, ExpressionOps};
 use crate::storage::table::tuple::Tuple;
 use crate::types_db::type_id::TypeId;
@@ -90,11 +90,13 @@ impl ExpressionOps for UnaryOpExpression {
                 if val.is_null() {
                     return Ok(Value::new(Val::Null));
                 }
+                let overflow =
+                    ExpressionError::ArithmeticError(ArithmeticExpressionError::Overflow);
                 match val.get_val() {
-                    Val::TinyInt(i) => Ok(Value::new(-i)),
-                    Val::SmallInt(i) => Ok(Value::new(-i)),
-                    Val::Integer(i) => Ok(Value::new(-i)),
-                    Val::BigInt(i) => Ok(Value::new(-i)),
+                    Val::TinyInt(i) => i.checked_neg().map(Value::new).ok_or(overflow),
+                    Val::SmallInt(i) => i.checked_neg().map(Value::new).ok_or(overflow),
+                    Val::Integer(i) => i.checked_neg().map(Value::new).ok_or(overflow),
+                    Val::BigInt(i) => i.checked_neg().map(Value::new).ok_or(overflow),
                     Val::Decimal(f) => Ok(Value::new(-f)),
                     _ => Err(ExpressionError::InvalidOperation(
                         "Unary minus can only be applied to numeric values".to_string(),
@@ -136,11 +138,13 @@ impl ExpressionOps for UnaryOpExpression {
                 if val.is_null() {
                     return Ok(Value::new(Val::Null));
                 }
+                let overflow =
+                    ExpressionError::ArithmeticError(ArithmeticExpressionError::Overflow);
                 match val.get_val() {
-                    Val::TinyInt(i) => Ok(Value::new(-i)),
-                    Val::SmallInt(i) => Ok(Value::new(-i)),
-                    Val::Integer(i) => Ok(Value::new(-i)),
-                    Val::BigInt(i) => Ok(Value::new(-i)),
+                    Val::TinyInt(i) => i.checked_neg().map(Value::new).ok_or(overflow),
+                    Val::SmallInt(i) => i.checked_neg().map(Value::new).ok_or(overflow),
+                    Val::Integer(i) => i.checked_neg().map(Value::new).ok_or(overflow),
+                    Val::BigInt(i) => i.checked_neg().map(Value::new).ok_or(overflow),
                     Val::Decimal(f) => Ok(Value::new(-f)),
                     _ => Err(ExpressionError::InvalidOperation(
                         "Unary minus can only be applied to numeric values".to_string(),
-- 
2.43.0


From a7a811adcf7552e7c8ecc4dbd4582242e322fba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:25 +0000
Subject: [PATCH 052/120] fix: SUBSTRING counts characters, it counted bytes
 and panicked inside a multi-byte character

---
 .../expressions/substring_expression.rs       | 52 +++++++++----------
 1 file changed, 26 insertions(+), 26 deletions(-)

diff --git a/src/sql/execution/expressions/substring_expression.rs b/src/sql/execution/expressions/substring_expression.rs
index 9e5bcf1..2bb90c5 100644
--- a/src/sql/execution/expressions/substring_expression.rs
+++ b/src/sql/execution/expressions/substring_expression.rs
@@ -71,7 +71,7 @@ impl ExpressionOps for SubstringExpression {
 
         // Get the string value
         let string = match string_val.get_val() {
-            Val::VarLen(s) | Val::ConstLen(s) => s.clone(),
+            Val::VarLen(s) | Val::ConstLen(s) => s.chars().collect::<Vec<_>>(),
             _ => {
                 return Err(ExpressionError::InvalidOperation(format!(
                     "SUBSTRING requires string input, got {:?}",
@@ -88,10 +88,10 @@ impl ExpressionOps for SubstringExpression {
 
         // Get the start position (1-indexed in SQL)
         let start_pos = match from_val.get_val() {
-            Val::Integer(i) => *i,
-            Val::BigInt(i) => *i as i32,
-            Val::SmallInt(i) => *i as i32,
-            Val::TinyInt(i) => *i as i32,
+            Val::Integer(i) => *i as i64,
+            Val::BigInt(i) => *i,
+            Val::SmallInt(i) => *i as i64,
+            Val::TinyInt(i) => *i as i64,
             _ => {
                 return Err(ExpressionError::InvalidOperation(format!(
                     "SUBSTRING FROM requires numeric input, got {:?}",
@@ -105,7 +105,7 @@ impl ExpressionOps for SubstringExpression {
         let start_idx = if start_pos > 0 {
             (start_pos - 1) as usize
         } else if start_pos < 0 {
-            let abs_pos = (-start_pos) as usize;
+            let abs_pos = start_pos.unsigned_abs() as usize;
             if abs_pos > string.len() {
                 0 // If negative position is beyond string start, start from beginning
             } else {
@@ -129,10 +129,10 @@ impl ExpressionOps for SubstringExpression {
 
             // Get the length
             let length = match for_val.get_val() {
-                Val::Integer(i) => *i,
-                Val::BigInt(i) => *i as i32,
-                Val::SmallInt(i) => *i as i32,
-                Val::TinyInt(i) => *i as i32,
+                Val::Integer(i) => *i as i64,
+                Val::BigInt(i) => *i,
+                Val::SmallInt(i) => *i as i64,
+                Val::TinyInt(i) => *i as i64,
                 _ => {
                     return Err(ExpressionError::InvalidOperation(format!(
                         "SUBSTRING FOR requires numeric input, got {:?}",
@@ -147,14 +147,14 @@ impl ExpressionOps for SubstringExpression {
             }
 
             // Calculate end index (exclusive)
-            let end_idx = std::cmp::min(start_idx + length as usize, string.len());
+            let end_idx = start_idx.saturating_add(length as usize).min(string.len());
 
             // Extract substring
-            let result = string[start_idx..end_idx].to_string();
+            let result = string[start_idx..end_idx].iter().collect::<String>();
             Ok(Value::new(result))
         } else {
             // If no FOR expression, return rest of string
-            let result = string[start_idx..].to_string();
+            let result = string[start_idx..].iter().collect::<String>();
             Ok(Value::new(result))
         }
     }
@@ -176,7 +176,7 @@ impl ExpressionOps for SubstringExpression {
 
         // Get the string value
         let string = match string_val.get_val() {
-            Val::VarLen(s) | Val::ConstLen(s) => s.clone(),
+            Val::VarLen(s) | Val::ConstLen(s) => s.chars().collect::<Vec<_>>(),
             _ => {
                 return Err(ExpressionError::InvalidOperation(format!(
                     "SUBSTRING requires string input, got {:?}",
@@ -195,10 +195,10 @@ impl ExpressionOps for SubstringExpression {
 
         // Get the start position (1-indexed in SQL)
         let start_pos = match from_val.get_val() {
-            Val::Integer(i) => *i,
-            Val::BigInt(i) => *i as i32,
-            Val::SmallInt(i) => *i as i32,
-            Val::TinyInt(i) => *i as i32,
+            Val::Integer(i) => *i as i64,
+            Val::BigInt(i) => *i,
+            Val::SmallInt(i) => *i as i64,
+            Val::TinyInt(i) => *i as i64,
             _ => {
                 return Err(ExpressionError::InvalidOperation(format!(
                     "SUBSTRING FROM requires numeric input, got {:?}",
@@ -212,7 +212,7 @@ impl ExpressionOps for SubstringExpression {
         let start_idx = if start_pos > 0 {
             (start_pos - 1) as usize
         } else if start_pos < 0 {
-            let abs_pos = (-start_pos) as usize;
+            let abs_pos = start_pos.unsigned_abs() as usize;
             if abs_pos > string.len() {
                 0 // If negative position is beyond string start, start from beginning
             } else {
@@ -237,10 +237,10 @@ impl ExpressionOps for SubstringExpression {
 
             // Get the length
             let length = match for_val.get_val() {
-                Val::Integer(i) => *i,
-                Val::BigInt(i) => *i as i32,
-                Val::SmallInt(i) => *i as i32,
-                Val::TinyInt(i) => *i as i32,
+                Val::Integer(i) => *i as i64,
+                Val::BigInt(i) => *i,
+                Val::SmallInt(i) => *i as i64,
+                Val::TinyInt(i) => *i as i64,
                 _ => {
                     return Err(ExpressionError::InvalidOperation(format!(
                         "SUBSTRING FOR requires numeric input, got {:?}",
@@ -255,14 +255,14 @@ impl ExpressionOps for SubstringExpression {
             }
 
             // Calculate end index (exclusive)
-            let end_idx = std::cmp::min(start_idx + length as usize, string.len());
+            let end_idx = start_idx.saturating_add(length as usize).min(string.len());
 
             // Extract substring
-            let result = string[start_idx..end_idx].to_string();
+            let result = string[start_idx..end_idx].iter().collect::<String>();
             Ok(Value::new(result))
         } else {
             // If no FOR expression, return rest of string
-            let result = string[start_idx..].to_string();
+            let result = string[start_idx..].iter().collect::<String>();
             Ok(Value::new(result))
         }
     }
-- 
2.43.0


From 1efa3b22f17790c6ce61e3dfb27398690bd9ab89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:33 +0000
Subject: [PATCH 053/120] fix: OVERLAY counts characters, it panicked inside a
 multi-byte character, and NULL operands give NULL

---
 .../expressions/overlay_expression.rs         | 68 ++++++++-----------
 1 file changed, 30 insertions(+), 38 deletions(-)

diff --git a/src/sql/execution/expressions/overlay_expression.rs b/src/sql/execution/expressions/overlay_expression.rs
index 5f811bb..6ba9327 100644
--- a/src/sql/execution/expressions/overlay_expression.rs
+++ b/src/sql/execution/expressions/overlay_expression.rs
@@ -57,6 +57,14 @@ impl ExpressionOps for OverlayExpression {
         };
 
         // Extract string values
+        if base_str.is_null()
+            || overlay_str.is_null()
+            || from_pos.is_null()
+            || for_len.as_ref().is_some_and(|len| len.is_null())
+        {
+            return Ok(Value::new(Val::Null));
+        }
+
         let base_text = match base_str.get_val() {
             Val::VarLen(s) | Val::ConstLen(s) => s.clone(),
             _ => {
@@ -115,27 +123,16 @@ impl ExpressionOps for OverlayExpression {
                     )));
                 },
             },
-            None => overlay_text.len(), // When FOR is not specified, replace characters equal to the length of overlay string
+            None => overlay_text.chars().count(), // When FOR is not specified, replace characters equal to the length of overlay string
         };
 
         // Perform the overlay operation
-        let result = if start_pos >= base_text.len() {
-            // If start position is beyond the end of the string, just append the overlay string
-            format!("{}{}", base_text, overlay_text)
-        } else {
-            // Calculate the end position for replacement
-            let end_pos = if replace_len == 0 {
-                start_pos // When replace_len is 0, we don't remove any characters
-            } else {
-                std::cmp::min(start_pos + replace_len, base_text.len())
-            };
-            format!(
-                "{}{}{}",
-                &base_text[0..start_pos],
-                overlay_text,
-                &base_text[end_pos..]
-            )
-        };
+        let before: String = base_text.chars().take(start_pos).collect();
+        let after: String = base_text
+            .chars()
+            .skip(start_pos.saturating_add(replace_len))
+            .collect();
+        let result = format!("{}{}{}", before, overlay_text, after);
 
         Ok(Value::new(result))
     }
@@ -163,6 +160,14 @@ impl ExpressionOps for OverlayExpression {
         };
 
         // Extract string values
+        if base_str.is_null()
+            || overlay_str.is_null()
+            || from_pos.is_null()
+            || for_len.as_ref().is_some_and(|len| len.is_null())
+        {
+            return Ok(Value::new(Val::Null));
+        }
+
         let base_text = match base_str.get_val() {
             Val::VarLen(s) | Val::ConstLen(s) => s.clone(),
             _ => {
@@ -221,29 +226,16 @@ impl ExpressionOps for OverlayExpression {
                     )));
                 },
             },
-            None => overlay_text.len(), // When FOR is not specified, replace characters equal to the length of overlay string
+            None => overlay_text.chars().count(), // When FOR is not specified, replace characters equal to the length of overlay string
         };
 
         // Perform the overlay operation
-        let result = if start_pos >= base_text.len() {
-            // If start position is beyond the end of the string, just append the overlay string
-            format!("{}{}", base_text, overlay_text)
-        } else {
-            // Calculate the end position for replacement
-            let end_pos = if replace_len == 0 {
-                start_pos // When replace_len is 0, we don't remove any characters
-            } else {
-                std::cmp::min(start_pos + replace_len, base_text.len())
-            };
-
-            // Construct the result string
-            format!(
-                "{}{}{}",
-                &base_text[0..start_pos],
-                overlay_text,
-                &base_text[end_pos..]
-            )
-        };
+        let before: String = base_text.chars().take(start_pos).collect();
+        let after: String = base_text
+            .chars()
+            .skip(start_pos.saturating_add(replace_len))
+            .collect();
+        let result = format!("{}{}{}", before, overlay_text, after);
 
         Ok(Value::new(result))
     }
-- 
2.43.0


From 8b503060b054e5b906c6f4d5fc92ee39b5eb7590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:33 +0000
Subject: [PATCH 054/120] fix: POSITION counts characters, it counted bytes

---
 src/sql/execution/expressions/position_expression.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sql/execution/expressions/position_expression.rs b/src/sql/execution/expressions/position_expression.rs
index 0ac8adb..60b9f2e 100644
--- a/src/sql/execution/expressions/position_expression.rs
+++ b/src/sql/execution/expressions/position_expression.rs
@@ -68,7 +68,7 @@ impl ExpressionOps for PositionExpression {
 
         // Find the position (1-indexed as per SQL standard)
         let position = match string_str.find(substring_str) {
-            Some(pos) => (pos + 1) as i32, // Convert to 1-indexed
+            Some(pos) => (string_str[..pos].chars().count() + 1) as i32, // Convert to 1-indexed
             None => 0,                     // Not found
         };
 
@@ -116,7 +116,7 @@ impl ExpressionOps for PositionExpression {
 
         // Find the position (1-indexed as per SQL standard)
         let position = match string_str.find(substring_str) {
-            Some(pos) => (pos + 1) as i32, // Convert to 1-indexed
+            Some(pos) => (string_str[..pos].chars().count() + 1) as i32, // Convert to 1-indexed
             None => 0,                     // Not found
         };
 
-- 
2.43.0


From 3db5ad7f0fe82a415c9daceccfa94fcb7d2024a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:33 +0000
Subject: [PATCH 055/120] fix: UPPER and LOWER of NULL are NULL

---
 src/sql/execution/expressions/string_expression.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sql/execution/expressions/string_expression.rs b/src/sql/execution/expressions/string_expression.rs
index 7271f8d..76fddfa 100644
--- a/src/sql/execution/expressions/string_expression.rs
+++ b/src/sql/execution/expressions/string_expression.rs
@@ -62,6 +62,7 @@ impl ExpressionOps for StringExpression {
                 let computed = self.perform_computation(s);
                 Ok(Value::new(Val::VarLen(computed)))
             },
+            Val::Null => Ok(Value::new(Val::Null)),
             _ => Err(ExpressionError::InvalidStringExpressionType),
         }
     }
@@ -81,6 +82,7 @@ impl ExpressionOps for StringExpression {
                 let computed = self.perform_computation(s);
                 Ok(Value::new(Val::VarLen(computed)))
             },
+            Val::Null => Ok(Value::new(Val::Null)),
             _ => Err(ExpressionError::InvalidStringExpressionType),
         }
     }
-- 
2.43.0


From 615fd5dd6f44468cfbd510e7b6517fedb64ff9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:03 +0000
Subject: [PATCH 056/120] fix: CAST in a join casts as elsewhere, refuses
 numbers that do not fit, and performs all the casts it validates

---
 .../execution/expressions/cast_expression.rs  | 32 +++++++++++--------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/sql/execution/expressions/cast_expression.rs b/src/sql/execution/expressions/cast_expression.rs
index 92d341d..220f66f 100644
--- a/src/sql/execution/expressions/cast_expression.rs
+++ b/src/sql/execution/expressions/cast_expression.rs
@@ -62,25 +62,20 @@ impl CastExpression {
             Ok(value)
         }
     }
-}
-
-impl ExpressionOps for CastExpression {
-    fn evaluate(&self, tuple: &Tuple, schema: &Schema) -> Result<Value, ExpressionError> {
-        let value = self.expr.evaluate(tuple, schema)?;
 
+    fn convert(&self, value: Value) -> Result<Value, ExpressionError> {
         // Handle NULL values first - return NULL of target type
         if value.is_null() {
             return Ok(Value::new_with_type(Val::Null, self.target_type));
         }
 
         let cast_result = match (value.get_type_id(), self.target_type) {
-            // Decimal to Integer casting
-            (TypeId::Decimal, TypeId::Integer) => {
+            // Decimal to Integer or BigInt casting
+            (TypeId::Decimal, TypeId::Integer | TypeId::BigInt) => {
                 if let Val::Decimal(d) = value.get_val() {
-                    Ok(Value::new_with_type(
-                        Val::Integer(d.round() as i32),
-                        TypeId::Integer,
-                    ))
+                    Value::new(d.round())
+                        .cast_to(self.target_type)
+                        .map_err(ExpressionError::CastError)
                 } else {
                     Err(ExpressionError::CastError(
                         "Invalid value for decimal to integer cast".to_string(),
@@ -141,6 +136,10 @@ impl ExpressionOps for CastExpression {
             // Same type - return as is
             (source, target) if source == target => Ok(value),
 
+            // Other valid casts
+            (source, target) if is_valid_cast(source, target) => {
+                value.cast_to(target).map_err(ExpressionError::CastError)
+            },
             // Invalid cast
             (source, target) => Err(ExpressionError::InvalidCast {
                 from: source,
@@ -150,6 +149,13 @@ impl ExpressionOps for CastExpression {
 
         self.apply_format(cast_result)
     }
+}
+
+impl ExpressionOps for CastExpression {
+    fn evaluate(&self, tuple: &Tuple, schema: &Schema) -> Result<Value, ExpressionError> {
+        let value = self.expr.evaluate(tuple, schema)?;
+        self.convert(value)
+    }
 
     fn evaluate_join(
         &self,
@@ -161,9 +167,7 @@ impl ExpressionOps for CastExpression {
         let value = self
             .expr
             .evaluate_join(left_tuple, left_schema, right_tuple, right_schema)?;
-        value
-            .cast_to(self.target_type)
-            .map_err(|e| ExpressionError::CastError(e.to_string()))
+        self.convert(value)
     }
 
     fn get_child_at(&self, child_idx: usize) -> &Arc<Expression> {
-- 
2.43.0


From c597b4d1372f11e259b0fd5fd2ffb70f7c407c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:03 +0000
Subject: [PATCH 057/120] fix: ALL is false if any comparison is false, also
 after one that is NULL

---
 .../execution/expressions/all_expression.rs    | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/sql/execution/expressions/all_expression.rs b/src/sql/execution/expressions/all_expression.rs
index ef4ed22..ea052f6 100644
--- a/src/sql/execution/expressions/all_expression.rs
+++ b/src/sql/execution/expressions/all_expression.rs
@@ -65,6 +65,7 @@ impl ExpressionOps for AllExpression {
         }
 
         // Compare left value with ALL right values
+        let mut found_null = false;
         for right_val in right_values {
             let result = match &self.compare_op {
                 BinaryOperator::Eq => left_val.compare_equals(right_val),
@@ -85,14 +86,16 @@ impl ExpressionOps for AllExpression {
             if matches!(result, crate::types_db::types::CmpBool::CmpFalse) {
                 return Ok(Value::new(false));
             }
-            // If any comparison is null and we haven't found a false yet,
-            // the result might be null
+            // The result is null if any comparison is null and none is false
             if matches!(result, crate::types_db::types::CmpBool::CmpNull) {
-                return Ok(Value::new(crate::types_db::value::Val::Null));
+                found_null = true;
             }
         }
 
         // If we get here, all comparisons were true
+        if found_null {
+            return Ok(Value::new(crate::types_db::value::Val::Null));
+        }
         Ok(Value::new(true))
     }
 
@@ -129,6 +132,7 @@ impl ExpressionOps for AllExpression {
         }
 
         // Compare left value with ALL right values
+        let mut found_null = false;
         for right_val in right_values {
             let result = match &self.compare_op {
                 BinaryOperator::Eq => left_val.compare_equals(right_val),
@@ -149,14 +153,16 @@ impl ExpressionOps for AllExpression {
             if matches!(result, crate::types_db::types::CmpBool::CmpFalse) {
                 return Ok(Value::new(false));
             }
-            // If any comparison is null and we haven't found a false yet,
-            // the result might be null
+            // The result is null if any comparison is null and none is false
             if matches!(result, crate::types_db::types::CmpBool::CmpNull) {
-                return Ok(Value::new(crate::types_db::value::Val::Null));
+                found_null = true;
             }
         }
 
         // If we get here, all comparisons were true
+        if found_null {
+            return Ok(Value::new(crate::types_db::value::Val::Null));
+        }
         Ok(Value::new(true))
     }
 
-- 
2.43.0


From 15c2d72d5e737584e7e9e4b7db700c3274c312b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:07 +0000
Subject: [PATCH 058/120] fix: AT TIME ZONE, CEIL and FLOOR in a join read the
 columns of both sides, they read the left row only

---
 .../expressions/at_timezone_expression.rs     | 28 ++++++++++++-------
 .../expressions/ceil_floor_expression.rs      | 26 +++++++++++------
 2 files changed, 35 insertions(+), 19 deletions(-)

diff --git a/src/sql/execution/expressions/at_timezone_expression.rs b/src/sql/execution/expressions/at_timezone_expression.rs
index 87a8274..b2653f2 100644
--- a/src/sql/execution/expressions/at_timezone_expression.rs
+++ b/src/sql/execution/expressions/at_timezone_expression.rs
@@ -33,13 +33,8 @@ impl AtTimeZoneExpression {
             children,
         }
     }
-}
-
-impl ExpressionOps for AtTimeZoneExpression {
-    fn evaluate(&self, tuple: &Tuple, schema: &Schema) -> Result<Value, ExpressionError> {
-        let timestamp_val = self.timestamp.evaluate(tuple, schema)?;
-        let timezone_val = self.timezone.evaluate(tuple, schema)?;
 
+    fn convert(timestamp_val: Value, timezone_val: Value) -> Result<Value, ExpressionError> {
         // Get timestamp as string
         let timestamp_str = timestamp_val.to_string();
 
@@ -59,16 +54,29 @@ impl ExpressionOps for AtTimeZoneExpression {
         // Return as RFC3339 string
         Ok(Value::new(converted.to_rfc3339()))
     }
+}
+
+impl ExpressionOps for AtTimeZoneExpression {
+    fn evaluate(&self, tuple: &Tuple, schema: &Schema) -> Result<Value, ExpressionError> {
+        let timestamp_val = self.timestamp.evaluate(tuple, schema)?;
+        let timezone_val = self.timezone.evaluate(tuple, schema)?;
+        Self::convert(timestamp_val, timezone_val)
+    }
 
     fn evaluate_join(
         &self,
         left_tuple: &Tuple,
         left_schema: &Schema,
-        _right_tuple: &Tuple,
-        _right_schema: &Schema,
+        right_tuple: &Tuple,
+        right_schema: &Schema,
     ) -> Result<Value, ExpressionError> {
-        // For join evaluation, we can just use the regular evaluate
-        self.evaluate(left_tuple, left_schema)
+        let timestamp_val =
+            self.timestamp
+                .evaluate_join(left_tuple, left_schema, right_tuple, right_schema)?;
+        let timezone_val =
+            self.timezone
+                .evaluate_join(left_tuple, left_schema, right_tuple, right_schema)?;
+        Self::convert(timestamp_val, timezone_val)
     }
 
     fn get_child_at(&self, child_idx: usize) -> &Arc<Expression> {
diff --git a/src/sql/execution/expressions/ceil_floor_expression.rs b/src/sql/execution/expressions/ceil_floor_expression.rs
index 8cfa480..ae49154 100644
--- a/src/sql/execution/expressions/ceil_floor_expression.rs
+++ b/src/sql/execution/expressions/ceil_floor_expression.rs
@@ -62,11 +62,12 @@ impl CeilFloorExpression {
             return_type,
         })
     }
-}
 
-impl ExpressionOps for CeilFloorExpression {
-    fn evaluate(&self, tuple: &Tuple, schema: &Schema) -> Result<Value, ExpressionError> {
-        let input_val = self.expr.evaluate(tuple, schema)?;
+    fn compute(
+        &self,
+        eval: impl Fn(&Expression) -> Result<Value, ExpressionError>,
+    ) -> Result<Value, ExpressionError> {
+        let input_val = eval(&self.expr)?;
 
         // Handle NULL input
         if input_val.is_null() {
@@ -77,7 +78,7 @@ impl ExpressionOps for CeilFloorExpression {
             TypeId::Decimal => {
                 let num = input_val.as_decimal().unwrap();
                 let scale = if let Some(scale_expr) = &self.scale {
-                    let scale_val = scale_expr.evaluate(tuple, schema)?;
+                    let scale_val = eval(scale_expr)?;
                     if scale_val.is_null() {
                         return Ok(Value::new(Val::Null));
                     }
@@ -197,16 +198,23 @@ impl ExpressionOps for CeilFloorExpression {
             ))),
         }
     }
+}
+
+impl ExpressionOps for CeilFloorExpression {
+    fn evaluate(&self, tuple: &Tuple, schema: &Schema) -> Result<Value, ExpressionError> {
+        self.compute(|expr| expr.evaluate(tuple, schema))
+    }
 
     fn evaluate_join(
         &self,
         left_tuple: &Tuple,
         left_schema: &Schema,
-        _right_tuple: &Tuple,
-        _right_schema: &Schema,
+        right_tuple: &Tuple,
+        right_schema: &Schema,
     ) -> Result<Value, ExpressionError> {
-        // For join evaluation, we'll just evaluate against the left tuple and schema
-        self.evaluate(left_tuple, left_schema)
+        self.compute(|expr| {
+            expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+        })
     }
 
     fn get_child_at(&self, child_idx: usize) -> &Arc<Expression> {
-- 
2.43.0


From bf0475306ccfb5daa90943d5271dc632b044effe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:06 +0000
Subject: [PATCH 059/120] fix: a NOT expression can be cloned with its one
 child, it panicked

---
 src/sql/execution/expressions/logic_expression.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/sql/execution/expressions/logic_expression.rs b/src/sql/execution/expressions/logic_expression.rs
index 43ca410..f1ecc85 100644
--- a/src/sql/execution/expressions/logic_expression.rs
+++ b/src/sql/execution/expressions/logic_expression.rs
@@ -175,8 +175,13 @@ impl ExpressionOps for LogicExpression {
     }
 
     fn clone_with_children(&self, children: Vec<Arc<Expression>>) -> Arc<Expression> {
+        if self.logic_type == LogicType::Not && children.len() == 1 {
+            return Arc::new(Expression::Logic(LogicExpression::new_not(
+                children[0].clone(),
+            )));
+        }
         if children.len() != 2 {
-            panic!("ArithmeticExpression requires exactly two children");
+            panic!("LogicExpression requires exactly two children");
         }
 
         Arc::new(Expression::Logic(LogicExpression {
-- 
2.43.0


From c4af22d832f59c298f74b4f8fcf0c0b3c8ec4a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:22 +0000
Subject: [PATCH 060/120] fix: modulo of decimals and of numbers of two types
 is computed, it gave NULL

---
 src/types_db/value.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/types_db/value.rs b/src/types_db/value.rs
index 33a4c01..a747080 100644
--- a/src/types_db/value.rs
+++ b/src/types_db/value.rs
@@ -1967,6 +1967,24 @@ impl Type for Value {
                 (Val::TinyInt(a), Val::TinyInt(b)) => {
                     Value::new_with_type(Val::TinyInt(a.wrapping_rem(*b)), TypeId::TinyInt)
                 },
+                // A fraction on either side, or integers of two types
+                (Val::Decimal(_) | Val::Float(_), _) | (_, Val::Decimal(_) | Val::Float(_))
+                    if self.is_numeric() && other.is_numeric() =>
+                {
+                    match (self.as_decimal(), other.as_decimal()) {
+                        (Ok(a), Ok(b)) => Value::new(a % b),
+                        _ => Value::new(Val::Null),
+                    }
+                },
+                _ if self.is_numeric() && other.is_numeric() => {
+                    let wider = if self.size_ > other.size_ { self } else { other };
+                    match (self.as_bigint(), other.as_bigint()) {
+                        (Ok(a), Ok(b)) => Value::new(a.wrapping_rem(b))
+                            .cast_to(wider.get_type_id())
+                            .unwrap_or_else(|_| Value::new(Val::Null)),
+                        _ => Value::new(Val::Null),
+                    }
+                },
                 _ => Value::new(Val::Null),
             },
         }
-- 
2.43.0


From b3c564ae5f11153a39a0251c101e09c39dd2865b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:25 +0000
Subject: [PATCH 061/120] fix: a VARCHAR and a CHAR compare by their text, no
 two were ever equal or ordered

---
 src/types_db/value.rs | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/types_db/value.rs b/src/types_db/value.rs
index a747080..7294117 100644
--- a/src/types_db/value.rs
+++ b/src/types_db/value.rs
@@ -1376,6 +1376,10 @@ impl Type for Value {
             (Val::Float(a), Val::BigInt(b)) => CmpBool::from(*a == *b as f32),
             (Val::Float(a), Val::Decimal(b)) => CmpBool::from((*a as f64) == *b),
             (Val::Float(a), Val::Float(b)) => CmpBool::from(*a == *b),
+            // A VARCHAR and a CHAR compare by their text
+            (Val::VarLen(a), Val::ConstLen(b)) | (Val::ConstLen(a), Val::VarLen(b)) => {
+                CmpBool::from(a == b)
+            },
             _ => {
                 // Check if types match before comparing values
                 if self.type_id_ != other.type_id_ {
@@ -1427,6 +1431,10 @@ impl Type for Value {
             (Val::Float(a), Val::BigInt(b)) => CmpBool::from(*a != *b as f32),
             (Val::Float(a), Val::Decimal(b)) => CmpBool::from((*a as f64) != *b),
             (Val::Float(a), Val::Float(b)) => CmpBool::from(*a != *b),
+            // A VARCHAR and a CHAR compare by their text
+            (Val::VarLen(a), Val::ConstLen(b)) | (Val::ConstLen(a), Val::VarLen(b)) => {
+                CmpBool::from(a != b)
+            },
             _ => {
                 // Check if types match before comparing values
                 if self.type_id_ != other.type_id_ {
@@ -1480,6 +1488,10 @@ impl Type for Value {
             (Val::Float(a), Val::Integer(b)) => CmpBool::from(*a < (*b as f32)),
             (Val::Float(a), Val::BigInt(b)) => CmpBool::from(*a < (*b as f32)),
             (Val::Float(a), Val::Decimal(b)) => CmpBool::from((*a as f64) < *b),
+            // A VARCHAR and a CHAR compare by their text
+            (Val::VarLen(a), Val::ConstLen(b)) | (Val::ConstLen(a), Val::VarLen(b)) => {
+                CmpBool::from(a < b)
+            },
             _ => {
                 // Check if types match before comparing values
                 if self.type_id_ != other.type_id_ {
@@ -1535,6 +1547,10 @@ impl Type for Value {
             (Val::Decimal(a), Val::Float(b)) => CmpBool::from(*a <= *b as f64),
 
             (Val::Float(a), Val::Float(b)) => CmpBool::from(*a <= *b),
+            // A VARCHAR and a CHAR compare by their text
+            (Val::VarLen(a), Val::ConstLen(b)) | (Val::ConstLen(a), Val::VarLen(b)) => {
+                CmpBool::from(a <= b)
+            },
             _ => {
                 // Check if types match before comparing values
                 if self.type_id_ != other.type_id_ {
@@ -1590,6 +1606,10 @@ impl Type for Value {
             (Val::Float(a), Val::Decimal(b)) => CmpBool::from((*a as f64) > *b),
             (Val::Float(a), Val::Float(b)) => CmpBool::from(*a > *b),
 
+            // A VARCHAR and a CHAR compare by their text
+            (Val::VarLen(a), Val::ConstLen(b)) | (Val::ConstLen(a), Val::VarLen(b)) => {
+                CmpBool::from(a > b)
+            },
             _ => {
                 // Check if types match before comparing values
                 if self.type_id_ != other.type_id_ {
@@ -1644,6 +1664,10 @@ impl Type for Value {
             (Val::Float(a), Val::BigInt(b)) => CmpBool::from(*a >= *b as f32),
             (Val::Float(a), Val::Decimal(b)) => CmpBool::from((*a as f64) >= *b),
             (Val::Float(a), Val::Float(b)) => CmpBool::from(*a >= *b),
+            // A VARCHAR and a CHAR compare by their text
+            (Val::VarLen(a), Val::ConstLen(b)) | (Val::ConstLen(a), Val::VarLen(b)) => {
+                CmpBool::from(a >= b)
+            },
             _ => {
                 // Check if types match before comparing values
                 if self.type_id_ != other.type_id_ {
-- 
2.43.0


From c1ff50f3c8d0634dfc0a0a322c96311c3f54bec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:53 +0000
Subject: [PATCH 062/120] fix: COUNT of an expression passes over NULLs, it
 counted them like COUNT(*)

---
 .../execution/executors/aggregation_executor.rs   | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/sql/execution/executors/aggregation_executor.rs b/src/sql/execution/executors/aggregation_executor.rs
index bf21726..20877a9 100644
--- a/src/sql/execution/executors/aggregation_executor.rs
+++ b/src/sql/execution/executors/aggregation_executor.rs
@@ -307,12 +307,19 @@ impl AggregationExecutor {
                             }
                         },
                         AggregationType::Count | AggregationType::CountStar => {
-                            let count = if agg_value.values[i].is_null() {
-                                Value::new(1i64)
+                            // COUNT(expr) passes over NULLs, COUNT(*) counts every row
+                            let counted = match (agg.get_agg_type(), agg.get_children().first()) {
+                                (AggregationType::Count, Some(arg)) => {
+                                    !arg.evaluate(tuple, schema).unwrap().is_null()
+                                },
+                                _ => true,
+                            };
+                            let step = Value::new(i64::from(counted));
+                            agg_value.values[i] = if agg_value.values[i].is_null() {
+                                step
                             } else {
-                                agg_value.values[i].add(&Value::new(1i64))?
+                                agg_value.values[i].add(&step)?
                             };
-                            agg_value.values[i] = count;
                         },
                         AggregationType::Min => {
                             let arg_val = agg.get_arg().evaluate(tuple, schema).unwrap();
-- 
2.43.0


From 4fc53f934353c7af0a7b40e802a95fa52780bdf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:21 +0000
Subject: [PATCH 063/120] fix: AVG works for all number types and does not
 overflow the type of its argument

---
 .../executors/aggregation_executor.rs         | 25 +++----------------
 1 file changed, 3 insertions(+), 22 deletions(-)

diff --git a/src/sql/execution/executors/aggregation_executor.rs b/src/sql/execution/executors/aggregation_executor.rs
index 20877a9..425edf4 100644
--- a/src/sql/execution/executors/aggregation_executor.rs
+++ b/src/sql/execution/executors/aggregation_executor.rs
@@ -353,11 +353,11 @@ impl AggregationExecutor {
                                 let current_count = avg_counts.entry(count_key).or_insert(0);
                                 *current_count += 1;
 
+                                // The sum is kept as Decimal, whatever the type of the values
+                                let arg_val = arg_val.cast_to(TypeId::Decimal)?;
                                 if agg_value.values[i].is_null() {
-                                    // First value - store as sum with proper type
                                     agg_value.values[i] = arg_val;
                                 } else {
-                                    // Add to the sum
                                     agg_value.values[i] = agg_value.values[i].add(&arg_val)?;
                                 }
                             }
@@ -551,26 +551,7 @@ impl AbstractExecutor for AggregationExecutor {
                         debug!("Found count {} for group {:?}, aggregate {}", count, key, i);
                         debug!("Current value: {:?}", value.values[i]);
                         if count > 0 && !value.values[i].is_null() {
-                            // Convert sum to decimal and divide by count to get average
-                            let sum_as_decimal = match value.values[i].get_type_id() {
-                                TypeId::Integer => {
-                                    let int_val = value.values[i].as_integer()?;
-                                    Value::new(int_val as f64)
-                                },
-                                TypeId::BigInt => {
-                                    let bigint_val = value.values[i].as_bigint()?;
-                                    Value::new(bigint_val as f64)
-                                },
-                                TypeId::Decimal => value.values[i].clone(),
-                                _ => {
-                                    debug!(
-                                        "Unexpected sum type for AVG: {:?}",
-                                        value.values[i].get_type_id()
-                                    );
-                                    Value::new(Val::Null)
-                                },
-                            };
-
+                            let sum_as_decimal = value.values[i].clone();
                             let count_value = Value::new(count as f64);
                             debug!(
                                 "Dividing sum_as_decimal {:?} by count {:?}",
-- 
2.43.0


From 3e1554b755f705d97e910d9d15bdff52c37bce55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:24 +0000
Subject: [PATCH 064/120] fix: an error met while aggregating or sorting is
 returned, the rows so far were returned as the whole result

---
 .../executors/aggregation_executor.rs         | 79 +++++++++-------
 src/sql/execution/executors/sort_executor.rs  | 89 +++++++++----------
 src/sql/execution/executors/topn_executor.rs  | 25 ++++--
 .../executors/topn_per_group_executor.rs      | 41 ++++++---
 .../execution/executors/window_executor.rs    | 33 +++++--
 5 files changed, 165 insertions(+), 102 deletions(-)

diff --git a/src/sql/execution/executors/aggregation_executor.rs b/src/sql/execution/executors/aggregation_executor.rs
index 425edf4..275912f 100644
--- a/src/sql/execution/executors/aggregation_executor.rs
+++ b/src/sql/execution/executors/aggregation_executor.rs
@@ -209,6 +209,8 @@ pub struct AggregationExecutor {
     initialized: bool,
     /// Finalized groups ready for output, consumed by `next()`.
     groups_to_return: Vec<(GroupKey, AggregateValues)>,
+    /// Error met while consuming the input, returned by the first `next()`.
+    init_error: Option<DBError>,
 }
 
 impl AggregationExecutor {
@@ -239,9 +241,35 @@ impl AggregationExecutor {
             groups_to_return: Vec::new(),
             output_schema: plan.get_output_schema().clone(),
             initialized: false,
+            init_error: None,
         }
     }
 
+    /// Adds one input tuple to the group it belongs to.
+    fn aggregate_tuple(&mut self, tuple: &Tuple) -> Result<(), DBError> {
+        let schema = self.child.get_output_schema();
+        let mut key_values = Vec::with_capacity(self.group_by_exprs.len());
+        for expr in &self.group_by_exprs {
+            key_values.push(expr.evaluate(tuple, schema)?);
+        }
+
+        Self::compute_aggregate(
+            &mut self.groups,
+            &mut self.avg_counts,
+            &self.aggregate_exprs,
+            GroupKey { values: key_values },
+            tuple,
+            schema,
+        )
+    }
+
+    /// Keeps an error met while consuming the input, to be returned by `next()`.
+    fn fail(&mut self, error: DBError) {
+        self.groups.clear();
+        self.init_error = Some(error);
+        self.initialized = true;
+    }
+
     /// Updates aggregate values for a group with a new input tuple.
     ///
     /// This is the core aggregation logic that processes each input tuple and
@@ -259,7 +287,7 @@ impl AggregationExecutor {
     /// # Returns
     ///
     /// * `Ok(())` - Aggregate was successfully updated.
-    /// * `Err(String)` - An error occurred (e.g., unsupported aggregate type).
+    /// * `Err(DBError)` - An error occurred (e.g., unsupported aggregate type).
     ///
     /// # Aggregate Update Logic
     ///
@@ -277,7 +305,7 @@ impl AggregationExecutor {
         key: GroupKey,
         tuple: &Tuple,
         schema: &Schema,
-    ) -> Result<(), String> {
+    ) -> Result<(), DBError> {
         debug!("Computing aggregate for key: {:?}", key);
         debug!("Number of aggregates: {}", aggregates.len());
 
@@ -297,7 +325,7 @@ impl AggregationExecutor {
                     debug!("Aggregate type: {:?}", agg.get_agg_type());
                     match agg.get_agg_type() {
                         AggregationType::Sum => {
-                            let arg_val = agg.get_arg().evaluate(tuple, schema).unwrap();
+                            let arg_val = agg.get_arg().evaluate(tuple, schema)?;
                             if !arg_val.is_null() {
                                 if agg_value.values[i].is_null() {
                                     agg_value.values[i] = arg_val;
@@ -310,7 +338,7 @@ impl AggregationExecutor {
                             // COUNT(expr) passes over NULLs, COUNT(*) counts every row
                             let counted = match (agg.get_agg_type(), agg.get_children().first()) {
                                 (AggregationType::Count, Some(arg)) => {
-                                    !arg.evaluate(tuple, schema).unwrap().is_null()
+                                    !arg.evaluate(tuple, schema)?.is_null()
                                 },
                                 _ => true,
                             };
@@ -322,7 +350,7 @@ impl AggregationExecutor {
                             };
                         },
                         AggregationType::Min => {
-                            let arg_val = agg.get_arg().evaluate(tuple, schema).unwrap();
+                            let arg_val = agg.get_arg().evaluate(tuple, schema)?;
                             if !arg_val.is_null() {
                                 if agg_value.values[i].is_null() {
                                     agg_value.values[i] = arg_val;
@@ -334,7 +362,7 @@ impl AggregationExecutor {
                             }
                         },
                         AggregationType::Max => {
-                            let arg_val = agg.get_arg().evaluate(tuple, schema).unwrap();
+                            let arg_val = agg.get_arg().evaluate(tuple, schema)?;
                             if !arg_val.is_null() {
                                 if agg_value.values[i].is_null() {
                                     agg_value.values[i] = arg_val;
@@ -346,7 +374,7 @@ impl AggregationExecutor {
                             }
                         },
                         AggregationType::Avg => {
-                            let arg_val = agg.get_arg().evaluate(tuple, schema).unwrap();
+                            let arg_val = agg.get_arg().evaluate(tuple, schema)?;
                             if !arg_val.is_null() {
                                 // Track count for this average
                                 let count_key = (key.clone(), i);
@@ -363,10 +391,10 @@ impl AggregationExecutor {
                             }
                         },
                         _ => {
-                            return Err(format!(
+                            return Err(DBError::Execution(format!(
                                 "Unsupported aggregate type: {:?}",
                                 agg.get_agg_type()
-                            ));
+                            )));
                         },
                     }
                 },
@@ -374,13 +402,13 @@ impl AggregationExecutor {
                     debug!("Column reference found in values");
                     // For group by columns, store the value only on first occurrence
                     if agg_value.values[i].is_null() {
-                        agg_value.values[i] = agg_expr.evaluate(tuple, schema).unwrap();
+                        agg_value.values[i] = agg_expr.evaluate(tuple, schema)?;
                     }
                 },
                 _ => {
                     debug!("Other expression type found in aggregates");
                     // For other expressions, evaluate each time
-                    agg_value.values[i] = agg_expr.evaluate(tuple, schema).unwrap();
+                    agg_value.values[i] = agg_expr.evaluate(tuple, schema)?;
                 },
             }
             debug!("Updated aggregate values: {:?}", agg_value.values);
@@ -423,33 +451,17 @@ impl AbstractExecutor for AggregationExecutor {
                 match self.child.next() {
                     Ok(Some((tuple, _))) => {
                         has_rows = true;
-                        // Get schema before computing key
-                        let schema = self.child.get_output_schema();
-                        let aggregates = self.aggregate_exprs.clone();
-
-                        // Compute group by key
-                        let mut key_values = Vec::new();
-                        for expr in &self.group_by_exprs {
-                            key_values.push(expr.evaluate(&tuple, schema).unwrap());
-                        }
-                        let key = GroupKey { values: key_values };
-
-                        // Update aggregates for this group
-                        if let Err(e) = Self::compute_aggregate(
-                            &mut self.groups,
-                            &mut self.avg_counts,
-                            &aggregates,
-                            key,
-                            &tuple,
-                            schema,
-                        ) {
+                        if let Err(e) = self.aggregate_tuple(&tuple) {
                             error!("Error computing aggregate: {}", e);
+                            self.fail(e);
+                            return;
                         }
                     },
                     Ok(None) => break,
                     Err(e) => {
                         debug!("Error from child executor: {}", e);
-                        return; // Initialize failed, but we don't propagate errors from init
+                        self.fail(e);
+                        return;
                     },
                 }
             }
@@ -533,6 +545,9 @@ impl AbstractExecutor for AggregationExecutor {
         if !self.initialized {
             self.init();
         }
+        if let Some(e) = self.init_error.take() {
+            return Err(e);
+        }
 
         // Take the next group from the Vec
         if let Some((key, mut value)) = self.groups_to_return.pop() {
diff --git a/src/sql/execution/executors/sort_executor.rs b/src/sql/execution/executors/sort_executor.rs
index e025abd..156b3ad 100644
--- a/src/sql/execution/executors/sort_executor.rs
+++ b/src/sql/execution/executors/sort_executor.rs
@@ -192,6 +192,9 @@ pub struct SortExecutor {
 
     /// Flag indicating whether initialization (and sorting) is complete.
     initialized: bool,
+
+    /// Error met during initialization, returned by the first `next()`.
+    init_error: Option<DBError>,
 }
 
 impl SortExecutor {
@@ -251,6 +254,7 @@ impl SortExecutor {
             sorted_tuples: Vec::new(),
             current_index: 0,
             initialized: false,
+            init_error: None,
         }
     }
 }
@@ -322,6 +326,8 @@ impl AbstractExecutor for SortExecutor {
                     },
                     Err(e) => {
                         error!("Error collecting tuples from child executor: {}", e);
+                        self.sorted_tuples.clear();
+                        self.init_error = Some(e);
                         break;
                     },
                 }
@@ -338,57 +344,45 @@ impl AbstractExecutor for SortExecutor {
                 order_by_specs.len()
             );
 
+            // Evaluate the order by expressions once per tuple
+            let mut keyed_tuples = Vec::with_capacity(self.sorted_tuples.len());
+            for (tuple, rid) in self.sorted_tuples.drain(..) {
+                let keys = order_by_specs
+                    .iter()
+                    .map(|spec| spec.get_expression().evaluate(&tuple, &schema))
+                    .collect::<Result<Vec<_>, _>>();
+                match keys {
+                    Ok(keys) => keyed_tuples.push((keys, tuple, rid)),
+                    Err(e) => {
+                        error!("Error evaluating order by expression: {}", e);
+                        self.init_error = Some(e.into());
+                        keyed_tuples.clear();
+                        break;
+                    },
+                }
+            }
+
             // Sort tuples using the order by specifications with ASC/DESC support
-            self.sorted_tuples.sort_by(|(tuple_a, _), (tuple_b, _)| {
-                // Compare each order by expression in sequence
-                for order_by_spec in &order_by_specs {
-                    let expression = order_by_spec.get_expression();
-                    let direction = order_by_spec.get_direction();
-
-                    // Evaluate expressions for both tuples
-                    let val_a_result = expression.evaluate(tuple_a, &schema);
-                    let val_b_result = expression.evaluate(tuple_b, &schema);
-
-                    // Handle evaluation results
-                    if let (Ok(val_a), Ok(val_b)) = (&val_a_result, &val_b_result) {
-                        // Compare values
-                        match val_a.partial_cmp(val_b) {
-                            Some(ordering) if !ordering.is_eq() => {
-                                // Apply direction: if DESC, reverse the ordering
-                                let final_ordering = match direction {
-                                    OrderDirection::Asc => ordering,
-                                    OrderDirection::Desc => ordering.reverse(),
-                                };
-                                trace!("Comparing values {:?} vs {:?}, order: {:?}, direction: {:?}, result: {:?}",
-                                       val_a, val_b, ordering, direction, final_ordering);
-                                return final_ordering;
-                            }
-                            None => {
-                                debug!("Cannot compare values: {:?} and {:?}", val_a, val_b);
-                                // Continue to next expression if values can't be compared
-                                continue;
-                            }
-                            _ => {
-                                // Values are equal, continue to next expression
-                                continue;
-                            }
-                        }
-                    } else {
-                        // Handle evaluation errors
-                        if let Err(e) = &val_a_result {
-                            error!("Error evaluating left expression: {}", e);
-                        }
-                        if let Err(e) = &val_b_result {
-                            error!("Error evaluating right expression: {}", e);
-                        }
-                        // Continue to next expression if there was an error
-                        continue;
+            keyed_tuples.sort_by(|(keys_a, ..), (keys_b, ..)| {
+                for (spec, (key_a, key_b)) in
+                    order_by_specs.iter().zip(keys_a.iter().zip(keys_b.iter()))
+                {
+                    match key_a.partial_cmp(key_b) {
+                        Some(ordering) if !ordering.is_eq() => {
+                            // Apply direction: if DESC, reverse the ordering
+                            return match spec.get_direction() {
+                                OrderDirection::Asc => ordering,
+                                OrderDirection::Desc => ordering.reverse(),
+                            };
+                        },
+                        // Equal keys: continue with the next expression
+                        _ => continue,
                     }
                 }
-
-                // If all expressions are equal or had errors, return equal
                 std::cmp::Ordering::Equal
             });
+            self.sorted_tuples =
+                keyed_tuples.into_iter().map(|(_, tuple, rid)| (tuple, rid)).collect();
 
             debug!("Sorting completed");
         }
@@ -434,6 +428,9 @@ impl AbstractExecutor for SortExecutor {
             debug!("SortExecutor not initialized, initializing now");
             self.init();
         }
+        if let Some(e) = self.init_error.take() {
+            return Err(e);
+        }
 
         if self.current_index >= self.sorted_tuples.len() {
             debug!("No more tuples to return");
diff --git a/src/sql/execution/executors/topn_executor.rs b/src/sql/execution/executors/topn_executor.rs
index 632906e..b0e695a 100644
--- a/src/sql/execution/executors/topn_executor.rs
+++ b/src/sql/execution/executors/topn_executor.rs
@@ -71,6 +71,8 @@ pub struct TopNExecutor {
     sorted_tuples: Vec<TupleWithKeys>,
     current_index: usize,
     initialized: bool,
+    // Error met while consuming the input, returned by the first next()
+    init_error: Option<DBError>,
 }
 
 impl TopNExecutor {
@@ -92,20 +94,21 @@ impl TopNExecutor {
             sorted_tuples: Vec::new(),
             current_index: 0,
             initialized: false,
+            init_error: None,
         }
     }
 
     /// Evaluates the sort keys for a tuple based on the order by expressions
-    fn evaluate_sort_keys(&self, tuple: &Tuple) -> Vec<Value> {
+    fn evaluate_sort_keys(&self, tuple: &Tuple) -> Result<Vec<Value>, DBError> {
         let schema = self.plan.get_output_schema();
         let keys = self
             .plan
             .get_sort_order_by()
             .iter()
-            .map(|expr| expr.evaluate(tuple, schema).unwrap())
-            .collect();
+            .map(|expr| expr.evaluate(tuple, schema))
+            .collect::<Result<Vec<_>, _>>()?;
         trace!("Evaluated sort keys for tuple: {:?}", keys);
-        keys
+        Ok(keys)
     }
 }
 
@@ -128,7 +131,14 @@ impl AbstractExecutor for TopNExecutor {
         loop {
             match self.child.next() {
                 Ok(Some((tuple, rid))) => {
-                    let sort_keys = self.evaluate_sort_keys(&tuple);
+                    let sort_keys = match self.evaluate_sort_keys(&tuple) {
+                        Ok(keys) => keys,
+                        Err(e) => {
+                            self.init_error = Some(e);
+                            heap.clear();
+                            break;
+                        },
+                    };
                     debug!("Processing tuple with sort keys: {:?}", sort_keys);
 
                     let tuple_with_keys = TupleWithKeys {
@@ -157,6 +167,8 @@ impl AbstractExecutor for TopNExecutor {
                 },
                 Err(e) => {
                     debug!("Error processing child tuple: {}", e);
+                    self.init_error = Some(e);
+                    heap.clear();
                     break;
                 },
             }
@@ -178,6 +190,9 @@ impl AbstractExecutor for TopNExecutor {
         if !self.initialized {
             self.init();
         }
+        if let Some(e) = self.init_error.take() {
+            return Err(e);
+        }
 
         if self.current_index < self.sorted_tuples.len() {
             let result = &self.sorted_tuples[self.current_index];
diff --git a/src/sql/execution/executors/topn_per_group_executor.rs b/src/sql/execution/executors/topn_per_group_executor.rs
index 9a47062..ea73308 100644
--- a/src/sql/execution/executors/topn_per_group_executor.rs
+++ b/src/sql/execution/executors/topn_per_group_executor.rs
@@ -76,6 +76,8 @@ pub struct TopNPerGroupExecutor {
     current_group_tuples: Vec<TupleWithKeys>,
     current_tuple_index: usize,
     initialized: bool,
+    // Error met while consuming the input, returned by the first next()
+    init_error: Option<DBError>,
 }
 
 impl TopNPerGroupExecutor {
@@ -98,33 +100,34 @@ impl TopNPerGroupExecutor {
             current_group_tuples: Vec::new(),
             current_tuple_index: 0,
             initialized: false,
+            init_error: None,
         }
     }
 
     /// Evaluates the sort keys for a tuple
-    fn evaluate_sort_keys(&self, tuple: &Tuple) -> Vec<Value> {
+    fn evaluate_sort_keys(&self, tuple: &Tuple) -> Result<Vec<Value>, DBError> {
         let schema = self.plan.get_output_schema();
         let keys: Vec<Value> = self
             .plan
             .get_sort_expressions()
             .iter()
-            .map(|expr| expr.evaluate(tuple, schema).unwrap())
-            .collect();
+            .map(|expr| expr.evaluate(tuple, schema))
+            .collect::<Result<_, _>>()?;
         trace!("Evaluated sort keys for tuple: {:?}", keys);
-        keys
+        Ok(keys)
     }
 
     /// Evaluates the group keys for a tuple
-    fn evaluate_group_keys(&self, tuple: &Tuple) -> Vec<Value> {
+    fn evaluate_group_keys(&self, tuple: &Tuple) -> Result<Vec<Value>, DBError> {
         let schema = self.plan.get_output_schema();
         let keys: Vec<Value> = self
             .plan
             .get_group_expressions()
             .iter()
-            .map(|expr| expr.evaluate(tuple, schema).unwrap())
-            .collect();
+            .map(|expr| expr.evaluate(tuple, schema))
+            .collect::<Result<_, _>>()?;
         trace!("Evaluated group keys for tuple: {:?}", keys);
-        keys
+        Ok(keys)
     }
 
     /// Compare two group keys using the Value comparison methods
@@ -163,8 +166,16 @@ impl AbstractExecutor for TopNPerGroupExecutor {
         loop {
             match self.child.next() {
                 Ok(Some((tuple, rid))) => {
-                    let sort_keys = self.evaluate_sort_keys(&tuple);
-                    let group_keys = self.evaluate_group_keys(&tuple);
+                    let keys = self
+                        .evaluate_sort_keys(&tuple)
+                        .and_then(|sort| Ok((sort, self.evaluate_group_keys(&tuple)?)));
+                    let (sort_keys, group_keys) = match keys {
+                        Ok(keys) => keys,
+                        Err(e) => {
+                            self.init_error = Some(e);
+                            break;
+                        },
+                    };
 
                     debug!(
                         "Processing tuple with sort keys: {:?}, group keys: {:?}",
@@ -201,11 +212,16 @@ impl AbstractExecutor for TopNPerGroupExecutor {
                 Ok(None) => break,
                 Err(e) => {
                     debug!("Error from child executor: {}", e);
-                    return; // Initialize failed, but we don't propagate errors from init
+                    self.init_error = Some(e);
+                    break;
                 },
             }
         }
 
+        if self.init_error.is_some() {
+            self.groups.clear();
+        }
+
         // Sort group keys for deterministic iteration order
         self.group_keys = self.groups.keys().cloned().collect();
         self.group_keys
@@ -222,6 +238,9 @@ impl AbstractExecutor for TopNPerGroupExecutor {
         if !self.initialized {
             self.init();
         }
+        if let Some(e) = self.init_error.take() {
+            return Err(e);
+        }
 
         loop {
             // If we have tuples from the current group, return them
diff --git a/src/sql/execution/executors/window_executor.rs b/src/sql/execution/executors/window_executor.rs
index 2e4659a..867e665 100644
--- a/src/sql/execution/executors/window_executor.rs
+++ b/src/sql/execution/executors/window_executor.rs
@@ -77,6 +77,8 @@ pub struct WindowExecutor {
     partition_index: usize,
     tuple_index: usize,
     initialized: bool,
+    // Error met while consuming the input, returned by the first next()
+    init_error: Option<DBError>,
 }
 
 impl WindowExecutor {
@@ -95,24 +97,25 @@ impl WindowExecutor {
             partition_index: 0,
             tuple_index: 0,
             initialized: false,
+            init_error: None,
         }
     }
 
-    fn evaluate_sort_keys(&self, tuple: &Tuple) -> Vec<Value> {
+    fn evaluate_sort_keys(&self, tuple: &Tuple) -> Result<Vec<Value>, DBError> {
         let schema = self.child_executor.get_output_schema();
         let window_fn = &self.plan.get_window_functions()[0];
 
         window_fn
             .get_order_by()
             .iter()
-            .map(|expr| expr.evaluate(tuple, schema).unwrap())
+            .map(|expr| Ok(expr.evaluate(tuple, schema)?))
             .collect()
     }
 
-    fn evaluate_partition_keys(&self, tuple: &Tuple) -> Vec<Value> {
+    fn evaluate_partition_keys(&self, tuple: &Tuple) -> Result<Vec<Value>, DBError> {
         let window_fns = self.plan.get_window_functions();
         if window_fns.is_empty() {
-            return vec![];
+            return Ok(vec![]);
         }
 
         let partition_exprs = window_fns[0].get_partition_by();
@@ -120,7 +123,7 @@ impl WindowExecutor {
 
         partition_exprs
             .iter()
-            .map(|expr| expr.evaluate(tuple, schema).unwrap())
+            .map(|expr| Ok(expr.evaluate(tuple, schema)?))
             .collect()
     }
 }
@@ -135,14 +138,25 @@ impl AbstractExecutor for WindowExecutor {
             loop {
                 match self.child_executor.next() {
                     Ok(Some((tuple, rid))) => {
-                        let partition_keys = self.evaluate_partition_keys(&tuple);
-                        let sort_keys = self.evaluate_sort_keys(&tuple);
+                        let keys = self
+                            .evaluate_partition_keys(&tuple)
+                            .and_then(|parts| Ok((parts, self.evaluate_sort_keys(&tuple)?)));
+                        let (partition_keys, sort_keys) = match keys {
+                            Ok(keys) => keys,
+                            Err(e) => {
+                                self.init_error = Some(e);
+                                all_tuples.clear();
+                                break;
+                            },
+                        };
                         all_tuples.push((partition_keys, sort_keys, tuple, rid));
                     },
                     Ok(None) => break,
                     Err(e) => {
                         debug!("Error from child executor: {}", e);
-                        return; // Initialize failed, but we don't propagate errors from init
+                        self.init_error = Some(e);
+                        all_tuples.clear();
+                        break;
                     },
                 }
             }
@@ -203,6 +217,9 @@ impl AbstractExecutor for WindowExecutor {
         if !self.initialized {
             self.init();
         }
+        if let Some(e) = self.init_error.take() {
+            return Err(e);
+        }
 
         // Check if we have more partitions to process
         if self.partition_index >= self.current_partition_keys.len() {
-- 
2.43.0


From 5fec4af17b10c792df2fd5512b88b9574abc3be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:43 +0000
Subject: [PATCH 065/120] fix: sorting keys with NULLs is a total order, a NULL
 was equal to everything

---
 .../executors/aggregation_executor.rs         | 15 +------
 src/sql/execution/executors/topn_executor.rs  | 42 +++++++++---------
 .../executors/topn_per_group_executor.rs      | 43 +++----------------
 .../execution/executors/window_executor.rs    | 38 ++--------------
 4 files changed, 33 insertions(+), 105 deletions(-)

diff --git a/src/sql/execution/executors/aggregation_executor.rs b/src/sql/execution/executors/aggregation_executor.rs
index 275912f..ed9ae0c 100644
--- a/src/sql/execution/executors/aggregation_executor.rs
+++ b/src/sql/execution/executors/aggregation_executor.rs
@@ -62,6 +62,7 @@ use crate::common::exception::DBError;
 use crate::common::rid::RID;
 use crate::sql::execution::execution_context::ExecutionContext;
 use crate::sql::execution::executors::abstract_executor::AbstractExecutor;
+use crate::sql::execution::executors::topn_executor::compare_keys;
 use crate::sql::execution::expressions::abstract_expression::{Expression, ExpressionOps};
 use crate::sql::execution::expressions::aggregate_expression::AggregationType;
 use crate::sql::execution::plans::aggregation_plan::AggregationPlanNode;
@@ -499,19 +500,7 @@ impl AbstractExecutor for AggregationExecutor {
             // Store all groups in the Vec for iteration and sort them by group key
             self.groups_to_return = self.groups.drain().collect();
             self.groups_to_return.sort_by(|(key1, _), (key2, _)| {
-                // Compare each value in the group key
-                for (v1, v2) in key1.values.iter().zip(key2.values.iter()) {
-                    match v1.compare_less_than(v2) {
-                        CmpBool::CmpTrue => return std::cmp::Ordering::Less,
-                        CmpBool::CmpFalse => {
-                            if let CmpBool::CmpTrue = v2.compare_less_than(v1) {
-                                return std::cmp::Ordering::Greater;
-                            }
-                        },
-                        CmpBool::CmpNull => continue,
-                    }
-                }
-                std::cmp::Ordering::Equal
+                compare_keys(&key1.values, &key2.values)
             });
             self.initialized = true;
         }
diff --git a/src/sql/execution/executors/topn_executor.rs b/src/sql/execution/executors/topn_executor.rs
index b0e695a..145fc4a 100644
--- a/src/sql/execution/executors/topn_executor.rs
+++ b/src/sql/execution/executors/topn_executor.rs
@@ -17,6 +17,25 @@ use crate::storage::table::tuple::Tuple;
 use crate::types_db::types::{CmpBool, Type};
 use crate::types_db::value::Value;
 
+/// Compares two lists of keys one after the other, like ORDER BY: NULLs come first, so that the
+/// order is total.
+pub(crate) fn compare_keys(left: &[Value], right: &[Value]) -> Ordering {
+    for (a, b) in left.iter().zip(right.iter()) {
+        let ordering = match (a.is_null(), b.is_null()) {
+            (true, true) => Ordering::Equal,
+            (true, false) => Ordering::Less,
+            (false, true) => Ordering::Greater,
+            (false, false) if a.compare_less_than(b) == CmpBool::CmpTrue => Ordering::Less,
+            (false, false) if a.compare_greater_than(b) == CmpBool::CmpTrue => Ordering::Greater,
+            (false, false) => Ordering::Equal,
+        };
+        if ordering != Ordering::Equal {
+            return ordering;
+        }
+    }
+    Ordering::Equal
+}
+
 /// Wrapper type for tuple and sort keys to implement custom ordering
 #[derive(Eq)]
 struct TupleWithKeys {
@@ -27,12 +46,7 @@ struct TupleWithKeys {
 
 impl PartialEq for TupleWithKeys {
     fn eq(&self, other: &Self) -> bool {
-        self.sort_keys.len() == other.sort_keys.len()
-            && self
-                .sort_keys
-                .iter()
-                .zip(other.sort_keys.iter())
-                .all(|(a, b)| a.compare_equals(b) == CmpBool::CmpTrue)
+        self.cmp(other) == Ordering::Equal
     }
 }
 
@@ -44,21 +58,7 @@ impl PartialOrd for TupleWithKeys {
 
 impl Ord for TupleWithKeys {
     fn cmp(&self, other: &Self) -> Ordering {
-        // Compare sort keys in ascending order for min-heap
-        for (a, b) in self.sort_keys.iter().zip(other.sort_keys.iter()) {
-            match a.compare_less_than(b) {
-                CmpBool::CmpTrue => return Ordering::Less,
-                CmpBool::CmpFalse => {
-                    match a.compare_greater_than(b) {
-                        CmpBool::CmpTrue => return Ordering::Greater,
-                        CmpBool::CmpFalse => continue, // Equal, check next key
-                        CmpBool::CmpNull => return Ordering::Equal, // Treat NULL as equal
-                    }
-                },
-                CmpBool::CmpNull => return Ordering::Equal, // Treat NULL as equal
-            }
-        }
-        Ordering::Equal
+        compare_keys(&self.sort_keys, &other.sort_keys)
     }
 }
 
diff --git a/src/sql/execution/executors/topn_per_group_executor.rs b/src/sql/execution/executors/topn_per_group_executor.rs
index ea73308..912e926 100644
--- a/src/sql/execution/executors/topn_per_group_executor.rs
+++ b/src/sql/execution/executors/topn_per_group_executor.rs
@@ -10,11 +10,13 @@ use crate::common::exception::DBError;
 use crate::common::rid::RID;
 use crate::sql::execution::execution_context::ExecutionContext;
 use crate::sql::execution::executors::abstract_executor::AbstractExecutor;
+use crate::sql::execution::executors::topn_executor::compare_keys;
 use crate::sql::execution::expressions::abstract_expression::ExpressionOps;
 use crate::sql::execution::plans::abstract_plan::AbstractPlanNode;
 use crate::sql::execution::plans::topn_per_group_plan::TopNPerGroupNode;
 use crate::storage::table::tuple::Tuple;
-use crate::types_db::types::{CmpBool, Type};
+#[cfg(test)]
+use crate::types_db::types::Type;
 use crate::types_db::value::Value;
 
 /// Wrapper type for tuple and sort keys to implement custom ordering
@@ -27,12 +29,7 @@ struct TupleWithKeys {
 
 impl PartialEq for TupleWithKeys {
     fn eq(&self, other: &Self) -> bool {
-        self.sort_keys.len() == other.sort_keys.len()
-            && self
-                .sort_keys
-                .iter()
-                .zip(other.sort_keys.iter())
-                .all(|(a, b)| a.compare_not_equals(b) == CmpBool::CmpTrue)
+        self.cmp(other) == Ordering::Equal
     }
 }
 
@@ -44,21 +41,7 @@ impl PartialOrd for TupleWithKeys {
 
 impl Ord for TupleWithKeys {
     fn cmp(&self, other: &Self) -> Ordering {
-        // Compare sort keys in ascending order for min-heap
-        for (a, b) in self.sort_keys.iter().zip(other.sort_keys.iter()) {
-            match a.compare_less_than(b) {
-                CmpBool::CmpTrue => return Ordering::Less,
-                CmpBool::CmpFalse => {
-                    match a.compare_greater_than(b) {
-                        CmpBool::CmpTrue => return Ordering::Greater,
-                        CmpBool::CmpFalse => continue, // Equal, check next key
-                        CmpBool::CmpNull => return Ordering::Equal, // Treat NULL as equal
-                    }
-                },
-                CmpBool::CmpNull => return Ordering::Equal, // Treat NULL as equal
-            }
-        }
-        Ordering::Equal
+        compare_keys(&self.sort_keys, &other.sort_keys)
     }
 }
 
@@ -132,21 +115,7 @@ impl TopNPerGroupExecutor {
 
     /// Compare two group keys using the Value comparison methods
     fn compare_group_keys(a: &[Value], b: &[Value]) -> Ordering {
-        for (a_val, b_val) in a.iter().zip(b.iter()) {
-            match a_val.compare_less_than(b_val) {
-                CmpBool::CmpTrue => return Ordering::Less,
-                CmpBool::CmpFalse => {
-                    match a_val.compare_greater_than(b_val) {
-                        CmpBool::CmpTrue => return Ordering::Greater,
-                        CmpBool::CmpFalse => continue, // Equal, check next key
-                        CmpBool::CmpNull => return Ordering::Equal, // Treat NULL as equal
-                    }
-                },
-                CmpBool::CmpNull => return Ordering::Equal, // Treat NULL as equal
-            }
-        }
-        // If all values are equal or we run out of values, compare lengths
-        a.len().cmp(&b.len())
+        compare_keys(a, b).then_with(|| a.len().cmp(&b.len()))
     }
 }
 
diff --git a/src/sql/execution/executors/window_executor.rs b/src/sql/execution/executors/window_executor.rs
index 867e665..6de48ac 100644
--- a/src/sql/execution/executors/window_executor.rs
+++ b/src/sql/execution/executors/window_executor.rs
@@ -10,11 +10,11 @@ use crate::common::exception::DBError;
 use crate::common::rid::RID;
 use crate::sql::execution::execution_context::ExecutionContext;
 use crate::sql::execution::executors::abstract_executor::AbstractExecutor;
+use crate::sql::execution::executors::topn_executor::compare_keys;
 use crate::sql::execution::expressions::abstract_expression::ExpressionOps;
 use crate::sql::execution::plans::abstract_plan::AbstractPlanNode;
 use crate::sql::execution::plans::window_plan::{WindowFunctionType, WindowNode};
 use crate::storage::table::tuple::Tuple;
-use crate::types_db::types::{CmpBool, Type};
 use crate::types_db::value::Value;
 
 // Type aliases for complex types
@@ -31,12 +31,7 @@ struct TupleWithKeys {
 
 impl PartialEq for TupleWithKeys {
     fn eq(&self, other: &Self) -> bool {
-        self.sort_keys.len() == other.sort_keys.len()
-            && self
-                .sort_keys
-                .iter()
-                .zip(other.sort_keys.iter())
-                .all(|(a, b)| a.compare_equals(b) == CmpBool::CmpTrue)
+        self.cmp(other) == Ordering::Equal
     }
 }
 
@@ -48,21 +43,7 @@ impl PartialOrd for TupleWithKeys {
 
 impl Ord for TupleWithKeys {
     fn cmp(&self, other: &Self) -> Ordering {
-        // Compare sort keys in ascending order
-        for (a, b) in self.sort_keys.iter().zip(other.sort_keys.iter()) {
-            match a.compare_less_than(b) {
-                CmpBool::CmpTrue => return Ordering::Less,
-                CmpBool::CmpFalse => {
-                    match a.compare_greater_than(b) {
-                        CmpBool::CmpTrue => return Ordering::Greater,
-                        CmpBool::CmpFalse => continue, // Equal, check next key
-                        CmpBool::CmpNull => return Ordering::Equal,
-                    }
-                },
-                CmpBool::CmpNull => return Ordering::Equal,
-            }
-        }
-        Ordering::Equal
+        compare_keys(&self.sort_keys, &other.sort_keys)
     }
 }
 
@@ -173,18 +154,7 @@ impl AbstractExecutor for WindowExecutor {
             // Sort partition keys for deterministic order
             self.current_partition_keys = partitions_map.keys().cloned().collect();
             self.current_partition_keys.sort_by(|a, b| {
-                for (a_val, b_val) in a.iter().zip(b.iter()) {
-                    match a_val.compare_less_than(b_val) {
-                        CmpBool::CmpTrue => return Ordering::Less,
-                        CmpBool::CmpFalse => match a_val.compare_greater_than(b_val) {
-                            CmpBool::CmpTrue => return Ordering::Greater,
-                            CmpBool::CmpFalse => continue,
-                            CmpBool::CmpNull => return Ordering::Equal,
-                        },
-                        CmpBool::CmpNull => return Ordering::Equal,
-                    }
-                }
-                a.len().cmp(&b.len())
+                compare_keys(a, b).then_with(|| a.len().cmp(&b.len()))
             });
 
             // Sort each partition using binary heap
-- 
2.43.0


From 6b375a55f2474d7428c97cc0904ccc37f35340d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:46 +0000
Subject: [PATCH 066/120] fix: top N rows come out in order, they came out in
 the order of the heap

---
 src/sql/execution/executors/topn_executor.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/sql/execution/executors/topn_executor.rs b/src/sql/execution/executors/topn_executor.rs
index 145fc4a..99b23a3 100644
--- a/src/sql/execution/executors/topn_executor.rs
+++ b/src/sql/execution/executors/topn_executor.rs
@@ -174,10 +174,8 @@ impl AbstractExecutor for TopNExecutor {
             }
         }
 
-        // Convert heap to sorted vector (will be in ascending order)
-        self.sorted_tuples = heap.into_iter().map(|Reverse(t)| t).collect();
-        // Reverse to get descending order
-        self.sorted_tuples.reverse();
+        // Convert heap to a vector in descending order (ascending order of the reversed tuples)
+        self.sorted_tuples = heap.into_sorted_vec().into_iter().map(|Reverse(t)| t).collect();
 
         debug!(
             "TopNExecutor initialization complete. Number of tuples: {}",
-- 
2.43.0


From dfbf23011aa612e10eab153065d6b102dd4d2c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:17 +0000
Subject: [PATCH 067/120] fix: DISTINCT tells rows apart whose values or NULLs
 are in different columns

---
 src/sql/execution/executors/distinct_executor.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/sql/execution/executors/distinct_executor.rs b/src/sql/execution/executors/distinct_executor.rs
index 055f6f0..5ca383c 100644
--- a/src/sql/execution/executors/distinct_executor.rs
+++ b/src/sql/execution/executors/distinct_executor.rs
@@ -146,18 +146,23 @@ impl DistinctExecutor {
     ///
     /// # Serialization Format
     ///
-    /// Each value is serialized according to its type:
+    /// Each value but NULL is serialized as one byte for its type, followed by:
     /// - **INTEGER**: 4 bytes, little-endian
     /// - **BIGINT**: 8 bytes, little-endian
     /// - **VARCHAR**: 4-byte length prefix + UTF-8 bytes
     /// - **BOOLEAN**: 1 byte (0 = false, 1 = true)
-    /// - **DECIMAL**: 8 bytes, little-endian (f64 representation)
+    /// - **DECIMAL**, **FLOAT**: 8 or 4 bytes, little-endian
     /// - **NULL**: 1 byte marker (0xFF)
     /// - **Other**: Debug string with length prefix (fallback)
     fn serialize_tuple(&self, tuple: &Tuple) -> Vec<u8> {
         let mut bytes = Vec::new();
 
         for value in tuple.get_values() {
+            // The type comes first, so that values of other types or NULLs cannot look the same
+            if !value.is_null() {
+                bytes.push(value.get_type_id() as u8);
+            }
+
             // Serialize each value to bytes for comparison
             match value.get_val() {
                 Val::Integer(i) => bytes.extend_from_slice(&i.to_le_bytes()),
@@ -167,7 +172,9 @@ impl DistinctExecutor {
                     bytes.extend_from_slice(s.as_bytes());
                 },
                 Val::Boolean(b) => bytes.push(if *b { 1 } else { 0 }),
-                Val::Decimal(d) => bytes.extend_from_slice(&d.to_le_bytes()),
+                // Adding zero makes a zero of -0.0
+                Val::Decimal(d) => bytes.extend_from_slice(&(*d + 0.0).to_le_bytes()),
+                Val::Float(f) => bytes.extend_from_slice(&(*f + 0.0).to_le_bytes()),
                 Val::Null => bytes.push(0xFF), // Special marker for NULL
                 _ => {
                     // For other types, convert to string and serialize
-- 
2.43.0


From 52daeca4fcde2d05f3c601bfe9369cea7b90983e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:59 +0000
Subject: [PATCH 068/120] fix: RIGHT and FULL joins keep every right row,
 duplicates and rows without any left row were lost

---
 .../executors/nested_loop_join_executor.rs    | 40 +++++++++++--------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/src/sql/execution/executors/nested_loop_join_executor.rs b/src/sql/execution/executors/nested_loop_join_executor.rs
index dfee6f2..5e9581b 100644
--- a/src/sql/execution/executors/nested_loop_join_executor.rs
+++ b/src/sql/execution/executors/nested_loop_join_executor.rs
@@ -180,6 +180,9 @@ pub struct JoinState {
     /// Whether right executor is exhausted for current left tuple
     pub right_executor_exhausted: bool,
 
+    /// Number of right tuples read for the current left tuple
+    pub right_scan_position: usize,
+
     /// Unmatched right tuples (for right/full outer joins)
     pub unmatched_right_tuples: Vec<(Arc<Tuple>, RID)>,
     pub unmatched_right_index: usize,
@@ -210,6 +213,7 @@ impl JoinState {
             current_left_matched: false,
             left_executor_exhausted: false,
             right_executor_exhausted: false,
+            right_scan_position: 0,
             unmatched_right_tuples: Vec::new(),
             unmatched_right_index: 0,
             unmatched_left_tuples: Vec::new(),
@@ -224,6 +228,7 @@ impl JoinState {
         self.current_left_tuple = Some(left_tuple);
         self.current_left_matched = false;
         self.right_executor_exhausted = false;
+        self.right_scan_position = 0;
     }
 
     /// Mark current left tuple as matched
@@ -1088,6 +1093,9 @@ impl NestedLoopJoinExecutor {
                 if !self.join_state.right_executor_exhausted {
                     match self.executor_manager.get_next_right_tuple()? {
                         Some((right_tuple, right_rid)) => {
+                            let right_index = self.join_state.right_scan_position;
+                            self.join_state.right_scan_position += 1;
+
                             // For right and full outer joins, track all right tuples
                             if matches!(
                                 self.join_handler.join_type,
@@ -1095,14 +1103,10 @@ impl NestedLoopJoinExecutor {
                                     | JoinType::RightOuter(_)
                                     | JoinType::FullOuter(_)
                             ) {
-                                // Check if this right tuple is already in our collection
-                                let tuple_exists = self
-                                    .join_state
-                                    .all_right_tuples
-                                    .iter()
-                                    .any(|(t, _)| t.get_values() == right_tuple.get_values());
-
-                                if !tuple_exists {
+                                // The right side is scanned again for every left tuple: its
+                                // tuples are told apart by their position in the scan, for
+                                // there may be several with the same values
+                                if right_index == self.join_state.all_right_tuples.len() {
                                     self.join_state
                                         .add_right_tuple((right_tuple.clone(), right_rid));
                                 }
@@ -1120,14 +1124,7 @@ impl NestedLoopJoinExecutor {
                                         | JoinType::RightOuter(_)
                                         | JoinType::FullOuter(_)
                                 ) {
-                                    // Find the index of this right tuple
-                                    if let Some(index) =
-                                        self.join_state.all_right_tuples.iter().position(
-                                            |(t, _)| t.get_values() == right_tuple.get_values(),
-                                        )
-                                    {
-                                        self.join_state.mark_right_tuple_matched(index);
-                                    }
+                                    self.join_state.mark_right_tuple_matched(right_index);
                                 }
                                 return Ok(Some(result));
                             }
@@ -1169,6 +1166,17 @@ impl NestedLoopJoinExecutor {
                     }
                 }
             } else if self.join_state.left_executor_exhausted {
+                // Without left tuples the right side was not scanned yet
+                if matches!(
+                    self.join_handler.join_type,
+                    JoinType::Right(_) | JoinType::RightOuter(_) | JoinType::FullOuter(_)
+                ) && self.join_state.all_right_tuples.is_empty()
+                {
+                    while let Some(right) = self.executor_manager.get_next_right_tuple()? {
+                        self.join_state.add_right_tuple(right);
+                    }
+                }
+
                 // Move to next phase
                 self.join_state.advance_phase(&self.join_handler.join_type);
                 return Ok(None);
-- 
2.43.0


From c4a4c4af7bce9ced65161164cdf68464c95a0755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:12 +0000
Subject: [PATCH 069/120] fix: a hash join returns all matches of a row, and
 none for NULL keys, it returned one at most

---
 .../execution/executors/hash_join_executor.rs | 207 +++++++-----------
 1 file changed, 74 insertions(+), 133 deletions(-)

diff --git a/src/sql/execution/executors/hash_join_executor.rs b/src/sql/execution/executors/hash_join_executor.rs
index c391f69..2349966 100644
--- a/src/sql/execution/executors/hash_join_executor.rs
+++ b/src/sql/execution/executors/hash_join_executor.rs
@@ -20,13 +20,13 @@
 //! │                                                             │
 //! │  BUILD PHASE (right child):                                 │
 //! │  ┌─────────────┐    ┌─────────────────────────────────┐    │
-//! │  │ Right Tuple │───▶│ Hash(key) → DiskExtendableHash  │    │
-//! │  │ (id=1, 25)  │    │ table[hash] = RID               │    │
+//! │  │ Right Tuple │───▶│ Hash(key) → in-memory hash      │    │
+//! │  │ (id=1, 25)  │    │ table[key] += tuple             │    │
 //! │  └─────────────┘    └─────────────────────────────────┘    │
 //! │                                                             │
 //! │  PROBE PHASE (left child):                                  │
 //! │  ┌─────────────┐    ┌─────────────┐    ┌─────────────┐     │
-//! │  │ Left Tuple  │───▶│ Hash(key)   │───▶│ Lookup RID  │     │
+//! │  │ Left Tuple  │───▶│ Hash(key)   │───▶│ All matches │     │
 //! │  │ (id=1,Alice)│    │ → bucket    │    │ → Match!    │     │
 //! │  └─────────────┘    └─────────────┘    └─────────────┘     │
 //! │                              │                              │
@@ -46,9 +46,9 @@
 //!
 //! ## Storage
 //!
-//! Uses `DiskExtendableHashTable` for the build phase, which supports
-//! spilling to disk for large datasets that exceed memory.
+//! The build side is kept in memory.
 
+use std::collections::HashMap;
 use std::sync::Arc;
 
 use log::debug;
@@ -57,20 +57,19 @@ use parking_lot::RwLock;
 use crate::catalog::schema::Schema;
 use crate::common::exception::DBError;
 use crate::common::rid::RID;
-use crate::container::disk_extendable_hash_table::DiskExtendableHashTable;
-use crate::container::hash_function::HashFunction;
 use crate::sql::execution::execution_context::ExecutionContext;
 use crate::sql::execution::executors::abstract_executor::AbstractExecutor;
-use crate::sql::execution::expressions::abstract_expression::ExpressionOps;
+use crate::sql::execution::expressions::abstract_expression::{Expression, ExpressionOps};
 use crate::sql::execution::plans::abstract_plan::AbstractPlanNode;
 use crate::sql::execution::plans::hash_join_plan::HashJoinNode;
 use crate::storage::table::tuple::Tuple;
+use crate::types_db::value::Value;
 
 /// Executor for hash-based equi-join operations.
 ///
 /// `HashJoinExecutor` implements a classic hash join algorithm with a
 /// build phase (right child) and probe phase (left child). It uses a
-/// disk-backed extendable hash table for the build side.
+/// hash table of the build side's tuples.
 ///
 /// # Join Types
 ///
@@ -80,7 +79,7 @@ use crate::storage::table::tuple::Tuple;
 /// # Algorithm
 ///
 /// 1. **Build Phase**: Consume all tuples from right child, hash the
-///    join key, and insert (key → RID) into the hash table.
+///    join key, and insert (key → tuple) into the hash table.
 ///
 /// 2. **Probe Phase**: For each left tuple, hash the join key, probe
 ///    the hash table, and emit combined tuples for matches.
@@ -99,9 +98,7 @@ use crate::storage::table::tuple::Tuple;
 ///
 /// # Memory Management
 ///
-/// Right-side tuples are stored in memory (`right_tuples` vector) for
-/// retrieval during the probe phase. The hash table itself may spill
-/// to disk via the buffer pool.
+/// Right-side tuples are stored in memory, under their join keys, for the probe phase.
 pub struct HashJoinExecutor {
     /// Shared execution context for buffer pool access.
     context: Arc<RwLock<ExecutionContext>>,
@@ -111,12 +108,14 @@ pub struct HashJoinExecutor {
     left_child: Box<dyn AbstractExecutor>,
     /// Right child executor (build side).
     right_child: Box<dyn AbstractExecutor>,
-    /// Disk-backed hash table built from right child.
-    hash_table: Option<DiskExtendableHashTable>,
-    /// Stored right tuples for lookup during probe phase.
-    right_tuples: Vec<(RID, Arc<Tuple>)>,
-    /// Current left tuple being probed (None if need next).
-    current_left_tuple: Option<(Arc<Tuple>, RID)>,
+    /// Right tuples by their join keys.
+    hash_table: HashMap<Vec<Value>, Vec<Arc<Tuple>>>,
+    /// Current left tuple being probed, with its join keys (None if need next).
+    current_left_tuple: Option<(Arc<Tuple>, RID, Vec<Value>)>,
+    /// Position of the next match of the current left tuple.
+    next_match: usize,
+    /// Error met during the build phase, returned by the first `next()`.
+    init_error: Option<DBError>,
     /// Flag indicating whether initialization is complete.
     initialized: bool,
 }
@@ -148,85 +147,48 @@ impl HashJoinExecutor {
             plan,
             left_child,
             right_child,
-            hash_table: None,
-            right_tuples: Vec::new(),
+            hash_table: HashMap::new(),
             current_left_tuple: None,
+            next_match: 0,
+            init_error: None,
             initialized: false,
         }
     }
 
+    /// Evaluates join keys, `None` if one of them is NULL and so matches nothing.
+    fn evaluate_keys(
+        expressions: &[Arc<Expression>],
+        tuple: &Tuple,
+        schema: &Schema,
+    ) -> Result<Option<Vec<Value>>, DBError> {
+        let keys = expressions
+            .iter()
+            .map(|expr| expr.evaluate(tuple, schema))
+            .collect::<Result<Vec<_>, _>>()?;
+        Ok((!keys.iter().any(Value::is_null)).then_some(keys))
+    }
+
     /// Builds the hash table from the right child (build phase).
     ///
     /// Consumes all tuples from the right child executor, evaluates the
-    /// join key expression on each, and inserts (key → RID) into the
-    /// disk-backed hash table.
-    ///
-    /// # Returns
-    ///
-    /// * `true` - Hash table built successfully
-    /// * `false` - Build failed (hash table creation, key evaluation, or insert error)
-    ///
-    /// # Hash Table Configuration
-    ///
-    /// Creates a `DiskExtendableHashTable` with:
-    /// - Bucket size: 4 entries
-    /// - Initial depth: 4
-    /// - Max buckets: 100
-    ///
-    /// # Side Effects
-    ///
-    /// - Populates `self.hash_table` with the built hash table
-    /// - Populates `self.right_tuples` with (RID, Tuple) pairs for lookup
-    fn build_hash_table(&mut self) -> bool {
+    /// join key expressions on each, and files the tuple under its keys.
+    fn build_hash_table(&mut self) -> Result<(), DBError> {
         debug!("Building hash table from right child");
 
-        let hash_table = match DiskExtendableHashTable::new(
-            "hash_join_table".to_string(),
-            self.get_executor_context().read().get_buffer_pool_manager(),
-            HashFunction::new(),
-            4,
-            4,
-            100,
-        ) {
-            Ok(ht) => ht,
-            Err(_) => return false,
-        };
-
-        self.hash_table = Some(hash_table);
-
         self.right_child.init();
 
-        loop {
-            match self.right_child.next() {
-                Ok(Some((tuple, rid))) => {
-                    let key = match self.plan.get_right_key_expressions()[0]
-                        .evaluate(&tuple, self.plan.get_right_schema())
-                    {
-                        Ok(value) => value,
-                        Err(_) => {
-                            debug!("Failed to evaluate right key expression");
-                            return false;
-                        },
-                    };
-
-                    if let Some(ref mut ht) = self.hash_table
-                        && !ht.insert(key, rid)
-                    {
-                        debug!("Failed to insert into hash table");
-                        return false;
-                    }
-
-                    self.right_tuples.push((rid, tuple));
-                },
-                Ok(None) => break,
-                Err(e) => {
-                    debug!("Error from right child executor: {}", e);
-                    return false;
-                },
+        while let Some((tuple, _)) = self.right_child.next()? {
+            let keys = Self::evaluate_keys(
+                self.plan.get_right_key_expressions(),
+                &tuple,
+                self.plan.get_right_schema(),
+            )?;
+            if let Some(keys) = keys {
+                self.hash_table.entry(keys).or_default().push(tuple);
             }
         }
 
-        true
+        Ok(())
     }
 }
 
@@ -244,15 +206,16 @@ impl AbstractExecutor for HashJoinExecutor {
     ///
     /// # Failure Handling
     ///
-    /// If hash table construction fails, `initialized` remains `false` and
-    /// subsequent `next()` calls will return `None`.
+    /// An error met while building the hash table is returned by the first
+    /// call of `next()`.
     fn init(&mut self) {
         if !self.initialized {
             debug!("Initializing HashJoinExecutor");
 
-            if !self.build_hash_table() {
-                debug!("Failed to build hash table");
-                return;
+            if let Err(e) = self.build_hash_table() {
+                debug!("Failed to build hash table: {}", e);
+                self.hash_table.clear();
+                self.init_error = Some(e);
             }
 
             self.left_child.init();
@@ -263,23 +226,15 @@ impl AbstractExecutor for HashJoinExecutor {
 
     /// Returns the next joined tuple (probe phase).
     ///
-    /// For each left tuple, evaluates the join key and probes the hash
-    /// table. If a match is found, combines the left and right tuples
-    /// and returns the result.
-    ///
-    /// # Probe Algorithm
-    ///
-    /// 1. Get next left tuple (if current is None)
-    /// 2. Evaluate left key expression
-    /// 3. Probe hash table with key
-    /// 4. If match found: combine tuples and return
-    /// 5. If no match: advance to next left tuple
+    /// For each left tuple, evaluates the join keys and probes the hash
+    /// table. The left tuple is combined with every match, one after the
+    /// other.
     ///
     /// # Returns
     ///
     /// * `Ok(Some((tuple, rid)))` - Combined tuple from matching rows
     /// * `Ok(None)` - No more matches (left child exhausted or not initialized)
-    /// * `Err(DBError)` - Error from left child executor
+    /// * `Err(DBError)` - Error from a child executor or key expression
     ///
     /// # Output Tuple Structure
     ///
@@ -292,45 +247,31 @@ impl AbstractExecutor for HashJoinExecutor {
         if !self.initialized {
             return Ok(None);
         }
+        if let Some(e) = self.init_error.take() {
+            return Err(e);
+        }
 
         loop {
-            if self.current_left_tuple.is_none() {
-                match self.left_child.next()? {
-                    Some((tuple, rid)) => {
-                        self.current_left_tuple = Some((tuple, rid));
-                    },
-                    None => return Ok(None),
+            if let Some((left_tuple, left_rid, keys)) = &self.current_left_tuple {
+                let matches = self.hash_table.get(keys).map_or(&[][..], Vec::as_slice);
+                if let Some(right_tuple) = matches.get(self.next_match) {
+                    self.next_match += 1;
+                    let combined_tuple = Arc::new(left_tuple.combine(right_tuple));
+                    return Ok(Some((combined_tuple, *left_rid)));
                 }
             }
 
-            // Clone the values we need and drop the borrow immediately
-            let (left_tuple, left_rid) = {
-                let (tuple, rid) = self.current_left_tuple.as_ref().unwrap();
-                (tuple.clone(), *rid)
-            };
-
-            let key = match self.plan.get_left_key_expressions()[0]
-                .evaluate(&left_tuple, self.plan.get_left_schema())
-            {
-                Ok(value) => value,
-                Err(_) => {
-                    debug!("Failed to evaluate left key expression");
-                    self.current_left_tuple = None;
-                    continue;
-                },
-            };
-
-            if let Some(ref ht) = self.hash_table
-                && let Some(right_rid) = ht.get_value(&key)
-                && let Some((_, right_tuple)) =
-                    self.right_tuples.iter().find(|(rid, _)| *rid == right_rid)
-            {
-                let combined_tuple = Arc::new(left_tuple.combine(right_tuple));
+            let Some((tuple, rid)) = self.left_child.next()? else {
                 self.current_left_tuple = None;
-                return Ok(Some((combined_tuple, left_rid)));
-            }
-
-            self.current_left_tuple = None;
+                return Ok(None);
+            };
+            let keys = Self::evaluate_keys(
+                self.plan.get_left_key_expressions(),
+                &tuple,
+                self.plan.get_left_schema(),
+            )?;
+            self.current_left_tuple = keys.map(|keys| (tuple, rid, keys));
+            self.next_match = 0;
         }
     }
 
-- 
2.43.0


From af09a66f3155db72eb55fcbdf545816b1c5edc0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:56 +0000
Subject: [PATCH 070/120] fix: an index iterator gives each entry of its range
 once, a range open at one side too

---
 src/storage/index/b_plus_tree.rs        |  36 ++++--
 src/storage/index/index_iterator_mem.rs | 140 ++++--------------------
 2 files changed, 47 insertions(+), 129 deletions(-)

diff --git a/src/storage/index/b_plus_tree.rs b/src/storage/index/b_plus_tree.rs
index bf87947..77d1acd 100644
--- a/src/storage/index/b_plus_tree.rs
+++ b/src/storage/index/b_plus_tree.rs
@@ -312,8 +312,18 @@ impl BPlusTree {
         end_key: &Tuple,
         include_end: bool,
     ) -> Result<Vec<(Value, RID)>, String> {
-        let start_key = self.extract_key(start_key);
-        let end_key = self.extract_key(end_key);
+        self.scan_bounds(Some(start_key), Some(end_key), include_end)
+    }
+
+    /// Scans from `start_key` (the first entry if `None`) to `end_key` (the last if `None`).
+    pub(crate) fn scan_bounds(
+        &self,
+        start_key: Option<&Tuple>,
+        end_key: Option<&Tuple>,
+        include_end: bool,
+    ) -> Result<Vec<(Value, RID)>, String> {
+        let start_key = start_key.map(|key| self.extract_key(key));
+        let end_key = end_key.map(|key| self.extract_key(key));
 
         debug!("Starting range scan from {:?} to {:?}", start_key, end_key);
         let mut current_node = Arc::clone(&self.root);
@@ -326,11 +336,14 @@ impl BPlusTree {
             match node.node_type {
                 NodeType::Internal => {
                     debug!("At internal node with keys: {:?}", node.keys);
-                    let child_idx = node
-                        .keys
-                        .iter()
-                        .position(|k| k.compare_greater_than_equals(&start_key) == CmpBool::CmpTrue)
-                        .unwrap_or(0);
+                    let child_idx = start_key.as_ref().map_or(0, |start_key| {
+                        node.keys
+                            .iter()
+                            .position(|k| {
+                                k.compare_greater_than_equals(start_key) == CmpBool::CmpTrue
+                            })
+                            .unwrap_or(0)
+                    });
                     debug!("Selected child index: {}", child_idx);
                     let next_node = Arc::clone(&node.children[child_idx]);
                     drop(node);
@@ -351,11 +364,14 @@ impl BPlusTree {
 
             // Add values from current leaf that are within range
             for (key, rid) in node.keys.iter().zip(node.values.iter()) {
-                if key.compare_less_than(&start_key) == CmpBool::CmpTrue {
+                if let Some(start_key) = &start_key
+                    && key.compare_less_than(start_key) == CmpBool::CmpTrue
+                {
                     continue;
                 }
-                if key.compare_greater_than(&end_key) == CmpBool::CmpTrue
-                    || (!include_end && key.compare_equals(&end_key) == CmpBool::CmpTrue)
+                if let Some(end_key) = &end_key
+                    && (key.compare_greater_than(end_key) == CmpBool::CmpTrue
+                        || (!include_end && key.compare_equals(end_key) == CmpBool::CmpTrue))
                 {
                     debug!("Found key beyond range, ending scan");
                     return Ok(entries);
diff --git a/src/storage/index/index_iterator_mem.rs b/src/storage/index/index_iterator_mem.rs
index f54349c..61e9e47 100644
--- a/src/storage/index/index_iterator_mem.rs
+++ b/src/storage/index/index_iterator_mem.rs
@@ -137,7 +137,6 @@ pub struct IndexIterator {
     start_key: Option<Arc<Tuple>>,
     end_key: Option<Arc<Tuple>>,
     exhausted: bool,
-    last_key: Option<Value>, // Track the last key we've processed
     last_error: Option<String>,
 }
 
@@ -155,7 +154,6 @@ impl IndexIterator {
             start_key,
             end_key,
             exhausted: false,
-            last_key: None,
             last_error: None,
         };
 
@@ -184,114 +182,36 @@ impl IndexIterator {
         self.exhausted && self.position >= self.current_batch.len()
     }
 
-    /// Fetch next batch of results
+    /// Fetches the entries in range. One batch holds them all, so there is only one to fetch.
     fn fetch_next_batch(&mut self) -> Result<bool, String> {
         if self.exhausted {
             debug!("Iterator already exhausted");
             return Ok(false);
         }
 
-        debug!("Fetching next batch");
+        debug!("Fetching batch");
+        self.exhausted = true;
+        let start = self.start_key.clone();
+        self.fetch_from(start.as_deref())
+    }
+
+    /// Replaces the batch by the entries from `start` (or the first entry) to the end key.
+    fn fetch_from(&mut self, start: Option<&Tuple>) -> Result<bool, String> {
         self.current_batch.clear();
         self.position = 0;
 
-        let tree_guard = self.tree.read();
-        let result = match (&self.start_key, &self.end_key) {
-            // Full scan case
-            (None, None) => {
-                if self.last_key.is_some() {
-                    debug!("Already completed full scan");
-                    self.exhausted = true;
-                    return Ok(false);
-                }
-                debug!("Starting fresh full scan");
-                tree_guard.scan_full()
-            },
-
-            // Range scan case
-            (Some(start), Some(end)) => {
-                let scan_start = if let Some(last_key) = &self.last_key {
-                    let schema = start.get_schema();
-                    let mut values = start.get_values();
-
-                    // Continue from the last processed key.
-                    //
-                    // NOTE: The B+ tree currently only supports a single key column.
-                    // We still validate the attribute index against the tuple to avoid panics.
-                    // Keep the metadata Arc alive while borrowing key attrs.
-                    let metadata = tree_guard.get_metadata();
-                    let key_attr = *metadata
-                        .get_key_attrs()
-                        .first()
-                        .expect("B+ tree metadata must have at least one key attribute");
-
-                    if let Err(e) = start.keys_from_tuple_checked(&[key_attr]) {
-                        let msg = format!(
-                            "invalid start_key for index range scan: missing key_attr {} (tuple cols={}): {}",
-                            key_attr,
-                            start.get_column_count(),
-                            e
-                        );
-                        debug!("{msg}");
-                        self.exhausted = true;
-                        self.last_error = Some(msg.clone());
-                        return Err(msg);
-                    }
-                    if key_attr >= values.len() {
-                        let msg = format!(
-                            "invalid start_key for index range scan: key_attr {} out of bounds (values len={})",
-                            key_attr,
-                            values.len()
-                        );
-                        debug!("{msg}");
-                        self.exhausted = true;
-                        self.last_error = Some(msg.clone());
-                        return Err(msg);
-                    }
-                    values[key_attr] = last_key.clone();
-
-                    // Create a new tuple with the modified values
-                    let new_start = Arc::new(Tuple::new(&values, &schema, RID::new(0, 0)));
-                    debug!("Continuing range scan from key: {:?}", new_start);
-                    new_start
-                } else {
-                    debug!("Starting fresh range scan from: {:?}", start);
-                    start.clone()
-                };
-
-                tree_guard.scan_range(&scan_start, end, self.last_key.is_none())
-            },
-            _ => {
-                let msg =
-                    "invalid scan range configuration: start_key/end_key must both be set or both be None"
-                        .to_string();
-                debug!("{msg}");
-                self.exhausted = true;
-                self.last_error = Some(msg.clone());
-                Err(msg)
-            },
-        };
-
+        let result = self
+            .tree
+            .read()
+            .scan_bounds(start, self.end_key.as_deref(), true);
         match result {
             Ok(new_results) => {
-                if new_results.is_empty() {
-                    debug!("No more results available");
-                    self.exhausted = true;
-                    return Ok(false);
-                }
-
-                // Update last_key for next batch
-                if let Some((key, _)) = new_results.last() {
-                    self.last_key = Some(key.clone());
-                }
-
                 self.current_batch = new_results;
                 debug!("Fetched {} results", self.current_batch.len());
-                Ok(true)
+                Ok(!self.current_batch.is_empty())
             },
             Err(e) => {
                 debug!("Error fetching batch: {:?}", e);
-                self.exhausted = true;
                 self.last_error = Some(e.clone());
                 Err(e)
             },
@@ -355,15 +275,12 @@ impl Iterator for IndexIterator {
 // Add support for reverse iteration
 impl DoubleEndedIterator for IndexIterator {
     fn next_back(&mut self) -> Option<Self::Item> {
-        if self.current_batch.is_empty() {
+        // What next() has given already is not given again
+        if self.position >= self.current_batch.len() {
             return None;
         }
 
-        if let Some((_, rid)) = self.current_batch.pop() {
-            Some(rid)
-        } else {
-            None
-        }
+        self.current_batch.pop().map(|(_, rid)| rid)
     }
 }
 
@@ -376,20 +293,10 @@ impl IndexIterator {
 
     /// Fallible version of `seek` that returns errors instead of panicking.
     pub fn try_seek(&mut self, seek_key: &Tuple) -> Result<Option<RID>, String> {
-        // Reset iterator state
-        self.current_batch.clear();
-        self.position = 0;
-        self.exhausted = false;
+        // The scan from the seek key replaces what was left of the range
+        self.exhausted = true;
         self.last_error = None;
-
-        // Perform new scan from seek key in its own scope
-        {
-            let tree_guard = self.tree.read();
-            if let Some(end) = &self.end_key {
-                let mut results = tree_guard.scan_range(seek_key, end, true)?;
-                self.current_batch.append(results.as_mut());
-            }
-        } // tree_guard is dropped here
+        self.fetch_from(Some(seek_key))?;
 
         // Now we can safely call next()
         self.try_next()
@@ -397,12 +304,7 @@ impl IndexIterator {
 
     /// Get an estimate of remaining items
     pub fn estimate_remaining(&self) -> usize {
-        if self.exhausted {
-            0
-        } else {
-            // Rough estimate based on current batch
-            self.current_batch.len() - self.position
-        }
+        self.current_batch.len().saturating_sub(self.position)
     }
 }
 
-- 
2.43.0


From 3ccb44be126e05d190f6e2e017d56d99bb05d9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:56 +0000
Subject: [PATCH 071/120] fix: merging two internal B+tree nodes takes one
 separator out of the parent, not two

---
 src/storage/index/b_plus_tree.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/storage/index/b_plus_tree.rs b/src/storage/index/b_plus_tree.rs
index 77d1acd..8566341 100644
--- a/src/storage/index/b_plus_tree.rs
+++ b/src/storage/index/b_plus_tree.rs
@@ -1022,7 +1022,7 @@ impl BPlusTree {
             },
             NodeType::Internal => {
                 // Move parent's separator key down to left sibling
-                let separator = parent.keys.remove(child_idx - 1);
+                let separator = parent.keys[child_idx - 1].clone();
                 left.keys.push(separator);
 
                 // Move all keys and children from right to left
@@ -1060,7 +1060,7 @@ impl BPlusTree {
             },
             NodeType::Internal => {
                 // Move parent's separator key down to left node
-                let separator = parent.keys.remove(child_idx);
+                let separator = parent.keys[child_idx].clone();
                 left.keys.push(separator);
 
                 // Move all keys and children from right to left
-- 
2.43.0


From d1016d463ef5dbd64ce55f2321616a9c628cf31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:03 +0000
Subject: [PATCH 072/120] fix: a split B+tree node is followed by its new
 sibling, whatever equal keys the parent has

---
 src/storage/index/b_plus_tree.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/storage/index/b_plus_tree.rs b/src/storage/index/b_plus_tree.rs
index 8566341..6e5612b 100644
--- a/src/storage/index/b_plus_tree.rs
+++ b/src/storage/index/b_plus_tree.rs
@@ -778,8 +778,8 @@ impl BPlusTree {
                 // For leaf splits, use the first key of the right node as separator
                 let split_key = new_node_arc.read().keys[0].clone();
 
-                let mut insert_pos = self.find_insert_position(&parent.keys, &split_key);
-                insert_pos = insert_pos.min(parent.keys.len());
+                // The new node follows the split one, whatever other equal keys the parent has
+                let insert_pos = child_idx;
 
                 debug!(
                     "Inserting separator key at position {} in parent (len={})",
@@ -814,8 +814,7 @@ impl BPlusTree {
                 child_guard.keys.remove(split_point);
 
                 // For internal splits, ensure the routing key is greater than all keys in left subtree
-                let mut insert_pos = self.find_insert_position(&parent.keys, &middle_key);
-                insert_pos = insert_pos.min(parent.keys.len());
+                let insert_pos = child_idx;
 
                 debug!("Inserting middle key at position {} in parent", insert_pos);
 
-- 
2.43.0


From 72e9a10dd119683705a9c0b9a5bfa0dd3565214b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:31 +0000
Subject: [PATCH 073/120] fix: an index refuses an entry it has in another
 leaf, only the leaf it would go to was looked at

---
 src/storage/index/b_plus_tree.rs | 39 ++++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/src/storage/index/b_plus_tree.rs b/src/storage/index/b_plus_tree.rs
index 6e5612b..cd2a746 100644
--- a/src/storage/index/b_plus_tree.rs
+++ b/src/storage/index/b_plus_tree.rs
@@ -180,6 +180,11 @@ impl BPlusTree {
     pub fn insert(&mut self, key: Value, rid: RID) -> bool {
         debug!("Inserting key {:?} with RID {:?}", key, rid);
 
+        if self.contains(&key, rid) {
+            debug!("Key-RID pair is already in the tree");
+            return false;
+        }
+
         let root_is_full = {
             let root_guard = self.root.read();
             let is_full = root_guard.keys.len() == self.order - 1;
@@ -220,6 +225,40 @@ impl BPlusTree {
         }
     }
 
+    /// Says whether the tree has the entry, in any of the leaves equal keys may span.
+    fn contains(&self, key: &Value, rid: RID) -> bool {
+        let mut current_node = Arc::clone(&self.root);
+        loop {
+            let node = current_node.read();
+            let next_node = match node.node_type {
+                NodeType::Internal => {
+                    let child_idx = node
+                        .keys
+                        .iter()
+                        .position(|k| self.compare_keys_ordering(k, key).is_ge())
+                        .unwrap_or(node.keys.len());
+                    Some(Arc::clone(&node.children[child_idx]))
+                },
+                NodeType::Leaf => {
+                    for (k, r) in node.keys.iter().zip(node.values.iter()) {
+                        match self.compare_keys_ordering(k, key) {
+                            std::cmp::Ordering::Less => {},
+                            std::cmp::Ordering::Equal if *r == rid => return true,
+                            std::cmp::Ordering::Equal => {},
+                            std::cmp::Ordering::Greater => return false,
+                        }
+                    }
+                    node.next_leaf.clone()
+                },
+            };
+            drop(node);
+            match next_node {
+                Some(next) => current_node = next,
+                None => return false,
+            }
+        }
+    }
+
     pub fn delete(&self, key: &Value, rid: RID) -> bool {
         debug!("Starting delete for key {:?} with RID {:?}", key, rid);
         let mut nodes_to_check = vec![(Arc::clone(&self.root), Vec::new())];
-- 
2.43.0


From 4e3be1690fb7baa62b88630f5627601633e2a6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:45 +0000
Subject: [PATCH 074/120] fix: NULL keys have a place in a B+tree index, they
 were equal to all keys around them

---
 src/storage/index/b_plus_tree.rs | 31 ++++++++++++++-----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/src/storage/index/b_plus_tree.rs b/src/storage/index/b_plus_tree.rs
index cd2a746..0a4d13b 100644
--- a/src/storage/index/b_plus_tree.rs
+++ b/src/storage/index/b_plus_tree.rs
@@ -276,10 +276,10 @@ impl BPlusTree {
 
                     // Check each key to find potential paths
                     for (i, k) in node.keys.iter().enumerate() {
-                        if k.compare_greater_than(key) == CmpBool::CmpTrue {
+                        if self.compare_keys_ordering(k, key).is_gt() {
                             // If this key is greater, we need to check the left child
                             child_indices.push(i);
-                        } else if k.compare_equals(key) == CmpBool::CmpTrue {
+                        } else if self.compare_keys_ordering(k, key).is_eq() {
                             // If this key equals our search key, check both children
                             child_indices.push(i);
                             child_indices.push(i + 1);
@@ -308,7 +308,7 @@ impl BPlusTree {
                         debug!("Checking entry {} - Key: {:?}, RID: {:?}", i, k, r);
 
                         // Check for exact match
-                        if k.compare_equals(key) == CmpBool::CmpTrue && *r == rid {
+                        if self.compare_keys_ordering(k, key).is_eq() && *r == rid {
                             debug!("Found matching key-RID pair at position {}", i);
                             drop(node);
                             let mut node_write = current_node.write();
@@ -378,9 +378,7 @@ impl BPlusTree {
                     let child_idx = start_key.as_ref().map_or(0, |start_key| {
                         node.keys
                             .iter()
-                            .position(|k| {
-                                k.compare_greater_than_equals(start_key) == CmpBool::CmpTrue
-                            })
+                            .position(|k| self.compare_keys_ordering(k, start_key).is_ge())
                             .unwrap_or(0)
                     });
                     debug!("Selected child index: {}", child_idx);
@@ -404,13 +402,13 @@ impl BPlusTree {
             // Add values from current leaf that are within range
             for (key, rid) in node.keys.iter().zip(node.values.iter()) {
                 if let Some(start_key) = &start_key
-                    && key.compare_less_than(start_key) == CmpBool::CmpTrue
+                    && self.compare_keys_ordering(key, start_key).is_lt()
                 {
                     continue;
                 }
                 if let Some(end_key) = &end_key
-                    && (key.compare_greater_than(end_key) == CmpBool::CmpTrue
-                        || (!include_end && key.compare_equals(end_key) == CmpBool::CmpTrue))
+                    && (self.compare_keys_ordering(key, end_key).is_gt()
+                        || (!include_end && self.compare_keys_ordering(key, end_key).is_eq()))
                 {
                     debug!("Found key beyond range, ending scan");
                     return Ok(entries);
@@ -647,7 +645,11 @@ impl BPlusTree {
         CmpBool::CmpFalse
     }
 
+    /// The order of the keys in the tree, with NULL before all others.
     pub fn compare_keys_ordering(&self, key1: &Value, key2: &Value) -> std::cmp::Ordering {
+        if key1.is_null() || key2.is_null() {
+            return key2.is_null().cmp(&key1.is_null());
+        }
         if key1.compare_less_than(key2) == CmpBool::CmpTrue {
             std::cmp::Ordering::Less
         } else if key1.compare_greater_than(key2) == CmpBool::CmpTrue {
@@ -666,12 +668,7 @@ impl BPlusTree {
         // This ensures proper routing in internal nodes
         let pos = keys
             .iter()
-            .position(|k| {
-                match k.compare_equals(key) {
-                    CmpBool::CmpTrue => false, // Keep looking, want to insert after equals
-                    _ => k.compare_greater_than(key) == CmpBool::CmpTrue,
-                }
-            })
+            .position(|k| self.compare_keys_ordering(k, key).is_gt())
             .unwrap_or(keys.len());
 
         debug!("Found insert position: {}", pos);
@@ -696,7 +693,7 @@ impl BPlusTree {
                 // Check entries before pos with same key
                 while i > 0 {
                     i -= 1;
-                    if node.keys[i].compare_equals(&key) == CmpBool::CmpTrue {
+                    if self.compare_keys_ordering(&node.keys[i], &key).is_eq() {
                         if node.values[i] == rid {
                             debug!("Found duplicate key-RID pair at position {}", i);
                             return false;
@@ -708,7 +705,7 @@ impl BPlusTree {
                 // Check entries from pos onwards with same key
                 i = pos;
                 while i < node.keys.len() {
-                    if node.keys[i].compare_equals(&key) == CmpBool::CmpTrue {
+                    if self.compare_keys_ordering(&node.keys[i], &key).is_eq() {
                         if node.values[i] == rid {
                             debug!("Found duplicate key-RID pair at position {}", i);
                             return false;
-- 
2.43.0


From 9b3236bdcac8f3e489ced12415b887c70dd4e9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:48 +0000
Subject: [PATCH 075/120] fix: an index scan reads all keys its conditions
 allow, open sides of OR and other columns' conditions narrowed the range

---
 .../executors/index_scan_executor.rs          | 355 +++++++-----------
 1 file changed, 127 insertions(+), 228 deletions(-)

diff --git a/src/sql/execution/executors/index_scan_executor.rs b/src/sql/execution/executors/index_scan_executor.rs
index c510415..0d99afc 100644
--- a/src/sql/execution/executors/index_scan_executor.rs
+++ b/src/sql/execution/executors/index_scan_executor.rs
@@ -65,7 +65,9 @@ use crate::common::rid::RID;
 use crate::sql::execution::execution_context::ExecutionContext;
 use crate::sql::execution::executors::abstract_executor::AbstractExecutor;
 use crate::sql::execution::expressions::abstract_expression::{Expression, ExpressionOps};
-use crate::sql::execution::expressions::comparison_expression::ComparisonType;
+use crate::sql::execution::expressions::comparison_expression::{
+    ComparisonExpression, ComparisonType,
+};
 use crate::sql::execution::expressions::logic_expression::LogicType;
 use crate::sql::execution::plans::abstract_plan::AbstractPlanNode;
 use crate::sql::execution::plans::index_scan_plan::IndexScanNode;
@@ -73,6 +75,7 @@ use crate::storage::index::IndexInfo;
 use crate::storage::index::index_iterator_mem::IndexIterator;
 use crate::storage::table::transactional_table_heap::TransactionalTableHeap;
 use crate::storage::table::tuple::Tuple;
+use crate::types_db::types::{CmpBool, Type};
 use crate::types_db::value::{Val, Value};
 
 /// Executor for index-based table scans.
@@ -196,272 +199,168 @@ impl IndexScanExecutor {
         }
     }
 
-    /// Analyzes a predicate expression to extract index scan ranges.
+    /// Finds a range of keys that holds all rows a predicate can be true for.
     ///
-    /// Recursively processes comparison and logic expressions to determine
-    /// the optimal start and end bounds for an index scan.
+    /// Recursively processes comparison and logic expressions. The predicate is evaluated on the
+    /// rows of the range again, so the range may be wider than needed, but never narrower:
+    /// whatever does not limit the key leaves the range open.
     ///
     /// # Arguments
     ///
     /// * `expr` - The predicate expression to analyze.
+    /// * `key_attr` - The column the index is on.
     ///
     /// # Returns
     ///
-    /// A vector of ranges, where each range is a tuple of:
-    /// - `Option<Value>`: Start bound (None = unbounded)
-    /// - `bool`: Start bound inclusive
-    /// - `Option<Value>`: End bound (None = unbounded)
-    /// - `bool`: End bound inclusive
+    /// The start and end of the range, both inclusive (None = unbounded).
     ///
     /// # Logic Expression Handling
     ///
     /// - **AND**: Intersects ranges (takes most restrictive bounds)
-    /// - **OR**: Unions ranges (returns all child ranges)
+    /// - **OR**: Covers the ranges of both sides (takes least restrictive bounds)
     /// - **NOT**: Inverts comparison operators
-    fn analyze_predicate_ranges(
+    fn analyze_predicate_range(
         expr: &Expression,
-    ) -> Vec<(Option<Value>, bool, Option<Value>, bool)> {
+        key_attr: usize,
+    ) -> (Option<Value>, Option<Value>) {
         match expr {
             Expression::Logic(logic_expr) => {
-                let mut ranges = Vec::new();
-
+                let children = logic_expr.get_children();
                 match logic_expr.get_logic_type() {
-                    LogicType::And => {
-                        // For AND, find the most restrictive range
-                        let mut start_value = None;
-                        let mut end_value = None;
-                        let mut include_start = false;
-                        let mut include_end = false;
-
-                        // Process each child of AND
-                        for child in logic_expr.get_children() {
-                            let child_ranges = Self::analyze_predicate_ranges(child);
-                            for (child_start, child_start_incl, child_end, child_end_incl) in
-                                child_ranges
-                            {
-                                // Update start bound if more restrictive
-                                if let Some(value) = child_start {
-                                    match &start_value {
-                                        None => {
-                                            start_value = Some(value);
-                                            include_start = child_start_incl;
-                                        },
-                                        Some(current) if value > *current => {
-                                            start_value = Some(value);
-                                            include_start = child_start_incl;
-                                        },
-                                        _ => {},
-                                    }
-                                }
-
-                                // Update end bound if more restrictive
-                                if let Some(value) = child_end {
-                                    match &end_value {
-                                        None => {
-                                            end_value = Some(value);
-                                            include_end = child_end_incl;
-                                        },
-                                        Some(current) if value < *current => {
-                                            end_value = Some(value);
-                                            include_end = child_end_incl;
-                                        },
-                                        _ => {},
-                                    }
-                                }
-                            }
-                        }
-                        ranges.push((start_value, include_start, end_value, include_end));
-                    },
-                    LogicType::Or => {
-                        // For OR, collect all ranges and union them
-                        for child in logic_expr.get_children() {
-                            ranges.extend(Self::analyze_predicate_ranges(child));
-                        }
-                    },
-                    LogicType::Not => {
-                        // For NOT operations on comparisons, we need to invert the bounds
-                        if let Some(child) = logic_expr.get_children().first() {
-                            match child.as_ref() {
-                                Expression::Comparison(comp_expr) => {
-                                    if let Ok(value) = comp_expr.get_right().evaluate(
-                                        &Tuple::new(&[], &Schema::new(vec![]), RID::new(0, 0)),
-                                        &Schema::new(vec![]),
-                                    ) {
-                                        match comp_expr.get_comp_type() {
-                                            ComparisonType::Equal => {
-                                                // NOT (x = value) -> x < value OR x > value
-                                                // This requires full scan as it creates a disjoint range
-                                                Vec::new()
-                                            },
-                                            ComparisonType::GreaterThan => {
-                                                // NOT (x > value) -> x <= value
-                                                vec![(None, false, Some(value), true)]
-                                            },
-                                            ComparisonType::GreaterThanOrEqual => {
-                                                // NOT (x >= value) -> x < value
-                                                vec![(None, false, Some(value), false)]
-                                            },
-                                            ComparisonType::LessThan => {
-                                                // NOT (x < value) -> x >= value
-                                                vec![(Some(value), true, None, false)]
-                                            },
-                                            ComparisonType::LessThanOrEqual => {
-                                                // NOT (x <= value) -> x > value
-                                                vec![(Some(value), false, None, false)]
-                                            },
-                                            ComparisonType::NotEqual => {
-                                                // NOT (x != value) -> x = value
-                                                vec![(Some(value.clone()), true, Some(value), true)]
-                                            },
-                                            ComparisonType::IsNotNull => {
-                                                // NOT (IS NOT NULL) -> IS NULL
-                                                // This requires special handling at runtime
-                                                Vec::new()
-                                            },
-                                        }
-                                    } else {
-                                        Vec::new()
-                                    }
+                    LogicType::And => children.iter().fold((None, None), |range, child| {
+                        Self::intersect(range, Self::analyze_predicate_range(child, key_attr))
+                    }),
+                    LogicType::Or => children
+                        .iter()
+                        .map(|child| Self::analyze_predicate_range(child, key_attr))
+                        .reduce(|(start, end), (child_start, child_end)| {
+                            (
+                                start.zip(child_start).map(|(a, b)| Self::lower(a, b)),
+                                end.zip(child_end).map(|(a, b)| Self::higher(a, b)),
+                            )
+                        })
+                        .unwrap_or((None, None)),
+                    LogicType::Not => match children.first().map(|child| child.as_ref()) {
+                        Some(Expression::Comparison(comp_expr)) => {
+                            let inverted = match comp_expr.get_comp_type() {
+                                ComparisonType::NotEqual => ComparisonType::Equal,
+                                ComparisonType::GreaterThan => ComparisonType::LessThanOrEqual,
+                                ComparisonType::GreaterThanOrEqual => ComparisonType::LessThan,
+                                ComparisonType::LessThan => ComparisonType::GreaterThanOrEqual,
+                                ComparisonType::LessThanOrEqual => ComparisonType::GreaterThan,
+                                // NOT (x = value) leaves two ranges, NOT (IS NOT NULL) is IS NULL
+                                ComparisonType::Equal | ComparisonType::IsNotNull => {
+                                    ComparisonType::NotEqual
                                 },
-                                _ => Vec::new(), // NOT on non-comparison expressions
-                            }
-                        } else {
-                            Vec::new()
-                        };
+                            };
+                            Self::comparison_range(comp_expr, inverted, key_attr)
+                        },
+                        _ => (None, None),
                     },
                 }
-                ranges
             },
             Expression::Comparison(comp_expr) => {
-                if let Ok(value) = comp_expr.get_right().evaluate(
-                    &Tuple::new(&[], &Schema::new(vec![]), RID::new(0, 0)),
-                    &Schema::new(vec![]),
-                ) {
-                    match comp_expr.get_comp_type() {
-                        ComparisonType::Equal => {
-                            // For equality, use same value for both bounds, inclusive
-                            vec![(Some(value.clone()), true, Some(value), true)]
-                        },
-                        ComparisonType::GreaterThan => {
-                            // x > value
-                            vec![(Some(value), false, None, false)]
-                        },
-                        ComparisonType::GreaterThanOrEqual => {
-                            // x >= value
-                            vec![(Some(value), true, None, false)]
-                        },
-                        ComparisonType::LessThan => {
-                            // x < value
-                            vec![(None, false, Some(value), false)]
-                        },
-                        ComparisonType::LessThanOrEqual => {
-                            // x <= value
-                            vec![(None, false, Some(value), true)]
-                        },
-                        ComparisonType::NotEqual => {
-                            // Full scan for not equal
-                            Vec::new()
-                        },
-                        ComparisonType::IsNotNull => {
-                            // For IS NOT NULL, scan all non-null values
-                            // This effectively means no bounds, as we'll filter nulls later
-                            Vec::new()
-                        },
-                    }
-                } else {
-                    Vec::new()
-                }
+                Self::comparison_range(comp_expr, comp_expr.get_comp_type(), key_attr)
             },
-            _ => Vec::new(),
+            _ => (None, None),
         }
     }
 
-    /// Computes the final index scan bounds from all predicates.
-    ///
-    /// Analyzes all predicate keys, collects their ranges, and computes
-    /// the widest range that covers all predicates (for OR semantics)
-    /// or the narrowest range (for AND semantics within each predicate).
+    /// The range of keys for which the comparison can be true, taken as one of type `comp_type`.
+    fn comparison_range(
+        comp_expr: &ComparisonExpression,
+        comp_type: ComparisonType,
+        key_attr: usize,
+    ) -> (Option<Value>, Option<Value>) {
+        // Only a comparison of the indexed column says something about the key
+        match comp_expr.get_left().as_ref() {
+            Expression::ColumnRef(column) if column.get_column_index() == key_attr => {},
+            _ => return (None, None),
+        }
+        let Ok(value) = comp_expr.get_right().evaluate(
+            &Tuple::new(&[], &Schema::new(vec![]), RID::new(0, 0)),
+            &Schema::new(vec![]),
+        ) else {
+            return (None, None);
+        };
+        match comp_type {
+            ComparisonType::Equal => (Some(value.clone()), Some(value)),
+            ComparisonType::GreaterThan | ComparisonType::GreaterThanOrEqual => (Some(value), None),
+            ComparisonType::LessThan | ComparisonType::LessThanOrEqual => (None, Some(value)),
+            ComparisonType::NotEqual | ComparisonType::IsNotNull => (None, None),
+        }
+    }
+
+    fn intersect(
+        (start1, end1): (Option<Value>, Option<Value>),
+        (start2, end2): (Option<Value>, Option<Value>),
+    ) -> (Option<Value>, Option<Value>) {
+        let start = match (start1, start2) {
+            (Some(a), Some(b)) => Some(Self::higher(a, b)),
+            (a, b) => a.or(b),
+        };
+        let end = match (end1, end2) {
+            (Some(a), Some(b)) => Some(Self::lower(a, b)),
+            (a, b) => a.or(b),
+        };
+        (start, end)
+    }
+
+    /// The lower of two keys; NULL is lower than all others.
+    fn lower(a: Value, b: Value) -> Value {
+        if a.is_null() || (!b.is_null() && a.compare_less_than(&b) == CmpBool::CmpTrue) {
+            a
+        } else {
+            b
+        }
+    }
+
+    /// The higher of two keys; NULL is lower than all others.
+    fn higher(a: Value, b: Value) -> Value {
+        if b.is_null() || (!a.is_null() && a.compare_greater_than(&b) == CmpBool::CmpTrue) {
+            a
+        } else {
+            b
+        }
+    }
+
+    /// Computes the index scan bounds from all predicates, all of which hold for a result row.
     ///
     /// # Arguments
     ///
-    /// * `index_info` - Index metadata containing the key schema.
+    /// * `index_info` - Index metadata with the indexed column.
     ///
     /// # Returns
     ///
     /// A tuple of:
     /// - `Option<Arc<Tuple>>`: Start key tuple (None = scan from beginning)
     /// - `Option<Arc<Tuple>>`: End key tuple (None = scan to end)
-    ///
-    /// # Algorithm
-    ///
-    /// 1. Collect ranges from all predicate expressions
-    /// 2. Take the minimum start value (widest coverage)
-    /// 3. Take the maximum end value (widest coverage)
-    /// 4. Create key tuples using the index's key schema
     fn analyze_bounds(&self, index_info: &IndexInfo) -> (Option<Arc<Tuple>>, Option<Arc<Tuple>>) {
-        let predicate_keys = self.plan.get_predicate_keys();
-        let mut all_ranges = Vec::new();
-
-        for pred in predicate_keys {
-            all_ranges.extend(Self::analyze_predicate_ranges(pred.as_ref()));
-        }
-
-        // If we have no ranges to analyze, return None for full scan
-        if all_ranges.is_empty() {
+        let Some(&key_attr) = index_info.get_key_attrs().first() else {
             return (None, None);
-        }
-
-        // Find the widest range that covers all predicates
-        let mut final_start = None;
-        let mut final_end = None;
-        let mut final_start_incl = false;
-        let mut final_end_incl = false;
-
-        for (start, start_incl, end, end_incl) in all_ranges {
-            // Take minimum start value
-            match (&final_start, start) {
-                (None, Some(value)) => {
-                    final_start = Some(value);
-                    final_start_incl = start_incl;
-                },
-                (Some(current), Some(value)) if value < *current => {
-                    final_start = Some(value);
-                    final_start_incl = start_incl;
-                },
-                _ => {},
-            }
-
-            // Take maximum end value
-            match (&final_end, end) {
-                (None, Some(value)) => {
-                    final_end = Some(value);
-                    final_end_incl = end_incl;
-                },
-                (Some(current), Some(value)) if value > *current => {
-                    final_end = Some(value);
-                    final_end_incl = end_incl;
-                },
-                _ => {},
-            }
-        }
-
-        // Create tuples using the index's key schema
-        let key_schema = index_info.get_key_schema().clone();
-
-        let start_tuple = final_start
-            .clone()
-            .map(|v| Arc::new(Tuple::new(&[v], &key_schema, RID::new(0, 0))));
-
-        let end_tuple = final_end
-            .clone()
-            .map(|v| Arc::new(Tuple::new(&[v], &key_schema, RID::new(0, 0))));
+        };
 
-        debug!(
-            "Scan bounds: start={:?} (incl={}), end={:?} (incl={})",
-            final_start, final_start_incl, final_end, final_end_incl
-        );
+        let (start, end) = self
+            .plan
+            .get_predicate_keys()
+            .iter()
+            .fold((None, None), |range, pred| {
+                Self::intersect(range, Self::analyze_predicate_range(pred, key_attr))
+            });
+        debug!("Scan bounds: start={:?}, end={:?}", start, end);
+
+        // The index takes its key out of tuples of the table
+        let key_schema = index_info.get_key_schema();
+        let bound_schema = Schema::new(vec![
+            key_schema.get_columns()[0].clone();
+            key_attr + 1
+        ]);
+        let bound_tuple = |value: Value| {
+            let values = vec![value; key_attr + 1];
+            Arc::new(Tuple::new(&values, &bound_schema, RID::new(0, 0)))
+        };
 
-        (start_tuple, end_tuple)
+        (start.map(bound_tuple), end.map(bound_tuple))
     }
 }
 
-- 
2.43.0


From e9dff5571657cc6ced943481cf183e863289a588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:51 +0000
Subject: [PATCH 076/120] fix: an index scan condition that fails is an error,
 the row was returned as if it held

---
 .../executors/index_scan_executor.rs          | 22 ++++++++-----------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/src/sql/execution/executors/index_scan_executor.rs b/src/sql/execution/executors/index_scan_executor.rs
index 0d99afc..c606aa1 100644
--- a/src/sql/execution/executors/index_scan_executor.rs
+++ b/src/sql/execution/executors/index_scan_executor.rs
@@ -473,19 +473,15 @@ impl AbstractExecutor for IndexScanExecutor {
                     // Additional check against predicates
                     let mut predicates_match = true;
                     for predicate in predicate_keys {
-                        if let Ok(result) = predicate.evaluate(&tuple, &output_schema) {
-                            match result.get_val() {
-                                Val::Boolean(b) => {
-                                    if !b {
-                                        predicates_match = false;
-                                        break;
-                                    }
-                                },
-                                _ => {
-                                    predicates_match = false;
-                                    break;
-                                },
-                            }
+                        let result =
+                            predicate
+                                .evaluate(&tuple, &output_schema)
+                                .map_err(|e| {
+                                    DBError::Execution(format!("index scan condition failed: {e}"))
+                                })?;
+                        if !matches!(result.get_val(), Val::Boolean(true)) {
+                            predicates_match = false;
+                            break;
                         }
                     }
 
-- 
2.43.0


From 4f44937d2e88b5dbd0a6706c23389cfb846960aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:11 +0000
Subject: [PATCH 077/120] fix: rows inserted or updated after an index was
 created are in it, index scans did not find them

---
 src/catalog/database.rs                       |  1 +
 .../executors/index_scan_executor.rs          |  7 +++++
 .../execution/executors/insert_executor.rs    | 30 +++++++++++--------
 .../execution/executors/update_executor.rs    | 17 ++++++-----
 src/storage/table/table_heap.rs               | 29 ++++++++++++++++++
 src/storage/table/transactional_table_heap.rs |  6 ++++
 6 files changed, 71 insertions(+), 19 deletions(-)

diff --git a/src/catalog/database.rs b/src/catalog/database.rs
index 20e3834..a1089e9 100644
--- a/src/catalog/database.rs
+++ b/src/catalog/database.rs
@@ -529,6 +529,7 @@ impl Database {
 
         // Populate the index with existing table data
         if let Some(table_info) = self.get_table_info_by_name(table_name) {
+            table_info.get_table_heap().add_index(index.clone());
             self.populate_index_with_existing_data(&index, &index_info, &table_info);
         }
 
diff --git a/src/sql/execution/executors/index_scan_executor.rs b/src/sql/execution/executors/index_scan_executor.rs
index c606aa1..5e31fa5 100644
--- a/src/sql/execution/executors/index_scan_executor.rs
+++ b/src/sql/execution/executors/index_scan_executor.rs
@@ -54,6 +54,7 @@
 //! Fetched tuples are checked for visibility using the transaction context.
 //! Deleted tuples are automatically skipped.
 
+use std::collections::HashSet;
 use std::sync::Arc;
 
 use log::{debug, error, info};
@@ -122,6 +123,8 @@ pub struct IndexScanExecutor {
     initialized: bool,
     /// Iterator over index entries within the computed bounds.
     iterator: Option<IndexIterator>,
+    /// Rows looked at already, which have more than one entry after their key was updated.
+    seen: HashSet<RID>,
 }
 
 impl IndexScanExecutor {
@@ -195,6 +198,7 @@ impl IndexScanExecutor {
             plan,
             table_heap,
             iterator: None,
+            seen: HashSet::new(),
             initialized: false,
         }
     }
@@ -460,6 +464,9 @@ impl AbstractExecutor for IndexScanExecutor {
             };
 
             debug!("Found RID {:?} in index", rid);
+            if !self.seen.insert(rid) {
+                continue;
+            }
 
             // Use RID to fetch tuple from table heap with transaction context
             match self.table_heap.get_tuple(rid, txn_ctx.clone()) {
diff --git a/src/sql/execution/executors/insert_executor.rs b/src/sql/execution/executors/insert_executor.rs
index 5760cf0..51666f3 100644
--- a/src/sql/execution/executors/insert_executor.rs
+++ b/src/sql/execution/executors/insert_executor.rs
@@ -576,12 +576,15 @@ impl AbstractExecutor for InsertExecutor {
                 } else {
                     // Single row - fall back to individual insert
                     for values in values_to_insert {
-                        match transactional_table_heap.insert_tuple_from_values(
-                            values.clone(),
-                            &schema,
-                            txn_context.clone(),
-                        ) {
-                            Ok(_rid) => {
+                        match transactional_table_heap
+                            .insert_tuple_from_values(
+                                values.clone(),
+                                &schema,
+                                txn_context.clone(),
+                            )
+                            .and_then(|rid| transactional_table_heap.index_row(rid))
+                        {
+                            Ok(()) => {
                                 insert_count += 1;
                                 trace!("Successfully inserted single tuple");
                             },
@@ -633,12 +636,15 @@ impl AbstractExecutor for InsertExecutor {
                         )));
                     }
 
-                    match transactional_table_heap.insert_tuple_from_values(
-                        mapped_values,
-                        &schema,
-                        txn_context.clone(),
-                    ) {
-                        Ok(_rid) => {
+                    match transactional_table_heap
+                        .insert_tuple_from_values(
+                            mapped_values,
+                            &schema,
+                            txn_context.clone(),
+                        )
+                        .and_then(|rid| transactional_table_heap.index_row(rid))
+                    {
+                        Ok(()) => {
                             insert_count += 1;
                             trace!(
                                 "Successfully inserted tuple #{} from VALUES/SELECT",
diff --git a/src/sql/execution/executors/update_executor.rs b/src/sql/execution/executors/update_executor.rs
index 5cbeb77..ee72e12 100644
--- a/src/sql/execution/executors/update_executor.rs
+++ b/src/sql/execution/executors/update_executor.rs
@@ -156,13 +156,16 @@ impl AbstractExecutor for UpdateExecutor {
                 let updated_tuple = Tuple::new(&updated_values, &schema, rid);
 
                 // Update the tuple in the table
-                match transactional_table_heap.update_tuple(
-                    &TupleMeta::new(0),
-                    &updated_tuple,
-                    rid,
-                    txn_context.clone(),
-                ) {
-                    Ok(_) => {
+                match transactional_table_heap
+                    .update_tuple(
+                        &TupleMeta::new(0),
+                        &updated_tuple,
+                        rid,
+                        txn_context.clone(),
+                    )
+                    .and_then(|rid| transactional_table_heap.index_row(rid))
+                {
+                    Ok(()) => {
                         update_count += 1;
                         trace!(
                             "Successfully updated tuple #{} with RID {:?}",
diff --git a/src/storage/table/table_heap.rs b/src/storage/table/table_heap.rs
index 25bddd0..fc7bc97 100644
--- a/src/storage/table/table_heap.rs
+++ b/src/storage/table/table_heap.rs
@@ -238,6 +238,7 @@ use crate::concurrency::lock_manager::LockManager;
 use crate::concurrency::transaction::{IsolationLevel, UndoLink, UndoLog};
 use crate::concurrency::transaction_manager::TransactionManager;
 use crate::sql::execution::transaction_context::TransactionContext;
+use crate::storage::index::b_plus_tree::BPlusTree;
 use crate::storage::page::page_guard::PageGuard;
 use crate::storage::page::page_types::table_page::TablePage;
 use crate::storage::page::{Page, PageTrait};
@@ -278,6 +279,8 @@ pub struct TableHeap {
     /// Held from reading a tuple's current version to replacing it, by transactional
     /// updates, deletes and rollbacks. Acquired before `latch` and page latches.
     write_latch: Mutex<()>,
+    /// The indexes on the table, which get an entry for every version of a row.
+    indexes: RwLock<Vec<Arc<RwLock<BPlusTree>>>>,
 }
 
 /// The TableInfo struct maintains metadata about a table.
@@ -323,6 +326,7 @@ impl TableHeap {
             table_oid,
             latch: RwLock::new(()),
             write_latch: Mutex::new(()),
+            indexes: RwLock::new(Vec::new()),
         };
 
         // Try to create the first page - if this fails, the table will be empty
@@ -371,6 +375,7 @@ impl TableHeap {
             table_oid,
             latch: RwLock::new(()),
             write_latch: Mutex::new(()),
+            indexes: RwLock::new(Vec::new()),
         }
     }
 
@@ -1041,6 +1046,29 @@ impl TableHeap {
             .ok_or_else(|| format!("Failed to fetch page {}", page_id))
     }
 
+    /// Adds an index that from now on gets an entry for every row written.
+    pub(crate) fn add_index(&self, index: Arc<RwLock<BPlusTree>>) {
+        self.indexes.write().push(index);
+    }
+
+    /// Enters a row just written into the indexes. Entries of its older versions stay, as open
+    /// transactions may still read those; index scans look at the row itself.
+    pub(crate) fn index_row(&self, rid: RID) -> Result<(), String> {
+        let indexes = self.indexes.read();
+        if indexes.is_empty() {
+            return Ok(());
+        }
+        let values = self.get_tuple_internal(rid, true)?.1.get_values();
+        for index in indexes.iter() {
+            let mut index = index.write();
+            let key_attr = index.get_metadata().get_key_attrs().first().copied();
+            if let Some(key) = key_attr.and_then(|attr| values.get(attr)) {
+                index.insert(key.clone(), rid);
+            }
+        }
+        Ok(())
+    }
+
     /// Serializes the read-check-replace steps of transactional writers.
     pub fn acquire_tuple_write_latch(&self) -> MutexGuard<'_, ()> {
         self.write_latch.lock()
@@ -1589,6 +1617,7 @@ impl Clone for TableHeap {
             table_oid: self.table_oid,
             latch: RwLock::new(()),
             write_latch: Mutex::new(()),
+            indexes: RwLock::new(self.indexes.read().clone()),
         }
     }
 }
diff --git a/src/storage/table/transactional_table_heap.rs b/src/storage/table/transactional_table_heap.rs
index 347ad19..1d378cd 100644
--- a/src/storage/table/transactional_table_heap.rs
+++ b/src/storage/table/transactional_table_heap.rs
@@ -291,6 +291,11 @@ impl TransactionalTableHeap {
         self.table_heap.clone()
     }
 
+    /// Enters a row just written into the indexes on the table.
+    pub(crate) fn index_row(&self, rid: RID) -> Result<(), String> {
+        self.table_heap.index_row(rid)
+    }
+
     pub fn rollback_tuple(
         &self,
         meta: Arc<TupleMeta>,
@@ -970,6 +975,7 @@ impl TransactionalTableHeap {
                 // Insert tuple and collect page info for batching
                 match self.insert_tuple(meta, &tuple, txn_context.clone()) {
                     Ok(rid) => {
+                        self.index_row(rid)?;
                         successful_inserts += 1;
 
                         // Collect page ID for potential batch flushing
-- 
2.43.0


From e20afb7e8895b21fa686ca41e3fe57159c36db98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:11 +0000
Subject: [PATCH 078/120] fix: a new index holds every version of a row open
 transactions may read, and rows by the first of several columns

---
 src/catalog/database.rs          | 92 +++++++++++++++++---------------
 src/storage/index/b_plus_tree.rs |  6 ++-
 2 files changed, 54 insertions(+), 44 deletions(-)

diff --git a/src/catalog/database.rs b/src/catalog/database.rs
index a1089e9..6474cae 100644
--- a/src/catalog/database.rs
+++ b/src/catalog/database.rs
@@ -220,12 +220,15 @@ use crate::buffer::buffer_pool_manager_async::BufferPoolManager;
 use crate::catalog::column::Column;
 use crate::catalog::schema::Schema;
 use crate::catalog::system_catalog::SYS_COLUMNS_OID;
-use crate::common::config::{DataBaseOid, IndexOidT, TableOidT};
+use crate::common::config::{DataBaseOid, INVALID_PAGE_ID, IndexOidT, TableOidT};
+use crate::common::rid::RID;
+use crate::concurrency::transaction::UndoLink;
 use crate::concurrency::transaction_manager::TransactionManager;
 use crate::storage::index::b_plus_tree::BPlusTree;
 use crate::storage::index::{IndexInfo, IndexType};
 use crate::storage::table::table_heap::{TableHeap, TableInfo};
 use crate::storage::table::transactional_table_heap::TransactionalTableHeap;
+use crate::types_db::value::Value;
 
 /// A static atomic counter for generating unique database IDs
 static NEXT_DATABASE_ID: AtomicU64 = AtomicU64::new(0);
@@ -631,64 +634,69 @@ impl Database {
         self.table_names.keys().cloned().collect()
     }
 
-    /// Populates a newly created index with existing data from the table
+    /// Populates a newly created index with existing data from the table: every version of every
+    /// row, deleted ones too, as open transactions may read or bring back any of them.
     fn populate_index_with_existing_data(
         &self,
         index: &Arc<RwLock<BPlusTree>>,
         index_info: &Arc<IndexInfo>,
         table_info: &Arc<TableInfo>,
     ) {
-        use log::debug;
-
-        use crate::storage::table::table_iterator::TableScanIterator;
-
-        debug!(
+        log::debug!(
             "Populating index '{}' with existing table data",
             index_info.get_index_name()
         );
 
-        let key_attrs = index_info.get_key_attrs();
-
-        // Create a table scan iterator to scan through all tuples
-        let mut iterator = TableScanIterator::new(table_info.clone());
+        // An index on several columns is ordered by the first
+        let Some(&key_attr) = index_info.get_key_attrs().first() else {
+            return;
+        };
 
         let mut entry_count = 0;
-
-        // Iterate through all tuples in the table
-        while let Some((_meta, tuple)) = iterator.next() {
-            let rid = iterator.get_rid();
-
-            // Extract key values for the index
-            let mut key_values = Vec::new();
-            let tuple_values = tuple.get_values();
-
-            for &col_idx in key_attrs {
-                if col_idx < tuple_values.len() {
-                    key_values.push(tuple_values[col_idx].clone());
-                }
-            }
-
-            // For single-column indexes, use the value directly
-            if key_values.len() == 1 {
-                let key_value = key_values[0].clone();
-
-                // Insert into B+ tree
-                let mut btree_write = index.write();
-                btree_write.insert(key_value, rid);
+        let mut enter = |values: Vec<Value>, rid: RID| {
+            if let Some(key) = values.into_iter().nth(key_attr)
+                && index.write().insert(key, rid)
+            {
                 entry_count += 1;
+            }
+        };
 
-                debug!(
-                    "Inserted index entry for key: {:?}, RID: {:?}",
-                    key_values[0], rid
-                );
-            } else if key_values.len() > 1 {
-                // For composite keys, we would need to handle this differently
-                // For now, we'll skip composite keys
-                log::warn!("Composite key index population not yet implemented");
+        let heap = table_info.get_table_heap();
+        let mut page_id = heap.get_first_page_id();
+        while page_id != INVALID_PAGE_ID {
+            let Ok(page_guard) = heap.get_page(page_id) else {
+                log::error!("Cannot read page {} to index it", page_id);
+                break;
+            };
+            let (tuple_count, next_page_id) = {
+                let page = page_guard.read();
+                (page.get_num_tuples(), page.get_next_page_id())
+            };
+            drop(page_guard);
+
+            for slot in 0..tuple_count {
+                let rid = RID::new(page_id, slot as u32);
+                let Ok((meta, tuple)) = heap.get_tuple_internal(rid, true) else {
+                    continue;
+                };
+                enter(tuple.get_values(), rid);
+
+                let undo_log_idx = meta.try_get_undo_log_idx_opt().ok().flatten();
+                let mut version = undo_log_idx.map(|prev_log_idx| UndoLink {
+                    prev_txn: meta.get_creator_txn_id(),
+                    prev_log_idx,
+                });
+                while let Some(link) = version.filter(|link| link.prev_log_idx != usize::MAX)
+                    && let Some(undo_log) = self.txn_manager.get_undo_log_optional(link)
+                {
+                    enter(undo_log.tuple.get_values(), rid);
+                    version = Some(undo_log.prev_version.clone());
+                }
             }
+            page_id = next_page_id;
         }
 
-        debug!(
+        log::debug!(
             "Successfully populated index '{}' with {} entries",
             index_info.get_index_name(),
             entry_count
diff --git a/src/storage/index/b_plus_tree.rs b/src/storage/index/b_plus_tree.rs
index 0a4d13b..fbdaac7 100644
--- a/src/storage/index/b_plus_tree.rs
+++ b/src/storage/index/b_plus_tree.rs
@@ -1117,7 +1117,9 @@ impl BPlusTree {
 
     fn extract_key(&self, tuple: &Tuple) -> Value {
         let key_attrs = self.metadata.get_key_attrs();
-        assert_eq!(key_attrs.len(), 1, "Only single key indices are supported");
+        assert!(!key_attrs.is_empty(), "An index has a key");
+        // An index on several columns is ordered by the first
+        let key_attrs = &key_attrs[..1];
         // Use checked extraction so mismatched tuple shapes fail loudly and with context.
         tuple
             .keys_from_tuple_checked(key_attrs)
@@ -1129,7 +1131,7 @@ impl BPlusTree {
             })
             .into_iter()
             .next()
-            .expect("key_attrs.len()==1 implies exactly one key value")
+            .expect("one key attribute implies exactly one key value")
     }
 }
 
-- 
2.43.0


From d7d69df8bf9408ee1b184f571469be2c2e4a6d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:42 +0000
Subject: [PATCH 079/120] fix: splitting a hash bucket puts each entry where
 lookups go, buckets at higher indexes lost theirs

---
 src/container/disk_extendable_hash_table.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/container/disk_extendable_hash_table.rs b/src/container/disk_extendable_hash_table.rs
index 1e2e4ea..9550ec9 100644
--- a/src/container/disk_extendable_hash_table.rs
+++ b/src/container/disk_extendable_hash_table.rs
@@ -678,15 +678,13 @@ impl DiskExtendableHashTable {
                 let entries = old_bucket.get_all_entries();
                 old_bucket.clear();
 
-                // Redistribute entries based on the new local depth
-                let new_local_depth = directory.get_local_depth(bucket_index as u32);
-                let mask = (1 << new_local_depth) - 1;
+                // The directory gave the new bucket the indexes with this bit set
+                let distinguishing_bit = 1 << local_depth;
 
                 for (key, value) in entries {
                     let hash = self.hash_fn.get_hash(&key) as u32;
-                    let target_bucket_index = hash & mask;
 
-                    if target_bucket_index == bucket_index as u32 {
+                    if hash & distinguishing_bit == 0 {
                         old_bucket.insert(key, value);
                     } else {
                         new_bucket.insert(key, value);
-- 
2.43.0


From 2234d2e4e3315d2e1eee7ca587289120af9a18ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:42 +0000
Subject: [PATCH 080/120] fix: merging an empty hash bucket removes that
 bucket, its sibling's page was deleted with all entries

---
 src/container/disk_extendable_hash_table.rs              | 2 ++
 .../page_types/extendable_hash_table_directory_page.rs   | 9 +++++----
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/container/disk_extendable_hash_table.rs b/src/container/disk_extendable_hash_table.rs
index 9550ec9..db582b7 100644
--- a/src/container/disk_extendable_hash_table.rs
+++ b/src/container/disk_extendable_hash_table.rs
@@ -540,6 +540,8 @@ impl DiskExtendableHashTable {
         // If removal was successful and bucket is empty, try to merge
         if removed {
             let is_empty = bucket_page.read().is_empty();
+            // A pinned page cannot be deleted
+            drop(bucket_page);
             if is_empty {
                 self.merge_bucket(directory_index, bucket_index);
             }
diff --git a/src/storage/page/page_types/extendable_hash_table_directory_page.rs b/src/storage/page/page_types/extendable_hash_table_directory_page.rs
index 7988c4c..34ec9e1 100644
--- a/src/storage/page/page_types/extendable_hash_table_directory_page.rs
+++ b/src/storage/page/page_types/extendable_hash_table_directory_page.rs
@@ -629,19 +629,20 @@ impl ExtendableHTableDirectoryPage {
             return None;
         }
 
+        let removed_page_id = self.get_bucket_page_id(bucket_index)?;
         let buddy_page_id = self.get_bucket_page_id(buddy_bucket_index)?;
 
-        // Update all entries pointing to this bucket to point to buddy
-        let mask = (1 << local_depth) - 1;
+        // Update all entries pointing to this bucket or to its buddy
+        let mask = (1 << (local_depth - 1)) - 1;
         for i in 0..(1 << self.get_global_depth()) {
-            if (i & mask) == bucket_index {
+            if (i & mask) == (bucket_index & mask) {
                 self.set_bucket_page_id(i, buddy_page_id);
                 self.set_local_depth(i, local_depth - 1);
             }
         }
 
         // Return the page ID of the bucket being removed
-        self.get_bucket_page_id(bucket_index)
+        Some(removed_page_id)
     }
 
     // Helper method to find the correct bucket index for a given page ID
-- 
2.43.0


From 8f7076201963accf90aa23e5f496ad22074e309d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:22 +0000
Subject: [PATCH 081/120] fix: a hash index finds and deletes each of several
 rows with one key, it knew only the first

---
 src/container/disk_extendable_hash_table.rs   | 25 +++++++++++++++++--
 .../index/extendable_hash_table_index.rs      | 18 ++++++-------
 .../extendable_hash_table_bucket_page.rs      | 25 +++++++++++++++++++
 3 files changed, 57 insertions(+), 11 deletions(-)

diff --git a/src/container/disk_extendable_hash_table.rs b/src/container/disk_extendable_hash_table.rs
index db582b7..d6f5a81 100644
--- a/src/container/disk_extendable_hash_table.rs
+++ b/src/container/disk_extendable_hash_table.rs
@@ -454,6 +454,15 @@ impl DiskExtendableHashTable {
     /// Average case O(1) with low load factor. Bucket lookup is O(n) where n
     /// is the number of entries in the bucket.
     pub fn get_value(&self, key: &Value) -> Option<RID> {
+        self.get_values(key).into_iter().next()
+    }
+
+    /// Returns all values of a key, in the order of their insertion into its bucket.
+    pub fn get_values(&self, key: &Value) -> Vec<RID> {
+        self.find_values(key).unwrap_or_default()
+    }
+
+    fn find_values(&self, key: &Value) -> Option<Vec<RID>> {
         debug!("Get value called for key: {:?}", key);
         let hash = self.hash_fn.get_hash(key) as u32;
         debug!("Computed hash: {} for key: {:?}", hash, key);
@@ -477,7 +486,7 @@ impl DiskExtendableHashTable {
         // Get bucket and lookup key
         let bucket_page = self.get_bucket_page(directory_index, bucket_index)?;
         let bucket = bucket_page.read();
-        bucket.lookup(key)
+        Some(bucket.lookup_all(key))
     }
 
     /// Removes a key-value pair from the hash table.
@@ -498,6 +507,15 @@ impl DiskExtendableHashTable {
     ///
     /// For non-unique keys, this removes only the first matching entry.
     pub fn remove(&mut self, key: &Value) -> bool {
+        self.remove_matching(key, None)
+    }
+
+    /// Removes the entry of a key with the given value.
+    pub fn remove_entry(&mut self, key: &Value, value: RID) -> bool {
+        self.remove_matching(key, Some(value))
+    }
+
+    fn remove_matching(&mut self, key: &Value, value: Option<RID>) -> bool {
         debug!("Remove called for key: {:?}", key);
         let hash = self.hash_fn.get_hash(key) as u32;
 
@@ -534,7 +552,10 @@ impl DiskExtendableHashTable {
 
         let removed = {
             let mut bucket = bucket_page.write();
-            bucket.remove(key)
+            match value {
+                Some(value) => bucket.remove_entry(key, value),
+                None => bucket.remove(key),
+            }
         };
 
         // If removal was successful and bucket is empty, try to merge
diff --git a/src/storage/index/extendable_hash_table_index.rs b/src/storage/index/extendable_hash_table_index.rs
index 5492a78..4b10b2a 100644
--- a/src/storage/index/extendable_hash_table_index.rs
+++ b/src/storage/index/extendable_hash_table_index.rs
@@ -196,7 +196,7 @@ impl Index for ExtendableHashTableIndex {
         self.container.lock().insert(key, rid)
     }
 
-    fn delete_entry(&self, tuple: &Tuple, _rid: RID, _transaction: &Transaction) -> bool {
+    fn delete_entry(&self, tuple: &Tuple, rid: RID, _transaction: &Transaction) -> bool {
         let key = match self.extract_key_value(tuple) {
             Ok(k) => k,
             Err(e) => {
@@ -204,7 +204,7 @@ impl Index for ExtendableHashTableIndex {
                 return false;
             },
         };
-        self.container.lock().remove(&key)
+        self.container.lock().remove_entry(&key, rid)
     }
 
     fn scan_key(
@@ -213,8 +213,8 @@ impl Index for ExtendableHashTableIndex {
         _transaction: &Transaction,
     ) -> Result<Vec<(Value, RID)>, String> {
         let key = self.extract_key_value(key_tuple)?;
-        let rid_opt = self.container.lock().get_value(&key);
-        Ok(rid_opt.map(|rid| vec![(key, rid)]).unwrap_or_default())
+        let rids = self.container.lock().get_values(&key);
+        Ok(rids.into_iter().map(|rid| (key.clone(), rid)).collect())
     }
 
     fn create_iterator(&self, start_key: Option<Tuple>, end_key: Option<Tuple>) -> IndexIterator {
@@ -231,11 +231,11 @@ impl Index for ExtendableHashTableIndex {
         let start_end = Arc::new(key.clone());
         let tree_arc = Arc::new(RwLock::new(BPlusTree::new(4, Arc::clone(&self.metadata))));
 
-        // Populate a temporary B+ tree with at most one entry so we can reuse IndexIterator.
-        if let Ok(k) = self.extract_key_value(key)
-            && let Some(rid) = self.container.lock().get_value(&k)
-        {
-            let _ = tree_arc.write().insert(k, rid);
+        // Populate a temporary B+ tree with the key's entries so we can reuse IndexIterator.
+        if let Ok(k) = self.extract_key_value(key) {
+            for rid in self.container.lock().get_values(&k) {
+                let _ = tree_arc.write().insert(k.clone(), rid);
+            }
         }
 
         IndexIterator::new(tree_arc, Some(start_end.clone()), Some(start_end))
diff --git a/src/storage/page/page_types/extendable_hash_table_bucket_page.rs b/src/storage/page/page_types/extendable_hash_table_bucket_page.rs
index 834ef11..70f9b1d 100644
--- a/src/storage/page/page_types/extendable_hash_table_bucket_page.rs
+++ b/src/storage/page/page_types/extendable_hash_table_bucket_page.rs
@@ -97,6 +97,31 @@ impl ExtendableHTableBucketPage {
         }
     }
 
+    /// Removes the entry with this key and value.
+    pub fn remove_entry(&mut self, key: &Value, value: RID) -> bool {
+        if let Some(pos) = self
+            .entries
+            .iter()
+            .position(|(k, rid)| k == key && *rid == value)
+        {
+            self.entries.remove(pos);
+            self.size -= 1;
+            self.is_dirty = true;
+            true
+        } else {
+            false
+        }
+    }
+
+    /// Returns the values of all entries with this key.
+    pub fn lookup_all(&self, key: &Value) -> Vec<RID> {
+        self.entries
+            .iter()
+            .filter(|(k, _)| k == key)
+            .map(|(_, rid)| *rid)
+            .collect()
+    }
+
     pub fn lookup(&self, key: &Value) -> Option<RID> {
         self.entries
             .iter()
-- 
2.43.0


From 7c7b6b7ce524fd2661721a267031b51d94fdef31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:21 +0000
Subject: [PATCH 082/120] fix: a reopened table appends behind its last page,
 inserting cut off the pages in between

---
 src/storage/table/table_heap.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/storage/table/table_heap.rs b/src/storage/table/table_heap.rs
index fc7bc97..5e97bf3 100644
--- a/src/storage/table/table_heap.rs
+++ b/src/storage/table/table_heap.rs
@@ -368,7 +368,7 @@ impl TableHeap {
             last_page_id
         };
 
-        Self {
+        let heap = Self {
             bpm,
             first_page_id: RwLock::new(first_page_id),
             last_page_id: RwLock::new(resolved_last),
@@ -376,7 +376,15 @@ impl TableHeap {
             latch: RwLock::new(()),
             write_latch: Mutex::new(()),
             indexes: RwLock::new(Vec::new()),
+        };
+
+        // The table may have grown since its last page was recorded
+        let mut last = resolved_last;
+        while last != INVALID_PAGE_ID {
+            *heap.last_page_id.write() = last;
+            last = heap.get_next_page_id(last);
         }
+        heap
     }
 
     /// Inserts a tuple into the table. If the tuple is too large (>= page_size), returns `None`.
-- 
2.43.0


From 81db50560daa185d18f0a422d7a6985ed3098c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:21 +0000
Subject: [PATCH 083/120] fix: tables loaded from the catalog take part in
 commits and aborts, and open ones are not replaced

---
 src/catalog/database.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/catalog/database.rs b/src/catalog/database.rs
index 6474cae..af06842 100644
--- a/src/catalog/database.rs
+++ b/src/catalog/database.rs
@@ -589,6 +589,15 @@ impl Database {
         for table in tables {
             let oid = table.get_table_oidt();
             self.next_table_oid = self.next_table_oid.max(oid + 1);
+            // A table already open keeps its heap, with its indexes
+            if self.tables.contains_key(&oid) {
+                continue;
+            }
+            self.txn_manager
+                .register_table(Arc::new(TransactionalTableHeap::new(
+                    table.get_table_heap(),
+                    oid,
+                )));
             self.table_names
                 .insert(table.get_table_name().to_string(), oid);
             self.tables.insert(oid, table);
-- 
2.43.0


From 20db0cbc379d41f8dfbd70e4e95293b4647bad15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:21 +0000
Subject: [PATCH 084/120] fix: saving the catalog keeps the tables of earlier
 sessions, it wrote only those created since the start

---
 src/catalog/catalog_impl.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/catalog/catalog_impl.rs b/src/catalog/catalog_impl.rs
index cd891f5..01452c2 100644
--- a/src/catalog/catalog_impl.rs
+++ b/src/catalog/catalog_impl.rs
@@ -673,6 +673,7 @@ impl Catalog {
                 }
                 if let Some(info) = self.row_to_table_info(&row) {
                     rebuilt.push(info);
+                    rows.push(row);
                 }
             }
         }
@@ -684,6 +685,11 @@ impl Catalog {
                     continue;
                 }
 
+                // In the snapshot already
+                if rows.iter().any(|r| r.table_oid == row.table_oid) {
+                    continue;
+                }
+
                 if let Some(info) = self.row_to_table_info(&row) {
                     rebuilt.push(info);
                     rows.push(row);
-- 
2.43.0


From f7e214f60e10da9b812bd927fb56b61f3f5aac59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:21 +0000
Subject: [PATCH 085/120] fix: tables of different databases get different
 OIDs, transactions and locks know a table by its OID alone

---
 src/catalog/database.rs                | 4 ++++
 src/concurrency/transaction_manager.rs | 9 +++++++++
 2 files changed, 13 insertions(+)

diff --git a/src/catalog/database.rs b/src/catalog/database.rs
index af06842..70097e4 100644
--- a/src/catalog/database.rs
+++ b/src/catalog/database.rs
@@ -385,6 +385,10 @@ impl Database {
             return None;
         }
 
+        // Transactions and locks know tables by OID alone, whatever their database
+        while self.txn_manager.is_registered(self.next_table_oid) {
+            self.next_table_oid += 1;
+        }
         let table_oid = self.next_table_oid;
         let table_heap = Arc::new(TableHeap::new(self.bpm.clone(), table_oid));
 
diff --git a/src/concurrency/transaction_manager.rs b/src/concurrency/transaction_manager.rs
index b9b7bc4..c7963a9 100644
--- a/src/concurrency/transaction_manager.rs
+++ b/src/concurrency/transaction_manager.rs
@@ -1096,6 +1096,15 @@ impl TransactionManager {
         table_heaps.insert(table_heap.get_table_oid(), table_heap);
     }
 
+    /// Whether a table is registered under the OID.
+    ///
+    /// # Parameters
+    ///
+    /// - `table_oid`: The table OID to look up.
+    pub fn is_registered(&self, table_oid: TableOidT) -> bool {
+        self.state.table_heaps.read().contains_key(&table_oid)
+    }
+
     /// Gets a registered table heap by its OID.
     ///
     /// # Parameters
-- 
2.43.0


From 3bc1118e9712eb03a962ea35451da7454fe1d402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:31 +0000
Subject: [PATCH 086/120] fix: a plan with a child that cannot be converted is
 an error, not an endless loop

---
 src/sql/planner/logical_plan.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/sql/planner/logical_plan.rs b/src/sql/planner/logical_plan.rs
index e149826..477a355 100644
--- a/src/sql/planner/logical_plan.rs
+++ b/src/sql/planner/logical_plan.rs
@@ -2911,9 +2911,6 @@ impl<'a> PlanConverter<'a> {
             if !self.results.contains_key(&child_id) {
                 all_children_processed = false;
                 break;
-            } else if let Some(Err(_)) = self.results.get(&child_id) {
-                all_children_processed = false;
-                break;
             }
         }
 
@@ -2996,6 +2993,14 @@ impl<'a> PlanConverter<'a> {
     /// - `Ok(PlanNode)` - The corresponding physical plan node
     /// - `Err(String)` - An error if conversion fails
     fn convert_node(&self, node: &'a LogicalPlan) -> Result<PlanNode, String> {
+        // A node whose child cannot be converted cannot be converted either
+        for child in &node.children {
+            let child_id = ptr::addr_of!(**child) as usize;
+            if let Some(Err(e)) = self.results.get(&child_id) {
+                return Err(e.clone());
+            }
+        }
+
         let child_plans = self.get_child_plans(node);
 
         match &node.plan_type {
-- 
2.43.0


From eb0b1c7f86043fec68be8284deab26620e99c518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:22 +0000
Subject: [PATCH 087/120] fix: join keys of the right side refer to its own
 columns, operands come in either order

---
 src/sql/planner/logical_plan.rs | 92 ++++++++++++++++++++++++++++++---
 1 file changed, 84 insertions(+), 8 deletions(-)

diff --git a/src/sql/planner/logical_plan.rs b/src/sql/planner/logical_plan.rs
index 477a355..51a9479 100644
--- a/src/sql/planner/logical_plan.rs
+++ b/src/sql/planner/logical_plan.rs
@@ -2314,8 +2314,8 @@ impl LogicalPlan {
                 };
 
                 // Extract table names/aliases from the schemas
-                let left_alias = extract_table_alias_from_schema(&left_child_schema).unwrap();
-                let right_alias = extract_table_alias_from_schema(&right_child_schema).unwrap();
+                let left_alias = extract_table_alias_from_schema(&left_child_schema);
+                let right_alias = extract_table_alias_from_schema(&right_child_schema);
 
                 debug!(
                     "Merging schemas in get_schema with aliases: left={:?}, right={:?}",
@@ -3178,7 +3178,7 @@ impl<'a> PlanConverter<'a> {
                 } else {
                     // Extract join key expressions and fixed predicate from the original predicate
                     let (left_keys, right_keys, fixed_predicate) =
-                        match extract_join_keys(predicate) {
+                        match join_keys(predicate, left_schema) {
                             Ok((l, r, p)) => (l, r, p),
                             Err(e) => return Err(format!("Failed to extract join keys: {}", e)),
                         };
@@ -3206,7 +3206,7 @@ impl<'a> PlanConverter<'a> {
                 } else {
                     // Extract join key expressions and fixed predicate from the original predicate
                     let (left_keys, right_keys, fixed_predicate) =
-                        match extract_join_keys(predicate) {
+                        match join_keys(predicate, left_schema) {
                             Ok((l, r, p)) => (l, r, p),
                             Err(e) => return Err(format!("Failed to extract join keys: {}", e)),
                         };
@@ -3234,7 +3234,7 @@ impl<'a> PlanConverter<'a> {
                 } else {
                     // Extract join key expressions and fixed predicate from the original predicate
                     let (left_keys, right_keys, fixed_predicate) =
-                        match extract_join_keys(predicate) {
+                        match join_keys(predicate, left_schema) {
                             Ok((l, r, p)) => (l, r, p),
                             Err(e) => return Err(format!("Failed to extract join keys: {}", e)),
                         };
@@ -3595,6 +3595,82 @@ impl Display for LogicalPlan {
     }
 }
 
+/// Join keys of a predicate over the columns of the left child followed by those of the right one.
+///
+/// The operands of an equality may come in either order. The keys of the right side refer to the
+/// columns of the right child alone, which is what the executors evaluate them on.
+fn join_keys(
+    predicate: &Arc<Expression>,
+    left_schema: &Schema,
+) -> Result<JoinKeys, String> {
+    let left_columns = left_schema.get_column_count() as usize;
+    let (left_keys, right_keys, predicate) =
+        extract_join_keys(&left_operand_first(predicate, left_columns))?;
+    let right_keys = right_keys
+        .into_iter()
+        .map(|key| match key.as_ref() {
+            Expression::ColumnRef(column) if column.get_column_index() >= left_columns => {
+                Arc::new(Expression::ColumnRef(ColumnRefExpression::new(
+                    column.get_tuple_index(),
+                    column.get_column_index() - left_columns,
+                    column.get_return_type().clone(),
+                    vec![],
+                )))
+            },
+            _ => key,
+        })
+        .collect();
+    Ok((left_keys, right_keys, predicate))
+}
+
+/// Turns equalities written as `right = left` into `left = right`.
+fn left_operand_first(predicate: &Arc<Expression>, left_columns: usize) -> Arc<Expression> {
+    match predicate.as_ref() {
+        Expression::Comparison(comparison)
+            if comparison.get_comp_type() == ComparisonType::Equal
+                && comparison.get_children().len() == 2 =>
+        {
+            let children = comparison.get_children();
+            let is_right = |e: &Arc<Expression>| match e.as_ref() {
+                Expression::ColumnRef(c) => {
+                    Some(c.get_tuple_index() == 1 || c.get_column_index() >= left_columns)
+                },
+                _ => None,
+            };
+            if is_right(&children[0]) == Some(true) && is_right(&children[1]) == Some(false) {
+                let (left, right) = (children[1].clone(), children[0].clone());
+                return Arc::new(Expression::Comparison(ComparisonExpression::new(
+                    left.clone(),
+                    right.clone(),
+                    ComparisonType::Equal,
+                    vec![left, right],
+                )));
+            }
+            predicate.clone()
+        },
+        Expression::Logic(logic) if logic.get_logic_type() == LogicType::And => {
+            let children: Vec<_> = logic
+                .get_children()
+                .iter()
+                .map(|child| left_operand_first(child, left_columns))
+                .collect();
+            match children.as_slice() {
+                [left, right] => Arc::new(Expression::Logic(LogicExpression::new(
+                    left.clone(),
+                    right.clone(),
+                    LogicType::And,
+                    children.clone(),
+                ))),
+                _ => predicate.clone(),
+            }
+        },
+        _ => predicate.clone(),
+    }
+}
+
+/// Left keys, right keys and the predicate with the tuple index of either side.
+type JoinKeys = (Vec<Arc<Expression>>, Vec<Arc<Expression>>, Arc<Expression>);
+
 /// Extracts and normalizes join key expressions from a join predicate.
 ///
 /// This function analyzes a join predicate (typically from an ON clause) and:
@@ -3730,10 +3806,10 @@ fn extract_join_keys(
 
                     // Step 2.2.4: Combine the fixed predicates with AND
                     let combined_predicate = Arc::new(Expression::Logic(LogicExpression::new(
-                        fixed_pred1,
-                        fixed_pred2,
+                        fixed_pred1.clone(),
+                        fixed_pred2.clone(),
                         LogicType::And,
-                        children.clone(),
+                        vec![fixed_pred1, fixed_pred2],
                     )));
 
                     Ok((left_keys, right_keys, combined_predicate))
-- 
2.43.0


From c8db2b188c6f3362a628ce115d3114d2458dada6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:00 +0000
Subject: [PATCH 088/120] fix: a filter keeps its schema and table through the
 optimizer

---
 src/sql/optimizer/optimizer_impl.rs | 87 +++++++++--------------------
 1 file changed, 26 insertions(+), 61 deletions(-)

diff --git a/src/sql/optimizer/optimizer_impl.rs b/src/sql/optimizer/optimizer_impl.rs
index aad5634..f777894 100644
--- a/src/sql/optimizer/optimizer_impl.rs
+++ b/src/sql/optimizer/optimizer_impl.rs
@@ -802,16 +802,10 @@ impl Optimizer {
     /// The rewritten plan with optimizations applied.
     fn apply_rewrite_rules(&self, mut plan: Box<LogicalPlan>) -> Result<Box<LogicalPlan>, DBError> {
         match &plan.plan_type {
-            LogicalPlanType::Filter {
-                schema: _,
-                output_schema: _,
-                table_oid: _,
-                table_name: _,
-                predicate,
-            } => {
+            LogicalPlanType::Filter { .. } => {
                 // Push down filter predicates
                 if let Some(child) = plan.children.pop() {
-                    self.push_down_predicate(predicate.clone(), child)
+                    self.push_down_predicate(plan, child)
                 } else {
                     Ok(plan)
                 }
@@ -1002,71 +996,42 @@ impl Optimizer {
     ///
     /// # Arguments
     ///
-    /// * `predicate` - The filter predicate to push down
-    /// * `child` - The child plan to push the predicate into
+    /// * `filter` - The filter node (without its child)
+    /// * `child` - The child plan to put it above
     ///
     /// # Returns
     ///
     /// A new plan with the predicate pushed as close to the source as possible.
     fn push_down_predicate(
         &self,
-        predicate: Arc<Expression>,
+        mut filter: Box<LogicalPlan>,
         child: Box<LogicalPlan>,
     ) -> Result<Box<LogicalPlan>, DBError> {
-        match child.plan_type {
-            LogicalPlanType::TableScan { .. } => {
-                // Create a new filter node above the scan
-                Ok(Box::new(LogicalPlan::new(
-                    LogicalPlanType::Filter {
-                        schema: Default::default(),
-                        output_schema: Default::default(),
-                        table_oid: 0,
-                        table_name: "".to_string(),
-                        predicate,
-                    },
-                    vec![child],
-                )))
-            },
+        if let (
+            LogicalPlanType::Filter { predicate, .. },
             LogicalPlanType::Filter {
-                schema: _,
-                output_schema: _,
-                table_oid: _,
-                table_name: _,
                 predicate: existing_pred,
-            } => {
-                // Combine predicates using AND
-                let combined_pred = Arc::new(Expression::Logic(LogicExpression::new(
-                    predicate.clone(),
-                    existing_pred.clone(),
-                    LogicType::And,
-                    vec![],
-                )));
-                if let Some(grandchild) = child.children.first() {
-                    self.push_down_predicate(combined_pred, grandchild.clone())
-                } else {
-                    Ok(Box::new(LogicalPlan::new(
-                        LogicalPlanType::Filter {
-                            schema: Default::default(),
-                            output_schema: Default::default(),
-                            table_oid: 0,
-                            table_name: "".to_string(),
-                            predicate: combined_pred,
-                        },
-                        vec![],
-                    )))
-                }
+                ..
             },
-            _ => Ok(Box::new(LogicalPlan::new(
-                LogicalPlanType::Filter {
-                    schema: Default::default(),
-                    output_schema: Default::default(),
-                    table_oid: 0,
-                    table_name: "".to_string(),
-                    predicate,
-                },
-                vec![child],
-            ))),
+            Some(grandchild),
+        ) = (
+            &mut filter.plan_type,
+            &child.plan_type,
+            child.children.first(),
+        ) {
+            // Combine predicates using AND
+            *predicate = Arc::new(Expression::Logic(LogicExpression::new(
+                predicate.clone(),
+                existing_pred.clone(),
+                LogicType::And,
+                vec![predicate.clone(), existing_pred.clone()],
+            )));
+            return self.push_down_predicate(filter, grandchild.clone());
         }
+
+        // The filter keeps its schema and table above any other child
+        filter.children = vec![child];
+        Ok(filter)
     }
 
     /// Attempts to merge consecutive projection nodes.
-- 
2.43.0


From b8870a12cf00f4bf8b6a8ae34d65d6339c5396a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:20 +0000
Subject: [PATCH 089/120] fix: merging two projections keeps what the outer one
 selects

---
 src/sql/optimizer/optimizer_impl.rs | 80 ++++++++++++-----------------
 1 file changed, 33 insertions(+), 47 deletions(-)

diff --git a/src/sql/optimizer/optimizer_impl.rs b/src/sql/optimizer/optimizer_impl.rs
index f777894..7a24dc3 100644
--- a/src/sql/optimizer/optimizer_impl.rs
+++ b/src/sql/optimizer/optimizer_impl.rs
@@ -810,15 +810,11 @@ impl Optimizer {
                     Ok(plan)
                 }
             },
-            LogicalPlanType::Projection {
-                expressions,
-                schema: _,
-                column_mappings: _,
-            } => {
+            LogicalPlanType::Projection { .. } => {
                 // Combine consecutive projections
                 if let Some(child) = plan.children.pop() {
                     if let LogicalPlanType::Projection { .. } = child.plan_type {
-                        return self.merge_projections(expressions.clone(), child);
+                        return self.merge_projections(plan, child);
                     }
                     plan.children = vec![self.apply_rewrite_rules(child)?];
                     Ok(plan)
@@ -1042,7 +1038,7 @@ impl Optimizer {
     ///
     /// # Arguments
     ///
-    /// * `expressions` - Expressions from the outer projection
+    /// * `outer` - The outer projection (without its child)
     /// * `child` - The child plan (potentially another projection)
     ///
     /// # Returns
@@ -1051,52 +1047,42 @@ impl Optimizer {
     ///
     /// # Note
     ///
-    /// Full projection merging logic is TODO - currently returns the child as-is
-    /// if it's a projection.
+    /// Only outer projections that merely pick columns are merged.
     fn merge_projections(
         &self,
-        expressions: Vec<Arc<Expression>>,
+        mut outer: Box<LogicalPlan>,
         child: Box<LogicalPlan>,
     ) -> Result<Box<LogicalPlan>, DBError> {
-        if let LogicalPlanType::Projection { .. } = child.clone().plan_type {
-            // TODO: Implement projection merging logic
-            // This would involve rewriting the outer expressions in terms of the inner ones
-            Ok(child)
-        } else {
-            // Calculate column mappings
-            let input_schema = child.get_schema().unwrap();
-            let mut column_mappings = Vec::with_capacity(expressions.len());
-
-            for expr in &expressions {
-                if let Expression::ColumnRef(col_ref) = expr.as_ref() {
-                    let col_name = col_ref.get_return_type().get_name();
-
-                    // Try to find the column in the input schema
-                    let input_idx = input_schema
-                        .get_columns()
-                        .iter()
-                        .position(|c| c.get_name() == col_name)
-                        .unwrap_or(0); // Default to first column if not found
-
-                    column_mappings.push(input_idx);
-                } else {
-                    // For non-column references, use a placeholder mapping
-                    column_mappings.push(0);
-                }
+        if let (
+            LogicalPlanType::Projection {
+                expressions,
+                schema,
+                ..
+            },
+            LogicalPlanType::Projection {
+                expressions: inner, ..
+            },
+            Some(grandchild),
+        ) = (&outer.plan_type, &child.plan_type, child.children.first())
+        {
+            // An outer projection that only picks columns picks the inner expressions instead
+            let picked: Option<Vec<_>> = expressions
+                .iter()
+                .map(|expr| match expr.as_ref() {
+                    Expression::ColumnRef(col_ref) => {
+                        inner.get(col_ref.get_column_index()).cloned()
+                    },
+                    _ => None,
+                })
+                .collect();
+            if let Some(picked) = picked {
+                let merged = LogicalPlan::project(picked, schema.clone(), grandchild.clone());
+                return self.apply_rewrite_rules(merged);
             }
-
-            // TODO: Compute correct schema
-            let output_schema = Schema::new(vec![]);
-
-            Ok(Box::new(LogicalPlan::new(
-                LogicalPlanType::Projection {
-                    expressions,
-                    schema: output_schema,
-                    column_mappings,
-                },
-                vec![child],
-            )))
         }
+
+        outer.children = vec![self.apply_rewrite_rules(child)?];
+        Ok(outer)
     }
 
     /// Determines whether to convert a nested loop join to a hash join.
-- 
2.43.0


From ceeabf79f0a809c04cbb062b3bdb4f2112d4af04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:53 +0000
Subject: [PATCH 090/120] fix: the optimizer turns a limit over a sort into
 TopN, not a sort over a limit

---
 src/sql/optimizer/optimizer_impl.rs | 33 +++++++++++++++++------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/src/sql/optimizer/optimizer_impl.rs b/src/sql/optimizer/optimizer_impl.rs
index 7a24dc3..c2802d4 100644
--- a/src/sql/optimizer/optimizer_impl.rs
+++ b/src/sql/optimizer/optimizer_impl.rs
@@ -908,21 +908,26 @@ impl Optimizer {
         mut plan: Box<LogicalPlan>,
     ) -> Result<Box<LogicalPlan>, DBError> {
         match &plan.plan_type {
-            LogicalPlanType::Sort {
-                sort_specifications,
-                schema,
-            } => {
-                if let Some(child) = plan.children.pop() {
+            LogicalPlanType::Limit { limit, .. } if *limit > 0 => {
+                let limit = *limit;
+                if let Some(mut child) = plan.children.pop() {
                     // Look for opportunities to use TopN instead of Sort
-                    if let LogicalPlanType::Limit { limit, .. } = child.plan_type {
-                        return Ok(Box::new(LogicalPlan::new(
-                            LogicalPlanType::TopN {
-                                k: limit,
-                                sort_specifications: sort_specifications.clone(),
-                                schema: schema.clone(),
-                            },
-                            vec![self.optimize_sort_and_limit(child)?],
-                        )));
+                    if let LogicalPlanType::Sort {
+                        sort_specifications,
+                        schema,
+                    } = &child.plan_type
+                        && !sort_specifications.is_empty()
+                        && child.children.len() == 1
+                    {
+                        let (sort_specifications, schema) =
+                            (sort_specifications.clone(), schema.clone());
+                        let input = child.children.remove(0);
+                        return Ok(LogicalPlan::top_n(
+                            limit,
+                            sort_specifications,
+                            schema,
+                            self.optimize_sort_and_limit(input)?,
+                        ));
                     }
                     plan.children = vec![self.optimize_sort_and_limit(child)?];
                 }
-- 
2.43.0


From 44b42813653f2d9123ee44c43901975d6c0723a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:47 +0000
Subject: [PATCH 091/120] fix: TopN and TopNPerGroup honour ascending sort
 specifications

---
 src/sql/execution/executors/topn_executor.rs  | 23 +++++++++++-
 .../executors/topn_per_group_executor.rs      |  7 +++-
 .../execution/plans/topn_per_group_plan.rs    | 14 +++++++
 src/sql/execution/plans/topn_plan.rs          | 14 +++++++
 src/sql/planner/logical_plan.rs               | 37 ++++++++++++-------
 5 files changed, 79 insertions(+), 16 deletions(-)

diff --git a/src/sql/execution/executors/topn_executor.rs b/src/sql/execution/executors/topn_executor.rs
index 99b23a3..00ae042 100644
--- a/src/sql/execution/executors/topn_executor.rs
+++ b/src/sql/execution/executors/topn_executor.rs
@@ -36,10 +36,29 @@ pub(crate) fn compare_keys(left: &[Value], right: &[Value]) -> Ordering {
     Ordering::Equal
 }
 
+/// Compares like [`compare_keys`], with the keys that are marked ascending the other way round, so
+/// that the greatest row is the first one.
+pub(crate) fn compare_ranks(left: &[Value], right: &[Value], ascending: &[bool]) -> Ordering {
+    left.iter()
+        .zip(right.iter())
+        .enumerate()
+        .map(|(i, (a, b))| {
+            let ordering = compare_keys(std::slice::from_ref(a), std::slice::from_ref(b));
+            if ascending.get(i) == Some(&true) {
+                ordering.reverse()
+            } else {
+                ordering
+            }
+        })
+        .find(|ordering| *ordering != Ordering::Equal)
+        .unwrap_or(Ordering::Equal)
+}
+
 /// Wrapper type for tuple and sort keys to implement custom ordering
 #[derive(Eq)]
 struct TupleWithKeys {
     sort_keys: Vec<Value>,
+    ascending: Arc<[bool]>,
     tuple: Arc<Tuple>,
     rid: RID,
 }
@@ -58,7 +77,7 @@ impl PartialOrd for TupleWithKeys {
 
 impl Ord for TupleWithKeys {
     fn cmp(&self, other: &Self) -> Ordering {
-        compare_keys(&self.sort_keys, &other.sort_keys)
+        compare_ranks(&self.sort_keys, &other.sort_keys, &self.ascending)
     }
 }
 
@@ -122,6 +141,7 @@ impl AbstractExecutor for TopNExecutor {
         self.child.init();
 
         let k = self.plan.get_k();
+        let ascending: Arc<[bool]> = self.plan.get_ascending().into();
         debug!("TopN k value: {}", k);
 
         // Use min-heap to maintain top K elements
@@ -143,6 +163,7 @@ impl AbstractExecutor for TopNExecutor {
 
                     let tuple_with_keys = TupleWithKeys {
                         sort_keys,
+                        ascending: ascending.clone(),
                         tuple, // tuple is already Arc<Tuple>
                         rid,
                     };
diff --git a/src/sql/execution/executors/topn_per_group_executor.rs b/src/sql/execution/executors/topn_per_group_executor.rs
index 912e926..1250dec 100644
--- a/src/sql/execution/executors/topn_per_group_executor.rs
+++ b/src/sql/execution/executors/topn_per_group_executor.rs
@@ -10,7 +10,7 @@ use crate::common::exception::DBError;
 use crate::common::rid::RID;
 use crate::sql::execution::execution_context::ExecutionContext;
 use crate::sql::execution::executors::abstract_executor::AbstractExecutor;
-use crate::sql::execution::executors::topn_executor::compare_keys;
+use crate::sql::execution::executors::topn_executor::{compare_keys, compare_ranks};
 use crate::sql::execution::expressions::abstract_expression::ExpressionOps;
 use crate::sql::execution::plans::abstract_plan::AbstractPlanNode;
 use crate::sql::execution::plans::topn_per_group_plan::TopNPerGroupNode;
@@ -23,6 +23,7 @@ use crate::types_db::value::Value;
 #[derive(Eq, Clone)]
 struct TupleWithKeys {
     sort_keys: Vec<Value>,
+    ascending: Arc<[bool]>,
     tuple: Arc<Tuple>,
     rid: RID,
 }
@@ -41,7 +42,7 @@ impl PartialOrd for TupleWithKeys {
 
 impl Ord for TupleWithKeys {
     fn cmp(&self, other: &Self) -> Ordering {
-        compare_keys(&self.sort_keys, &other.sort_keys)
+        compare_ranks(&self.sort_keys, &other.sort_keys, &self.ascending)
     }
 }
 
@@ -129,6 +130,7 @@ impl AbstractExecutor for TopNPerGroupExecutor {
         self.child.init();
 
         let n = self.plan.get_n();
+        let ascending: Arc<[bool]> = self.plan.get_ascending().into();
         debug!("TopNPerGroup n value: {}", n);
 
         // Process all input tuples and maintain top N per group
@@ -153,6 +155,7 @@ impl AbstractExecutor for TopNPerGroupExecutor {
 
                     let tuple_with_keys = TupleWithKeys {
                         sort_keys,
+                        ascending: ascending.clone(),
                         tuple,
                         rid,
                     };
diff --git a/src/sql/execution/plans/topn_per_group_plan.rs b/src/sql/execution/plans/topn_per_group_plan.rs
index f6f9771..ad8b77c 100644
--- a/src/sql/execution/plans/topn_per_group_plan.rs
+++ b/src/sql/execution/plans/topn_per_group_plan.rs
@@ -5,6 +5,7 @@ use std::sync::Arc;
 use crate::catalog::schema::Schema;
 use crate::sql::execution::expressions::abstract_expression::Expression;
 use crate::sql::execution::plans::abstract_plan::{AbstractPlanNode, PlanNode, PlanType};
+use crate::sql::execution::plans::sort_plan::OrderDirection;
 
 /// Represents a plan node that returns the top N rows from each group
 /// For example: SELECT * FROM employees GROUP BY department ORDER BY salary DESC LIMIT 5
@@ -15,6 +16,7 @@ pub struct TopNPerGroupNode {
     n: usize,                                // number of rows to return per group
     sort_expressions: Vec<Arc<Expression>>,  // expressions to sort by
     group_expressions: Vec<Arc<Expression>>, // expressions to group by
+    directions: Vec<OrderDirection>,
     children: Vec<PlanNode>,
 }
 
@@ -31,10 +33,22 @@ impl TopNPerGroupNode {
             n,
             sort_expressions,
             group_expressions,
+            directions: Vec::new(),
             children,
         }
     }
 
+    /// Sets the direction of each sort expression; without one it is descending.
+    pub fn with_directions(mut self, directions: Vec<OrderDirection>) -> Self {
+        self.directions = directions;
+        self
+    }
+
+    /// Tells for each sort expression with a direction whether it is ascending.
+    pub fn get_ascending(&self) -> Vec<bool> {
+        self.directions.iter().map(|d| d.is_ascending()).collect()
+    }
+
     /// Get the number of rows to return per group
     pub fn get_n(&self) -> usize {
         self.n
diff --git a/src/sql/execution/plans/topn_plan.rs b/src/sql/execution/plans/topn_plan.rs
index 2896217..2514a55 100644
--- a/src/sql/execution/plans/topn_plan.rs
+++ b/src/sql/execution/plans/topn_plan.rs
@@ -5,12 +5,14 @@ use std::sync::Arc;
 use crate::catalog::schema::Schema;
 use crate::sql::execution::expressions::abstract_expression::Expression;
 use crate::sql::execution::plans::abstract_plan::{AbstractPlanNode, PlanNode, PlanType};
+use crate::sql::execution::plans::sort_plan::OrderDirection;
 
 #[derive(Debug, Clone, PartialEq)]
 pub struct TopNNode {
     output_schema: Schema,
     order_bys: Vec<Arc<Expression>>,
     k: usize,
+    directions: Vec<OrderDirection>,
     children: Vec<PlanNode>,
 }
 
@@ -25,9 +27,21 @@ impl TopNNode {
             output_schema,
             order_bys,
             k,
+            directions: Vec::new(),
             children,
         }
     }
+
+    /// Sets the direction of each sort expression; without one it is descending.
+    pub fn with_directions(mut self, directions: Vec<OrderDirection>) -> Self {
+        self.directions = directions;
+        self
+    }
+
+    /// Tells for each sort expression with a direction whether it is ascending.
+    pub fn get_ascending(&self) -> Vec<bool> {
+        self.directions.iter().map(|d| d.is_ascending()).collect()
+    }
     pub fn get_k(&self) -> usize {
         self.k
     }
diff --git a/src/sql/planner/logical_plan.rs b/src/sql/planner/logical_plan.rs
index 51a9479..7aa7290 100644
--- a/src/sql/planner/logical_plan.rs
+++ b/src/sql/planner/logical_plan.rs
@@ -3283,12 +3283,15 @@ impl<'a> PlanConverter<'a> {
                     .map(|spec| spec.get_expression().clone())
                     .collect();
 
-                Ok(PlanNode::TopN(TopNNode::new(
-                    schema.clone(),
-                    sort_expressions,
-                    *k,
-                    child_plans,
-                )))
+                let directions = sort_specifications
+                    .iter()
+                    .map(|spec| spec.get_direction())
+                    .collect();
+
+                Ok(PlanNode::TopN(
+                    TopNNode::new(schema.clone(), sort_expressions, *k, child_plans)
+                        .with_directions(directions),
+                ))
             },
 
             LogicalPlanType::TopNPerGroup {
@@ -3303,13 +3306,21 @@ impl<'a> PlanConverter<'a> {
                     .map(|spec| spec.get_expression().clone())
                     .collect();
 
-                Ok(PlanNode::TopNPerGroup(TopNPerGroupNode::new(
-                    *k,
-                    sort_expressions,
-                    groups.clone(),
-                    schema.clone(),
-                    child_plans,
-                )))
+                let directions = sort_specifications
+                    .iter()
+                    .map(|spec| spec.get_direction())
+                    .collect();
+
+                Ok(PlanNode::TopNPerGroup(
+                    TopNPerGroupNode::new(
+                        *k,
+                        sort_expressions,
+                        groups.clone(),
+                        schema.clone(),
+                        child_plans,
+                    )
+                    .with_directions(directions),
+                ))
             },
 
             LogicalPlanType::Window {
-- 
2.43.0


From c0e05bf75c9d368e9c45a338e7b92783612db2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:15 +0000
Subject: [PATCH 092/120] fix: a join condition on the columns of one side is
 refused, not misread

---
 src/sql/planner/logical_plan.rs | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/sql/planner/logical_plan.rs b/src/sql/planner/logical_plan.rs
index 7aa7290..5d21855 100644
--- a/src/sql/planner/logical_plan.rs
+++ b/src/sql/planner/logical_plan.rs
@@ -3616,7 +3616,7 @@ fn join_keys(
 ) -> Result<JoinKeys, String> {
     let left_columns = left_schema.get_column_count() as usize;
     let (left_keys, right_keys, predicate) =
-        extract_join_keys(&left_operand_first(predicate, left_columns))?;
+        extract_join_keys(&left_operand_first(predicate, left_columns)?)?;
     let right_keys = right_keys
         .into_iter()
         .map(|key| match key.as_ref() {
@@ -3635,7 +3635,10 @@ fn join_keys(
 }
 
 /// Turns equalities written as `right = left` into `left = right`.
-fn left_operand_first(predicate: &Arc<Expression>, left_columns: usize) -> Arc<Expression> {
+fn left_operand_first(
+    predicate: &Arc<Expression>,
+    left_columns: usize,
+) -> Result<Arc<Expression>, String> {
     match predicate.as_ref() {
         Expression::Comparison(comparison)
             if comparison.get_comp_type() == ComparisonType::Equal
@@ -3650,22 +3653,27 @@ fn left_operand_first(predicate: &Arc<Expression>, left_columns: usize) -> Arc<E
             };
             if is_right(&children[0]) == Some(true) && is_right(&children[1]) == Some(false) {
                 let (left, right) = (children[1].clone(), children[0].clone());
-                return Arc::new(Expression::Comparison(ComparisonExpression::new(
+                return Ok(Arc::new(Expression::Comparison(ComparisonExpression::new(
                     left.clone(),
                     right.clone(),
                     ComparisonType::Equal,
                     vec![left, right],
-                )));
+                ))));
+            }
+            if let (Some(left), Some(right)) = (is_right(&children[0]), is_right(&children[1]))
+                && left == right
+            {
+                return Err("Join predicate must compare the columns of both sides".to_string());
             }
-            predicate.clone()
+            Ok(predicate.clone())
         },
         Expression::Logic(logic) if logic.get_logic_type() == LogicType::And => {
             let children: Vec<_> = logic
                 .get_children()
                 .iter()
                 .map(|child| left_operand_first(child, left_columns))
-                .collect();
-            match children.as_slice() {
+                .collect::<Result<_, _>>()?;
+            Ok(match children.as_slice() {
                 [left, right] => Arc::new(Expression::Logic(LogicExpression::new(
                     left.clone(),
                     right.clone(),
@@ -3673,9 +3681,9 @@ fn left_operand_first(predicate: &Arc<Expression>, left_columns: usize) -> Arc<E
                     children.clone(),
                 ))),
                 _ => predicate.clone(),
-            }
+            })
         },
-        _ => predicate.clone(),
+        _ => Ok(predicate.clone()),
     }
 }
 
-- 
2.43.0


From 1ac6bdfdf623f6aea29e070a7c168dfed1aa31dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:19 +0000
Subject: [PATCH 093/120] fix: syncing the pool to disk writes out buffered
 pages first, a shutdown lost them

---
 src/buffer/buffer_pool_manager_async.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buffer/buffer_pool_manager_async.rs b/src/buffer/buffer_pool_manager_async.rs
index 16bf151..8567018 100644
--- a/src/buffer/buffer_pool_manager_async.rs
+++ b/src/buffer/buffer_pool_manager_async.rs
@@ -1583,7 +1583,7 @@ impl BufferPoolManager {
     /// durably persisted to storage. Use before shutdown or at checkpoints.
     pub async fn sync_to_disk(&self) -> Result<(), String> {
         self.disk_manager
-            .sync()
+            .force_flush_all()
             .await
             .map_err(|e| format!("Failed to sync to disk: {}", e))
     }
-- 
2.43.0


From ae63f473203a8cce4f97de93c1fc66a5688c3353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:48 +0000
Subject: [PATCH 094/120] fix: requests and responses are read whole, those
 over 1024 and 4096 bytes or sent in pieces failed

---
 src/client/client_impl.rs |  5 +--
 src/server/connection.rs  | 80 ++++++++++++++++++++++++++++-----------
 2 files changed, 58 insertions(+), 27 deletions(-)

diff --git a/src/client/client_impl.rs b/src/client/client_impl.rs
index 1f3fd08..f1b4cad 100644
--- a/src/client/client_impl.rs
+++ b/src/client/client_impl.rs
@@ -468,11 +468,8 @@ impl DatabaseClient {
                     debug!("[Network] Received {} bytes total", buffer.len());
                     return Ok(response);
                 },
+                Err(postcard::Error::DeserializeUnexpectedEnd) => continue,
                 Err(e) => {
-                    // We assume we need more data if decoding fails
-                    if buffer.len() < 4096 {
-                        continue;
-                    }
                     error!("[Network] Failed to parse response: {}", e);
                     return Err(DBError::Internal(format!(
                         "Failed to parse response: {}",
diff --git a/src/server/connection.rs b/src/server/connection.rs
index 9b1ad52..fe6b4b8 100644
--- a/src/server/connection.rs
+++ b/src/server/connection.rs
@@ -201,7 +201,7 @@
 //!
 //! ## Implementation Notes
 //!
-//! - **Read Buffer**: 1024 bytes per read (may require multiple reads for large requests)
+//! - **Read Buffer**: 1024 bytes per read (requests are gathered until they are complete)
 //! - **Write Chunking**: Large responses written in chunks until complete
 //! - **Flush Guarantee**: `stream.flush()` ensures data is sent before returning
 //! - **Error Recovery**: Errors are logged and returned to client; connection continues
@@ -362,6 +362,9 @@ async fn handle_client_connection(
     db: &DBInstance,
     client_id: u64,
 ) -> Result<(), Box<dyn StdError>> {
+    // Bytes received that have not made up a whole request yet
+    let mut pending = Vec::new();
+
     loop {
         let mut buffer = [0; 1024];
         match stream.read(&mut buffer).await {
@@ -372,27 +375,32 @@ async fn handle_client_connection(
                 );
                 break;
             },
-            Ok(n) => match handle_client_request(&buffer[..n], db, client_id).await {
-                Ok(response) => {
-                    debug!(
-                        "{}",
-                        format_log(client_id, "Query", "Processing successful")
-                    );
-                    if let Err(e) = send_response(stream, response).await {
-                        log_error(client_id, "Response", &*e, "ERROR");
-                        return Err(e);
-                    }
-                },
-                Err(e) => {
-                    log_error(client_id, "Query", &*e, "ERROR");
-                    let error_msg = format_client_error(&*e);
-                    let error_response = DatabaseResponse::Error(error_msg);
+            Ok(n) => {
+                pending.extend_from_slice(&buffer[..n]);
+                while let Some(request) = take_request(&mut pending) {
+                    match handle_client_request(request, db, client_id).await {
+                        Ok(response) => {
+                            debug!(
+                                "{}",
+                                format_log(client_id, "Query", "Processing successful")
+                            );
+                            if let Err(e) = send_response(stream, response).await {
+                                log_error(client_id, "Response", &*e, "ERROR");
+                                return Err(e);
+                            }
+                        },
+                        Err(e) => {
+                            log_error(client_id, "Query", &*e, "ERROR");
+                            let error_msg = format_client_error(&*e);
+                            let error_response = DatabaseResponse::Error(error_msg);
 
-                    if let Err(e) = send_response(stream, error_response).await {
-                        log_error(client_id, "Response", &*e, "ERROR");
-                        return Err(e);
+                            if let Err(e) = send_response(stream, error_response).await {
+                                log_error(client_id, "Response", &*e, "ERROR");
+                                return Err(e);
+                            }
+                        },
                     }
-                },
+                }
             },
             Err(e) => {
                 log_error(client_id, "Connection", &e, "ERROR");
@@ -404,6 +412,32 @@ async fn handle_client_connection(
     Ok(())
 }
 
+/// Largest request that is gathered before it is refused.
+const MAX_REQUEST_SIZE: usize = 16 * 1024 * 1024;
+
+/// Takes the first whole request off the bytes received so far.
+///
+/// # Parameters
+/// - `pending`: The bytes received; those of the returned request are removed.
+///
+/// # Returns
+/// - `None`: The bytes do not hold a whole request yet.
+/// - `Some(...)`: The request, or the error for bytes that are none (all are dropped then).
+fn take_request(pending: &mut Vec<u8>) -> Option<Result<DatabaseRequest, postcard::Error>> {
+    match postcard::take_from_bytes(pending) {
+        Ok((request, rest)) => {
+            let used = pending.len() - rest.len();
+            pending.drain(..used);
+            Some(Ok(request))
+        },
+        Err(postcard::Error::DeserializeUnexpectedEnd) if pending.len() <= MAX_REQUEST_SIZE => None,
+        Err(e) => {
+            pending.clear();
+            Some(Err(e))
+        },
+    }
+}
+
 /// Converts an error into a user-friendly message for the client.
 ///
 /// For `DBError` types, this produces category-specific messages that are
@@ -450,7 +484,7 @@ fn format_client_error(error: &(dyn StdError + 'static)) -> String {
 /// delegates to the database instance for execution.
 ///
 /// # Parameters
-/// - `data`: Raw bytes received from the client (postcard-encoded request).
+/// - `request`: The request received from the client, or why it cannot be decoded.
 /// - `db`: The database instance for query execution.
 /// - `client_id`: The unique identifier for this client connection.
 ///
@@ -462,12 +496,12 @@ fn format_client_error(error: &(dyn StdError + 'static)) -> String {
 /// Query execution errors are converted to `DatabaseResponse::Error` and
 /// returned as `Ok(...)`, not `Err(...)`. Only parsing errors bubble up.
 async fn handle_client_request(
-    data: &[u8],
+    request: Result<DatabaseRequest, postcard::Error>,
     db: &DBInstance,
     client_id: u64,
 ) -> Result<DatabaseResponse, Box<dyn StdError>> {
     debug!("{}", format_log(client_id, "Request", "Parsing request"));
-    let request: DatabaseRequest = postcard::from_bytes(data)?;
+    let request = request?;
 
     debug!(
         "{}",
-- 
2.43.0


From db82f38f9fab31104878e2f2cf44cb9e8101071a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:25 +0000
Subject: [PATCH 095/120] fix: UPDATE stores values in the type of their
 column, not in that of the expression

---
 .../execution/executors/update_executor.rs    | 23 +++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/sql/execution/executors/update_executor.rs b/src/sql/execution/executors/update_executor.rs
index ee72e12..c1f19c3 100644
--- a/src/sql/execution/executors/update_executor.rs
+++ b/src/sql/execution/executors/update_executor.rs
@@ -46,6 +46,23 @@ impl UpdateExecutor {
             rows_updated: 0,
         }
     }
+
+    /// Converts a new value to the type of the column it is stored in.
+    fn fit_to_column(value: Value, schema: &Schema, column_idx: usize) -> Result<Value, DBError> {
+        match schema.get_column(column_idx) {
+            Some(column) if value.get_type_id() != column.get_type() => {
+                value.cast_to(column.get_type()).map_err(|e| {
+                    DBError::Execution(format!(
+                        "Cannot store {} in column '{}': {}",
+                        value,
+                        column.get_name(),
+                        e
+                    ))
+                })
+            },
+            _ => Ok(value),
+        }
+    }
 }
 
 impl AbstractExecutor for UpdateExecutor {
@@ -131,7 +148,8 @@ impl AbstractExecutor for UpdateExecutor {
                             // Handle AssignmentExpression - the modern format
                             let column_idx = assignment_expr.get_target_column_index();
                             let new_value = assignment_expr.evaluate(&tuple, &schema)?;
-                            updated_values[column_idx] = new_value;
+                            updated_values[column_idx] =
+                                Self::fit_to_column(new_value, &schema, column_idx)?;
                         },
                         _ => {
                             // Fall back to legacy pair format if needed
@@ -143,7 +161,8 @@ impl AbstractExecutor for UpdateExecutor {
                                         let column_idx = col_ref.get_column_index();
                                         let new_value_expr = &expressions[i + 1];
                                         let new_value = new_value_expr.evaluate(&tuple, &schema)?;
-                                        updated_values[column_idx] = new_value;
+                                        updated_values[column_idx] =
+                                            Self::fit_to_column(new_value, &schema, column_idx)?;
                                     }
                                 }
                             }
-- 
2.43.0


From fca072fd691f73f2dcda5dd5bc0ca2405682aabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:48 +0000
Subject: [PATCH 096/120] fix: preparing a statement keeps it for later, it was
 executed at once and had no id

---
 src/common/db_instance.rs | 55 ++++++++++++++++-----------------------
 1 file changed, 22 insertions(+), 33 deletions(-)

diff --git a/src/common/db_instance.rs b/src/common/db_instance.rs
index b940c0b..7842ac9 100644
--- a/src/common/db_instance.rs
+++ b/src/common/db_instance.rs
@@ -937,13 +937,12 @@ impl DBInstance {
                 })?;
                 self.handle_rollback(session)
             },
-            #[allow(clippy::await_holding_lock)]
             DatabaseRequest::Prepare(sql) => {
                 let mut sessions = self.client_sessions.lock();
                 let session = sessions.get_mut(&client_id).ok_or_else(|| {
                     DBError::Client(format!("No session found for client {}", client_id))
                 })?;
-                self.handle_sql_query(sql, session).await
+                self.handle_prepare_statement(sql, session)
             },
             #[allow(clippy::await_holding_lock)]
             DatabaseRequest::Execute { stmt_id, params } => {
@@ -964,46 +963,36 @@ impl DBInstance {
         }
     }
 
-    /// Executes a SQL query for a client session.
+    /// Prepares a statement without executing it.
     ///
-    /// Uses the session's active transaction if present, otherwise auto-commits.
-    async fn handle_sql_query(
+    /// The statement is kept under the returned ID until it is closed.
+    fn handle_prepare_statement(
         &self,
         sql: String,
         session: &mut ClientSession,
     ) -> Result<DatabaseResponse, DBError> {
-        let mut writer = NetworkResultWriter::new();
+        let parameter_types = self.execution_engine.lock().prepare_statement(&sql)?;
 
-        let result = if let Some(txn_ctx) = &session.current_transaction {
-            // Execute within existing transaction
-            self.execute_transaction(&sql, txn_ctx.clone(), &mut writer)
-                .await
-        } else {
-            // Auto-commit transaction
-            self.execute_sql(&sql, session.isolation_level, &mut writer)
-                .await
+        let stmt_id = {
+            let mut next_id = self.next_statement_id.lock();
+            *next_id += 1;
+            *next_id
         };
-
-        match result {
-            Ok(success) => {
-                if success {
-                    Ok(DatabaseResponse::Results(writer.into_results()))
-                } else {
-                    let error = "Query execution failed".to_string();
-                    if self.debug_mode {
-                        error!("Client {}: {}", session.id, error);
-                    }
-                    Ok(DatabaseResponse::Error(error))
-                }
-            },
-            Err(e) => {
-                let error = format!("Query error: {}", e);
-                if self.debug_mode {
-                    error!("Client {}: {}", session.id, error);
-                }
-                Ok(DatabaseResponse::Error(error))
+        self.prepared_statements.lock().insert(
+            stmt_id,
+            PreparedStatement {
+                sql,
+                parameter_types: parameter_types.clone(),
             },
+        );
+        if self.debug_mode {
+            info!("Client {}: Prepared statement {}", session.id, stmt_id);
         }
+
+        Ok(DatabaseResponse::PrepareOk {
+            stmt_id,
+            param_types: parameter_types,
+        })
     }
 
     /// Starts an explicit transaction for a client session.
-- 
2.43.0


From 9d21d4bb49603d0b967947ee4037fea8e2e4e3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:30 +0000
Subject: [PATCH 097/120] fix: reading a tuple from the table heap applies the
 snapshot of every isolation level

---
 src/storage/table/table_heap.rs | 77 ++++++---------------------------
 1 file changed, 14 insertions(+), 63 deletions(-)

diff --git a/src/storage/table/table_heap.rs b/src/storage/table/table_heap.rs
index 5e97bf3..2bbfe4a 100644
--- a/src/storage/table/table_heap.rs
+++ b/src/storage/table/table_heap.rs
@@ -231,7 +231,9 @@ use parking_lot::{Mutex, MutexGuard, RwLock};
 
 use crate::buffer::buffer_pool_manager_async::BufferPoolManager;
 use crate::catalog::schema::Schema;
-use crate::common::config::{INVALID_PAGE_ID, INVALID_TXN_ID, PageId, TableOidT};
+use crate::common::config::{
+    INVALID_PAGE_ID, INVALID_TS, INVALID_TXN_ID, PageId, TableOidT, Timestamp,
+};
 use crate::common::exception::PageError;
 use crate::common::rid::RID;
 use crate::concurrency::lock_manager::LockManager;
@@ -619,57 +621,14 @@ impl TableHeap {
                 }
             },
 
-            IsolationLevel::ReadCommitted => {
-                // For READ_COMMITTED, only return committed versions
-                if meta.is_committed() {
-                    if meta.is_deleted() {
-                        Err("Tuple is deleted".to_string())
-                    } else {
-                        Ok((Arc::new(meta), Arc::new(tuple)))
-                    }
-                }
-                // If the latest version is uncommitted (update/delete) by another txn,
-                // walk the version chain to find the latest committed version.
-                else {
-                    let txn_manager = txn_ctx.get_transaction_manager();
-                    let current_link = txn_manager.get_undo_link(rid);
-
-                    if let Some(ref undo_link) = current_link {
-                        let undo_log = match txn_manager.get_undo_log(undo_link.clone()) {
-                            Ok(log) => log,
-                            Err(e) => return Err(format!("Undo log missing: {}", e)),
-                        };
-
-                        let mut prev_meta = TupleMeta::new(undo_log.prev_version.prev_txn);
-                        prev_meta.set_commit_timestamp(undo_log.ts);
-                        let prev_deleted = if undo_log.original_rid.is_some() {
-                            // Delete undo logs store the pre-delete version; treat it as live.
-                            false
-                        } else {
-                            undo_log.is_deleted
-                        };
-                        prev_meta.set_deleted(prev_deleted);
-                        if undo_log.prev_version.is_valid() {
-                            prev_meta
-                                .set_undo_log_idx(undo_log.prev_version.prev_log_idx)
-                                .map_err(|e| e.to_string())?;
-                        } else {
-                            prev_meta.clear_undo_log_idx();
-                        }
-
-                        if prev_meta.is_deleted() {
-                            return Err("Tuple is deleted".to_string());
-                        }
-                        // First committed version in chain is what READ_COMMITTED should see.
-                        Ok((Arc::new(prev_meta), undo_log.tuple.clone()))
-                    } else {
-                        Err("No visible version found".to_string())
-                    }
-                }
-            },
-
-            IsolationLevel::RepeatableRead | IsolationLevel::Serializable => {
-                let read_ts = txn.read_ts();
+            isolation => {
+                // READ_COMMITTED sees the newest committed version, the other
+                // levels see the newest one committed before they began.
+                let read_ts = if isolation == IsolationLevel::ReadCommitted {
+                    Timestamp::MAX
+                } else {
+                    txn.read_ts()
+                };
                 match meta.visibility_status(txn_id, read_ts) {
                     TupleVisibility::Visible => return Ok((Arc::new(meta), Arc::new(tuple))),
                     TupleVisibility::Deleted => return Err("Tuple is deleted".to_string()),
@@ -687,7 +646,9 @@ impl TableHeap {
                     };
 
                     let mut prev_meta = TupleMeta::new(undo_log.prev_version.prev_txn);
-                    prev_meta.set_commit_timestamp(undo_log.ts);
+                    prev_meta.set_commit_timestamp_opt(
+                        (undo_log.ts != INVALID_TS).then_some(undo_log.ts),
+                    );
                     let prev_deleted = if undo_log.original_rid.is_some() {
                         // Delete undo logs store the pre-delete version; treat it as live.
                         false
@@ -720,16 +681,6 @@ impl TableHeap {
 
                 Err("No visible version found".to_string())
             },
-
-            IsolationLevel::Snapshot => {
-                // For SNAPSHOT, assume similar behavior to SERIALIZABLE for now
-                // This may involve checking for a consistent snapshot version
-                if meta.is_deleted() {
-                    Err("Tuple is deleted".to_string())
-                } else {
-                    Ok((Arc::new(meta), Arc::new(tuple)))
-                }
-            },
         }
     }
 
-- 
2.43.0


From 4fc0fa03c0a88593baf33c39e7124d8f7a3e0847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:07 +0000
Subject: [PATCH 098/120] fix: splitting an internal page of the paged B+tree
 duplicated its middle key and lost a child

---
 src/storage/index/b_plus_tree_index.rs        | 40 +++++--------------
 .../page_types/b_plus_tree_internal_page.rs   | 35 ++++++++++++++--
 2 files changed, 41 insertions(+), 34 deletions(-)

diff --git a/src/storage/index/b_plus_tree_index.rs b/src/storage/index/b_plus_tree_index.rs
index c83dffa..2368fae 100644
--- a/src/storage/index/b_plus_tree_index.rs
+++ b/src/storage/index/b_plus_tree_index.rs
@@ -1514,39 +1514,17 @@ where
 
             // Determine split point - floor(max_size/2)
             let split_point = internal_max_size / 2;
-            let current_size = internal_write.get_size();
 
-            // The middle key (at split_point) will be promoted to the parent
-            middle_key = internal_write
-                .get_key_at(split_point)
-                .ok_or(BPlusTreeError::InvalidPageType)?
-                .clone();
-
-            // Get the child that will be the leftmost pointer in the new page
-            // (This is the child pointer that goes immediately after the middle key)
-            let child_after_middle = internal_write
-                .get_value_at(split_point + 1)
-                .ok_or(BPlusTreeError::InvalidPageType)?;
-
-            // First insert the leftmost child pointer in the new page
-            // For an internal page, we need to setup the first child before any keys
-            new_internal_write.insert_key_value(middle_key.clone(), child_after_middle);
-            // This added a key and two pointers, but we only wanted one pointer (leftmost)
-            // We'll overwrite with the remaining keys and values
-
-            // Now move the remaining keys and values
-            for i in (split_point + 1)..current_size {
-                if let Some(key) = internal_write.get_key_at(i)
-                    && let Some(child_id) = internal_write.get_value_at(i + 1)
-                {
-                    new_internal_write.insert_key_value(key.clone(), child_id);
-                }
-            }
-
-            // Now remove keys from original page: remove the middle key and all keys after it
-            for _ in split_point..current_size {
-                internal_write.remove_key_value_at(split_point);
+            // The middle key (at split_point) is promoted to the parent; the
+            // child after it becomes the leftmost child of the new page
+            let (mut keys, mut values) = internal_write.get_entries();
+            if split_point >= keys.len() {
+                return Err(BPlusTreeError::InvalidPageType);
             }
+            new_internal_write
+                .set_entries(keys.split_off(split_point + 1), values.split_off(split_point + 1));
+            middle_key = keys.remove(split_point);
+            internal_write.set_entries(keys, values);
         }
 
         // Now handle the parent insertion
diff --git a/src/storage/page/page_types/b_plus_tree_internal_page.rs b/src/storage/page/page_types/b_plus_tree_internal_page.rs
index 0be5c61..38cb542 100644
--- a/src/storage/page/page_types/b_plus_tree_internal_page.rs
+++ b/src/storage/page/page_types/b_plus_tree_internal_page.rs
@@ -174,10 +174,12 @@ impl<
                 "First insertion in page {}: adding key {:?} and value {}",
                 self.page_id, key, value
             );
-            // For the first key, we need two pointers
-            // For now, set both to the same value - the caller will update one of them
+            // The first key needs two pointers. A page that still has its
+            // leftmost child keeps it; for a new one the caller sets it later.
             self.keys.push(key);
-            self.values.push(value); // Left pointer
+            if self.values.is_empty() {
+                self.values.push(value); // Left pointer
+            }
             self.values.push(value); // Right pointer
             self.size = 1;
             self.is_dirty = true;
@@ -378,6 +380,33 @@ impl<
         }
     }
 
+    /// Replaces the keys and the children around them.
+    pub fn set_entries(&mut self, keys: Vec<KeyType>, values: Vec<PageId>) {
+        debug_assert_eq!(values.len(), keys.len() + 1);
+        self.size = keys.len();
+        self.keys = keys;
+        self.values = values;
+        self.is_dirty = true;
+    }
+
+    /// The keys, and the children around them.
+    pub fn get_entries(&self) -> (Vec<KeyType>, Vec<PageId>) {
+        (self.keys.clone(), self.values.clone())
+    }
+
+    /// Removes a separator and the child behind it; the leftmost child always
+    /// stays, also as the only one left.
+    pub fn remove_separator_at(&mut self, index: usize) -> bool {
+        if index >= self.keys.len() || index + 1 >= self.values.len() {
+            return false;
+        }
+        self.keys.remove(index);
+        self.values.remove(index + 1);
+        self.size = self.keys.len();
+        self.is_dirty = true;
+        true
+    }
+
     /// Remove a key and its corresponding value (child pointer) from the internal page
     /// In a B+ tree internal node:
     /// - When removing key at index i, we remove the child pointer at index i+1
-- 
2.43.0


From 9f61dbb81760c48ce4a13676dee357f720bde749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:07 +0000
Subject: [PATCH 099/120] fix: merging two children of a one-key page of the
 paged B+tree lost the merged child

---
 src/storage/index/b_plus_tree_index.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/storage/index/b_plus_tree_index.rs b/src/storage/index/b_plus_tree_index.rs
index 2368fae..c6783bd 100644
--- a/src/storage/index/b_plus_tree_index.rs
+++ b/src/storage/index/b_plus_tree_index.rs
@@ -1636,7 +1636,7 @@ where
         left_write.set_next_page_id(right_write.get_next_page_id());
 
         // 5. Remove the separator key and right child pointer from parent
-        parent_write.remove_key_value_at(parent_key_index);
+        parent_write.remove_separator_at(parent_key_index);
 
         // 6. Handle parent's status after removal
         let is_parent_root = parent_write.is_root();
@@ -1781,7 +1781,7 @@ where
             if let Some(new_sep) = new_separator {
                 // Fix: Replace set_key_at with proper method to update a key
                 if parent_write.get_key_at(parent_key_index).is_some() {
-                    parent_write.remove_key_value_at(parent_key_index);
+                    parent_write.remove_separator_at(parent_key_index);
                     parent_write.insert_key_value(new_sep, right_page.get_page_id());
                 }
             } else {
@@ -1841,7 +1841,7 @@ where
             let new_separator = right_write.get_key_at(0).cloned();
             if let Some(new_sep) = new_separator {
                 if parent_write.get_key_at(parent_key_index).is_some() {
-                    parent_write.remove_key_value_at(parent_key_index);
+                    parent_write.remove_separator_at(parent_key_index);
                     parent_write.insert_key_value(new_sep, right_page.get_page_id());
                 }
             } else {
@@ -1918,7 +1918,7 @@ where
         }
 
         // 5. Remove the separator key and right child pointer from parent
-        parent_write.remove_key_value_at(parent_key_index);
+        parent_write.remove_separator_at(parent_key_index);
 
         // 6. Handle parent's status after removal
         let is_parent_root = parent_write.is_root();
-- 
2.43.0


From a3e7622c03a2337235fd45ab67a434179ed1a7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:07 +0000
Subject: [PATCH 100/120] fix: redistributing internal pages of the paged
 B+tree lost children

---
 src/storage/index/b_plus_tree_index.rs | 139 ++-----------------------
 1 file changed, 11 insertions(+), 128 deletions(-)

diff --git a/src/storage/index/b_plus_tree_index.rs b/src/storage/index/b_plus_tree_index.rs
index c6783bd..ba8ac61 100644
--- a/src/storage/index/b_plus_tree_index.rs
+++ b/src/storage/index/b_plus_tree_index.rs
@@ -2041,136 +2041,19 @@ where
         let target_size = total_entries / 2;
 
         // 4. Determine direction of redistribution
-        if left_size < right_size {
-            // Move entries from right to left
-            // First, get the leftmost child from right page
-            let right_first_child = right_write.get_value_at(0).ok_or_else(|| {
-                BPlusTreeError::BufferPoolError("Right page has no children".to_string())
-            })?;
-
-            // Move separator key from parent to left page, with rightmost child pointer
-            left_write.insert_key_value(separator_key, right_first_child);
-
-            // Calculate how many more keys to move (excluding the first child already moved)
-            let additional_keys_to_move = target_size - left_size - 1;
-
-            // Move additional keys and children from right to left
-            for i in 0..additional_keys_to_move {
-                let key_to_move = right_write.get_key_at(i);
-                let child_id_to_move = right_write.get_value_at(i + 1);
-
-                if let (Some(key), Some(child_id)) = (key_to_move, child_id_to_move) {
-                    left_write.insert_key_value(key, child_id);
-                }
-            }
-
-            // Get the new separator key from right page
-            let new_separator = right_write
-                .get_key_at(additional_keys_to_move)
-                .ok_or_else(|| {
-                    BPlusTreeError::BufferPoolError("Not enough keys in right page".to_string())
-                })?
-                .clone();
-
-            // Update parent with new separator key
-            parent_write.remove_key_value_at(parent_key_index);
-            parent_write.insert_key_value(new_separator, right_page.get_page_id());
-
-            // Update right page: remove moved keys and update leftmost child
-            // We need to keep the old rightmost child of right page as its new leftmost child
-            right_write
-                .get_value_at(additional_keys_to_move + 1)
-                .ok_or_else(|| {
-                    BPlusTreeError::BufferPoolError("Invalid right page layout".to_string())
-                })?;
-
-            // Remove the transferred keys/values from right page
-            for _ in 0..=additional_keys_to_move {
-                right_write.remove_key_value_at(0);
-            }
-        } else {
-            // Move entries from left to right
-
-            // First, get the rightmost key and child from left page
-            let left_size = left_write.get_size();
-            let left_last_key = left_write
-                .get_key_at(left_size - 1)
-                .ok_or_else(|| {
-                    BPlusTreeError::BufferPoolError("Left page has no keys".to_string())
-                })?
-                .clone();
-            let left_last_child = left_write.get_value_at(left_size).ok_or_else(|| {
-                BPlusTreeError::BufferPoolError("Left page has invalid child count".to_string())
-            })?;
-
-            // Calculate how many keys to move
-            let keys_to_move = left_size - target_size;
-
-            // Save right page's leftmost child
-            right_write.get_value_at(0).ok_or_else(|| {
-                BPlusTreeError::BufferPoolError("Right page has no children".to_string())
-            })?;
-
-            // Shift everything in right page to make room
-            // To avoid modifying while iterating, we'll collect all keys/values first
-            let right_size = right_write.get_size();
-            let mut right_kv_pairs = Vec::with_capacity(right_size);
+        // Share out the keys of both pages and the separator between them
+        let (mut keys, mut values) = left_write.get_entries();
+        let (right_keys, right_values) = right_write.get_entries();
+        keys.push(separator_key);
+        keys.extend(right_keys);
+        values.extend(right_values);
+        right_write.set_entries(keys.split_off(target_size + 1), values.split_off(target_size + 1));
+        let new_separator = keys.remove(target_size);
+        left_write.set_entries(keys, values);
 
-            for i in 0..right_size {
-                let key = right_write.get_key_at(i);
-                let child_id = right_write.get_value_at(i + 1);
-
-                if let (Some(k), Some(v)) = (key, child_id) {
-                    right_kv_pairs.push((k, v));
-                }
-            }
-
-            // Clear right page except for its leftmost child pointer
-            while right_write.get_size() > 0 {
-                right_write.remove_key_value_at(0);
-            }
-
-            // Insert separator key from parent with left's rightmost child
-            right_write.insert_key_value(separator_key, left_last_child);
-
-            // Move the keys to move from left to right (except the last one that becomes the new separator)
-            let start_idx = left_size - keys_to_move;
-            let end_idx = left_size - 1; // Exclude the last key which becomes the separator
-
-            // Create a temporary vector of keys to move
-            let mut keys_to_move_vec = Vec::with_capacity(keys_to_move);
-            for i in start_idx..end_idx {
-                let key = left_write.get_key_at(i);
-                let child_id = left_write.get_value_at(i + 1);
-
-                if let (Some(k), Some(v)) = (key, child_id) {
-                    keys_to_move_vec.push((k, v));
-                }
-            }
-
-            // Insert the keys to move
-            for (key, child_id) in keys_to_move_vec {
-                right_write.insert_key_value(key, child_id);
-            }
-
-            // Put back the original keys in right page
-            for (key, child_id) in right_kv_pairs {
-                right_write.insert_key_value(key, child_id);
-            }
-
-            // Update parent with last key from left as new separator
-            parent_write.remove_key_value_at(parent_key_index);
-            parent_write.insert_key_value(left_last_key, right_page.get_page_id());
-
-            // Remove transferred keys from left page
-            // Store current size to avoid borrowing issues
-            let current_left_size = left_write.get_size();
-            for i in 0..keys_to_move {
-                left_write.remove_key_value_at(current_left_size - 1 - i);
-            }
-        }
+        parent_write.remove_separator_at(parent_key_index);
+        parent_write.insert_key_value(new_separator, right_page.get_page_id());
 
-        // The locks will be released when the write guards are dropped
         Ok(())
     }
 
-- 
2.43.0


From 63f7ef5251b29bbe9f838842b5c862eaafcb3d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:07 +0000
Subject: [PATCH 101/120] fix: merging filled an internal page of the paged
 B+tree, which then refused the key of a split

---
 src/storage/index/b_plus_tree_index.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/storage/index/b_plus_tree_index.rs b/src/storage/index/b_plus_tree_index.rs
index ba8ac61..310d769 100644
--- a/src/storage/index/b_plus_tree_index.rs
+++ b/src/storage/index/b_plus_tree_index.rs
@@ -2556,7 +2556,8 @@ where
             let max_size = current_page.read().get_max_size();
 
             // Determine if merge or redistribution is needed
-            if total_entries <= max_size {
+            // (a full internal page cannot take the key of a further split)
+            if total_entries < max_size {
                 // Merge the pages - ensure left page is always first argument
                 if sibling_is_left {
                     self.merge_internal_pages(
-- 
2.43.0


From 5859d47fb40dcc85fcec9ce689a74ddb7bc0dbd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:07 +0000
Subject: [PATCH 102/120] fix: removing the last key of the paged B+tree left
 an empty root behind

---
 src/storage/index/b_plus_tree_index.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/storage/index/b_plus_tree_index.rs b/src/storage/index/b_plus_tree_index.rs
index 310d769..432f78a 100644
--- a/src/storage/index/b_plus_tree_index.rs
+++ b/src/storage/index/b_plus_tree_index.rs
@@ -1326,6 +1326,11 @@ where
                 return Ok(OptimisticResult::Success(false));
             }
 
+            // The last key of the whole tree: the standard path also drops the root
+            if leaf.is_root() && leaf.get_size() == 1 {
+                return Ok(OptimisticResult::NeedRestart);
+            }
+
             // Remove the key
             leaf.remove_key_value_at(key_index);
         }
-- 
2.43.0


From d8d3af8dc6846c86b454881b4d1c7f0e04616a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:40 +0000
Subject: [PATCH 103/120] fix: arithmetic on an expression that computed NULL
 gives NULL, it was an error

---
 .../execution/expressions/arithmetic_expression.rs    | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/sql/execution/expressions/arithmetic_expression.rs b/src/sql/execution/expressions/arithmetic_expression.rs
index c1449e2..afba454 100644
--- a/src/sql/execution/expressions/arithmetic_expression.rs
+++ b/src/sql/execution/expressions/arithmetic_expression.rs
@@ -136,9 +136,14 @@ impl ArithmeticExpression {
 
     /// Applies the operator to the values of the operands.
     fn apply(&self, left_value: &Value, right_value: &Value) -> Result<Value, ExpressionError> {
-        // A NULL operand that has a type makes the result NULL
-        let typed_null = |v: &Value| v.is_null() && v.get_type_id() != TypeId::Invalid;
-        if typed_null(left_value) || typed_null(right_value) {
+        // A NULL operand makes the result NULL if the expression it comes from has a type: the
+        // value itself may have lost it
+        let typed_null = |v: &Value, child: &Expression| {
+            v.is_null()
+                && (v.get_type_id() != TypeId::Invalid
+                    || child.get_return_type().get_type() != TypeId::Invalid)
+        };
+        if typed_null(left_value, self.get_left()) || typed_null(right_value, self.get_right()) {
             return Ok(Value::new(Val::Null));
         }
         match (left_value.get_val(), right_value.get_val()) {
-- 
2.43.0


From d553a14307e9d63f86a1b16a4788ed202cca8b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:17 +0000
Subject: [PATCH 104/120] fix: INSERT ... SELECT matched the select list to the
 target columns by name, not by position

---
 src/sql/planner/plan_builder.rs | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/sql/planner/plan_builder.rs b/src/sql/planner/plan_builder.rs
index b65afa6..ee5cca8 100644
--- a/src/sql/planner/plan_builder.rs
+++ b/src/sql/planner/plan_builder.rs
@@ -3161,13 +3161,37 @@ impl LogicalPlanBuilder {
                 },
                 SetExpr::Select(select) => {
                     let select_plan = self.build_select_plan(select)?;
+                    let select_schema = select_plan.get_schema().unwrap();
                     if !self
                         .schema_manager
-                        .schemas_compatible(&select_plan.get_schema().unwrap(), &values_schema)
+                        .schemas_compatible(&select_schema, &values_schema)
                     {
                         return Err("SELECT schema doesn't match INSERT target".to_string());
                     }
-                    select_plan
+                    // The select list fills the target columns by position, but rows are mapped
+                    // to the table by column name: give them the names of their targets
+                    let columns = select_schema.get_columns();
+                    let renamed = columns
+                        .iter()
+                        .zip(values_schema.get_columns())
+                        .any(|(from, to)| from.get_name() != to.get_name());
+                    if renamed {
+                        let expressions = columns
+                            .iter()
+                            .enumerate()
+                            .map(|(i, column)| {
+                                Arc::new(Expression::ColumnRef(ColumnRefExpression::new(
+                                    0,
+                                    i,
+                                    column.clone(),
+                                    vec![],
+                                )))
+                            })
+                            .collect();
+                        LogicalPlan::project(expressions, values_schema.clone(), select_plan)
+                    } else {
+                        select_plan
+                    }
                 },
                 _ => return Err("Only VALUES and SELECT supported in INSERT".to_string()),
             },
-- 
2.43.0


From b7a7bdcf4558a8e6bb4f0b7a7a517b2074d28f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:28 +0000
Subject: [PATCH 105/120] fix: IS DISTINCT FROM and IS NOT DISTINCT FROM were
 swapped

---
 src/sql/execution/expression_parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sql/execution/expression_parser.rs b/src/sql/execution/expression_parser.rs
index 1d292ae..6b4d760 100644
--- a/src/sql/execution/expression_parser.rs
+++ b/src/sql/execution/expression_parser.rs
@@ -1258,7 +1258,7 @@ impl ExpressionParser {
                 Ok(Expression::IsDistinct(IsDistinctExpression::new(
                     left_expr,
                     right_expr,
-                    true,
+                    false,
                     Column::new("is_distinct", TypeId::Boolean),
                 )))
             },
@@ -1269,7 +1269,7 @@ impl ExpressionParser {
                 Ok(Expression::IsDistinct(IsDistinctExpression::new(
                     left_expr,
                     right_expr,
-                    false,
+                    true,
                     Column::new("is_not_distinct", TypeId::Boolean),
                 )))
             },
-- 
2.43.0


From 0ff2cb1d59db0b322c7a0afe6d4c1fead1ab1cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:28 +0000
Subject: [PATCH 106/120] fix: TRIM(BOTH 'x' FROM s) ignored the characters to
 trim

---
 src/sql/execution/expression_parser.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sql/execution/expression_parser.rs b/src/sql/execution/expression_parser.rs
index 6b4d760..51b69d6 100644
--- a/src/sql/execution/expression_parser.rs
+++ b/src/sql/execution/expression_parser.rs
@@ -1627,7 +1627,7 @@ impl ExpressionParser {
             Expr::Trim {
                 expr,
                 trim_where,
-                trim_what: _,
+                trim_what,
                 trim_characters,
             } => {
                 let parsed_expr = Arc::new(self.parse_expression(expr, schema)?);
@@ -1642,7 +1642,9 @@ impl ExpressionParser {
                 let mut children = vec![parsed_expr];
 
                 // Add trim characters if specified
-                if let Some(chars) = trim_characters {
+                if let Some(what) = trim_what {
+                    children.push(Arc::new(self.parse_expression(what, schema)?));
+                } else if let Some(chars) = trim_characters {
                     // If there are multiple trim characters, concatenate them into a single string
                     if chars.len() > 1 {
                         // Create a string literal expression that concatenates all trim characters
-- 
2.43.0


From c55fb5db351d9d7f80479b17f05e67b3f76164d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:45 +0000
Subject: [PATCH 107/120] fix: CEIL(x) and FLOOR(x) were refused

---
 src/sql/execution/expression_parser.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/sql/execution/expression_parser.rs b/src/sql/execution/expression_parser.rs
index 51b69d6..c0bdeb9 100644
--- a/src/sql/execution/expression_parser.rs
+++ b/src/sql/execution/expression_parser.rs
@@ -1070,6 +1070,9 @@ impl ExpressionParser {
                 let inner_expr = Arc::new(self.parse_expression(expr, schema)?);
 
                 let datetime_field = match field {
+                    CeilFloorKind::DateTimeField(
+                        sqlparser::ast::DateTimeField::NoDateTime,
+                    ) => None,
                     CeilFloorKind::DateTimeField(field) => Some(match field {
                         sqlparser::ast::DateTimeField::Year => DateTimeField::Year,
                         sqlparser::ast::DateTimeField::Month => DateTimeField::Month,
@@ -1135,6 +1138,9 @@ impl ExpressionParser {
                 let inner_expr = Arc::new(self.parse_expression(expr, schema)?);
 
                 let datetime_field = match field {
+                    CeilFloorKind::DateTimeField(
+                        sqlparser::ast::DateTimeField::NoDateTime,
+                    ) => None,
                     CeilFloorKind::DateTimeField(field) => Some(match field {
                         sqlparser::ast::DateTimeField::Year => DateTimeField::Year,
                         sqlparser::ast::DateTimeField::Month => DateTimeField::Month,
-- 
2.43.0


From 36cf8c4899854fafd14b00ed784698b0ec9379a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:30 +0000
Subject: [PATCH 108/120] fix: CAST of a literal below 32768 or of a SMALLINT
 was refused

---
 src/sql/execution/expressions/cast_expression.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sql/execution/expressions/cast_expression.rs b/src/sql/execution/expressions/cast_expression.rs
index 220f66f..2c107c9 100644
--- a/src/sql/execution/expressions/cast_expression.rs
+++ b/src/sql/execution/expressions/cast_expression.rs
@@ -227,6 +227,7 @@ fn is_valid_cast(from: TypeId, to: TypeId) -> bool {
         (Integer, Decimal) | (Decimal, Integer) => true,
         (Integer, BigInt) | (BigInt, Integer) => true,
         (BigInt, Decimal) | (Decimal, BigInt) => true,
+        (TinyInt | SmallInt, Integer | BigInt | Decimal) => true,
 
         // String conversions
         (VarChar, Char) | (Char, VarChar) => true,
-- 
2.43.0


From a609e637c3042aafa709cb0b7409f16c8c799ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:22 +0000
Subject: [PATCH 109/120] fix: IN took every list item that is not a plain
 literal, such as -1, for NULL

---
 src/sql/execution/expression_parser.rs | 52 +++++++++++++++++++++-----
 1 file changed, 42 insertions(+), 10 deletions(-)

diff --git a/src/sql/execution/expression_parser.rs b/src/sql/execution/expression_parser.rs
index c0bdeb9..9889b07 100644
--- a/src/sql/execution/expression_parser.rs
+++ b/src/sql/execution/expression_parser.rs
@@ -1288,6 +1288,7 @@ impl ExpressionParser {
                 let expr = Arc::new(self.parse_expression(expr, schema)?);
                 let mut list_values = Vec::new();
                 let mut list_exprs = Vec::new();
+                let mut computed = Vec::new();
 
                 // Get the type of the expression we're comparing against
                 let expr_type = expr.get_return_type().get_type();
@@ -1472,10 +1473,9 @@ impl ExpressionParser {
                         log::debug!("Adding value to list: {:?}", value);
                         list_values.push(value);
                     } else {
-                        // For non-constant expressions, we'll need to evaluate them at runtime
-                        // For now, add a placeholder NULL value
-                        log::debug!("Non-constant expression, adding NULL placeholder");
-                        list_values.push(Value::new(crate::types_db::value::Val::Null));
+                        // Evaluated for each row
+                        computed.push(item_arc);
+                        continue;
                     }
 
                     list_exprs.push(item_arc);
@@ -1483,18 +1483,50 @@ impl ExpressionParser {
 
                 log::debug!("Final list_values: {:?}", list_values);
 
+                let no_constants = list_values.is_empty() && !computed.is_empty();
+
                 // Create a vector expression from the list using the new helper method
                 let list_expr = Arc::new(Expression::Constant(ConstantExpression::new_vector(
                     list_values,
                     list_exprs,
                 )));
+                let in_list = |negated| {
+                    Expression::In(InExpression::new_list(
+                        expr.clone(),
+                        list_expr.clone(),
+                        negated,
+                        Column::new("in_list", TypeId::Boolean),
+                    ))
+                };
+                if computed.is_empty() {
+                    return Ok(in_list(*negated));
+                }
 
-                Ok(Expression::In(InExpression::new_list(
-                    expr,
-                    list_expr,
-                    *negated,
-                    Column::new("in_list", TypeId::Boolean),
-                )))
+                // x IN (constants, a, b) is x IN (constants) OR x = a OR x = b
+                let mut any = (!no_constants).then(|| Arc::new(in_list(false)));
+                for item in computed {
+                    let equal = Arc::new(Expression::Comparison(ComparisonExpression::new(
+                        expr.clone(),
+                        item.clone(),
+                        ComparisonType::Equal,
+                        vec![expr.clone(), item],
+                    )));
+                    any = Some(match any {
+                        Some(left) => Arc::new(Expression::Logic(LogicExpression::new(
+                            left.clone(),
+                            equal.clone(),
+                            LogicType::Or,
+                            vec![left, equal],
+                        ))),
+                        None => equal,
+                    });
+                }
+                let any = any.ok_or_else(|| "IN needs at least one value".to_string())?;
+                Ok(if *negated {
+                    Expression::Logic(LogicExpression::new_not(any))
+                } else {
+                    any.as_ref().clone()
+                })
             },
 
             Expr::InSubquery {
-- 
2.43.0


From 5ceb105a8149a2c427d28c49371a3d5db3711829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:50 +0000
Subject: [PATCH 110/120] fix: two aggregates of one function in a query both
 returned the first one's value

---
 src/sql/planner/plan_builder.rs | 76 ++++++++++++++++++++++++++-------
 1 file changed, 60 insertions(+), 16 deletions(-)

diff --git a/src/sql/planner/plan_builder.rs b/src/sql/planner/plan_builder.rs
index ee5cca8..a54ead3 100644
--- a/src/sql/planner/plan_builder.rs
+++ b/src/sql/planner/plan_builder.rs
@@ -189,6 +189,7 @@
 //! - Join constraint requirements
 //! - Expression type compatibility
 
+use std::collections::HashMap;
 use std::sync::Arc;
 
 use log::debug;
@@ -204,6 +205,7 @@ use crate::catalog::schema::Schema;
 use crate::concurrency::transaction::IsolationLevel;
 use crate::sql::execution::expression_parser::ExpressionParser;
 use crate::sql::execution::expressions::abstract_expression::{Expression, ExpressionOps};
+use crate::sql::execution::expressions::aggregate_expression::AggregateExpression;
 use crate::sql::execution::expressions::assignment_expression::AssignmentExpression;
 use crate::sql::execution::expressions::column_value_expression::ColumnRefExpression;
 use crate::sql::execution::expressions::constant_value_expression::ConstantExpression;
@@ -570,6 +572,21 @@ impl LogicalPlanBuilder {
             }
         }
 
+        // Each aggregate has its own column in the aggregation output
+        let mut names: HashMap<String, usize> = HashMap::new();
+        for agg_expr in &mut agg_exprs {
+            if let Expression::Aggregate(agg) = agg_expr.as_ref() {
+                let name = Self::aggregate_output_name(agg, &mut names);
+                let renamed = AggregateExpression::new(
+                    agg.get_agg_type().clone(),
+                    agg.get_children().clone(),
+                    agg.get_return_type().with_name(&name),
+                    agg.get_function_name().to_string(),
+                );
+                *agg_expr = Arc::new(Expression::Aggregate(renamed));
+            }
+        }
+
         // Capture the plan before applying the SELECT projection so ORDER BY can
         // fall back to it if it references columns not present in the projection.
         let plan_before_projection = current_plan.clone();
@@ -896,6 +913,22 @@ impl LogicalPlanBuilder {
         Ok(())
     }
 
+    /// Names the output column of an aggregate; `seen` counts the aggregates of each name so
+    /// that the second and later ones get names of their own.
+    fn aggregate_output_name(
+        agg: &AggregateExpression,
+        seen: &mut HashMap<String, usize>,
+    ) -> String {
+        let name = agg.get_column_name();
+        let count = seen.entry(name.clone()).or_insert(0);
+        *count += 1;
+        if *count == 1 {
+            name
+        } else {
+            format!("{}#{}", name, count)
+        }
+    }
+
     /// Builds a projection plan using a specific schema for expression parsing.
     ///
     /// This is useful when the input plan's schema differs from the schema needed
@@ -933,6 +966,7 @@ impl LogicalPlanBuilder {
 
         // Check if we're projecting from an aggregate plan
         let is_aggregate_input = matches!(input_plan.plan_type, LogicalPlanType::Aggregate { .. });
+        let mut aggregate_names: HashMap<String, usize> = HashMap::new();
 
         for (i, item) in projection.iter().enumerate() {
             debug!("Processing projection item {}: {:?}", i, item);
@@ -974,20 +1008,25 @@ impl LogicalPlanBuilder {
                         // For aggregate input, we need to map expressions to the aggregation output
                         if let Expression::Aggregate(agg) = &parsed_expr {
                             // For aggregate expressions, find them in the input schema by function name and argument
-                            let expected_col_name = agg.get_column_name();
+                            let expected_col_name =
+                                Self::aggregate_output_name(agg, &mut aggregate_names);
 
                             // Try to find the aggregate column in the input schema
                             let col_idx = input_schema
                                 .get_columns()
                                 .iter()
-                                .position(|col| {
-                                    let col_name = col.get_name();
-                                    // Match exact name or function pattern
-                                    col_name == expected_col_name
-                                        || col_name
+                                .position(|col| col.get_name() == expected_col_name)
+                                .or_else(|| {
+                                    // No column of that name: any of that function
+                                    input_schema.get_columns().iter().position(|col| {
+                                        let col_name = col.get_name();
+                                        col_name
                                             .starts_with(&format!("{}(", agg.get_function_name()))
-                                        || col_name
-                                            .starts_with(&format!("{}_", agg.get_function_name()))
+                                            || col_name.starts_with(&format!(
+                                                "{}_",
+                                                agg.get_function_name()
+                                            ))
+                                    })
                                 })
                                 .unwrap_or_else(|| {
                                     // Fallback: use position based on order in projection, but ensure it's valid
@@ -1045,20 +1084,25 @@ impl LogicalPlanBuilder {
                     if is_aggregate_input {
                         if let Expression::Aggregate(agg) = &parsed_expr {
                             // For aggregate expressions, find them in the input schema
-                            let expected_col_name = agg.get_column_name();
+                            let expected_col_name =
+                                Self::aggregate_output_name(agg, &mut aggregate_names);
 
                             // Try to find the aggregate column in the input schema
                             let col_idx = input_schema
                                 .get_columns()
                                 .iter()
-                                .position(|col| {
-                                    let col_name = col.get_name();
-                                    // Match exact name or function pattern
-                                    col_name == expected_col_name
-                                        || col_name
+                                .position(|col| col.get_name() == expected_col_name)
+                                .or_else(|| {
+                                    // No column of that name: any of that function
+                                    input_schema.get_columns().iter().position(|col| {
+                                        let col_name = col.get_name();
+                                        col_name
                                             .starts_with(&format!("{}(", agg.get_function_name()))
-                                        || col_name
-                                            .starts_with(&format!("{}_", agg.get_function_name()))
+                                            || col_name.starts_with(&format!(
+                                                "{}_",
+                                                agg.get_function_name()
+                                            ))
+                                    })
                                 })
                                 .unwrap_or_else(|| {
                                     // Fallback: use position based on order in projection, but ensure it's valid
-- 
2.43.0


From c242e960b589ada7dfbb67cbfb7c602b6bcdf121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:20 +0000
Subject: [PATCH 111/120] fix: aggregates of a query with HAVING were computed
 again for each group row

---
 src/sql/planner/plan_builder.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/sql/planner/plan_builder.rs b/src/sql/planner/plan_builder.rs
index a54ead3..78363fd 100644
--- a/src/sql/planner/plan_builder.rs
+++ b/src/sql/planner/plan_builder.rs
@@ -965,7 +965,12 @@ impl LogicalPlanBuilder {
         let mut output_columns = Vec::new();
 
         // Check if we're projecting from an aggregate plan
-        let is_aggregate_input = matches!(input_plan.plan_type, LogicalPlanType::Aggregate { .. });
+        // (possibly through the filter of a HAVING clause)
+        let source = match (&input_plan.plan_type, input_plan.children.first()) {
+            (LogicalPlanType::Filter { .. }, Some(child)) => child,
+            _ => &input_plan,
+        };
+        let is_aggregate_input = matches!(source.plan_type, LogicalPlanType::Aggregate { .. });
         let mut aggregate_names: HashMap<String, usize> = HashMap::new();
 
         for (i, item) in projection.iter().enumerate() {
-- 
2.43.0


From 9e62bffac9597135438572617234653f7d3b3e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:38 +0000
Subject: [PATCH 112/120] fix: HAVING on a grouped column read another column

---
 src/sql/execution/expression_parser.rs | 32 ++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/src/sql/execution/expression_parser.rs b/src/sql/execution/expression_parser.rs
index 9889b07..9e38c8c 100644
--- a/src/sql/execution/expression_parser.rs
+++ b/src/sql/execution/expression_parser.rs
@@ -4261,8 +4261,36 @@ impl ExpressionParser {
                     vec![],
                 )))
             },
-            // For non-aggregate expressions, return as-is
-            _ => Ok(expr.clone()),
+            // A grouped column is read from the aggregation output
+            Expression::ColumnRef(col_ref) => {
+                let name = col_ref.get_return_type().get_name();
+                let column_idx = aggregation_schema
+                    .get_qualified_column_index(name)
+                    .ok_or_else(|| format!("Column {} is not in the aggregation output", name))?;
+                Ok(Expression::ColumnRef(ColumnRefExpression::new(
+                    0,
+                    column_idx,
+                    aggregation_schema.get_column(column_idx).unwrap().clone(),
+                    vec![],
+                )))
+            },
+            // For other expressions, replace what they are made of
+            _ if expr.get_children().is_empty() => Ok(expr.clone()),
+            _ => {
+                let children = expr
+                    .get_children()
+                    .iter()
+                    .map(|child| {
+                        self.replace_aggregates_with_column_refs(
+                            child,
+                            aggregation_schema,
+                            original_aggregates,
+                        )
+                        .map(Arc::new)
+                    })
+                    .collect::<Result<Vec<_>, String>>()?;
+                Ok(expr.clone_with_children(children).as_ref().clone())
+            },
         }
     }
 }
-- 
2.43.0


From 6951ea3080c3d6fbe3ec0713398c2b838477dbed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:36 +0000
Subject: [PATCH 113/120] fix: INSERT accepted a column named twice and dropped
 its first value

---
 src/sql/planner/plan_builder.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sql/planner/plan_builder.rs b/src/sql/planner/plan_builder.rs
index 78363fd..bd1b87e 100644
--- a/src/sql/planner/plan_builder.rs
+++ b/src/sql/planner/plan_builder.rs
@@ -3194,6 +3194,9 @@ impl LogicalPlanBuilder {
                 let column = full_schema
                     .get_column(column_index)
                     .ok_or_else(|| format!("Failed to get column '{}' from schema", column_name))?;
+                if columns.contains(column) {
+                    return Err(format!("Column '{}' is given twice", column_name));
+                }
                 columns.push(column.clone());
             }
             Schema::new(columns)
-- 
2.43.0


From 36aab7f2f8572fee57138823448b940973dfbb19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:26 +0000
Subject: [PATCH 114/120] fix: ORDER BY a column position sorted by the
 constant

---
 src/sql/execution/expression_parser.rs | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/sql/execution/expression_parser.rs b/src/sql/execution/expression_parser.rs
index 9e38c8c..a7b3734 100644
--- a/src/sql/execution/expression_parser.rs
+++ b/src/sql/execution/expression_parser.rs
@@ -3454,7 +3454,28 @@ impl ExpressionParser {
         debug!("Parsing order by specifications: {:?}", order_exprs);
         let mut specifications = Vec::new();
         for order_expr in order_exprs {
-            let parsed_expr = Arc::new(self.parse_expression(&order_expr.expr, schema)?);
+            // A plain number is the position of an output column
+            let parsed_expr = match &order_expr.expr {
+                Expr::Value(ValueWithSpan {
+                    value: sqlparser::ast::Value::Number(text, _),
+                    ..
+                }) => {
+                    let column = text
+                        .parse::<usize>()
+                        .ok()
+                        .and_then(|n| n.checked_sub(1))
+                        .and_then(|i| schema.get_column(i).map(|c| (i, c.clone())));
+                    let (index, column) =
+                        column.ok_or_else(|| format!("ORDER BY position {} is not valid", text))?;
+                    Arc::new(Expression::ColumnRef(ColumnRefExpression::new(
+                        0,
+                        index,
+                        column,
+                        vec![],
+                    )))
+                },
+                expr => Arc::new(self.parse_expression(expr, schema)?),
+            };
 
             // Extract sort direction from the OrderByExpr
             // asc: Option<bool> where None/Some(true) = ASC, Some(false) = DESC
-- 
2.43.0


From 9e441d26f6fc5bac6a3d1d41a147462b4485b534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:40 +0000
Subject: [PATCH 115/120] fix: an expression over aggregates or grouped columns
 was computed from the ungrouped rows

---
 src/sql/planner/plan_builder.rs | 64 +++++++++++++++++++++++++++------
 1 file changed, 53 insertions(+), 11 deletions(-)

diff --git a/src/sql/planner/plan_builder.rs b/src/sql/planner/plan_builder.rs
index bd1b87e..6bef1e6 100644
--- a/src/sql/planner/plan_builder.rs
+++ b/src/sql/planner/plan_builder.rs
@@ -545,20 +545,18 @@ impl LogicalPlanBuilder {
                     let parsed_expr = self
                         .expression_parser
                         .parse_expression(expr, &original_schema)?;
-                    if let Expression::Aggregate(_) = parsed_expr {
-                        has_aggregates = true;
-                        agg_exprs.push(Arc::new(parsed_expr));
-                    }
+                    let found = agg_exprs.len();
+                    Self::collect_aggregates(&Arc::new(parsed_expr), &mut agg_exprs);
+                    has_aggregates |= agg_exprs.len() > found;
                 },
                 SelectItem::ExprWithAlias { expr, alias: _ } => {
                     // Use the original schema for parsing expressions to ensure all columns are available
                     let parsed_expr = self
                         .expression_parser
                         .parse_expression(expr, &original_schema)?;
-                    if let Expression::Aggregate(_) = parsed_expr {
-                        has_aggregates = true;
-                        agg_exprs.push(Arc::new(parsed_expr));
-                    }
+                    let found = agg_exprs.len();
+                    Self::collect_aggregates(&Arc::new(parsed_expr), &mut agg_exprs);
+                    has_aggregates |= agg_exprs.len() > found;
                 },
                 SelectItem::ExprWithAliases { .. } => {
                     return Err(
@@ -913,6 +911,17 @@ impl LogicalPlanBuilder {
         Ok(())
     }
 
+    /// Collects the aggregates an expression is made of.
+    fn collect_aggregates(expr: &Arc<Expression>, aggregates: &mut Vec<Arc<Expression>>) {
+        if let Expression::Aggregate(_) = expr.as_ref() {
+            aggregates.push(expr.clone());
+        } else {
+            for child in expr.get_children() {
+                Self::collect_aggregates(child, aggregates);
+            }
+        }
+    }
+
     /// Names the output column of an aggregate; `seen` counts the aggregates of each name so
     /// that the second and later ones get names of their own.
     fn aggregate_output_name(
@@ -970,7 +979,10 @@ impl LogicalPlanBuilder {
             (LogicalPlanType::Filter { .. }, Some(child)) => child,
             _ => &input_plan,
         };
-        let is_aggregate_input = matches!(source.plan_type, LogicalPlanType::Aggregate { .. });
+        let (is_aggregate_input, aggregates) = match &source.plan_type {
+            LogicalPlanType::Aggregate { aggregates, .. } => (true, aggregates.as_slice()),
+            _ => (false, &[][..]),
+        };
         let mut aggregate_names: HashMap<String, usize> = HashMap::new();
 
         for (i, item) in projection.iter().enumerate() {
@@ -1064,7 +1076,22 @@ impl LogicalPlanBuilder {
                                     ),
                                 )));
                             } else {
-                                projection_exprs.push(Arc::new(parsed_expr));
+                                // Computed from columns of the aggregation output
+                                let mut inner = Vec::new();
+                                let parsed_expr = Arc::new(parsed_expr);
+                                Self::collect_aggregates(&parsed_expr, &mut inner);
+                                for expr in &inner {
+                                    if let Expression::Aggregate(agg) = expr.as_ref() {
+                                        Self::aggregate_output_name(agg, &mut aggregate_names);
+                                    }
+                                }
+                                let expr =
+                                    self.expression_parser.replace_aggregates_with_column_refs(
+                                        &parsed_expr,
+                                        &input_schema,
+                                        aggregates,
+                                    )?;
+                                projection_exprs.push(Arc::new(expr));
                             }
                         }
                     } else {
@@ -1168,7 +1195,22 @@ impl LogicalPlanBuilder {
                                     ),
                                 )));
                             } else {
-                                projection_exprs.push(Arc::new(parsed_expr));
+                                // Computed from columns of the aggregation output
+                                let mut inner = Vec::new();
+                                let parsed_expr = Arc::new(parsed_expr);
+                                Self::collect_aggregates(&parsed_expr, &mut inner);
+                                for expr in &inner {
+                                    if let Expression::Aggregate(agg) = expr.as_ref() {
+                                        Self::aggregate_output_name(agg, &mut aggregate_names);
+                                    }
+                                }
+                                let expr =
+                                    self.expression_parser.replace_aggregates_with_column_refs(
+                                        &parsed_expr,
+                                        &input_schema,
+                                        aggregates,
+                                    )?;
+                                projection_exprs.push(Arc::new(expr));
                             }
                         }
                     } else {
-- 
2.43.0


From a2af89d7025a076e23405c2841be93792fa8dbdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:09 +0000
Subject: [PATCH 116/120] fix: an UPDATE that made a row longer than its page
 has room for was refused

---
 .../execution/executors/update_executor.rs    |  7 +++-
 src/storage/table/transactional_table_heap.rs | 38 +++++++++++++++++--
 2 files changed, 40 insertions(+), 5 deletions(-)

diff --git a/src/sql/execution/executors/update_executor.rs b/src/sql/execution/executors/update_executor.rs
index c1f19c3..ef0cbcf 100644
--- a/src/sql/execution/executors/update_executor.rs
+++ b/src/sql/execution/executors/update_executor.rs
@@ -134,7 +134,12 @@ impl AbstractExecutor for UpdateExecutor {
 
         // Process all tuples from child executor (scan)
         if let Some(ref mut child) = self.child_executor {
-            while let Some((tuple, rid)) = child.next()? {
+            // All of them first: an updated row can move to where the scan has yet to come
+            let mut targets = Vec::new();
+            while let Some(target) = child.next()? {
+                targets.push(target);
+            }
+            for (tuple, rid) in targets {
                 debug!("Processing tuple for update with RID {:?}", rid);
 
                 // Apply updates based on the update plan
diff --git a/src/storage/table/transactional_table_heap.rs b/src/storage/table/transactional_table_heap.rs
index 1d378cd..3cc2710 100644
--- a/src/storage/table/transactional_table_heap.rs
+++ b/src/storage/table/transactional_table_heap.rs
@@ -611,13 +611,17 @@ impl TransactionalTableHeap {
         );
 
         // Perform update
-        let result = self
+        let result = match self
             .table_heap
             .update_tuple_internal(Arc::from(new_meta), tuple, rid)
-            .inspect_err(|_| {
+        {
+            Ok(result) => result,
+            Err(_) => {
                 // The tuple kept its version, so the chain must not name a newer one
                 txn_manager.update_undo_link(rid, current_version_link, None);
-            })?;
+                return self.move_tuple(tuple, rid, txn_ctx);
+            },
+        };
         txn.append_write_set(self.table_oid, rid);
 
         Ok(result)
@@ -808,8 +812,34 @@ impl TransactionalTableHeap {
         // lock_manager.lock_table(txn.clone(), LockMode::IntentionExclusive, self.table_oid)
         //     .map_err(|e| format!("Failed to acquire table lock: {}", e))?;
 
-        // Get the current version for visibility check
         let _write_guard = self.table_heap.acquire_tuple_write_latch();
+        self.delete_tuple_latched(rid, txn_ctx)
+    }
+
+    /// Puts the new version of a tuple that its page has no room for in another page: the tuple
+    /// is deleted there and inserted here. The caller holds the tuple write latch.
+    fn move_tuple(
+        &self,
+        tuple: &Tuple,
+        rid: RID,
+        txn_ctx: Arc<TransactionContext>,
+    ) -> Result<RID, String> {
+        let txn = txn_ctx.get_transaction();
+        let meta = Arc::new(TupleMeta::new(txn.get_transaction_id()));
+        let new_rid = self.table_heap.insert_tuple_internal(meta, tuple)?;
+        txn.append_write_set(self.table_oid, new_rid);
+        self.delete_tuple_latched(rid, txn_ctx)?;
+        Ok(new_rid)
+    }
+
+    fn delete_tuple_latched(
+        &self,
+        rid: RID,
+        txn_ctx: Arc<TransactionContext>,
+    ) -> Result<(), String> {
+        let txn = txn_ctx.get_transaction();
+
+        // Get the current version for visibility check
         let (current_meta, current_tuple) = self.table_heap.get_tuple_internal(rid, false)?;
 
         // Visibility checks
-- 
2.43.0


From 078378f1a7412bda6e69edb6d2705099790f6f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:09 +0000
Subject: [PATCH 117/120] fix: commit reported failure when a page it wrote had
 been evicted

---
 src/buffer/buffer_pool_manager_async.rs       | 21 +++++++++++++++----
 .../transaction_manager_factory.rs            |  7 ++++++-
 2 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/buffer/buffer_pool_manager_async.rs b/src/buffer/buffer_pool_manager_async.rs
index 8567018..9ddaeea 100644
--- a/src/buffer/buffer_pool_manager_async.rs
+++ b/src/buffer/buffer_pool_manager_async.rs
@@ -779,14 +779,27 @@ impl BufferPoolManager {
 
     /// Flushes a page to disk asynchronously
     pub async fn flush_page_async(&self, page_id: PageId) -> Result<(), String> {
+        if self.flush_resident_page_async(page_id).await? {
+            Ok(())
+        } else {
+            Err(format!("Page {} not found in page table", page_id))
+        }
+    }
+
+    /// Flushes a page if the pool holds it: one that was evicted has been written already.
+    ///
+    /// # Returns
+    /// Whether the pool holds the page.
+    pub async fn flush_resident_page_async(&self, page_id: PageId) -> Result<bool, String> {
         trace!("Flushing page {} to disk", page_id);
 
         let _flush_guard = self.flush_latch.lock().await;
-        let pin = self
-            .pin_frame(page_id)
-            .ok_or_else(|| format!("Page {} not found in page table", page_id))?;
+        let Some(pin) = self.pin_frame(page_id) else {
+            return Ok(false);
+        };
 
-        self.write_page_to_disk_async(page_id, &pin.page).await
+        self.write_page_to_disk_async(page_id, &pin.page).await?;
+        Ok(true)
     }
 
     /// Flushes all pages to disk asynchronously.
diff --git a/src/concurrency/transaction_manager_factory.rs b/src/concurrency/transaction_manager_factory.rs
index 62ba17c..bf07d82 100644
--- a/src/concurrency/transaction_manager_factory.rs
+++ b/src/concurrency/transaction_manager_factory.rs
@@ -343,7 +343,12 @@ impl TransactionManagerFactory {
             pages_to_flush.insert(rid.get_page_id());
         }
         for page_id in pages_to_flush {
-            if let Err(e) = self.buffer_pool_manager.flush_page_async(page_id).await {
+            // A page the pool has evicted since was written then
+            if let Err(e) = self
+                .buffer_pool_manager
+                .flush_resident_page_async(page_id)
+                .await
+            {
                 error!(
                     "Failed to flush page {} during transaction commit: {}",
                     page_id, e
-- 
2.43.0


From adc1d266f8009ef21ad4a96b944af231b46c9a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:46 +0000
Subject: [PATCH 118/120] fix: a regular expression matched NULL as if it were
 the text NULL

---
 src/sql/execution/expressions/regex_expression.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/sql/execution/expressions/regex_expression.rs b/src/sql/execution/expressions/regex_expression.rs
index 75f5bd2..b86a310 100644
--- a/src/sql/execution/expressions/regex_expression.rs
+++ b/src/sql/execution/expressions/regex_expression.rs
@@ -11,7 +11,7 @@ use crate::common::exception::ExpressionError;
 use crate::sql::execution::expressions::abstract_expression::{Expression, ExpressionOps};
 use crate::storage::table::tuple::Tuple;
 use crate::types_db::type_id::TypeId;
-use crate::types_db::value::Value;
+use crate::types_db::value::{Val, Value};
 
 #[derive(Clone, Debug, PartialEq)]
 pub enum RegexOperator {
@@ -134,6 +134,9 @@ impl ExpressionOps for RegexExpression {
         let value = self.expr().evaluate(tuple, schema)?;
         let pattern = self.pattern().evaluate(tuple, schema)?;
 
+        if value.is_null() || pattern.is_null() {
+            return Ok(Value::new(Val::Null));
+        }
         let value_str = value.to_string();
         let pattern_str = pattern.to_string();
 
@@ -184,6 +187,9 @@ impl ExpressionOps for RegexExpression {
                     right_tuple,
                     right_schema,
                 )?;
+                if value.is_null() || pattern.is_null() {
+                    return Ok(Value::new(Val::Null));
+                }
                 let value_str = value.to_string();
                 let pattern_str = pattern.to_string();
 
-- 
2.43.0


From 8171d6984afc26e6ee14e6c3d4d560c5d077cdc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:30:24 +0000
Subject: [PATCH 119/120] fix: a hash directory that had been shrunk before
 refused to shrink again

---
 .../page/page_types/extendable_hash_table_directory_page.rs     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/storage/page/page_types/extendable_hash_table_directory_page.rs b/src/storage/page/page_types/extendable_hash_table_directory_page.rs
index 34ec9e1..92bc1f0 100644
--- a/src/storage/page/page_types/extendable_hash_table_directory_page.rs
+++ b/src/storage/page/page_types/extendable_hash_table_directory_page.rs
@@ -334,7 +334,7 @@ impl ExtendableHTableDirectoryPage {
     /// # Returns
     /// True if the directory can be shrunk, false otherwise.
     pub fn can_shrink(&self) -> bool {
-        for local_depth in self.local_depths {
+        for &local_depth in &self.local_depths[..self.get_size() as usize] {
             if local_depth >= self.global_depth {
                 return false;
             }
-- 
2.43.0


From fe7f268c0a6b3f4c64d91e8f766e722d9bfb526e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:53:19 +0000
Subject: [PATCH 120/120] fix: a page read could return the old version after
 the new one had been read

---
 src/storage/disk/async_disk/cache/cache_manager.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/storage/disk/async_disk/cache/cache_manager.rs b/src/storage/disk/async_disk/cache/cache_manager.rs
index 2a684e9..f728e83 100644
--- a/src/storage/disk/async_disk/cache/cache_manager.rs
+++ b/src/storage/disk/async_disk/cache/cache_manager.rs
@@ -1307,7 +1307,10 @@ impl CacheManager {
                 }
             }
         }
+        // All tiers at once: no lookup may find the new data in one and the old in another
         let mut cold_cache = exclusive(&self.cold_cache);
+        let mut warm_cache = exclusive(&self.warm_cache);
+        let mut hot_cache = exclusive(&self.hot_cache);
         if cold_cache.contains(&page_id) {
             let page_data = PageData {
                 data: Arc::new(data.to_vec()),
@@ -1317,9 +1320,8 @@ impl CacheManager {
             };
             cold_cache.insert(page_id, page_data);
         }
-        drop(cold_cache);
-        exclusive(&self.warm_cache).remove(&page_id);
-        exclusive(&self.hot_cache).remove(&page_id);
+        warm_cache.remove(&page_id);
+        hot_cache.remove(&page_id);
     }
 
     /// Determines whether a page should be admitted to the cache.
-- 
2.43.0

