From e86f1e55e14270f290e5dd6c6313b1b20415dd61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:49 +0000
Subject: [PATCH 01/21] fix: traverse every production in validate() instead of
 none

NTHelper::has_visited returned true on the first visit, so Concat, Union and
Suffixes never looked at their symbols: left recursion and unassigned symbols
went unreported.  ConstantFieldSet::validate, now reachable, was a todo!().
---
 src/production/non_terminals/mod.rs        | 4 ++--
 src/production/terminals/constant_field.rs | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/production/non_terminals/mod.rs b/src/production/non_terminals/mod.rs
index bbb804b..5fbb578 100644
--- a/src/production/non_terminals/mod.rs
+++ b/src/production/non_terminals/mod.rs
@@ -71,9 +71,9 @@ impl NTHelper {
             if visited_prod.insert(self.identifier) {
                 let l = connected_set.len();
                 connected_set.insert(self.identifier, l);
-                Ok(true)
-            } else {
                 Ok(false)
+            } else {
+                Ok(true)
             }
         }
     }
diff --git a/src/production/terminals/constant_field.rs b/src/production/terminals/constant_field.rs
index e188046..b5c8aa2 100644
--- a/src/production/terminals/constant_field.rs
+++ b/src/production/terminals/constant_field.rs
@@ -306,6 +306,6 @@ impl<TN: NodeImpl, TL: TokenImpl> IProduction for ConstantFieldSet<TN, TL> {
         _: HashMap<&'id str, usize>,
         _: &mut HashSet<&'id str>,
     ) -> Result<(), crate::ImplementationError> {
-        todo!()
+        Ok(())
     }
 }
-- 
2.43.0


From 09af050189bd139bd551bd5d85303d2a479ff4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:13 +0000
Subject: [PATCH 02/21] fix: treat suffixes as alternatives when validating
 left recursion

Suffixes::validate overwrote the nullability of the left symbol with that of
the last suffix looked at, so a left recursion through a later suffix of a
nullable left symbol was not reported.
---
 src/production/non_terminals/suffixes.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/production/non_terminals/suffixes.rs b/src/production/non_terminals/suffixes.rs
index 3d5935c..0d41b94 100644
--- a/src/production/non_terminals/suffixes.rs
+++ b/src/production/non_terminals/suffixes.rs
@@ -249,11 +249,10 @@ impl<TP: IProduction> IProduction for Suffixes<TP> {
             }
 
             self.left.validate(connected_set.clone(), visited_prod)?;
-            let mut is_nullable: bool = self.left.obtain_nullability(HashMap::new())?;
+            let is_nullable: bool = self.left.obtain_nullability(HashMap::new())?;
             for (prod, _) in self.get_suffixes() {
                 if is_nullable {
                     prod.validate(connected_set.clone(), visited_prod)?;
-                    is_nullable = prod.obtain_nullability(HashMap::new())?;
                 } else {
                     prod.validate(HashMap::new(), visited_prod)?;
                 }
-- 
2.43.0


From 134a5e19acb1f4126044af3ba312380ee4a9eb95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:59 +0000
Subject: [PATCH 03/21] fix: look through every left edge when computing
 nullability

obtain_nullability() is what finds a left recursion that validate() reaches
only after it has visited the productions once.  It stopped at the first
nullable alternative, did not look into optional symbols, started over with an
empty visited set for the left symbol of Suffixes (unbounded recursion), and
panicked on unassigned symbols instead of reporting them.
---
 src/production/non_terminals/concat.rs   | 13 +++++----
 src/production/non_terminals/mod.rs      |  6 +++++
 src/production/non_terminals/suffixes.rs | 34 +++++++++++-------------
 src/production/non_terminals/union.rs    | 15 +++++------
 src/production/wrappers/nullable.rs      |  3 ++-
 5 files changed, 36 insertions(+), 35 deletions(-)

diff --git a/src/production/non_terminals/concat.rs b/src/production/non_terminals/concat.rs
index 8f4e7f6..0df766e 100644
--- a/src/production/non_terminals/concat.rs
+++ b/src/production/non_terminals/concat.rs
@@ -137,6 +137,9 @@ impl<TN: NodeImpl, TL: TokenImpl> IProduction for Concat<TN, TL> {
         mut visited: HashMap<&'id str, usize>,
     ) -> Result<bool, crate::ImplementationError> {
         self.nt_helper.validate_circular_dependency(&mut visited)?;
+        if self.symbols.get().is_none() {
+            return Err(self.nt_helper.unassigned_symbols());
+        }
 
         match self.nt_helper.nullability.get() {
             Some(s) => Ok(*s),
@@ -198,13 +201,7 @@ impl<TN: NodeImpl, TL: TokenImpl> IProduction for Concat<TN, TL> {
             .has_visited(&mut connected_set, visited_prod)?
         {
             if self.symbols.get().is_none() {
-                return Err(ImplementationError::new(
-                    "InitializationError".into(),
-                    format!(
-                        "Symbols are not assigned for {:?}.",
-                        self.nt_helper.identifier
-                    ),
-                ));
+                return Err(self.nt_helper.unassigned_symbols());
             }
 
             let mut is_nullable: bool = true;
@@ -216,6 +213,8 @@ impl<TN: NodeImpl, TL: TokenImpl> IProduction for Concat<TN, TL> {
                     prod.validate(HashMap::new(), visited_prod)?;
                 }
             }
+            // The left edges are all assigned by now: report a left recursion through them.
+            self.obtain_nullability(HashMap::new())?;
         }
         Ok(())
     }
diff --git a/src/production/non_terminals/mod.rs b/src/production/non_terminals/mod.rs
index 5fbb578..3eff51a 100644
--- a/src/production/non_terminals/mod.rs
+++ b/src/production/non_terminals/mod.rs
@@ -77,6 +77,12 @@ impl NTHelper {
             }
         }
     }
+    fn unassigned_symbols(&self) -> ImplementationError {
+        ImplementationError::new(
+            "InitializationError".into(),
+            format!("Symbols are not assigned for {:?}.", self.identifier),
+        )
+    }
     fn assign_debugger(&self, debugger: Log<&'static str>) -> Result<(), String> {
         self.debugger
             .set(debugger)
diff --git a/src/production/non_terminals/suffixes.rs b/src/production/non_terminals/suffixes.rs
index 0d41b94..b9d181e 100644
--- a/src/production/non_terminals/suffixes.rs
+++ b/src/production/non_terminals/suffixes.rs
@@ -171,22 +171,22 @@ impl<TP: IProduction> IProduction for Suffixes<TP> {
         mut visited: HashMap<&'id str, usize>,
     ) -> Result<bool, crate::ImplementationError> {
         self.nt_helper.validate_circular_dependency(&mut visited)?;
+        if self.suffixes.get().is_none() {
+            return Err(self.nt_helper.unassigned_symbols());
+        }
         match self.nt_helper.nullability.get() {
             Some(t) => Ok(*t),
             None => {
-                let is_nullable = self.left.is_nullable() && {
-                    let standalone_or_nullable = self.standalone || {
-                        let mut is_nullable = false;
-                        for (prod, _) in self.get_suffixes() {
-                            if prod.obtain_nullability(visited.clone())? {
-                                is_nullable = true;
-                                break;
-                            }
+                let mut is_nullable = false;
+                if self.left.obtain_nullability(visited.clone())? {
+                    is_nullable = self.standalone;
+                    // Every suffix begins the production here, look at all of them.
+                    for (prod, _) in self.get_suffixes() {
+                        if prod.obtain_nullability(visited.clone())? {
+                            is_nullable = true;
                         }
-                        is_nullable
-                    };
-                    standalone_or_nullable
-                };
+                    }
+                }
 
                 self.nt_helper.nullability.set(is_nullable).unwrap();
                 Ok(is_nullable)
@@ -239,13 +239,7 @@ impl<TP: IProduction> IProduction for Suffixes<TP> {
             .has_visited(&mut connected_set, visited_prod)?
         {
             if self.suffixes.get().is_none() {
-                return Err(ImplementationError::new(
-                    "InitializationError".into(),
-                    format!(
-                        "Suffixes symbols are not assigned for {:?}.",
-                        self.nt_helper.identifier
-                    ),
-                ));
+                return Err(self.nt_helper.unassigned_symbols());
             }
 
             self.left.validate(connected_set.clone(), visited_prod)?;
@@ -257,6 +251,8 @@ impl<TP: IProduction> IProduction for Suffixes<TP> {
                     prod.validate(HashMap::new(), visited_prod)?;
                 }
             }
+            // The left edges are all assigned by now: report a left recursion through them.
+            self.obtain_nullability(HashMap::new())?;
         }
         Ok(())
     }
diff --git a/src/production/non_terminals/union.rs b/src/production/non_terminals/union.rs
index abf7057..af43b72 100644
--- a/src/production/non_terminals/union.rs
+++ b/src/production/non_terminals/union.rs
@@ -148,15 +148,18 @@ impl<TN: NodeImpl, TL: TokenImpl> IProduction for Union<TN, TL> {
         mut visited: HashMap<&'id str, usize>,
     ) -> Result<bool, crate::ImplementationError> {
         self.nt_helper.validate_circular_dependency(&mut visited)?;
+        if self.symbols.get().is_none() {
+            return Err(self.nt_helper.unassigned_symbols());
+        }
 
         match self.nt_helper.nullability.get() {
             Some(s) => Ok(*s),
             None => {
                 let mut is_nullable = false;
                 for prod in self.get_productions() {
+                    // Every alternative begins the production, look at all of them.
                     if prod.obtain_nullability(visited.clone())? {
                         is_nullable = true;
-                        break;
                     }
                 }
                 self.nt_helper.nullability.set(is_nullable).unwrap();
@@ -199,17 +202,13 @@ impl<TN: NodeImpl, TL: TokenImpl> IProduction for Union<TN, TL> {
             .has_visited(&mut connected_set, visited_prod)?
         {
             if self.symbols.get().is_none() {
-                return Err(ImplementationError::new(
-                    "InitializationError".into(),
-                    format!(
-                        "Symbols are not assigned for {:?}.",
-                        self.nt_helper.identifier
-                    ),
-                ));
+                return Err(self.nt_helper.unassigned_symbols());
             }
             for prod in self.get_productions() {
                 prod.validate(connected_set.clone(), visited_prod)?;
             }
+            // The left edges are all assigned by now: report a left recursion through them.
+            self.obtain_nullability(HashMap::new())?;
         }
         Ok(())
     }
diff --git a/src/production/wrappers/nullable.rs b/src/production/wrappers/nullable.rs
index 78a9cb8..130980b 100644
--- a/src/production/wrappers/nullable.rs
+++ b/src/production/wrappers/nullable.rs
@@ -82,8 +82,9 @@ impl<TProd: IProduction> IProduction for Nullable<TProd> {
 
     fn obtain_nullability<'id>(
         &'id self,
-        _: HashMap<&'id str, usize>,
+        visited: HashMap<&'id str, usize>,
     ) -> Result<bool, ImplementationError> {
+        self.get_production().obtain_nullability(visited)?;
         Ok(true)
     }
     fn impl_first_set<'prod>(&'prod self, first_set: &mut HashSet<TProd::Token>) {
-- 
2.43.0


From 7e6bcaec0ff55db7f11275f6f2d524ec213f3631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:59 +0000
Subject: [PATCH 04/21] fix: a separated list is nullable when its item is
 nullable

The separator is only parsed after a first item, so it does not take part in
whether the list can match nothing.
---
 src/production/wrappers/separated_list.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/production/wrappers/separated_list.rs b/src/production/wrappers/separated_list.rs
index ace2f80..9627427 100644
--- a/src/production/wrappers/separated_list.rs
+++ b/src/production/wrappers/separated_list.rs
@@ -264,19 +264,22 @@ impl<TP: IProduction, TS: IProduction<Node = TP::Node, Token = TP::Token>> IProd
     }
 
     fn is_nullable(&self) -> bool {
-        self.production.is_nullable() && self.separator.is_nullable()
+        self.production.is_nullable()
     }
 
     fn is_nullable_n_hidden(&self) -> bool {
-        self.production.is_nullable_n_hidden() && self.separator.is_nullable_n_hidden()
+        self.production.is_nullable_n_hidden()
     }
 
     fn obtain_nullability<'id>(
         &'id self,
         visited: HashMap<&'id str, usize>,
     ) -> Result<bool, ImplementationError> {
-        Ok(self.production.obtain_nullability(visited.clone())?
-            && self.separator.obtain_nullability(visited)?)
+        let is_nullable = self.production.obtain_nullability(visited.clone())?;
+        if is_nullable {
+            self.separator.obtain_nullability(visited)?;
+        }
+        Ok(is_nullable)
     }
 
     fn impl_first_set(&self, first_set: &mut HashSet<Self::Token>) {
-- 
2.43.0


From bdc600f763a0ccce15bc597dcf775e4406848ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:59 +0000
Subject: [PATCH 05/21] fix: end a separated list when separator and item
 consume nothing

Like List, SeparatedList has to stop at the first round without progress;
it looped forever, adding children each time.
---
 src/production/wrappers/separated_list.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/production/wrappers/separated_list.rs b/src/production/wrappers/separated_list.rs
index 9627427..384a70b 100644
--- a/src/production/wrappers/separated_list.rs
+++ b/src/production/wrappers/separated_list.rs
@@ -38,7 +38,7 @@ impl<TP: IProduction, TS: IProduction<Node = TP::Node, Token = TP::Token>> Separ
     }
 
     fn consume<
-        T: Copy,
+        T: Copy + PartialEq,
         TCache: Copy + Default + Eq + Hash + Ord,
         P: Fn(T, &mut Cache<TCache, TP::Node>) -> ParsedResult<T, TP::Node>,
         S: Fn(T, &mut Cache<TCache, TP::Node>) -> ParsedResult<T, TP::Node>,
@@ -60,6 +60,9 @@ impl<TP: IProduction, TS: IProduction<Node = TP::Node, Token = TP::Token>> Separ
                         Ok(next_success_data) => {
                             children.extend(separator_success_data.children);
                             children.extend(next_success_data.children);
+                            if moved_ptr == next_success_data.consumed_index {
+                                break Ok(SuccessData::new(moved_ptr, children));
+                            }
                             moved_ptr = next_success_data.consumed_index;
                         }
                         Err(err) => {
-- 
2.43.0


From 98231e2ef248daad3a601d0b341eda7cf77e857f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:59 +0000
Subject: [PATCH 06/21] fix: show the optional last separator for inclusive
 lists only

An inclusive list accepts a trailing separator, an exclusive one does not;
the grammar text said the opposite.
---
 src/production/wrappers/separated_list.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/production/wrappers/separated_list.rs b/src/production/wrappers/separated_list.rs
index 384a70b..ab16520 100644
--- a/src/production/wrappers/separated_list.rs
+++ b/src/production/wrappers/separated_list.rs
@@ -121,7 +121,7 @@ impl<TP: IProduction, TS: IProduction<Node = TP::Node, Token = TP::Token>> Displ
                     p = self.get_production(),
                     s = self.get_separator()
                 )?;
-                if !self.inclusive {
+                if self.inclusive {
                     write!(f, " ({})?", self.get_separator())?;
                 }
                 Ok(())
@@ -174,8 +174,8 @@ impl<TP: IProduction, TS: IProduction<Node = TP::Node, Token = TP::Token>> IProd
                         s = self.get_separator()
                     )?;
 
-                    if !self.inclusive {
-                        writeln!(writer, " ({})?", self.get_separator()).unwrap();
+                    if self.inclusive {
+                        writeln!(writer, " ({})?", self.get_separator())?;
                     } else {
                         writeln!(writer, "")?;
                     }
-- 
2.43.0


From f0c9ae425995751817cd004e2e8a40b13365c3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:33 +0000
Subject: [PATCH 07/21] fix: make is_nullable_n_hidden tell whether the null
 derivation is hidden

Hidden null productions and optional symbols answered false and got a null node
from Union and Suffixes; wrappers answered from nullability alone, Lookahead and
Cacheable answered true whatever they wrap.
---
 src/production/non_terminals/suffixes.rs  | 6 +++++-
 src/production/terminals/null.rs          | 2 +-
 src/production/wrappers/cache.rs          | 2 +-
 src/production/wrappers/look_ahead.rs     | 4 ++--
 src/production/wrappers/non_structural.rs | 2 +-
 src/production/wrappers/nullable.rs       | 6 +++++-
 src/production/wrappers/structural.rs     | 2 +-
 7 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/production/non_terminals/suffixes.rs b/src/production/non_terminals/suffixes.rs
index b9d181e..1580221 100644
--- a/src/production/non_terminals/suffixes.rs
+++ b/src/production/non_terminals/suffixes.rs
@@ -163,7 +163,11 @@ impl<TP: IProduction> IProduction for Suffixes<TP> {
         *self
             .nt_helper
             .null_hidden
-            .get_or_init(|| self.standalone && self.left.is_nullable_n_hidden())
+            .get_or_init(|| {
+                self.is_nullable()
+                    && self.obtain_first_null_suffix().is_none()
+                    && self.left.is_nullable_n_hidden()
+            })
     }
 
     fn obtain_nullability<'id>(
diff --git a/src/production/terminals/null.rs b/src/production/terminals/null.rs
index dfae4b1..55caf47 100644
--- a/src/production/terminals/null.rs
+++ b/src/production/terminals/null.rs
@@ -71,7 +71,7 @@ impl<TN: NodeImpl, TL: TokenImpl> IProduction for NullProd<TN, TL> {
 
     fn impl_first_set<'prod>(&'prod self, _: &mut HashSet<Self::Token>) {}
     fn is_nullable_n_hidden(&self) -> bool {
-        false
+        self.node_value.is_none()
     }
 
     fn validate(
diff --git a/src/production/wrappers/cache.rs b/src/production/wrappers/cache.rs
index cc8558c..99c4fa5 100644
--- a/src/production/wrappers/cache.rs
+++ b/src/production/wrappers/cache.rs
@@ -64,7 +64,7 @@ impl<TProd: IProduction> IProduction for Cacheable<TProd> {
         self.production.impl_first_set(first_set)
     }
     fn is_nullable_n_hidden(&self) -> bool {
-        true
+        self.production.is_nullable_n_hidden()
     }
 
     #[inline]
diff --git a/src/production/wrappers/look_ahead.rs b/src/production/wrappers/look_ahead.rs
index b6b9563..7dcd53f 100644
--- a/src/production/wrappers/look_ahead.rs
+++ b/src/production/wrappers/look_ahead.rs
@@ -55,7 +55,7 @@ impl<TProd: IProduction> IProduction for Lookahead<TProd> {
 
     #[inline]
     fn is_nullable(&self) -> bool {
-        false
+        self.production.is_nullable()
     }
 
     fn impl_grammar(
@@ -77,7 +77,7 @@ impl<TProd: IProduction> IProduction for Lookahead<TProd> {
         self.production.impl_first_set(first_set)
     }
     fn is_nullable_n_hidden(&self) -> bool {
-        true
+        self.is_nullable() && self.node_value.is_none()
     }
 
     #[inline]
diff --git a/src/production/wrappers/non_structural.rs b/src/production/wrappers/non_structural.rs
index 42ef336..46eec3e 100644
--- a/src/production/wrappers/non_structural.rs
+++ b/src/production/wrappers/non_structural.rs
@@ -75,7 +75,7 @@ impl<TProd: IProduction> IProduction for NonStructural<TProd> {
         self.production.impl_first_set(first_set)
     }
     fn is_nullable_n_hidden(&self) -> bool {
-        self.production.is_nullable()
+        self.production.is_nullable_n_hidden()
     }
 
     #[inline]
diff --git a/src/production/wrappers/nullable.rs b/src/production/wrappers/nullable.rs
index 130980b..f2ade36 100644
--- a/src/production/wrappers/nullable.rs
+++ b/src/production/wrappers/nullable.rs
@@ -92,7 +92,11 @@ impl<TProd: IProduction> IProduction for Nullable<TProd> {
     }
 
     fn is_nullable_n_hidden(&self) -> bool {
-        false
+        if self.get_production().is_nullable() {
+            self.get_production().is_nullable_n_hidden()
+        } else {
+            self.node_value.is_none()
+        }
     }
 
     #[inline]
diff --git a/src/production/wrappers/structural.rs b/src/production/wrappers/structural.rs
index e9658f5..a5884e6 100644
--- a/src/production/wrappers/structural.rs
+++ b/src/production/wrappers/structural.rs
@@ -72,7 +72,7 @@ impl<TProd: IProduction> IProduction for Structural<TProd> {
         self.production.impl_first_set(first_set)
     }
     fn is_nullable_n_hidden(&self) -> bool {
-        self.production.is_nullable()
+        self.production.is_nullable_n_hidden()
     }
 
     #[inline]
-- 
2.43.0


From b8aa99c8a0bc6562f8fe2c6f9b0812d55e589bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:34 +0000
Subject: [PATCH 08/21] fix: parse the nullable alternative instead of making
 up a null node

---
 src/production/non_terminals/suffixes.rs | 66 ++++++++++++++----------
 src/production/non_terminals/union.rs    | 33 ++++--------
 2 files changed, 49 insertions(+), 50 deletions(-)

diff --git a/src/production/non_terminals/suffixes.rs b/src/production/non_terminals/suffixes.rs
index 1580221..d5bc300 100644
--- a/src/production/non_terminals/suffixes.rs
+++ b/src/production/non_terminals/suffixes.rs
@@ -359,22 +359,28 @@ impl<TP: IProduction> IProduction for Suffixes<TP> {
             None => {
                 if let Some(i) = self.obtain_first_null_suffix() {
                     let left_bound = token_stream.get_token_ptr(fltr_ptr);
-                    let right_bound = token_stream.get_token_ptr(left_success_data.consumed_index);
-
-                    if !suffixes[*i].0.is_nullable_n_hidden() {
-                        left_success_data.children.push(ASTNode::null(
-                            token_stream[left_success_data.consumed_index].start,
-                            Some(right_bound),
-                        ))
+                    match suffixes[*i]
+                        .0
+                        .advance_fltr_ptr(code, moved_ptr, token_stream, cache)
+                    {
+                        Ok(data) => {
+                            left_success_data.children.extend(data.children);
+                            let right_bound = token_stream.get_token_ptr(data.consumed_index);
+                            let tree = ASTNode::new(
+                                suffixes[*i].1.clone(),
+                                token_stream[fltr_ptr].start,
+                                token_stream[data.consumed_index].start,
+                                Some((left_bound, right_bound)),
+                                left_success_data.children,
+                            );
+                            return Ok(SuccessData::tree(data.consumed_index, tree));
+                        }
+                        Err(err) => {
+                            if err.is_invalid() {
+                                return Err(err);
+                            }
+                        }
                     }
-                    let tree = ASTNode::new(
-                        suffixes[*i].1.clone(),
-                        token_stream[fltr_ptr].start,
-                        token_stream[left_success_data.consumed_index].start,
-                        Some((left_bound, right_bound)),
-                        left_success_data.children,
-                    );
-                    return Ok(SuccessData::tree(left_success_data.consumed_index, tree));
                 }
             }
         }
@@ -452,20 +458,24 @@ impl<TP: IProduction> IProduction for Suffixes<TP> {
             }
         } else {
             if let Some(i) = self.obtain_first_null_suffix() {
-                if !suffixes[*i].0.is_nullable_n_hidden() {
-                    left_success_data.children.push(ASTNode::null(
-                        stream[left_success_data.consumed_index].start,
-                        Some(left_success_data.consumed_index),
-                    ))
+                match suffixes[*i].0.advance_token_ptr(code, moved_ptr, stream, cache) {
+                    Ok(data) => {
+                        left_success_data.children.extend(data.children);
+                        let tree = ASTNode::new(
+                            suffixes[*i].1.clone(),
+                            stream[index].start,
+                            stream[data.consumed_index].start,
+                            Some((index, data.consumed_index)),
+                            left_success_data.children,
+                        );
+                        return Ok(SuccessData::tree(data.consumed_index, tree));
+                    }
+                    Err(err) => {
+                        if err.is_invalid() {
+                            return Err(err);
+                        }
+                    }
                 }
-                let tree = ASTNode::new(
-                    suffixes[*i].1.clone(),
-                    stream[index].start,
-                    stream[left_success_data.consumed_index].start,
-                    Some((index, left_success_data.consumed_index)),
-                    left_success_data.children,
-                );
-                return Ok(SuccessData::tree(left_success_data.consumed_index, tree));
             }
         }
         if self.standalone {
diff --git a/src/production/non_terminals/union.rs b/src/production/non_terminals/union.rs
index af43b72..7c71f30 100644
--- a/src/production/non_terminals/union.rs
+++ b/src/production/non_terminals/union.rs
@@ -2,8 +2,8 @@ use crate::production::NTHelper;
 #[cfg(debug_assertions)]
 use crate::production::ProductionLogger;
 use crate::{
-    production::Union, Code, ASTNode, Cache, FltrPtr, IProduction, ImplementationError,
-    NodeImpl, ParsedResult, ProductionError, SuccessData, TokenImpl, TokenPtr, TokenStream,
+    production::Union, Code, Cache, FltrPtr, IProduction, ImplementationError,
+    NodeImpl, ParsedResult, ProductionError, TokenImpl, TokenPtr, TokenStream,
 };
 
 use once_cell::unsync::OnceCell;
@@ -284,14 +284,8 @@ impl<TN: NodeImpl, TL: TokenImpl> IProduction for Union<TN, TL> {
                 }
             }
             None => {
-                if self.is_nullable_n_hidden() {
-                    return Ok(SuccessData::hidden(fltr_ptr));
-                } else if self.is_nullable() {
-                    let tree = ASTNode::null(
-                        token_stream[fltr_ptr].start,
-                        Some(token_stream.get_token_ptr(fltr_ptr)),
-                    );
-                    return Ok(SuccessData::tree(fltr_ptr, tree));
+                if let Some(prod) = productions.iter().find(|prod| prod.is_nullable()) {
+                    return prod.advance_fltr_ptr(code, fltr_ptr, token_stream, cache);
                 }
             }
         }
@@ -319,9 +313,9 @@ impl<TN: NodeImpl, TL: TokenImpl> IProduction for Union<TN, TL> {
         let immediate_lex = &token_stream[index];
 
         let (_, first_sets) = self.obtain_first_set();
+        let productions = self.get_productions();
 
         if let Ok(p_index) = first_sets.binary_search_by_key(&immediate_lex.token, |(t, _)| *t) {
-            let productions = self.get_productions();
             for prod in first_sets[p_index].1.iter().map(|j| &productions[*j]) {
                 match prod.advance_token_ptr(code, index, token_stream, cache) {
                     Ok(s) => {
@@ -344,20 +338,15 @@ impl<TN: NodeImpl, TL: TokenImpl> IProduction for Union<TN, TL> {
                     }
                 }
             }
+        } else if let Some(prod) = productions.iter().find(|prod| prod.is_nullable()) {
+            return prod.advance_token_ptr(code, index, token_stream, cache);
         }
 
-        if self.is_nullable_n_hidden() {
-            Ok(SuccessData::hidden(index))
-        } else if self.is_nullable() {
-            let tree = ASTNode::null(token_stream[index].start, Some(index));
-            Ok(SuccessData::tree(index, tree))
-        } else {
-            #[cfg(debug_assertions)]
-            self.nt_helper
-                .log_error(code, token_stream[index].start, &ProductionError::Unparsed);
+        #[cfg(debug_assertions)]
+        self.nt_helper
+            .log_error(code, token_stream[index].start, &ProductionError::Unparsed);
 
-            Err(ProductionError::Unparsed)
-        }
+        Err(ProductionError::Unparsed)
     }
 
     fn advance_ptr(
-- 
2.43.0


From 8a6d1d4664f0707b27832ff8cab8b94c8ee2aa7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:50 +0000
Subject: [PATCH 09/21] fix: match constant lexemes against the input

---
 src/lexeme/constants.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lexeme/constants.rs b/src/lexeme/constants.rs
index 7c03d57..c9547ed 100644
--- a/src/lexeme/constants.rs
+++ b/src/lexeme/constants.rs
@@ -52,7 +52,11 @@ where
         _: &mut Vec<Self::State>,
     ) -> Option<Lex<Self::Token>> {
         self.log_enter();
+        let code_part = &code.value[pointer..];
         let result = self.values.iter().rev().find_map(|(value, token)| {
+            if value.is_empty() || !code_part.starts_with(value.as_bytes()) {
+                return None;
+            }
             let lex = Lex::new(token.clone(), pointer, pointer + value.len());
             Some(lex)
         });
-- 
2.43.0


From 20059962e633742d8343837062208b75591df7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:07 +0000
Subject: [PATCH 10/21] fix: fall back to the longest punctuation matched so
 far

---
 src/field_tree.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/field_tree.rs b/src/field_tree.rs
index 9297fc7..d0c9b34 100644
--- a/src/field_tree.rs
+++ b/src/field_tree.rs
@@ -34,8 +34,12 @@ impl<TToken: Clone> FieldTree<TToken> {
     pub fn find(&self, code_part: &[u8]) -> Option<(TToken, usize)> {
         let mut current_field = self;
         let mut index = 0;
+        let mut longest_match = None;
 
         loop {
+            if let Some(t) = &current_field.token {
+                longest_match = Some((t.clone(), index));
+            }
             if code_part.len() > index {
                 match current_field
                     .children
@@ -46,11 +50,11 @@ impl<TToken: Clone> FieldTree<TToken> {
                         current_field = &current_field.children[i].1;
                     }
                     Err(_) => {
-                        break current_field.token.as_ref().map(|t| (t.clone(), index));
+                        break longest_match;
                     }
                 }
             } else {
-                break current_field.token.as_ref().map(|t| (t.clone(), index));
+                break longest_match;
             }
         }
     }
-- 
2.43.0


From 17ae2d2fecb6f608bf6861ff1daf73e9206524cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:40 +0000
Subject: [PATCH 11/21] fix: reject an empty punctuation, it would never
 advance the tokenizer

---
 src/lexeme/punctuation.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lexeme/punctuation.rs b/src/lexeme/punctuation.rs
index 13ff636..907340d 100644
--- a/src/lexeme/punctuation.rs
+++ b/src/lexeme/punctuation.rs
@@ -23,6 +23,9 @@ impl<TToken: Debug + Copy, TState> Punctuations<TToken, TState> {
 
     fn add(&mut self, fields: Vec<(&str, TToken)>) -> Result<(), String> {
         for (key, token) in fields {
+            if key.is_empty() {
+                return Err(format!("Punctuation of token {:?} is empty", token));
+            }
             self.field_tree
                 .insert(key.as_bytes(), token)
                 .map_err(|err| {
-- 
2.43.0


From f08c72aef8d33a7e68b15855d76ad9862e345664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:56 +0000
Subject: [PATCH 12/21] fix: tokenize empty code into the end of file token

---
 src/tokenization.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/tokenization.rs b/src/tokenization.rs
index cada259..be6ac1a 100644
--- a/src/tokenization.rs
+++ b/src/tokenization.rs
@@ -46,6 +46,10 @@ impl<TToken: TokenImpl, TState: Copy + Debug + Ord + Eq> ITokenization
         let mut pointer: usize = 0;
         let eof_pointer: usize = code.value.len();
 
+        if pointer == eof_pointer {
+            return Ok(vec![Lex::new(TToken::eof(), eof_pointer, eof_pointer)]);
+        }
+
         let mut state_stack = Vec::<TState>::new();
         let mut current_state = self.default_state;
         let mut current_analyzer = match self
@@ -159,6 +163,10 @@ impl<TToken: TokenImpl, TState: Copy + Debug + Default + Ord + Eq> ITokenization
         let mut pointer: usize = 0;
         let eof_pointer: usize = code.value.len();
 
+        if pointer == eof_pointer {
+            return Ok(vec![Lex::new(TToken::eof(), eof_pointer, eof_pointer)]);
+        }
+
         let mut state_stack = Vec::new();
 
         loop {
-- 
2.43.0


From 6c2688b5db338657a1624ab879a75ce71dc320a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:25 +0000
Subject: [PATCH 13/21] fix: begin with the first token when no structural
 token was consumed

---
 src/production/non_terminals/suffixes.rs  | 6 ++----
 src/production/non_terminals/union.rs     | 6 ++----
 src/production/wrappers/non_structural.rs | 4 ++--
 3 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/production/non_terminals/suffixes.rs b/src/production/non_terminals/suffixes.rs
index d5bc300..b390046 100644
--- a/src/production/non_terminals/suffixes.rs
+++ b/src/production/non_terminals/suffixes.rs
@@ -290,14 +290,12 @@ impl<TP: IProduction> IProduction for Suffixes<TP> {
             }
             Err(_) => {
                 if !is_structural {
-                    let last_token_ptr = if moved_ptr > FltrPtr::default() {
-                        token_stream.get_token_ptr(moved_ptr - 1)
+                    let current_token_ptr = if moved_ptr > FltrPtr::default() {
+                        token_stream.get_token_ptr(moved_ptr - 1) + 1
                     } else {
                         TokenPtr::default()
                     };
 
-                    let current_token_ptr = last_token_ptr + 1;
-
                     let current_token_lex = &token_stream[current_token_ptr];
 
                     if !current_token_lex.token.is_structural() {
diff --git a/src/production/non_terminals/union.rs b/src/production/non_terminals/union.rs
index 7c71f30..9408186 100644
--- a/src/production/non_terminals/union.rs
+++ b/src/production/non_terminals/union.rs
@@ -237,14 +237,12 @@ impl<TN: NodeImpl, TL: TokenImpl> IProduction for Union<TN, TL> {
             }
             Err(_) => {
                 if !is_structural {
-                    let last_token_ptr = if fltr_ptr > FltrPtr::default() {
-                        token_stream.get_token_ptr(fltr_ptr - 1)
+                    let current_token_ptr = if fltr_ptr > FltrPtr::default() {
+                        token_stream.get_token_ptr(fltr_ptr - 1) + 1
                     } else {
                         TokenPtr::default()
                     };
 
-                    let current_token_ptr = last_token_ptr + 1;
-
                     let current_token_lex = &token_stream[current_token_ptr];
 
                     if !current_token_lex.token.is_structural() {
diff --git a/src/production/wrappers/non_structural.rs b/src/production/wrappers/non_structural.rs
index 46eec3e..2046779 100644
--- a/src/production/wrappers/non_structural.rs
+++ b/src/production/wrappers/non_structural.rs
@@ -98,14 +98,14 @@ impl<TProd: IProduction> IProduction for NonStructural<TProd> {
         self.log_entry();
 
         let start_segment = if fltr_ptr > FltrPtr::default() {
-            token_stream.get_token_ptr(fltr_ptr - 1)
+            token_stream.get_token_ptr(fltr_ptr - 1) + 1
         } else {
             TokenPtr::default()
         };
 
         let parsed_data =
             self.get_symbol()
-                .advance_token_ptr(code, start_segment + 1, token_stream, cache)?;
+                .advance_token_ptr(code, start_segment, token_stream, cache)?;
 
         let result = if self.fill_range {
             let end_segment = token_stream.get_token_ptr(fltr_ptr);
-- 
2.43.0


From d52d49f80513c3d71bbd9fdc9feb267746d04c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:55 +0000
Subject: [PATCH 14/21] fix: parse the structural token under the pointer
 instead of the one after it

---
 src/filtered_stream.rs                |  2 +-
 src/production/wrappers/structural.rs | 11 +++++------
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/filtered_stream.rs b/src/filtered_stream.rs
index dc2887a..c6b581f 100644
--- a/src/filtered_stream.rs
+++ b/src/filtered_stream.rs
@@ -147,7 +147,7 @@ impl<'lex, TToken> TokenStream<'lex, TToken> {
     pub fn find_filter_ptr(&self, index: TokenPtr) -> Result<FltrPtr, FltrPtr> {
         match self.filtered_stream.binary_search(&index) {
             Ok(i) => Ok(FltrPtr(i)),
-            Err(i) => Ok(FltrPtr(i)),
+            Err(i) => Err(FltrPtr(i)),
         }
     }
     pub fn last_segment_index(&self, lex_index: &FltrPtr) -> Option<TokenPtr> {
diff --git a/src/production/wrappers/structural.rs b/src/production/wrappers/structural.rs
index a5884e6..b9a4601 100644
--- a/src/production/wrappers/structural.rs
+++ b/src/production/wrappers/structural.rs
@@ -112,8 +112,7 @@ impl<TProd: IProduction> IProduction for Structural<TProd> {
         self.log_entry();
 
         let next_fltr_ptr = match token_stream.find_filter_ptr(index) {
-            Ok(fp) => fp + 1,
-            Err(fp) => fp,
+            Ok(fp) | Err(fp) => fp,
         };
 
         let parsed_data =
@@ -127,13 +126,13 @@ impl<TProd: IProduction> IProduction for Structural<TProd> {
             token_stream[parsed_data.consumed_index].start,
         );
 
-        let last_token_ptr = if parsed_data.consumed_index > FltrPtr::default() {
-            token_stream.get_token_ptr(parsed_data.consumed_index - 1)
+        let end_token_ptr = if parsed_data.consumed_index > next_fltr_ptr {
+            token_stream.get_token_ptr(parsed_data.consumed_index - 1) + 1
         } else {
-            TokenPtr::default()
+            index
         };
 
-        Ok(SuccessData::new(last_token_ptr + 1, parsed_data.children))
+        Ok(SuccessData::new(end_token_ptr, parsed_data.children))
     }
 
     fn advance_ptr(
-- 
2.43.0


From fc656ef7955f341213f82589382ddf7d2d46fce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:20 +0000
Subject: [PATCH 15/21] fix: report the furthest failed token even when it
 directly follows its predecessor

---
 src/cache.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/cache.rs b/src/cache.rs
index 38b91a3..1caecd8 100644
--- a/src/cache.rs
+++ b/src/cache.rs
@@ -66,8 +66,7 @@ impl<TNode: NodeImpl> Cache<FltrPtr, TNode> {
         let pointer = match err {
             ProductionError::Unparsed => {
                 let failed_index = match stream.filtered_index_at(self.max_parsed_point) {
-                    Ok(i) => i + 1,
-                    Err(i) => i,
+                    Ok(i) | Err(i) => i,
                 };
 
                 match stream.get(failed_index) {
-- 
2.43.0


From ec162b579fd72854ca001ad908be53ae4e8351f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:03 +0000
Subject: [PATCH 16/21] fix: do not take input bytes for valid UTF-8 in error
 messages

---
 src/cache.rs | 21 ++++++++-------------
 src/code.rs  |  8 ++++----
 2 files changed, 12 insertions(+), 17 deletions(-)

diff --git a/src/cache.rs b/src/cache.rs
index 1caecd8..8d3c118 100644
--- a/src/cache.rs
+++ b/src/cache.rs
@@ -74,11 +74,9 @@ impl<TNode: NodeImpl> Cache<FltrPtr, TNode> {
                         if lex_data.token == TL::eof() {
                             writeln!(error_message, "Unexpected end of file.").unwrap();
                         } else {
-                            let s = unsafe {
-                                std::str::from_utf8_unchecked(
-                                    &code.value[lex_data.start..lex_data.end],
-                                )
-                            };
+                            let s = String::from_utf8_lossy(
+                                &code.value[lex_data.start..lex_data.end],
+                            );
                             if cfg!(debug_assertions) {
                                 writeln!(
                                     error_message,
@@ -119,14 +117,11 @@ impl<TToken> Cache<usize, TToken> {
                     (self.get_index(), format!("Unexpected end of file."))
                 } else {
                     let failed_index = self.get_index();
-                    (
-                        failed_index,
-                        format!("Unexpected '{}'.", unsafe {
-                            std::str::from_utf8_unchecked(
-                                &code.value[failed_index..failed_index + 1],
-                            )
-                        },),
-                    )
+                    // A character is encoded in four bytes at most.
+                    let end = std::cmp::min(failed_index + 4, code.value.len());
+                    let failed_code = String::from_utf8_lossy(&code.value[failed_index..end]);
+                    let failed_char = failed_code.chars().next().unwrap_or_default();
+                    (failed_index, format!("Unexpected '{}'.", failed_char))
                 }
             }
             ProductionError::Validation(pointer, message) => (pointer, message),
diff --git a/src/code.rs b/src/code.rs
index 52a7700..98ecef9 100644
--- a/src/code.rs
+++ b/src/code.rs
@@ -36,12 +36,12 @@ impl<'c> Code<'c> {
         };
 
         if index == 0 {
-            let s = unsafe { std::str::from_utf8_unchecked(&self.value[..pointer]) };
-            Position::new(1, s.len() + 1)
+            let line_part = &self.value[..pointer];
+            Position::new(1, line_part.len() + 1)
         } else {
             let break_point = line_breaks[index - 1] + 1;
-            let s = unsafe { std::str::from_utf8_unchecked(&self.value[break_point..pointer]) };
-            Position::new(index + 1, s.len() + 1)
+            let line_part = &self.value[break_point..pointer];
+            Position::new(index + 1, line_part.len() + 1)
         }
     }
 }
-- 
2.43.0


From bb54b1e382598ffebc10fb738086dab8a93e3e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:22 +0000
Subject: [PATCH 17/21] fix: count the column of a position from its last line
 break

---
 src/position.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/position.rs b/src/position.rs
index dfc3031..5eb4ded 100644
--- a/src/position.rs
+++ b/src/position.rs
@@ -11,16 +11,17 @@ impl Position {
 
 impl From<&[u8]> for Position {
     fn from(code: &[u8]) -> Self {
-        let mut pointer: usize = 0;
+        let mut column: usize = 0;
         let mut line: usize = 0;
         for c in code {
             if *c == b'\n' {
                 line += 1;
+                column = 0;
+            } else {
+                column += 1;
             }
-            pointer += 1;
         }
-        let s = unsafe { std::str::from_utf8_unchecked(&code[pointer..]) };
-        Position::new(line + 1, s.len() + 1)
+        Position::new(line + 1, column + 1)
     }
 }
 
-- 
2.43.0


From 61557e1b51bee098155e1008091a40b1804ddaeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:41 +0000
Subject: [PATCH 18/21] fix: index the filtered tokens with filtered indices

---
 src/filtered_stream.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/filtered_stream.rs b/src/filtered_stream.rs
index c6b581f..5e53500 100644
--- a/src/filtered_stream.rs
+++ b/src/filtered_stream.rs
@@ -86,8 +86,8 @@ impl<'lex, TToken> TokenStream<'lex, TToken> {
             .filtered_stream
             .binary_search_by_key(&code_pointer, |s| self[*s].start)
         {
-            Ok(index) => Ok(&self.original_stream[index]),
-            Err(index) => Err(&self.original_stream[index]),
+            Ok(index) => Ok(&self[FltrPtr(index)]),
+            Err(index) => Err(&self[FltrPtr(index)]),
         }
     }
     pub fn pointer(&self, filtered_index: FltrPtr) -> usize {
@@ -102,7 +102,7 @@ impl<'lex, TToken> TokenStream<'lex, TToken> {
     }
 
     pub fn has_stream(&self, index: FltrPtr) -> bool {
-        self.filtered_stream.len() < index.0
+        index.0 < self.filtered_stream.len()
     }
     pub fn eos_pointer(&self) -> usize {
         self.original_stream[self.original_stream.len() - 1].end
-- 
2.43.0


From 65ad9e1cd0d2cd87032df139910af3bc65824adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:22 +0000
Subject: [PATCH 19/21] fix: write the rules of alternatives and suffixes into
 the grammar

---
 src/production/non_terminals/suffixes.rs | 7 +++++++
 src/production/non_terminals/union.rs    | 6 ++++++
 2 files changed, 13 insertions(+)

diff --git a/src/production/non_terminals/suffixes.rs b/src/production/non_terminals/suffixes.rs
index b390046..4a07814 100644
--- a/src/production/non_terminals/suffixes.rs
+++ b/src/production/non_terminals/suffixes.rs
@@ -229,6 +229,13 @@ impl<TP: IProduction> IProduction for Suffixes<TP> {
             if self.standalone {
                 writeln!(writer, "{:>6} {}", "|", self.left)?;
             }
+            writeln!(writer, "{:>6}", ";")?;
+            writeln!(writer, "")?;
+
+            self.left.impl_grammar(writer, visited)?;
+            for (prod, _) in self.get_suffixes() {
+                prod.impl_grammar(writer, visited)?;
+            }
         }
         Ok(())
     }
diff --git a/src/production/non_terminals/union.rs b/src/production/non_terminals/union.rs
index 9408186..dca092d 100644
--- a/src/production/non_terminals/union.rs
+++ b/src/production/non_terminals/union.rs
@@ -188,6 +188,12 @@ impl<TN: NodeImpl, TL: TokenImpl> IProduction for Union<TN, TL> {
                     writeln!(writer, "{:>6} {}", "|", prod)?;
                 }
             }
+            writeln!(writer, "{:>6}", ";")?;
+            writeln!(writer, "")?;
+
+            for prod in self.get_productions() {
+                prod.impl_grammar(writer, visited)?;
+            }
         }
         Ok(())
     }
-- 
2.43.0


From 276885faae28524b0f250ff342c0c9465df3a9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:41 +0000
Subject: [PATCH 20/21] fix: do not print the left recursion report to standard
 output

---
 src/production/non_terminals/mod.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/production/non_terminals/mod.rs b/src/production/non_terminals/mod.rs
index 3eff51a..41e13c8 100644
--- a/src/production/non_terminals/mod.rs
+++ b/src/production/non_terminals/mod.rs
@@ -12,7 +12,6 @@ mod union;
 fn build_circular_format(id: &str, connected_set: &HashMap<&str, usize>) -> String {
     let mut first_set_trees: Vec<(&&str, &usize)> = connected_set.iter().collect();
     first_set_trees.sort_by_key(|s| s.1);
-    println!("First set productions:{:?}", first_set_trees);
 
     let mut circular_string: String = String::new();
 
-- 
2.43.0


From 4150731e9e8bd6152c478ae1c134f06a2d38b51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:12 +0000
Subject: [PATCH 21/21] fix: do not announce lexemes whose log level is none

---
 src/lexeme/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lexeme/mod.rs b/src/lexeme/mod.rs
index c3904b1..598f351 100644
--- a/src/lexeme/mod.rs
+++ b/src/lexeme/mod.rs
@@ -125,7 +125,9 @@ trait LexemeLogger {
     fn log_enter(&self) {
         #[cfg(debug_assertions)]
         if let Some(l) = self.log_cell().get() {
-            println!("Entering {}", l)
+            if l.order() >= Log::Default(()).order() {
+                println!("Entering {}", l)
+            }
         }
     }
 
-- 
2.43.0

