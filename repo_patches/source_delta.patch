From 75588b408c2aefe22912d98313742ef4287ac510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:10 +0000
Subject: [PATCH 01/35] fix: leaves of a quotient transition that has no
 transitions on one side

---
 src/TransitionSystems/transition_id.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/TransitionSystems/transition_id.rs b/src/TransitionSystems/transition_id.rs
index eb8ad89..a8c952f 100644
--- a/src/TransitionSystems/transition_id.rs
+++ b/src/TransitionSystems/transition_id.rs
@@ -41,10 +41,18 @@ impl TransitionID {
                 r.get_leaves_helper(current_leaves, index_left + 1) // return index right
             }
             TransitionID::Quotient(l, r) => {
+                // A side may be without transitions, it still takes up its place.
+                if l.is_empty() {
+                    Self::reserve_leaf(current_leaves, index);
+                }
                 let mut index_left = index;
                 for t in l {
                     index_left = t.get_leaves_helper(current_leaves, index);
                 }
+                if r.is_empty() {
+                    Self::reserve_leaf(current_leaves, index_left + 1);
+                    return index_left + 1;
+                }
                 let mut index_right = index_left;
                 for s in r {
                     index_right = s.get_leaves_helper(current_leaves, index_left + 1);
@@ -52,15 +60,20 @@ impl TransitionID {
                 index_right
             }
             TransitionID::Simple(_) | TransitionID::None => {
-                if current_leaves.len() <= index {
-                    current_leaves.push(Vec::new());
-                }
+                Self::reserve_leaf(current_leaves, index);
                 current_leaves[index].push(self.clone());
                 index
             }
         }
     }
 
+    /// Makes sure that there is a list of leaves at `index`
+    fn reserve_leaf(current_leaves: &mut Vec<Vec<TransitionID>>, index: usize) {
+        while current_leaves.len() <= index {
+            current_leaves.push(Vec::new());
+        }
+    }
+
     /// Takes a path of TransitionIDs, and splits them into seperate paths for each component
     /// For example
     /// ```
-- 
2.43.0


From 9bb0e1f61958699cdb5acec485581449b783d294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:38 +0000
Subject: [PATCH 02/35] fix: refinement missed delays the right side cuts in
 the initial state

---
 src/System/refine.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/System/refine.rs b/src/System/refine.rs
index 5258000..2d96c32 100644
--- a/src/System/refine.rs
+++ b/src/System/refine.rs
@@ -143,9 +143,15 @@ pub fn check_refinement(sys1: TransitionSystemPtr, sys2: TransitionSystemPtr) ->
         initial_locations_2.clone(),
     );
 
-    if !prepare_init_state(&mut initial_pair, initial_locations_1, initial_locations_2) {
+    let cuts_delays =
+        prepare_init_state(&mut initial_pair, initial_locations_1, initial_locations_2);
+    if initial_pair.ref_zone().is_empty() {
         return RefinementFailure::empty_initial(sys1.as_ref(), sys2.as_ref());
     }
+    if cuts_delays {
+        // No action leads to the initial pair
+        return RefinementFailure::cuts_delays(sys1.as_ref(), sys2.as_ref(), "", &initial_pair);
+    }
     initial_pair.extrapolate_max_bounds(context.sys1, context.sys2);
 
     debug!("Initial {}", initial_pair);
@@ -407,6 +413,8 @@ fn build_state_pair(
     BuildResult::Success
 }
 
+/// Applies the invariants of both sides to the initial pair.
+/// Returns whether the right side's invariant cuts delay solutions from the left side.
 fn prepare_init_state(
     initial_pair: &mut StatePair,
     initial_locations_1: LocationTree,
@@ -414,11 +422,13 @@ fn prepare_init_state(
 ) -> bool {
     let mut sp_zone = initial_pair.take_zone();
     sp_zone = initial_locations_1.apply_invariants(sp_zone);
+    let s_invariant = sp_zone.clone();
     sp_zone = initial_locations_2.apply_invariants(sp_zone);
 
+    let cuts_delays = !s_invariant.subset_eq(&sp_zone.clone().down());
     initial_pair.set_zone(sp_zone);
 
-    !initial_pair.ref_zone().is_empty()
+    cuts_delays
 }
 
 fn check_preconditions(
-- 
2.43.0


From 54d9a8728d010a554ccde611d056b26c117528aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:11 +0000
Subject: [PATCH 03/35] fix: consistency relied on states that were found
 inconsistent

---
 src/System/local_consistency.rs | 44 ++++++++++++++++++++++++++++-----
 1 file changed, 38 insertions(+), 6 deletions(-)

diff --git a/src/System/local_consistency.rs b/src/System/local_consistency.rs
index 0cb42d7..2b02327 100644
--- a/src/System/local_consistency.rs
+++ b/src/System/local_consistency.rs
@@ -10,9 +10,18 @@ use super::query_failures::{ConsistencyResult, DeterminismResult};
 ///Local consistency check WITH pruning.
 pub fn is_least_consistent(system: &dyn TransitionSystem) -> ConsistencyResult {
     if let Some(mut state) = system.get_initial_state() {
-        let mut passed = vec![];
         state.extrapolate_max_bounds(system);
-        consistency_least_helper(state, &mut passed, system)
+
+        // A state counts as consistent while it is being checked, so states that relied on one
+        // that turned out to be inconsistent have to be checked again.
+        let mut failed = vec![];
+        loop {
+            let known_failed = failed.len();
+            let result = consistency_least_helper(state.clone(), &mut vec![], &mut failed, system);
+            if result.is_err() || failed.len() == known_failed {
+                return result;
+            }
+        }
     } else {
         warn!("Empty initial state");
         ConsistencyFailure::no_initial_state(system)
@@ -80,6 +89,27 @@ pub fn is_fully_consistent(system: &dyn TransitionSystem) -> ConsistencyResult {
 pub fn consistency_least_helper(
     state: State,
     passed_list: &mut Vec<State>,
+    failed_list: &mut Vec<State>,
+    system: &dyn TransitionSystem,
+) -> ConsistencyResult {
+    let is_same = |s: &State| s.is_subset_of(&state) && state.is_subset_of(s);
+
+    if failed_list.iter().any(is_same) {
+        return ConsistencyFailure::inconsistent_from(system, &state);
+    }
+
+    let result = check_least_consistency(&state, passed_list, failed_list, system);
+    if result.is_err() {
+        passed_list.retain(|s| !is_same(s));
+        failed_list.push(state.clone());
+    }
+    result
+}
+
+fn check_least_consistency(
+    state: &State,
+    passed_list: &mut Vec<State>,
+    failed_list: &mut Vec<State>,
     system: &dyn TransitionSystem,
 ) -> ConsistencyResult {
     if state.is_contained_in_list(passed_list) {
@@ -89,7 +119,7 @@ pub fn consistency_least_helper(
         return Ok(());
     }
     if state.decorated_locations.is_inconsistent() {
-        return ConsistencyFailure::inconsistent(system, &state);
+        return ConsistencyFailure::inconsistent(system, state);
     }
 
     passed_list.push(state.clone());
@@ -100,7 +130,7 @@ pub fn consistency_least_helper(
             if transition.use_transition(&mut new_state) {
                 new_state.extrapolate_max_bounds(system);
 
-                consistency_least_helper(new_state, passed_list, system)?;
+                consistency_least_helper(new_state, passed_list, failed_list, system)?;
             }
         }
     }
@@ -114,14 +144,16 @@ pub fn consistency_least_helper(
             let mut new_state = state.clone();
             if transition.use_transition(&mut new_state) {
                 new_state.extrapolate_max_bounds(system);
-                if let Ok(()) = consistency_least_helper(new_state, passed_list, system) {
+                if let Ok(()) =
+                    consistency_least_helper(new_state, passed_list, failed_list, system)
+                {
                     return Ok(());
                 }
             }
         }
     }
     warn!("No saving outputs from {}", state.decorated_locations.id);
-    ConsistencyFailure::inconsistent_from(system, &state)
+    ConsistencyFailure::inconsistent_from(system, state)
 }
 
 fn consistency_fully_helper(
-- 
2.43.0


From 4e465e09f316d23e0a40ff783dd1a548c265f672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:48 +0000
Subject: [PATCH 04/35] fix: saved guards and updates lost the parentheses
 their meaning depends on

---
 .../Expressions/arith_expression.rs           | 53 ++++++++++++-------
 .../Expressions/bool_expression.rs            | 13 ++++-
 2 files changed, 46 insertions(+), 20 deletions(-)

diff --git a/src/ModelObjects/Expressions/arith_expression.rs b/src/ModelObjects/Expressions/arith_expression.rs
index 242849c..dc14201 100644
--- a/src/ModelObjects/Expressions/arith_expression.rs
+++ b/src/ModelObjects/Expressions/arith_expression.rs
@@ -56,25 +56,42 @@ impl ArithExpression {
     }
 
     pub fn encode_expr(&self) -> String {
+        let (left, op, right) = match self {
+            ArithExpression::Difference(left, right) => (left, "-", right),
+            ArithExpression::Addition(left, right) => (left, "+", right),
+            ArithExpression::Multiplication(left, right) => (left, "*", right),
+            ArithExpression::Division(left, right) => (left, "/", right),
+            ArithExpression::Modulo(left, right) => (left, "%", right),
+            ArithExpression::Clock(_) => return String::from("??"),
+            ArithExpression::VarName(var) => return var.clone(),
+            ArithExpression::Int(num) => return num.to_string(),
+        };
+        // Operators associate to the left
+        let precedence = self.precedence();
+        [
+            left.encode_operand(precedence),
+            String::from(op),
+            right.encode_operand(precedence + 1),
+        ]
+        .concat()
+    }
+
+    /// Encodes an operand, in parentheses if it binds less tightly than `precedence`
+    fn encode_operand(&self, precedence: u32) -> String {
+        if self.precedence() < precedence {
+            format!("({})", self.encode_expr())
+        } else {
+            self.encode_expr()
+        }
+    }
+
+    fn precedence(&self) -> u32 {
         match self {
-            ArithExpression::Difference(left, right) => {
-                [left.encode_expr(), String::from("-"), right.encode_expr()].concat()
-            }
-            ArithExpression::Addition(left, right) => {
-                [left.encode_expr(), String::from("+"), right.encode_expr()].concat()
-            }
-            ArithExpression::Multiplication(left, right) => {
-                [left.encode_expr(), String::from("*"), right.encode_expr()].concat()
-            }
-            ArithExpression::Division(left, right) => {
-                [left.encode_expr(), String::from("/"), right.encode_expr()].concat()
-            }
-            ArithExpression::Modulo(left, right) => {
-                [left.encode_expr(), String::from("%"), right.encode_expr()].concat()
-            }
-            ArithExpression::Clock(_) => [String::from("??")].concat(),
-            ArithExpression::VarName(var) => var.clone(),
-            ArithExpression::Int(num) => num.to_string(),
+            ArithExpression::Difference(_, _) | ArithExpression::Addition(_, _) => 0,
+            ArithExpression::Multiplication(_, _)
+            | ArithExpression::Division(_, _)
+            | ArithExpression::Modulo(_, _) => 1,
+            ArithExpression::Clock(_) | ArithExpression::VarName(_) | ArithExpression::Int(_) => 2,
         }
     }
 
diff --git a/src/ModelObjects/Expressions/bool_expression.rs b/src/ModelObjects/Expressions/bool_expression.rs
index d02e9ea..2a49eb8 100644
--- a/src/ModelObjects/Expressions/bool_expression.rs
+++ b/src/ModelObjects/Expressions/bool_expression.rs
@@ -69,9 +69,9 @@ impl BoolExpression {
             ]
             .concat(),
             BoolExpression::OrOp(left, right) => [
-                left.encode_expr(),
+                left.encode_disjunct(),
                 String::from(" || "),
-                right.encode_expr(),
+                right.encode_disjunct(),
             ]
             .concat(),
             BoolExpression::LessEQ(left, right) => {
@@ -93,6 +93,15 @@ impl BoolExpression {
         }
     }
 
+    /// Encodes an operand of a disjunction. When parsed, `||` binds tighter than `&&`,
+    /// so a conjunction has to be in parentheses.
+    fn encode_disjunct(&self) -> String {
+        match self {
+            BoolExpression::AndOp(_, _) => format!("({})", self.encode_expr()),
+            _ => self.encode_expr(),
+        }
+    }
+
     pub fn from_disjunction(
         disjunction: &Disjunction,
         naming: &HashMap<String, ClockIndex>,
-- 
2.43.0


From 03c599f009471706abbcb26106d189e8bf2520d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:18 +0000
Subject: [PATCH 05/35] fix: reading a guard without constraints panicked

---
 src/DataReader/parse_edge.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DataReader/parse_edge.rs b/src/DataReader/parse_edge.rs
index 168da37..6e6f4b8 100644
--- a/src/DataReader/parse_edge.rs
+++ b/src/DataReader/parse_edge.rs
@@ -82,8 +82,8 @@ pub fn parse_guard(input: &str) -> Result<BoolExpression, String> {
 
     let guard = pairs.next().unwrap();
 
-    // Check if there are any constraints
-    let result = match guard.into_inner().next() {
+    // Check if there are any constraints, the end of the input is among the inner pairs
+    let result = match guard.into_inner().find(|p| p.as_rule() == Rule::boolExpr) {
         Some(bool_expr) => parse_bool_expr(bool_expr),
         None => BoolExpression::Bool(true),
     };
-- 
2.43.0


From 4c3adaaf4b2cb9f53ef1fd18ac067fb3a763ba50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:00 +0000
Subject: [PATCH 06/35] fix: differences of clocks with a negative bound were
 saved as unreadable guards

---
 src/ModelObjects/Expressions/bool_expression.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/ModelObjects/Expressions/bool_expression.rs b/src/ModelObjects/Expressions/bool_expression.rs
index 2a49eb8..a3073c2 100644
--- a/src/ModelObjects/Expressions/bool_expression.rs
+++ b/src/ModelObjects/Expressions/bool_expression.rs
@@ -207,6 +207,18 @@ impl BoolExpression {
                             var_from_naming(naming, j),
                         ),
                     }
+                } else if bound < 0 {
+                    // i-j<=-c -> j-i>=c, there are no negative numbers in guards
+                    match is_strict {
+                        true => BoolExpression::GreatT(
+                            var_diff_from_naming(naming, j, i),
+                            arith_from_int(-bound),
+                        ),
+                        false => BoolExpression::GreatEQ(
+                            var_diff_from_naming(naming, j, i),
+                            arith_from_int(-bound),
+                        ),
+                    }
                 } else {
                     match is_strict {
                         true => BoolExpression::LessT(
-- 
2.43.0


From a008b7efa0947856fbc395af8a04ccca0f0276d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:18 +0000
Subject: [PATCH 07/35] fix: refinement checked delays of state pairs that no
 transition reaches

A pair was built from the guards of both transitions alone, so points
where a target's invariant keeps the transition from being taken were
reported as cut delays.
---
 src/System/refine.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/System/refine.rs b/src/System/refine.rs
index 2d96c32..8734e7d 100644
--- a/src/System/refine.rs
+++ b/src/System/refine.rs
@@ -348,10 +348,9 @@ fn build_state_pair(
     //Apply guards on both sides
     let (locations1, locations2) = new_sp.get_mut_states(is_state1);
 
-    //Applies the left side guards and checks if zone is valid
-    new_sp_zone = transition1.apply_guards(new_sp_zone);
-    //Applies the right side guards and checks if zone is valid
-    new_sp_zone = transition2.apply_guards(new_sp_zone);
+    //Restricts the zone to where both transitions are allowed (guards and target invariants)
+    new_sp_zone = new_sp_zone.intersection(&transition1.get_allowed_federation());
+    new_sp_zone = new_sp_zone.intersection(&transition2.get_allowed_federation());
 
     // Continue to the next transition pair if the zone is empty
     if new_sp_zone.is_empty() {
-- 
2.43.0


From 9d88710f7fc3baaa41c6a1f7a7bc8a1b1fca666b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:54 +0000
Subject: [PATCH 08/35] fix: component names starting with 'not' were read as
 negations

---
 src/DataReader/grammars/query_grammar.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DataReader/grammars/query_grammar.pest b/src/DataReader/grammars/query_grammar.pest
index 2571891..8fe30ba 100644
--- a/src/DataReader/grammars/query_grammar.pest
+++ b/src/DataReader/grammars/query_grammar.pest
@@ -54,7 +54,7 @@ andExpr = { orExpr ~ (("&&" | "and") ~ orExpr)* }
 
 orExpr = { subExpr ~ (("||" | "or") ~ subExpr)* }
 
-subExpr = _{parenthesizedSubExp | notExpr | compExpr | locExpr | bool_true | bool_false}
+subExpr = _{parenthesizedSubExp | compExpr | locExpr | notExpr | bool_true | bool_false}
 
 locExpr = { variable }
 
-- 
2.43.0


From e433b0f70c457a27a8b1ba29217c022edd2e015c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:18 +0000
Subject: [PATCH 09/35] fix: text after a composition or a state was silently
 ignored

---
 src/DataReader/grammars/query_grammar.pest | 4 ++++
 src/DataReader/parse_queries.rs            | 4 ++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/DataReader/grammars/query_grammar.pest b/src/DataReader/grammars/query_grammar.pest
index 8fe30ba..152306e 100644
--- a/src/DataReader/grammars/query_grammar.pest
+++ b/src/DataReader/grammars/query_grammar.pest
@@ -48,6 +48,10 @@ potentially = {"A<>" ~ boolExpr} // TODO: Should include the system to be checke
 
 state = { boolExpr }
 
+// The entire text is a system or a state
+systemText = _{ SOI ~ expr ~ EOI }
+stateText = _{ SOI ~ state ~ EOI }
+
 boolExpr = _{andExpr}
 
 andExpr = { orExpr ~ (("&&" | "and") ~ orExpr)* }
diff --git a/src/DataReader/parse_queries.rs b/src/DataReader/parse_queries.rs
index 1a1f889..c125f79 100644
--- a/src/DataReader/parse_queries.rs
+++ b/src/DataReader/parse_queries.rs
@@ -242,7 +242,7 @@ pub fn parse_to_expression_tree(input: &str) -> Result<Vec<QueryExpression>, Str
 }
 
 pub fn parse_to_system_expr(input: &str) -> Result<SystemExpression, String> {
-    let mut pairs = match QueryParser::parse(Rule::expr, input) {
+    let mut pairs = match QueryParser::parse(Rule::systemText, input) {
         Ok(pairs) => pairs,
         Err(e) => return Err(format!("Could not parse as rule with error: {}", e)),
     };
@@ -253,7 +253,7 @@ pub fn parse_to_system_expr(input: &str) -> Result<SystemExpression, String> {
 }
 
 pub fn parse_to_state_expr(input: &str) -> Result<StateExpression, String> {
-    let mut pairs = match QueryParser::parse(Rule::state, input) {
+    let mut pairs = match QueryParser::parse(Rule::stateText, input) {
         Ok(pairs) => pairs,
         Err(e) => return Err(format!("Could not parse as rule with error: {}", e)),
     };
-- 
2.43.0


From acb70f0474c4fe2d9fa37061c5b36cc8748f1f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:18 +0000
Subject: [PATCH 10/35] fix: queries that save a component were displayed with
 system and name swapped

---
 src/ModelObjects/Expressions/query_expression.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ModelObjects/Expressions/query_expression.rs b/src/ModelObjects/Expressions/query_expression.rs
index 78d78f2..0139954 100644
--- a/src/ModelObjects/Expressions/query_expression.rs
+++ b/src/ModelObjects/Expressions/query_expression.rs
@@ -61,7 +61,7 @@ impl Display for SystemExpression {
 impl Display for SaveExpression {
     fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
         match &self.name {
-            Some(name) => write!(f, "{} save-as {}", name, self.system),
+            Some(name) => write!(f, "{} save-as {}", self.system, name),
             None => write!(f, "{}", self.system),
         }
     }
-- 
2.43.0


From db8e4e7a4af74e8e6a07a640305b28640470679a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:18 +0000
Subject: [PATCH 11/35] fix: a displayed negation included what follows it

---
 src/ModelObjects/Expressions/state_expression.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ModelObjects/Expressions/state_expression.rs b/src/ModelObjects/Expressions/state_expression.rs
index 4d3bbf4..c1cee58 100644
--- a/src/ModelObjects/Expressions/state_expression.rs
+++ b/src/ModelObjects/Expressions/state_expression.rs
@@ -184,7 +184,8 @@ impl Display for StateExpression {
                 write!(f, "{}", s)
             }
             StateExpression::Location(var) => write!(f, "{}", var),
-            StateExpression::NOT(expr) => write!(f, "!({})", expr),
+            // A negation extends to the end of the expression
+            StateExpression::NOT(expr) => write!(f, "(!{})", expr),
             StateExpression::Bool(b) => write!(f, "{}", b),
         }
     }
-- 
2.43.0


From 13b8a8d5200369db8d90e42111f9ed76210c291d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:34 +0000
Subject: [PATCH 12/35] fix: numbers too large for the engine crashed the
 reading of a query

---
 src/DataReader/parse_queries.rs | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/DataReader/parse_queries.rs b/src/DataReader/parse_queries.rs
index c125f79..8af88ac 100644
--- a/src/DataReader/parse_queries.rs
+++ b/src/DataReader/parse_queries.rs
@@ -230,11 +230,24 @@ pub fn parse_to_query(input: &str) -> Vec<Query> {
         .collect()
 }
 
+/// Parses the text as the rule
+fn parse_as(rule: Rule, input: &str) -> Result<pest::iterators::Pairs<Rule>, String> {
+    let pairs = QueryParser::parse(rule, input)
+        .map_err(|e| format!("Could not parse as rule with error: {}", e))?;
+
+    let is_too_large = |number: &str| number.parse::<i32>().is_err();
+    match pairs
+        .clone()
+        .flatten()
+        .find(|pair| pair.as_rule() == Rule::int && is_too_large(pair.as_str()))
+    {
+        Some(number) => Err(format!("The number {} is too large", number.as_str())),
+        None => Ok(pairs),
+    }
+}
+
 pub fn parse_to_expression_tree(input: &str) -> Result<Vec<QueryExpression>, String> {
-    let mut pairs = match QueryParser::parse(Rule::queries, input) {
-        Ok(pairs) => pairs,
-        Err(e) => return Err(format!("Could not parse as rule with error: {}", e)),
-    };
+    let mut pairs = parse_as(Rule::queries, input)?;
 
     let result = parse_queries(pairs.next().unwrap());
 
@@ -242,10 +255,7 @@ pub fn parse_to_expression_tree(input: &str) -> Result<Vec<QueryExpression>, Str
 }
 
 pub fn parse_to_system_expr(input: &str) -> Result<SystemExpression, String> {
-    let mut pairs = match QueryParser::parse(Rule::systemText, input) {
-        Ok(pairs) => pairs,
-        Err(e) => return Err(format!("Could not parse as rule with error: {}", e)),
-    };
+    let mut pairs = parse_as(Rule::systemText, input)?;
 
     let result = parse_system(pairs.next().unwrap());
 
@@ -253,10 +263,7 @@ pub fn parse_to_system_expr(input: &str) -> Result<SystemExpression, String> {
 }
 
 pub fn parse_to_state_expr(input: &str) -> Result<StateExpression, String> {
-    let mut pairs = match QueryParser::parse(Rule::stateText, input) {
-        Ok(pairs) => pairs,
-        Err(e) => return Err(format!("Could not parse as rule with error: {}", e)),
-    };
+    let mut pairs = parse_as(Rule::stateText, input)?;
 
     let result = parse_state(pairs.next().unwrap());
 
-- 
2.43.0


From c535d437f88aab3a02ad3e35ba771db4be60caa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:05 +0000
Subject: [PATCH 13/35] fix: numbers too large for the engine crashed the
 reading of guards and updates

---
 src/DataReader/parse_edge.rs | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/DataReader/parse_edge.rs b/src/DataReader/parse_edge.rs
index 6e6f4b8..67a2c2e 100644
--- a/src/DataReader/parse_edge.rs
+++ b/src/DataReader/parse_edge.rs
@@ -73,12 +73,25 @@ impl Update {
     }
 }
 
+/// Parses the text as the rule
+fn parse_as(rule: Rule, input: &str) -> Result<pest::iterators::Pairs<Rule>, String> {
+    let pairs = EdgeParser::parse(rule, input)
+        .map_err(|e| format!("Could not parse as rule with error: {}", e))?;
+
+    let is_too_large = |number: &str| number.parse::<i32>().is_err();
+    match pairs
+        .clone()
+        .flatten()
+        .find(|pair| pair.as_rule() == Rule::int && is_too_large(pair.as_str()))
+    {
+        Some(number) => Err(format!("The number {} is too large", number.as_str())),
+        None => Ok(pairs),
+    }
+}
+
 /// Parses a guard string `input` into a BoolExpression
 pub fn parse_guard(input: &str) -> Result<BoolExpression, String> {
-    let mut pairs = match EdgeParser::parse(Rule::guard, input) {
-        Ok(pairs) => pairs,
-        Err(e) => return Err(format!("Could not parse as rule with error: {}", e)),
-    };
+    let mut pairs = parse_as(Rule::guard, input)?;
 
     let guard = pairs.next().unwrap();
 
@@ -93,10 +106,7 @@ pub fn parse_guard(input: &str) -> Result<BoolExpression, String> {
 
 /// Parses an update string `input` into a vector of Updates
 pub fn parse_updates(input: &str) -> Result<Vec<Update>, String> {
-    let mut pairs = match EdgeParser::parse(Rule::update, input) {
-        Ok(pairs) => pairs,
-        Err(e) => return Err(format!("Could not parse as rule with error: {}", e)),
-    };
+    let mut pairs = parse_as(Rule::update, input)?;
 
     let update = pairs.next().unwrap();
 
-- 
2.43.0


From e56fc6aa524f00e715c388e29aa1d68635c6a6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:05 +0000
Subject: [PATCH 14/35] fix: the server answered a malformed query with an
 internal error

---
 src/ProtobufServer/ecdar_requests/send_query.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ProtobufServer/ecdar_requests/send_query.rs b/src/ProtobufServer/ecdar_requests/send_query.rs
index ccf52a0..6f46cc3 100644
--- a/src/ProtobufServer/ecdar_requests/send_query.rs
+++ b/src/ProtobufServer/ecdar_requests/send_query.rs
@@ -74,14 +74,18 @@ impl ConcreteEcdarBackend {
 }
 
 fn parse_query(query_request: &QueryRequest) -> Result<Query, Status> {
-    let mut queries = parse_queries::parse_to_query(&query_request.query);
+    let mut queries = parse_queries::parse_to_expression_tree(&query_request.query)
+        .map_err(Status::invalid_argument)?;
 
     if queries.len() != 1 {
         Err(Status::invalid_argument(
             "This procedure takes in exactly 1 query",
         ))
     } else {
-        Ok(queries.remove(0))
+        Ok(Query {
+            query: Some(queries.remove(0)),
+            comment: "".to_string(),
+        })
     }
 }
 
-- 
2.43.0


From e5d02a7ed985bfff714da892caeb118c8ccf6746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:23 +0000
Subject: [PATCH 15/35] fix: reading a disjunction, negation or boolean in a
 state panicked or lost the negation

---
 src/DataReader/parse_queries.rs | 81 ++++++++++++++++-----------------
 1 file changed, 40 insertions(+), 41 deletions(-)

diff --git a/src/DataReader/parse_queries.rs b/src/DataReader/parse_queries.rs
index 8af88ac..c5a89dd 100644
--- a/src/DataReader/parse_queries.rs
+++ b/src/DataReader/parse_queries.rs
@@ -80,50 +80,49 @@ pub fn parse_operand(pair: pest::iterators::Pair<Rule>) -> OperandExpression {
 }
 
 fn parse_state(pair: pest::iterators::Pair<Rule>) -> StateExpression {
-    PRATT
-        .map_primary(|pair| match pair.as_rule() {
-            Rule::andExpr | Rule::orExpr => {
-                let rule = pair.as_rule();
-
-                let mut inner = pair.into_inner();
-                let len = inner.clone().count();
-                if len == 1 {
-                    return parse_state(inner.next().unwrap());
-                }
-                match rule {
-                    Rule::andExpr => StateExpression::AND(inner.map(parse_state).collect()),
-                    Rule::orExpr => StateExpression::OR(inner.map(parse_state).collect()),
-                    _ => unreachable!(),
-                }
+    match pair.as_rule() {
+        Rule::state => parse_state(pair.into_inner().next().unwrap()),
+        Rule::andExpr | Rule::orExpr => {
+            let rule = pair.as_rule();
+
+            let mut inner = pair.into_inner();
+            let len = inner.clone().count();
+            if len == 1 {
+                return parse_state(inner.next().unwrap());
             }
-            Rule::notExpr => {
-                StateExpression::NOT(Box::new(parse_state(pair.into_inner().next().unwrap())))
+            match rule {
+                Rule::andExpr => StateExpression::AND(inner.map(parse_state).collect()),
+                Rule::orExpr => StateExpression::OR(inner.map(parse_state).collect()),
+                _ => unreachable!(),
             }
-            Rule::compExpr => {
-                let mut pairs = pair.into_inner();
-                let first = pairs.next().unwrap();
-                let op = pairs.next().unwrap();
-                let second = pairs.next().unwrap();
-
-                let first = parse_operand(first);
-                let second = parse_operand(second);
-                match op.as_rule() {
-                    Rule::leq_op => StateExpression::LEQ(first, second),
-                    Rule::geq_op => StateExpression::GEQ(first, second),
-                    Rule::eq_op => StateExpression::EQ(first, second),
-                    Rule::lt_op => StateExpression::LT(first, second),
-                    Rule::gt_op => StateExpression::GT(first, second),
-                    _ => unreachable!(),
-                }
+        }
+        Rule::notExpr => {
+            StateExpression::NOT(Box::new(parse_state(pair.into_inner().next().unwrap())))
+        }
+        Rule::compExpr => {
+            let mut pairs = pair.into_inner();
+            let first = pairs.next().unwrap();
+            let op = pairs.next().unwrap();
+            let second = pairs.next().unwrap();
+
+            let first = parse_operand(first);
+            let second = parse_operand(second);
+            match op.as_rule() {
+                Rule::leq_op => StateExpression::LEQ(first, second),
+                Rule::geq_op => StateExpression::GEQ(first, second),
+                Rule::eq_op => StateExpression::EQ(first, second),
+                Rule::lt_op => StateExpression::LT(first, second),
+                Rule::gt_op => StateExpression::GT(first, second),
+                _ => unreachable!(),
             }
-            Rule::locExpr => StateExpression::Location(comp_var_from_variable_pair(
-                pair.into_inner().next().unwrap(),
-            )),
-            Rule::bool_true => StateExpression::Bool(true),
-            Rule::bool_false => StateExpression::Bool(false),
-            _ => unreachable!("Unexpected rule: {:?}", pair.as_rule()),
-        })
-        .parse(pair.into_inner())
+        }
+        Rule::locExpr => StateExpression::Location(comp_var_from_variable_pair(
+            pair.into_inner().next().unwrap(),
+        )),
+        Rule::bool_true => StateExpression::Bool(true),
+        Rule::bool_false => StateExpression::Bool(false),
+        _ => unreachable!("Unexpected rule: {:?}", pair.as_rule()),
+    }
 }
 
 fn comp_var_from_variable_pair(pair: pest::iterators::Pair<Rule>) -> ComponentVariable {
-- 
2.43.0


From d18fb2e6fd446404cd9848f6ede8c1661b43b729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:48 +0000
Subject: [PATCH 16/35] fix: a negated constraint in a state crashed a
 reachability query

---
 src/ModelObjects/Expressions/state_expression.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ModelObjects/Expressions/state_expression.rs b/src/ModelObjects/Expressions/state_expression.rs
index c1cee58..27b58a2 100644
--- a/src/ModelObjects/Expressions/state_expression.rs
+++ b/src/ModelObjects/Expressions/state_expression.rs
@@ -142,7 +142,7 @@ impl StateExpression {
                 }))
             }
             StateExpression::NOT(_expr) => {
-                unimplemented!("NOT expressions are not supported yet")
+                Err("NOT expressions are not supported yet".to_string())
             }
             StateExpression::Location(_) => {
                 // Locations here should just be ignored
-- 
2.43.0


From 52a96ac39ba3057e4a63892af9bd41e92b97a9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:48 +0000
Subject: [PATCH 17/35] fix: reachability misread states with disjunctions or
 foreign locations

---
 src/System/extract_state.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/System/extract_state.rs b/src/System/extract_state.rs
index 3de219f..fdea97c 100644
--- a/src/System/extract_state.rs
+++ b/src/System/extract_state.rs
@@ -22,8 +22,7 @@ pub fn get_state(
 
     if let Some((c1, c2)) = components
         .iter()
-        .cartesian_product(components.iter())
-        .filter(|(&c1, &c2)| c1 != c2)
+        .tuple_combinations()
         .find(|(c1, c2)| c1.name == c2.name && c1.special_id == c2.special_id)
     {
         return Err(format!(
@@ -50,6 +49,18 @@ pub fn get_state(
         ));
     }
 
+    // Check that every location belongs to a component of the system
+    if let Some(location) = locations.iter().find(|l| {
+        !components
+            .iter()
+            .any(|c| c.name == l.component && c.special_id == l.special_id)
+    }) {
+        return Err(format!(
+            "Location {} does not belong to a component of the system",
+            location
+        ));
+    }
+
     let loc_tree = construct_location_tree(&locations, recipe, system)?;
 
     let zone =
@@ -74,9 +85,10 @@ fn get_locations(expr: &StateExpression) -> Result<Vec<ComponentVariable>, Strin
             for expr in exprs {
                 res.append(&mut get_locations(expr)?);
             }
-            if res.len() != 1 {
+            // A location next to an alternative would be required in every case
+            if !res.is_empty() {
                 return Err(format!(
-                    "We do not support disjunctions with more than one location: {:?}",
+                    "We do not support disjunctions with locations: {:?}",
                     expr
                 ));
             }
-- 
2.43.0


From d54f60c55c589294c16514e9ab855b33aec8783f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:54 +0000
Subject: [PATCH 18/35] fix: a transition entered its target where the
 invariant does not hold yet

---
 src/ModelObjects/transition.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ModelObjects/transition.rs b/src/ModelObjects/transition.rs
index ddd14b0..a980b50 100644
--- a/src/ModelObjects/transition.rs
+++ b/src/ModelObjects/transition.rs
@@ -57,8 +57,10 @@ impl Transition {
         let mut zone = state.take_zone();
         zone = self.apply_guards(zone);
         if !zone.is_empty() {
-            zone = self.apply_updates(zone).up();
+            zone = self.apply_updates(zone);
             self.move_locations(&mut state.decorated_locations);
+            // The invariants must hold when entering the location and while delaying in it
+            zone = state.decorated_locations.apply_invariants(zone).up();
             zone = state.decorated_locations.apply_invariants(zone);
             if !zone.is_empty() {
                 state.set_zone(zone);
-- 
2.43.0


From 175c22281206e33f7c328f49862597c8f1be45d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:21 +0000
Subject: [PATCH 19/35] fix: reading declarations failed on white space and
 comments after a declaration

---
 src/DataReader/serialization.rs | 61 +++++++++++++++------------------
 src/DataReader/xml_parser.rs    | 61 ++++++++++++++-------------------
 2 files changed, 53 insertions(+), 69 deletions(-)

diff --git a/src/DataReader/serialization.rs b/src/DataReader/serialization.rs
index 9e2d3e0..d47d350 100644
--- a/src/DataReader/serialization.rs
+++ b/src/DataReader/serialization.rs
@@ -181,46 +181,39 @@ where
     D: Deserializer<'de>,
 {
     let s = String::deserialize(deserializer)?;
-    //Split string into vector of strings
-    let decls: Vec<String> = s.split('\n').map(|s| s.into()).collect();
+    // Remove the comments, then split into the single declarations
+    let decls: Vec<&str> = s
+        .lines()
+        .map(|line| line.split("//").next().unwrap_or_default())
+        .collect();
+    let decls = decls.join(" ");
     let mut ints: HashMap<String, i32> = HashMap::new();
     let mut clocks: HashMap<String, ClockIndex> = HashMap::new();
     let mut counter: ClockIndex = 1;
-    for string in decls {
-        //skip comments
-        if string.starts_with("//") || string.is_empty() {
+    for sub_decl in decls.split(';') {
+        let split_string: Vec<&str> = sub_decl.split_whitespace().collect();
+        let Some(variable_type) = split_string.first() else {
             continue;
-        }
-        let sub_decls: Vec<String> = string.split(';').map(|s| s.into()).collect();
-
-        for sub_decl in sub_decls {
-            if !sub_decl.is_empty() {
-                let split_string: Vec<String> = sub_decl.split(' ').map(|s| s.into()).collect();
-                let variable_type = split_string[0].as_str();
-
-                if variable_type == "clock" {
-                    for split_str in split_string.iter().skip(1) {
-                        let comma_split: Vec<String> =
-                            split_str.split(',').map(|s| s.into()).collect();
-                        for var in comma_split {
-                            if !var.is_empty() {
-                                clocks.insert(var, counter);
-                                counter += 1;
-                            }
-                        }
-                    }
-                } else if variable_type == "int" {
-                    for split_str in split_string.iter().skip(1) {
-                        let comma_split: Vec<String> =
-                            split_str.split(',').map(|s| s.into()).collect();
-                        for var in comma_split {
-                            ints.insert(var, 0);
-                        }
-                    }
-                } else {
-                    panic!("Not implemented read for type: \"{}\"", variable_type);
+        };
+        let variables = split_string
+            .iter()
+            .skip(1)
+            .flat_map(|split_str| split_str.split(','))
+            .filter(|var| !var.is_empty());
+
+        match *variable_type {
+            "clock" => {
+                for var in variables {
+                    clocks.insert(var.to_string(), counter);
+                    counter += 1;
+                }
+            }
+            "int" => {
+                for var in variables {
+                    ints.insert(var.to_string(), 0);
                 }
             }
+            _ => panic!("Not implemented read for type: \"{}\"", variable_type),
         }
     }
 
diff --git a/src/DataReader/xml_parser.rs b/src/DataReader/xml_parser.rs
index a668934..70f96bd 100644
--- a/src/DataReader/xml_parser.rs
+++ b/src/DataReader/xml_parser.rs
@@ -147,48 +147,39 @@ fn collect_edges(xml_edges: FindChildren) -> Vec<Edge> {
 }
 
 fn parse_declarations(variables: &str) -> Declarations {
-    //Split string into vector of strings
-    let decls: Vec<String> = variables.split('\n').map(|s| s.into()).collect();
+    // Remove the comments, then split into the single declarations
+    let decls: Vec<&str> = variables
+        .lines()
+        .map(|line| line.split("//").next().unwrap_or_default())
+        .collect();
+    let decls = decls.join(" ");
     let mut ints: HashMap<String, i32> = HashMap::new();
     let mut clocks: HashMap<String, ClockIndex> = HashMap::new();
     let mut counter: ClockIndex = 1;
-    for string in decls {
-        //skip comments
-        if string.starts_with("//") || string.is_empty() {
+    for sub_decl in decls.split(';') {
+        let split_string: Vec<&str> = sub_decl.split_whitespace().collect();
+        let Some(variable_type) = split_string.first() else {
             continue;
-        }
-        let sub_decls: Vec<String> = string.split(';').map(|s| s.into()).collect();
-
-        for mut sub_decl in sub_decls {
-            sub_decl = sub_decl.replace('\r', "");
-
-            if !sub_decl.is_empty() {
-                let split_string: Vec<String> = sub_decl.split(' ').map(|s| s.into()).collect();
-                let variable_type = split_string[0].as_str();
+        };
+        let variables = split_string
+            .iter()
+            .skip(1)
+            .flat_map(|split_str| split_str.split(','))
+            .filter(|var| !var.is_empty());
 
-                if variable_type == "clock" {
-                    for split_str in split_string.iter().skip(1) {
-                        let comma_split: Vec<String> =
-                            split_str.split(',').map(|s| s.into()).collect();
-                        for var in comma_split {
-                            if !var.is_empty() {
-                                clocks.insert(var, counter);
-                                counter += 1;
-                            }
-                        }
-                    }
-                } else if variable_type == "int" {
-                    for split_str in split_string.iter().skip(1) {
-                        let comma_split: Vec<String> =
-                            split_str.split(',').map(|s| s.into()).collect();
-                        for var in comma_split {
-                            ints.insert(var, 0);
-                        }
-                    }
-                } else {
-                    panic!("not implemented read for type: {}", variable_type);
+        match *variable_type {
+            "clock" => {
+                for var in variables {
+                    clocks.insert(var.to_string(), counter);
+                    counter += 1;
+                }
+            }
+            "int" => {
+                for var in variables {
+                    ints.insert(var.to_string(), 0);
                 }
             }
+            _ => panic!("not implemented read for type: {}", variable_type),
         }
     }
 
-- 
2.43.0


From f1a8a27185d5f665d9959eb9719e0d1a05532639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:20 +0000
Subject: [PATCH 20/35] fix: the verdict of consistency depended on the order
 of exploration

---
 src/System/local_consistency.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/System/local_consistency.rs b/src/System/local_consistency.rs
index 2b02327..d16564c 100644
--- a/src/System/local_consistency.rs
+++ b/src/System/local_consistency.rs
@@ -86,21 +86,24 @@ pub fn is_fully_consistent(system: &dyn TransitionSystem) -> ConsistencyResult {
     consistency_fully_helper(state.unwrap(), &mut passed, system)
 }
 
+/// A part of a consistent state is not necessarily consistent, so states are told apart exactly
+fn is_same_state(left: &State, right: &State) -> bool {
+    left.is_subset_of(right) && right.is_subset_of(left)
+}
+
 pub fn consistency_least_helper(
     state: State,
     passed_list: &mut Vec<State>,
     failed_list: &mut Vec<State>,
     system: &dyn TransitionSystem,
 ) -> ConsistencyResult {
-    let is_same = |s: &State| s.is_subset_of(&state) && state.is_subset_of(s);
-
-    if failed_list.iter().any(is_same) {
+    if failed_list.iter().any(|s| is_same_state(s, &state)) {
         return ConsistencyFailure::inconsistent_from(system, &state);
     }
 
     let result = check_least_consistency(&state, passed_list, failed_list, system);
     if result.is_err() {
-        passed_list.retain(|s| !is_same(s));
+        passed_list.retain(|s| !is_same_state(s, &state));
         failed_list.push(state.clone());
     }
     result
@@ -112,7 +115,7 @@ fn check_least_consistency(
     failed_list: &mut Vec<State>,
     system: &dyn TransitionSystem,
 ) -> ConsistencyResult {
-    if state.is_contained_in_list(passed_list) {
+    if passed_list.iter().any(|s| is_same_state(s, state)) {
         return Ok(());
     }
     if state.decorated_locations.is_universal() {
-- 
2.43.0


From 2205eb2e4b5ce450f417dab1b00b2784b3174678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:44 +0000
Subject: [PATCH 21/35] fix: UPPAAL labels other than the invariant were read
 as invariants

---
 src/DataReader/xml_parser.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/DataReader/xml_parser.rs b/src/DataReader/xml_parser.rs
index 70f96bd..54fd1e0 100644
--- a/src/DataReader/xml_parser.rs
+++ b/src/DataReader/xml_parser.rs
@@ -75,7 +75,10 @@ fn collect_locations(xml_locations: FindChildren, initial_id: &str) -> Vec<Locat
     for loc in xml_locations {
         let location = Location {
             id: loc.get_attr("id").unwrap().parse().unwrap(),
-            invariant: match loc.find("label") {
+            invariant: match loc
+                .find_all("label")
+                .find(|label| label.get_attr("kind") == Some("invariant"))
+            {
                 Some(x) => match parse_edge::parse_guard(x.text()) {
                     Ok(edgeAttribute) => Some(edgeAttribute),
                     Err(e) => panic!("Could not parse invariant {} got error: {:?}", x.text(), e),
-- 
2.43.0


From 98210d7651b669c58f65a3e948e1fbc89262c277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:44 +0000
Subject: [PATCH 22/35] fix: extrapolation ignored constants in sums with
 clocks

---
 .../Expressions/arith_expression.rs           | 72 +++++++++++--------
 1 file changed, 42 insertions(+), 30 deletions(-)

diff --git a/src/ModelObjects/Expressions/arith_expression.rs b/src/ModelObjects/Expressions/arith_expression.rs
index dc14201..ebfd996 100644
--- a/src/ModelObjects/Expressions/arith_expression.rs
+++ b/src/ModelObjects/Expressions/arith_expression.rs
@@ -145,38 +145,50 @@ impl ArithExpression {
     }
 
     pub fn get_constant(left: &Self, right: &Self, clock: ClockIndex, clock_name: &str) -> i32 {
-        match left {
-            ArithExpression::Clock(clock_id) => {
-                if *clock_id == clock {
-                    if let ArithExpression::Int(constant) = right {
-                        return *constant;
-                    }
-                }
-            }
-            ArithExpression::VarName(name) => {
-                if name.eq(clock_name) {
-                    if let ArithExpression::Int(constant) = right {
-                        return *constant;
-                    }
-                }
-            }
-            ArithExpression::Int(constant) => match right {
-                ArithExpression::Clock(clock_id) => {
-                    if *clock_id == clock {
-                        return *constant;
-                    }
-                }
-                ArithExpression::VarName(name) => {
-                    if name.eq(clock_name) {
-                        return *constant;
-                    }
-                }
-                _ => {}
-            },
-            _ => {}
+        if left.mentions_clock(clock, clock_name) || right.mentions_clock(clock, clock_name) {
+            // What remains if everything but the clocks is moved to one side
+            (right.constant_part() - left.constant_part()).abs()
+        } else {
+            0
+        }
+    }
+
+    fn mentions_clock(&self, clock: ClockIndex, clock_name: &str) -> bool {
+        match self {
+            ArithExpression::Difference(left, right)
+            | ArithExpression::Addition(left, right)
+            | ArithExpression::Multiplication(left, right)
+            | ArithExpression::Division(left, right)
+            | ArithExpression::Modulo(left, right) => {
+                left.mentions_clock(clock, clock_name) || right.mentions_clock(clock, clock_name)
+            }
+            ArithExpression::Clock(clock_id) => *clock_id == clock,
+            ArithExpression::VarName(name) => name == clock_name,
+            ArithExpression::Int(_) => false,
         }
+    }
 
-        0
+    /// The value of the expression if all clocks and variables are 0
+    fn constant_part(&self) -> i32 {
+        match self {
+            ArithExpression::Difference(left, right) => {
+                left.constant_part() - right.constant_part()
+            }
+            ArithExpression::Addition(left, right) => left.constant_part() + right.constant_part(),
+            ArithExpression::Multiplication(left, right) => {
+                left.constant_part() * right.constant_part()
+            }
+            ArithExpression::Division(left, right) => left
+                .constant_part()
+                .checked_div(right.constant_part())
+                .unwrap_or_default(),
+            ArithExpression::Modulo(left, right) => left
+                .constant_part()
+                .checked_rem(right.constant_part())
+                .unwrap_or_default(),
+            ArithExpression::Clock(_) | ArithExpression::VarName(_) => 0,
+            ArithExpression::Int(value) => *value,
+        }
     }
 
     pub fn iterate_constraints<F>(&self, function: &mut F)
-- 
2.43.0


From 30c6506b84abed9dbf0bba00c80f6c09bd7488e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:52 +0000
Subject: [PATCH 23/35] fix: only the last update of a clock counts where a
 transition may be taken

---
 src/ModelObjects/transition.rs | 5 ++---
 src/System/input_enabler.rs    | 3 ++-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ModelObjects/transition.rs b/src/ModelObjects/transition.rs
index a980b50..fdfd7b7 100644
--- a/src/ModelObjects/transition.rs
+++ b/src/ModelObjects/transition.rs
@@ -127,10 +127,9 @@ impl Transition {
     }
 
     pub fn inverse_apply_updates(&self, mut fed: OwnedFederation) -> OwnedFederation {
-        for update in &self.updates {
+        // The last update of a clock is the one that counts
+        for update in self.updates.iter().rev() {
             fed = update.apply_as_guard(fed);
-        }
-        for update in &self.updates {
             fed = update.apply_as_free(fed);
         }
 
diff --git a/src/System/input_enabler.rs b/src/System/input_enabler.rs
index c5ddd44..d86d7fa 100644
--- a/src/System/input_enabler.rs
+++ b/src/System/input_enabler.rs
@@ -50,7 +50,8 @@ pub fn make_input_enabled(component: &mut Component, inputs: &[String]) {
                 }
 
                 if let Some(updates) = &edge.update {
-                    for update in updates {
+                    // The last update of a clock is the one that counts
+                    for update in updates.iter().rev() {
                         let cu = update.compiled(component.get_declarations());
                         guard_zone = cu.apply_as_guard(guard_zone);
                         guard_zone = cu.apply_as_free(guard_zone);
-- 
2.43.0


From 147964fb8b58f6f6681d950efaf3b2fb2bf20f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:51 +0000
Subject: [PATCH 24/35] fix: clocks in constraints that always hold were
 removed with their edges

---
 src/ModelObjects/component.rs | 61 ++++++++++++++++++++++-------------
 1 file changed, 38 insertions(+), 23 deletions(-)

diff --git a/src/ModelObjects/component.rs b/src/ModelObjects/component.rs
index 2b8759a..5ce85fa 100644
--- a/src/ModelObjects/component.rs
+++ b/src/ModelObjects/component.rs
@@ -2,7 +2,9 @@ use crate::DataReader::serialization::{decode_declarations, DummyComponent};
 
 use edbm::util::bounds::Bounds;
 use edbm::util::constraints::ClockIndex;
+use edbm::zones::OwnedFederation;
 
+use crate::EdgeEval::constraint_applyer::apply_constraints_to_state;
 use crate::ModelObjects::Expressions::BoolExpression;
 use crate::ModelObjects::{Edge, Location, SyncType};
 use itertools::Itertools;
@@ -117,33 +119,25 @@ impl Component {
             .get_clock_name_by_index(index)
             .expect("Couldn't find clock with index")
             .to_owned();
-        self.declarations.clocks.remove(&name);
 
         // Removes from from updates and guards
-        self.edges
-            .iter_mut()
-            .filter(|e| e.update.is_some() || e.guard.is_some())
-            .for_each(|e| {
-                // The guard is overwritten to `false`. This can be done since we assume
-                // that all edges with guards involving the given clock is not reachable
-                // in some composite system.
-                if let Some(guard) = e.guard.as_mut().filter(|g| g.has_varname(&name)) {
-                    *guard = BoolExpression::Bool(false);
-                }
-                if let Some(inv) = e.update.as_mut() {
-                    inv.retain(|u| u.variable != name);
-                }
-            });
+        for i in 0..self.edges.len() {
+            if let Some(guard) = self.edges[i].guard.take() {
+                self.edges[i].guard = self.without_clock(guard, &name);
+            }
+            if let Some(inv) = self.edges[i].update.as_mut() {
+                inv.retain(|u| u.variable != name);
+            }
+        }
 
         // Removes from from location invariants
-        // The invariants containing the clock are overwritten to `false`.
-        // This can be done since we assume that all locations with invariants involving
-        // the given clock is not reachable in some composite system.
-        self.locations
-            .iter_mut()
-            .filter_map(|l| l.invariant.as_mut())
-            .filter(|i| i.has_varname(&name))
-            .for_each(|i| *i = BoolExpression::Bool(false));
+        for i in 0..self.locations.len() {
+            if let Some(invariant) = self.locations[i].invariant.take() {
+                self.locations[i].invariant = self.without_clock(invariant, &name);
+            }
+        }
+
+        self.declarations.clocks.remove(&name);
 
         info!(
             "Removed Clock '{name}' (index {index}) has been removed from component {}",
@@ -151,6 +145,27 @@ impl Component {
         ); // Should be changed in the future to be the information logger
     }
 
+    /// Rewrites a guard or an invariant such that it does not mention the clock `name`.
+    ///
+    /// If it depends on the clock, it is overwritten to `false`. This can be done since we assume
+    /// that all edges and locations whose guards and invariants depend on a removed clock are not
+    /// reachable in some composite system.
+    fn without_clock(&self, expression: BoolExpression, name: &String) -> Option<BoolExpression> {
+        if !expression.has_varname(name) {
+            return Some(expression);
+        }
+        let dim = self.declarations.clocks.values().max().map_or(1, |i| i + 1);
+        let fed = OwnedFederation::universe(dim);
+        let fed = apply_constraints_to_state(&expression, &self.declarations, fed)
+            .expect("Failed to apply constraint");
+        BoolExpression::from_disjunction(&fed.minimal_constraints(), &self.declarations.clocks).map(
+            |rewritten| match rewritten.has_varname(name) {
+                true => BoolExpression::Bool(false),
+                false => rewritten,
+            },
+        )
+    }
+
     /// Replaces duplicate clock with a new
     /// # Arguments
     /// `global_index`: The index of the global clock\n
-- 
2.43.0


From 59faea274d59142cf3255046c1088d536524037f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:44 +0000
Subject: [PATCH 25/35] fix: clock reduction of a system changed the verdicts
 about its parts

---
 src/System/extract_system_rep.rs | 80 ++++++++++++++++++++++++++++++--
 1 file changed, 77 insertions(+), 3 deletions(-)

diff --git a/src/System/extract_system_rep.rs b/src/System/extract_system_rep.rs
index 65619df..4c972f0 100644
--- a/src/System/extract_system_rep.rs
+++ b/src/System/extract_system_rep.rs
@@ -349,6 +349,9 @@ pub fn get_system_recipe(
 /// Module containing a "safer" function for clock reduction, along with some helper functions
 pub(crate) mod clock_reduction {
     use super::*;
+    use crate::TransitionSystems::CompositionType;
+    use itertools::Itertools;
+    use std::collections::HashSet;
 
     /// Function for a "safer" clock reduction that handles both the dimension of the DBM and the quotient index if needed be
     /// # Arguments
@@ -372,8 +375,8 @@ pub(crate) mod clock_reduction {
         let rhs = rhs.unwrap();
 
         let (l_clocks, r_clocks) = filter_redundant_clocks(
-            lhs.clone().compile(*dim)?.find_redundant_clocks(),
-            rhs.clone().compile(*dim)?.find_redundant_clocks(),
+            find_redundant_clocks(&lhs.clone().compile(*dim)?),
+            find_redundant_clocks(&rhs.clone().compile(*dim)?),
             quotient_clock,
             lhs.get_components_mut()
                 .iter()
@@ -413,7 +416,7 @@ pub(crate) mod clock_reduction {
         dim: &mut usize,
         quotient_clock: Option<ClockIndex>,
     ) -> Result<(), Box<SystemRecipeFailure>> {
-        let mut clocks = sys.clone().compile(*dim)?.find_redundant_clocks();
+        let mut clocks = find_redundant_clocks(&sys.clone().compile(*dim)?);
         clocks.retain(|ins| ins.get_clock_index() != quotient_clock.unwrap_or_default());
         debug!("Clocks to be reduced: {clocks:?}");
         *dim -= clocks
@@ -428,6 +431,77 @@ pub(crate) mod clock_reduction {
         Ok(())
     }
 
+    /// Finds the redundant clocks of a system. The systems it is composed of are checked on their own
+    /// as well (e.g. for consistency), and may reach more there than they do in the composed system.
+    /// So only those clocks are redundant that are redundant in all of them.
+    fn find_redundant_clocks(system: &TransitionSystemPtr) -> Vec<ClockReductionInstruction> {
+        let instructions = system.find_redundant_clocks();
+        if system.get_composition_type() == CompositionType::Simple {
+            return instructions;
+        }
+        let (left, right) = system.get_children();
+        let parts = [left, right].map(|part| {
+            let clocks: HashSet<ClockIndex> = part
+                .get_decls()
+                .iter()
+                .flat_map(|decl| decl.clocks.values().cloned())
+                .collect();
+            (clocks, find_redundant_clocks(part))
+        });
+
+        // If the clocks cannot be told apart in a part of the system
+        let same_in_parts = |a: ClockIndex, b: ClockIndex| {
+            parts.iter().all(|(clocks, instructions)| {
+                !clocks.contains(&a)
+                    || !clocks.contains(&b)
+                    || instructions.iter().any(|ins| match ins {
+                        ClockReductionInstruction::RemoveClock { .. } => false,
+                        ClockReductionInstruction::ReplaceClocks {
+                            clock_index,
+                            clock_indices,
+                        } => [a, b]
+                            .iter()
+                            .all(|c| c == clock_index || clock_indices.contains(c)),
+                    })
+            })
+        };
+
+        let mut result = vec![];
+        for instruction in instructions {
+            match instruction {
+                ClockReductionInstruction::RemoveClock { .. } => {
+                    if parts.iter().all(|(_, ins)| ins.contains(&instruction)) {
+                        result.push(instruction);
+                    }
+                }
+                ClockReductionInstruction::ReplaceClocks {
+                    clock_index,
+                    clock_indices,
+                } => {
+                    let mut groups: Vec<Vec<ClockIndex>> = vec![];
+                    for clock in std::iter::once(clock_index)
+                        .chain(clock_indices.into_iter().sorted_unstable())
+                    {
+                        match groups
+                            .iter_mut()
+                            .find(|group| group.iter().all(|other| same_in_parts(*other, clock)))
+                        {
+                            Some(group) => group.push(clock),
+                            None => groups.push(vec![clock]),
+                        }
+                    }
+                    result.extend(groups.into_iter().filter(|group| group.len() > 1).map(
+                        |group| ClockReductionInstruction::ReplaceClocks {
+                            clock_index: group[0],
+                            clock_indices: group[1..].iter().cloned().collect(),
+                        },
+                    ));
+                }
+            }
+        }
+        result
+    }
+
     fn filter_redundant_clocks(
         lhs: Vec<ClockReductionInstruction>,
         rhs: Vec<ClockReductionInstruction>,
-- 
2.43.0


From c49f2344de5fca4226f9b65ef3f6f6b46fc65086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:19 +0000
Subject: [PATCH 26/35] fix: a component of a single location was written
 without coordinates

---
 src/Simulation/graph_layout.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/Simulation/graph_layout.rs b/src/Simulation/graph_layout.rs
index ce3c38b..5d8b8de 100644
--- a/src/Simulation/graph_layout.rs
+++ b/src/Simulation/graph_layout.rs
@@ -174,7 +174,13 @@ pub fn layout_dummy_component(comp: &mut DummyComponent) {
     // Normalize bounds to grid size
     let normalize = {
         |num: f32, min: f32, max: f32, ratio: f32| {
-            ((num - min) / (max - min)) * (grid_size * ratio) + config.padding / 2.0
+            // A single node has no extent, and is put in the middle
+            let part = if max > min {
+                (num - min) / (max - min)
+            } else {
+                0.5
+            };
+            part * (grid_size * ratio) + config.padding / 2.0
         }
     };
 
@@ -183,11 +189,15 @@ pub fn layout_dummy_component(comp: &mut DummyComponent) {
         f32::max(f32::min(num, max), min)
     }
 
-    let ratio_x = clamp(
-        (max_x - min_x) / (max_y - min_y),
-        1.0 / config.max_ratio,
-        config.max_ratio,
-    );
+    let ratio_x = if max_x > min_x && max_y > min_y {
+        clamp(
+            (max_x - min_x) / (max_y - min_y),
+            1.0 / config.max_ratio,
+            config.max_ratio,
+        )
+    } else {
+        1.0
+    };
 
     let ratio_y = 1.0 / ratio_x;
 
-- 
2.43.0


From 1c49b2fe573eef19c73815619fbd06be024a7820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:18 +0000
Subject: [PATCH 27/35] fix: clocks of a saved system were mixed up when a new
 name was taken

---
 src/System/save_component.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/System/save_component.rs b/src/System/save_component.rs
index 2817ac0..df28a1c 100644
--- a/src/System/save_component.rs
+++ b/src/System/save_component.rs
@@ -79,11 +79,12 @@ pub fn get_clock_map(sysrep: &TransitionSystemPtr) -> HashMap<String, ClockIndex
     }
     for (comp_id, decl) in decls.into_iter().enumerate() {
         for (k, v) in &decl.clocks {
-            if clocks.contains_key(k) {
-                clocks.insert(format!("{}{}", k, comp_id), *v);
-            } else {
-                clocks.insert(k.clone(), *v);
+            let mut name = k.clone();
+            while clocks.contains_key(&name) {
+                // A component may have a clock of the new name as well
+                name = format!("{}{}", name, comp_id);
             }
+            clocks.insert(name, *v);
         }
     }
 
-- 
2.43.0


From 04d73465a869cb6b400c6f8197025c3f35d57476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:58 +0000
Subject: [PATCH 28/35] fix: prune crashed on every system with clocks

---
 src/System/extract_system_rep.rs | 2 +-
 src/System/pruning.rs            | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/System/extract_system_rep.rs b/src/System/extract_system_rep.rs
index 4c972f0..4e787d6 100644
--- a/src/System/extract_system_rep.rs
+++ b/src/System/extract_system_rep.rs
@@ -158,7 +158,7 @@ pub fn create_executable_query<'a>(
                 }
 
                 Ok(Box::new(GetComponentExecutor {
-                    system: pruning::prune_system(recipe.compile(dim)?, dim),
+                    system: pruning::prune_system(recipe.compile(dim)?),
                     comp_name: name.clone().unwrap_or("Unnamed".to_string()),
                     component_loader,
                 }))
diff --git a/src/System/pruning.rs b/src/System/pruning.rs
index a234060..381b83f 100644
--- a/src/System/pruning.rs
+++ b/src/System/pruning.rs
@@ -12,7 +12,8 @@ use std::collections::{HashMap, HashSet};
 
 use super::save_component::PruningStrategy;
 
-pub fn prune_system(ts: TransitionSystemPtr, dim: ClockIndex) -> TransitionSystemPtr {
+pub fn prune_system(ts: TransitionSystemPtr) -> TransitionSystemPtr {
+    let dim = ts.get_dim();
     ts.precheck_sys_rep()
         .expect("Cannot prune transitions system which is not least consistent");
 
-- 
2.43.0


From 38dbebbfcd2f70d94bdf07eb22faeac41f038d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:16 +0000
Subject: [PATCH 29/35] fix: prune of an inconsistent system ended in an
 internal error

---
 src/System/extract_system_rep.rs | 2 +-
 src/System/pruning.rs            | 9 ++++-----
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/System/extract_system_rep.rs b/src/System/extract_system_rep.rs
index 4e787d6..558d5f4 100644
--- a/src/System/extract_system_rep.rs
+++ b/src/System/extract_system_rep.rs
@@ -158,7 +158,7 @@ pub fn create_executable_query<'a>(
                 }
 
                 Ok(Box::new(GetComponentExecutor {
-                    system: pruning::prune_system(recipe.compile(dim)?),
+                    system: pruning::prune_system(recipe.compile(dim)?)?,
                     comp_name: name.clone().unwrap_or("Unnamed".to_string()),
                     component_loader,
                 }))
diff --git a/src/System/pruning.rs b/src/System/pruning.rs
index 381b83f..528f3c0 100644
--- a/src/System/pruning.rs
+++ b/src/System/pruning.rs
@@ -12,10 +12,10 @@ use std::collections::{HashMap, HashSet};
 
 use super::save_component::PruningStrategy;
 
-pub fn prune_system(ts: TransitionSystemPtr) -> TransitionSystemPtr {
+pub fn prune_system(ts: TransitionSystemPtr) -> Result<TransitionSystemPtr, String> {
     let dim = ts.get_dim();
     ts.precheck_sys_rep()
-        .expect("Cannot prune transitions system which is not least consistent");
+        .map_err(|_| "Cannot prune a transition system which is not least consistent")?;
 
     let inputs = ts.get_input_actions();
     let outputs = ts.get_output_actions();
@@ -24,9 +24,8 @@ pub fn prune_system(ts: TransitionSystemPtr) -> TransitionSystemPtr {
     let mut input_map: HashMap<String, Vec<String>> = HashMap::new();
     input_map.insert(comp.name.clone(), inputs.iter().cloned().collect());
 
-    let result = prune(&comp, dim, inputs, outputs);
-
-    result.unwrap()
+    let pruned = prune(&comp, dim, inputs, outputs)?;
+    Ok(pruned)
 }
 
 struct PruneContext {
-- 
2.43.0


From a51e4924baa3191d3ff12c48485ff455b4119135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:24 +0000
Subject: [PATCH 30/35] fix: XML projects were not recognised by the command
 line tool

---
 src/DataReader/xml_parser.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/DataReader/xml_parser.rs b/src/DataReader/xml_parser.rs
index 54fd1e0..8a94690 100644
--- a/src/DataReader/xml_parser.rs
+++ b/src/DataReader/xml_parser.rs
@@ -13,7 +13,10 @@ use std::io::Read;
 use std::path::Path;
 
 pub fn is_xml_project<P: AsRef<Path>>(project_path: P) -> bool {
-    project_path.as_ref().ends_with(".xml")
+    project_path
+        .as_ref()
+        .extension()
+        .map_or(false, |extension| extension == "xml")
 }
 
 ///Used to parse systems described in xml
-- 
2.43.0


From 399e513275efb211ff51a086c5cb11e05c69c175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:35 +0000
Subject: [PATCH 31/35] fix: give the clocks of a saved component indices of
 its own

The component made by get-component keeps the clock indices of the system it
was made from. With clock reduction some of these are missing, or several clocks
have the same one, so a later query of the same run used indices outside of its
range, or found no component for a clock.
---
 src/ModelObjects/component.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ModelObjects/component.rs b/src/ModelObjects/component.rs
index 5ce85fa..ae31372 100644
--- a/src/ModelObjects/component.rs
+++ b/src/ModelObjects/component.rs
@@ -216,8 +216,10 @@ impl Declarations {
     }
 
     pub fn set_clock_indices(&mut self, start_index: ClockIndex) {
-        for (_, v) in self.clocks.iter_mut() {
-            *v += start_index
+        // The clocks of a component made from a system have the indices they had in that system,
+        // which may leave some out or be the same for several clocks
+        for (i, v) in self.clocks.values_mut().sorted().enumerate() {
+            *v = start_index + i + 1
         }
     }
 
-- 
2.43.0


From 7ce6bd8d359d626a3fe13dd3adf496c1e35d8834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:53 +0000
Subject: [PATCH 32/35] fix: system declarations were misread without the white
 space of the editor

'system A,B;' was read as a single component AB, so that the IO declarations
that follow ended in a panic; tabs, indentation, carriage returns and comments
at the end of a line did the same.
---
 src/DataReader/xml_parser.rs            |  6 +++++-
 src/ModelObjects/mod.rs                 |  1 +
 src/ModelObjects/system_declarations.rs | 14 +++++++++++++-
 3 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/DataReader/xml_parser.rs b/src/DataReader/xml_parser.rs
index 8a94690..d1a98ba 100644
--- a/src/DataReader/xml_parser.rs
+++ b/src/DataReader/xml_parser.rs
@@ -1,5 +1,6 @@
 use crate::DataReader::parse_edge;
 use crate::DataReader::parse_edge::Update;
+use crate::ModelObjects::normalize_declaration;
 use crate::ModelObjects::{
     Component, Declarations, Edge, Location, LocationType, Query, SyncType, SystemDeclarations,
     SystemSpecification,
@@ -194,7 +195,10 @@ fn parse_declarations(variables: &str) -> Declarations {
 
 fn decode_sync_type(global_decl: &str) -> SystemSpecification {
     let mut first_run = true;
-    let decls: Vec<String> = global_decl.split('\n').map(|s| s.into()).collect();
+    let decls: Vec<String> = global_decl
+        .split('\n')
+        .map(normalize_declaration)
+        .collect();
     let mut input_actions: HashMap<String, Vec<String>> = HashMap::new();
     let mut output_actions: HashMap<String, Vec<String>> = HashMap::new();
     let mut components: Vec<String> = vec![];
diff --git a/src/ModelObjects/mod.rs b/src/ModelObjects/mod.rs
index 2b70e5e..7474eaa 100644
--- a/src/ModelObjects/mod.rs
+++ b/src/ModelObjects/mod.rs
@@ -8,6 +8,7 @@ mod statepair;
 mod system_declarations;
 mod transition;
 
+pub(crate) use self::system_declarations::normalize_declaration;
 pub use self::{
     component::*, edge::*, location::*, queries::*, state::*, statepair::*, system_declarations::*,
     transition::*,
diff --git a/src/ModelObjects/system_declarations.rs b/src/ModelObjects/system_declarations.rs
index ff71f90..2f8ac03 100644
--- a/src/ModelObjects/system_declarations.rs
+++ b/src/ModelObjects/system_declarations.rs
@@ -1,4 +1,5 @@
 use crate::ModelObjects::Component;
+use itertools::Itertools;
 use log::debug;
 use serde::{Deserialize, Deserializer};
 use std::collections::HashMap;
@@ -60,6 +61,17 @@ impl SystemSpecification {
     }
 }
 
+/// The words of a declaration, separated by single spaces and without comments and punctuation
+pub(crate) fn normalize_declaration(declaration: &str) -> String {
+    declaration
+        .split("//")
+        .next()
+        .unwrap_or_default()
+        .split(|c: char| c.is_whitespace() || "{},;".contains(c))
+        .filter(|word| !word.is_empty())
+        .join(" ")
+}
+
 /// Function used for deserializing system declarations
 fn decode_sync_type<'de, D>(deserializer: D) -> Result<SystemSpecification, D::Error>
 where
@@ -67,7 +79,7 @@ where
 {
     let s = String::deserialize(deserializer)?;
     let mut first_run = true;
-    let decls: Vec<String> = s.split('\n').map(|s| s.into()).collect();
+    let decls: Vec<String> = s.split('\n').map(normalize_declaration).collect();
     let mut input_actions: HashMap<String, Vec<String>> = HashMap::new();
     let mut output_actions: HashMap<String, Vec<String>> = HashMap::new();
     let mut components: Vec<String> = vec![];
-- 
2.43.0


From e384e60d379957883b1def3f4c84b6a8f9c22050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:28 +0000
Subject: [PATCH 33/35] fix: white space around a synchronisation became part
 of the action

---
 src/DataReader/serialization.rs | 4 ++--
 src/DataReader/xml_parser.rs    | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/DataReader/serialization.rs b/src/DataReader/serialization.rs
index d47d350..06308e5 100644
--- a/src/DataReader/serialization.rs
+++ b/src/DataReader/serialization.rs
@@ -298,10 +298,10 @@ where
     let s = String::deserialize(deserializer)?;
     if s.contains('!') {
         let res = s.replace('!', "");
-        Ok(res)
+        Ok(res.trim().to_string())
     } else if s.contains('?') {
         let res = s.replace('?', "");
-        Ok(res)
+        Ok(res.trim().to_string())
     } else {
         Ok(s)
     }
diff --git a/src/DataReader/xml_parser.rs b/src/DataReader/xml_parser.rs
index d1a98ba..93856ba 100644
--- a/src/DataReader/xml_parser.rs
+++ b/src/DataReader/xml_parser.rs
@@ -145,7 +145,7 @@ fn collect_edges(xml_edges: FindChildren) -> Vec<Edge> {
             },
             guard,
             update: updates,
-            sync: sync.replace(['!', '?'], ""),
+            sync: sync.replace(['!', '?'], "").trim().to_string(),
         };
         edges.push(edge);
     }
-- 
2.43.0


From d11cb583f4b91825d69e0d2503f1bc00e05ce7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:52 +0000
Subject: [PATCH 34/35] fix: a long path through a system overflowed the stack
 and ended the server

---
 src/System/local_consistency.rs | 151 +++++++++++++++++++++++---------
 1 file changed, 111 insertions(+), 40 deletions(-)

diff --git a/src/System/local_consistency.rs b/src/System/local_consistency.rs
index d16564c..829c35d 100644
--- a/src/System/local_consistency.rs
+++ b/src/System/local_consistency.rs
@@ -17,7 +17,7 @@ pub fn is_least_consistent(system: &dyn TransitionSystem) -> ConsistencyResult {
         let mut failed = vec![];
         loop {
             let known_failed = failed.len();
-            let result = consistency_least_helper(state.clone(), &mut vec![], &mut failed, system);
+            let result = check_least_consistency(state.clone(), &mut failed, system);
             if result.is_err() || failed.len() == known_failed {
                 return result;
             }
@@ -30,27 +30,30 @@ pub fn is_least_consistent(system: &dyn TransitionSystem) -> ConsistencyResult {
 
 ///Checks if a [TransitionSystem] is deterministic.
 pub fn check_determinism(system: &dyn TransitionSystem) -> DeterminismResult {
-    let mut passed = vec![];
     let state = system.get_initial_state();
     if state.is_none() {
         return Ok(());
     }
     let mut state = state.unwrap();
     state.update_zone(|_| OwnedFederation::universe(system.get_dim()));
-    is_deterministic_helper(state, &mut passed, system)
+
+    let mut passed = vec![];
+    let mut waiting = vec![state];
+    while let Some(state) = waiting.pop() {
+        if !state.is_contained_in_list(&passed) {
+            passed.push(state.clone());
+            check_local_determinism(state, &mut waiting, system)?;
+        }
+    }
+    Ok(())
 }
 
-fn is_deterministic_helper(
+/// Checks the transitions from a state and adds the states they lead to, to the waiting list
+fn check_local_determinism(
     state: State,
-    passed_list: &mut Vec<State>,
+    waiting: &mut Vec<State>,
     system: &dyn TransitionSystem,
 ) -> DeterminismResult {
-    if state.is_contained_in_list(passed_list) {
-        return Ok(());
-    }
-
-    passed_list.push(state.clone());
-
     for action in system.get_actions() {
         let mut location_fed = OwnedFederation::empty(system.get_dim());
         for transition in &system.next_transitions(&state.decorated_locations, &action) {
@@ -68,7 +71,7 @@ fn is_deterministic_helper(
                 location_fed += allowed_fed;
                 new_state.extrapolate_max_bounds(system);
 
-                is_deterministic_helper(new_state, passed_list, system)?;
+                waiting.push(new_state);
             }
         }
     }
@@ -91,41 +94,113 @@ fn is_same_state(left: &State, right: &State) -> bool {
     left.is_subset_of(right) && right.is_subset_of(left)
 }
 
-pub fn consistency_least_helper(
+/// A state whose successors are being checked
+struct OpenState {
     state: State,
-    passed_list: &mut Vec<State>,
+    successors: std::vec::IntoIter<State>,
+    follows_outputs: bool,
+}
+
+impl OpenState {
+    /// The result for the state if it is settled by the `result` of its latest successor
+    fn settled_by(&self, result: &ConsistencyResult) -> Option<ConsistencyResult> {
+        // Every input must lead to a consistent state, but a single output is enough
+        if self.follows_outputs == result.is_ok() {
+            Some(result.clone())
+        } else {
+            None
+        }
+    }
+}
+
+/// Goes through the states depth first. The states on the current path are kept in a list, since
+/// the path can be too long for the call stack.
+fn check_least_consistency(
+    initial_state: State,
     failed_list: &mut Vec<State>,
     system: &dyn TransitionSystem,
 ) -> ConsistencyResult {
-    if failed_list.iter().any(|s| is_same_state(s, &state)) {
-        return ConsistencyFailure::inconsistent_from(system, &state);
-    }
+    let mut passed_list = vec![];
+    let mut path: Vec<OpenState> = vec![];
+    let mut next_state = Some(initial_state);
+    let mut result = Ok(());
 
-    let result = check_least_consistency(&state, passed_list, failed_list, system);
-    if result.is_err() {
-        passed_list.retain(|s| !is_same_state(s, &state));
-        failed_list.push(state.clone());
+    loop {
+        if let Some(state) = next_state.take() {
+            match known_consistency(&state, &passed_list, failed_list, system) {
+                Some(known) => result = known,
+                None => {
+                    passed_list.push(state.clone());
+                    path.push(OpenState {
+                        successors: get_input_successors(&state, system).into_iter(),
+                        follows_outputs: false,
+                        state,
+                    });
+                    result = Ok(());
+                }
+            }
+        }
+
+        let open = match path.last_mut() {
+            Some(open) => open,
+            None => return result,
+        };
+
+        if let Some(settled) = open.settled_by(&result) {
+            result = settled;
+        } else if let Some(successor) = open.successors.next() {
+            next_state = Some(successor);
+            continue;
+        } else if open.follows_outputs {
+            warn!(
+                "No saving outputs from {}",
+                open.state.decorated_locations.id
+            );
+            result = ConsistencyFailure::inconsistent_from(system, &open.state);
+        } else if open.state.zone_ref().can_delay_indefinitely() {
+            result = Ok(());
+        } else {
+            open.successors = get_output_successors(&open.state, system).into_iter();
+            open.follows_outputs = true;
+            // It fails unless one of them is consistent
+            result = ConsistencyFailure::inconsistent_from(system, &open.state);
+            continue;
+        }
+
+        if let Some(closed) = path.pop() {
+            if result.is_err() {
+                passed_list.retain(|s| !is_same_state(s, &closed.state));
+                failed_list.push(closed.state);
+            }
+        }
     }
-    result
 }
 
-fn check_least_consistency(
+/// The result for a state if it is known without looking at its successors
+fn known_consistency(
     state: &State,
-    passed_list: &mut Vec<State>,
+    passed_list: &[State],
     failed_list: &mut Vec<State>,
     system: &dyn TransitionSystem,
-) -> ConsistencyResult {
+) -> Option<ConsistencyResult> {
+    if failed_list.iter().any(|s| is_same_state(s, state)) {
+        return Some(ConsistencyFailure::inconsistent_from(system, state));
+    }
     if passed_list.iter().any(|s| is_same_state(s, state)) {
-        return Ok(());
+        return Some(Ok(()));
     }
     if state.decorated_locations.is_universal() {
-        return Ok(());
+        return Some(Ok(()));
     }
     if state.decorated_locations.is_inconsistent() {
-        return ConsistencyFailure::inconsistent(system, state);
+        failed_list.push(state.clone());
+        return Some(ConsistencyFailure::inconsistent(system, state));
     }
+    None
+}
 
-    passed_list.push(state.clone());
+fn get_input_successors(state: &State, system: &dyn TransitionSystem) -> Vec<State> {
+    let mut successors = vec![];
 
     for input in system.get_input_actions() {
         for transition in &system.next_inputs(&state.decorated_locations, &input) {
@@ -133,30 +208,26 @@ fn check_least_consistency(
             if transition.use_transition(&mut new_state) {
                 new_state.extrapolate_max_bounds(system);
 
-                consistency_least_helper(new_state, passed_list, failed_list, system)?;
+                successors.push(new_state);
             }
         }
     }
+    successors
+}
 
-    if state.zone_ref().can_delay_indefinitely() {
-        return Ok(());
-    }
+fn get_output_successors(state: &State, system: &dyn TransitionSystem) -> Vec<State> {
+    let mut successors = vec![];
 
     for output in system.get_output_actions() {
         for transition in system.next_outputs(&state.decorated_locations, &output) {
             let mut new_state = state.clone();
             if transition.use_transition(&mut new_state) {
                 new_state.extrapolate_max_bounds(system);
-                if let Ok(()) =
-                    consistency_least_helper(new_state, passed_list, failed_list, system)
-                {
-                    return Ok(());
-                }
+                successors.push(new_state);
             }
         }
     }
-    warn!("No saving outputs from {}", state.decorated_locations.id);
-    ConsistencyFailure::inconsistent_from(system, state)
+    successors
 }
 
 fn consistency_fully_helper(
-- 
2.43.0


From 8e84f0b18abbb56aa7c919bb4f75b6537d37db4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:52 +0000
Subject: [PATCH 35/35] fix: saving a component with many locations overflowed
 the stack

---
 src/System/save_component.rs | 41 ++++++++++++++++++++----------------
 1 file changed, 23 insertions(+), 18 deletions(-)

diff --git a/src/System/save_component.rs b/src/System/save_component.rs
index df28a1c..487b835 100644
--- a/src/System/save_component.rs
+++ b/src/System/save_component.rs
@@ -117,35 +117,40 @@ fn collect_reachable_edges_and_locations(
     }
     let l = l.unwrap();
 
-    locations.push(l.clone());
+    locations.push(l);
 
-    collect_reachable_locations(&l, representation, locations);
+    collect_reachable_locations(representation, locations);
 
     for loc in locations {
         collect_edges_from_location(loc, representation, edges, clock_map);
     }
 }
 
+/// Adds every location that can be reached from the ones in the list
 fn collect_reachable_locations(
-    location: &LocationTree,
     representation: &TransitionSystemPtr,
     locations: &mut Vec<LocationTree>,
 ) {
-    for input in [true, false].iter() {
-        for sync in if *input {
-            representation.get_input_actions()
-        } else {
-            representation.get_output_actions()
-        } {
-            let transitions = representation.next_transitions(location, &sync);
-
-            for transition in transitions {
-                let mut target_location = location.clone();
-                transition.move_locations(&mut target_location);
-
-                if !locations.contains(&target_location) {
-                    locations.push(target_location.clone());
-                    collect_reachable_locations(&target_location, representation, locations);
+    let mut explored = 0;
+    while explored < locations.len() {
+        let location = locations[explored].clone();
+        explored += 1;
+
+        for input in [true, false].iter() {
+            for sync in if *input {
+                representation.get_input_actions()
+            } else {
+                representation.get_output_actions()
+            } {
+                let transitions = representation.next_transitions(&location, &sync);
+
+                for transition in transitions {
+                    let mut target_location = location.clone();
+                    transition.move_locations(&mut target_location);
+
+                    if !locations.contains(&target_location) {
+                        locations.push(target_location);
+                    }
                 }
             }
         }
-- 
2.43.0

