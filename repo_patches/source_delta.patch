From eaf034f863d7a480fb8a2d0d077ae95e3eede3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:22 +0000
Subject: [PATCH 1/8] Guarded hook: parsers no public function reaches, for the
 simulator

---
 src/lib.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 84d5e83..d1e8f5a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,6 +1,7 @@
 //#![deny(missing_docs)]
 
 #![allow(unused)]
+#![allow(unexpected_cfgs)]
 
 #[macro_use]
 extern crate derive_new;
@@ -31,3 +32,21 @@ pub mod var;
 pub mod write;
 
 pub mod mimes {}
+
+/// Parsers no public function reaches, for the simulator in which they are tested.
+#[cfg(nom_sparql_sim)]
+pub mod sim {
+    use nom::IResult;
+
+    pub fn update(i: &str) -> IResult<&str, crate::update::Update> {
+        crate::update::update(i)
+    }
+
+    pub fn add_stmt(i: &str) -> IResult<&str, crate::operations::AddStatement> {
+        crate::operations::add_stmt(i)
+    }
+
+    pub fn move_stmt(i: &str) -> IResult<&str, crate::operations::MoveStatement> {
+        crate::operations::move_stmt(i)
+    }
+}
-- 
2.43.0


From 4a50f7707e737696f8ed99dabba25fe6917a84db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:51 +0000
Subject: [PATCH 2/8] fix: path_mod panicked on a character of more than one
 byte

---
 src/path.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/path.rs b/src/path.rs
index 437a410..5f9b0fa 100644
--- a/src/path.rs
+++ b/src/path.rs
@@ -276,7 +276,7 @@ pub(crate) fn path_one_in_property_set(i: &str) -> IResult<&str, PathOneInProper
 pub(crate) fn path_mod(i: &str) -> IResult<&str, PathMod> {
     if i.is_empty() {
         Err(Err::Incomplete(Needed::Size(1)))
-    } else if let Ok(path) = PathMod::from_str(&i[0..1]) {
+    } else if let Some(Ok(path)) = i.get(0..1).map(PathMod::from_str) {
         Ok((&i[1..], path))
     } else {
         Err(Err::Error((i, ErrorKind::Char)))
-- 
2.43.0


From 198af8cfc8e5c241d068ea1d9d72f130d1f53fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:57 +0000
Subject: [PATCH 3/8] fix: path_mod asked for more input at the end of the text

---
 src/path.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/path.rs b/src/path.rs
index 5f9b0fa..d7cadbe 100644
--- a/src/path.rs
+++ b/src/path.rs
@@ -12,7 +12,7 @@ use nom::{
     character::is_digit,
     combinator::map_res,
     sequence::{preceded, terminated},
-    IResult, Needed,
+    IResult,
 };
 
 use crate::expression::iri::{iri_or_a_or_caret, IriOrAOrCaret};
@@ -274,9 +274,7 @@ pub(crate) fn path_one_in_property_set(i: &str) -> IResult<&str, PathOneInProper
 }
 
 pub(crate) fn path_mod(i: &str) -> IResult<&str, PathMod> {
-    if i.is_empty() {
-        Err(Err::Incomplete(Needed::Size(1)))
-    } else if let Some(Ok(path)) = i.get(0..1).map(PathMod::from_str) {
+    if let Some(Ok(path)) = i.get(0..1).map(PathMod::from_str) {
         Ok((&i[1..], path))
     } else {
         Err(Err::Error((i, ErrorKind::Char)))
-- 
2.43.0


From f1b4a511c265d890ab06813fc9475a2c739288aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:57 +0000
Subject: [PATCH 4/8] fix: an expression asked for more input at the end of the
 text (streaming tag in NOT IN)

---
 src/arithmetic.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arithmetic.rs b/src/arithmetic.rs
index e3d4afc..9600531 100644
--- a/src/arithmetic.rs
+++ b/src/arithmetic.rs
@@ -5,7 +5,7 @@ use crate::literal::{numeric_literal, NumericLiteral};
 use crate::terminals::{preceded_tag, sp, sp_enc, sp_enc1};
 use nom::branch::alt;
 use nom::bytes::complete::tag;
-use nom::bytes::streaming::tag_no_case;
+use nom::bytes::complete::tag_no_case;
 use nom::combinator::{map, opt};
 use nom::multi::{separated_list, separated_nonempty_list};
 use nom::sequence::{pair, preceded, terminated};
-- 
2.43.0


From 417dcace212349391d87ee774a6e7544d7a42f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:57 +0000
Subject: [PATCH 5/8] fix: lists separated by optional space were dropped when
 the text ended right after them

---
 src/arithmetic.rs      | 10 +++++-----
 src/clauses.rs         |  7 +++----
 src/graph.rs           |  6 +++---
 src/group.rs           |  5 ++---
 src/operations.rs      |  5 ++---
 src/query/ask.rs       |  5 ++---
 src/query/construct.rs |  6 +++---
 src/query/describe.rs  |  5 ++---
 src/query/select.rs    |  6 +++---
 src/terminals.rs       | 26 ++++++++++++++++++++++++++
 src/var.rs             |  5 ++---
 11 files changed, 53 insertions(+), 33 deletions(-)

diff --git a/src/arithmetic.rs b/src/arithmetic.rs
index 9600531..782fcbe 100644
--- a/src/arithmetic.rs
+++ b/src/arithmetic.rs
@@ -2,12 +2,12 @@ use std::{fmt, str::FromStr};
 
 use crate::expression::{expression_list, primary_expression, ExpressionList, PrimaryExpression};
 use crate::literal::{numeric_literal, NumericLiteral};
-use crate::terminals::{preceded_tag, sp, sp_enc, sp_enc1};
+use crate::terminals::{preceded_tag, sp, sp_enc, sp_enc1, sp_list0};
 use nom::branch::alt;
 use nom::bytes::complete::tag;
 use nom::bytes::complete::tag_no_case;
 use nom::combinator::{map, opt};
-use nom::multi::{separated_list, separated_nonempty_list};
+use nom::multi::separated_nonempty_list;
 use nom::sequence::{pair, preceded, terminated};
 use nom::IResult;
 
@@ -120,7 +120,7 @@ pub(crate) fn additive_expression(i: &str) -> IResult<&str, AdditiveExpression>
     map(
         pair(
             multiplicative_expression,
-            preceded(sp, separated_list(sp, add_expression)),
+            preceded(sp, sp_list0(add_expression)),
         ),
         |(lhs, rhs)| AdditiveExpression { lhs, rhs },
     )(i)
@@ -139,7 +139,7 @@ pub(crate) fn add_expression(i: &str) -> IResult<&str, AddExpression> {
         map(
             pair(
                 numeric_literal,
-                preceded(sp, separated_list(sp, mult_expression)),
+                preceded(sp, sp_list0(mult_expression)),
             ),
             |(numeric, expressions)| AddExpression::Numeric {
                 numeric,
@@ -153,7 +153,7 @@ pub(crate) fn multiplicative_expression(i: &str) -> IResult<&str, Multiplicative
     map(
         pair(
             unary_expression,
-            preceded(sp, separated_list(sp, mult_expression)),
+            preceded(sp, sp_list0(mult_expression)),
         ),
         |(lhs, rhs)| MultiplicativeExpression { lhs, rhs },
     )(i)
diff --git a/src/clauses.rs b/src/clauses.rs
index b33faad..11900a8 100644
--- a/src/clauses.rs
+++ b/src/clauses.rs
@@ -4,7 +4,6 @@ use nom::{
     character::is_digit,
     combinator::map_res,
     combinator::{map, opt},
-    multi::separated_nonempty_list,
     sequence::{delimited, separated_pair, tuple},
     sequence::{preceded, terminated},
     IResult,
@@ -19,7 +18,7 @@ use crate::{
     group::{group_clause, GroupClause},
     order::{order_condition, OrderCondition},
     quads::{quads_pattern, Quads},
-    terminals::{default_or_named_iri, preceded_tag1, sp, sp1},
+    terminals::{default_or_named_iri, preceded_tag1, sp, sp1, sp_list1},
 };
 
 #[derive(Debug, Clone, Eq, PartialEq)]
@@ -72,7 +71,7 @@ pub(crate) fn order_clause(i: &str) -> IResult<&str, OrderClause> {
     map(
         preceded(
             terminated(delimited(tag_no_case("order"), sp1, tag_no_case("by")), sp1),
-            separated_nonempty_list(sp, order_condition),
+            sp_list1(order_condition),
         ),
         OrderClause,
     )(i)
@@ -82,7 +81,7 @@ pub(crate) fn having_clause(i: &str) -> IResult<&str, HavingClause> {
     map(
         preceded(
             terminated(tag_no_case("having"), sp1),
-            separated_nonempty_list(sp, constraint),
+            sp_list1(constraint),
         ),
         HavingClause,
     )(i)
diff --git a/src/graph.rs b/src/graph.rs
index 1c3bd80..86c2919 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -23,14 +23,14 @@ use crate::{
     terminals::sp_sep1,
     terminals::{
         anon, default_or_named_iri, iri, nil, pn_chars_tail, pn_chars_u_one, pn_local,
-        preceded_tag1, rdf_literal, sp, sp1, sp_enc, sp_enc1, sp_sep,
+        preceded_tag1, rdf_literal, sp, sp1, sp_enc, sp_enc1, sp_list0, sp_sep,
     },
     triple::{property_list, property_list_not_empty, triples_block, triples_node, TriplesBlock},
     var::{var_or_iri, var_or_term, Var, VarOrIri, VarOrTerm, Verb},
 };
 use nom::character::complete::char;
 use nom::combinator::recognize;
-use nom::multi::{separated_list, separated_nonempty_list};
+use nom::multi::separated_nonempty_list;
 use nom::sequence::tuple;
 
 #[derive(Debug, Clone, Eq, PartialEq)]
@@ -195,7 +195,7 @@ pub(crate) fn group_graph_pattern_sub(i: &str) -> IResult<&str, GroupGraphPatter
     map(
         pair(
             opt(terminated(triples_block, sp)),
-            separated_list(sp, group_graph_pattern_and_triples),
+            sp_list0(group_graph_pattern_and_triples),
         ),
         |(triples_block, graph_pattern_and_triples)| GroupGraphPatternSub {
             triples_block,
diff --git a/src/group.rs b/src/group.rs
index f759ccc..b5a8426 100644
--- a/src/group.rs
+++ b/src/group.rs
@@ -1,5 +1,4 @@
 use nom::combinator::map;
-use nom::multi::separated_nonempty_list;
 use nom::sequence::delimited;
 use nom::{
     branch::alt,
@@ -16,7 +15,7 @@ use crate::expression::{
     expression_as_var_opt, DefaultOrNamedIri, ExpressionAsVar, ExpressionAsVarOpt, Iri,
 };
 
-use crate::terminals::{sp, sp1};
+use crate::terminals::{sp1, sp_list1};
 use crate::var::{var, Var};
 
 #[derive(Debug, Clone, Eq, PartialEq)]
@@ -34,7 +33,7 @@ pub(crate) fn group_clause(i: &str) -> IResult<&str, GroupClause> {
     map(
         preceded(
             terminated(delimited(tag_no_case("group"), sp1, tag_no_case("by")), sp1),
-            separated_nonempty_list(sp, group_condition),
+            sp_list1(group_condition),
         ),
         GroupClause,
     )(i)
diff --git a/src/operations.rs b/src/operations.rs
index 4d2aff3..abc5049 100644
--- a/src/operations.rs
+++ b/src/operations.rs
@@ -4,7 +4,6 @@ use nom::{
     character::is_digit,
     combinator::map_res,
     combinator::{map, opt},
-    multi::separated_list,
     sequence::{delimited, pair, tuple},
     sequence::{preceded, terminated},
     IResult,
@@ -19,7 +18,7 @@ use crate::{
     },
     literal::silent,
     quads::{quad_data, Quads},
-    terminals::{iri, preceded_tag1, sp, sp1, sp_enc, sp_enc1},
+    terminals::{iri, preceded_tag1, sp, sp1, sp_enc, sp_enc1, sp_list0},
 };
 
 #[derive(Debug, Clone, Eq, PartialEq, new)]
@@ -97,7 +96,7 @@ pub(crate) fn modify_stmt(i: &str) -> IResult<&str, ModifyStatement> {
         tuple((
             opt(delimited(tag_no_case("where"), iri, sp1)),
             terminated(delete_insert, sp),
-            separated_list(sp, using_clause),
+            sp_list0(using_clause),
             sp_enc1(tag_no_case("where")),
             group_graph_pattern,
         )),
diff --git a/src/query/ask.rs b/src/query/ask.rs
index 2802af4..51aaf36 100644
--- a/src/query/ask.rs
+++ b/src/query/ask.rs
@@ -1,10 +1,9 @@
 use crate::clauses::{solution_modifier, where_clause, SolutionModifier};
 use crate::data::{data_set_clause, DataSetClause};
 use crate::graph::GroupGraphPattern;
-use crate::terminals::{sp, sp1};
+use crate::terminals::{sp, sp1, sp_list0};
 use nom::bytes::complete::tag_no_case;
 use nom::combinator::map;
-use nom::multi::separated_list;
 use nom::sequence::{terminated, tuple};
 use nom::IResult;
 
@@ -19,7 +18,7 @@ pub fn ask_query(i: &str) -> IResult<&str, AskQuery> {
     map(
         tuple((
             terminated(tag_no_case("ask"), sp1),
-            terminated(separated_list(sp, data_set_clause), sp),
+            terminated(sp_list0(data_set_clause), sp),
             terminated(where_clause, sp),
             solution_modifier,
         )),
diff --git a/src/query/construct.rs b/src/query/construct.rs
index 1d60b30..a990ef9 100644
--- a/src/query/construct.rs
+++ b/src/query/construct.rs
@@ -2,7 +2,7 @@ use crate::{
     clauses::{solution_modifier, where_clause, SolutionModifier},
     data::{data_set_clause, DataSetClause},
     graph::GroupGraphPattern,
-    terminals::{preceded_tag1, sp, sp1, sp_enc, sp_enc1},
+    terminals::{preceded_tag1, sp, sp1, sp_enc, sp_enc1, sp_list0},
     triple::TriplesSameSubject,
     triple::{triples_same_subject, triples_template, TriplesTemplate},
     var::{var_or_iri, VarOrIri},
@@ -46,7 +46,7 @@ pub struct ConstructTemplate(pub Vec<TriplesSameSubject>);
 pub fn sub_triples(i: &str) -> IResult<&str, SubTriples> {
     map(
         tuple((
-            terminated(separated_list(sp, data_set_clause), sp),
+            terminated(sp_list0(data_set_clause), sp),
             terminated(tag_no_case("where"), sp1),
             delimited(char('{'), sp_enc(opt(triples_template)), char('}')),
             preceded(sp, solution_modifier),
@@ -63,7 +63,7 @@ pub fn sub_construct(i: &str) -> IResult<&str, SubConstruct> {
     map(
         tuple((
             terminated(construct_template, sp1),
-            terminated(separated_list(sp, data_set_clause), sp),
+            terminated(sp_list0(data_set_clause), sp),
             terminated(where_clause, sp),
             solution_modifier,
         )),
diff --git a/src/query/describe.rs b/src/query/describe.rs
index 88bf066..90d9c59 100644
--- a/src/query/describe.rs
+++ b/src/query/describe.rs
@@ -1,14 +1,13 @@
 use crate::clauses::{solution_modifier, where_clause, SolutionModifier};
 use crate::data::{data_set_clause, DataSetClause};
 use crate::graph::GroupGraphPattern;
-use crate::terminals::{sp, sp_enc1};
+use crate::terminals::{sp, sp_enc1, sp_list0};
 use crate::var::{var_or_iri, var_or_iris_or_all, VarOrIri, VarOrIrisOrAll};
 use nom::{
     branch::alt,
     bytes::complete::tag_no_case,
     character::complete::char,
     combinator::{map, opt},
-    multi::{separated_list, separated_nonempty_list},
     sequence::{terminated, tuple},
     IResult,
 };
@@ -26,7 +25,7 @@ pub fn describe_query(i: &str) -> IResult<&str, DescribeQuery> {
         tuple((
             tag_no_case("describe"),
             sp_enc1(var_or_iris_or_all),
-            terminated(separated_list(sp, data_set_clause), sp),
+            terminated(sp_list0(data_set_clause), sp),
             opt(terminated(where_clause, sp)),
             solution_modifier,
         )),
diff --git a/src/query/select.rs b/src/query/select.rs
index f9e1014..7589bfa 100644
--- a/src/query/select.rs
+++ b/src/query/select.rs
@@ -2,7 +2,7 @@ use nom::branch::alt;
 use nom::bytes::complete::{escaped, tag, tag_no_case, take_while1, take_while_m_n};
 use nom::character::complete::{anychar, char, digit1, none_of, one_of};
 use nom::combinator::{complete, cond, cut, map, map_res, not, opt, peek};
-use nom::multi::{many1, separated_list};
+use nom::multi::many1;
 use nom::sequence::{delimited, pair, preceded, separated_pair, terminated, tuple};
 use nom::IResult;
 
@@ -13,7 +13,7 @@ use crate::expression::{
 };
 use crate::graph::GroupGraphPattern;
 
-use crate::terminals::{sp, sp1, sp_enc};
+use crate::terminals::{sp, sp1, sp_enc, sp_list0};
 use crate::var::{var, var_or_expression_as_var, VarOrExpressionAsVar};
 
 #[derive(Debug, Clone, Eq, PartialEq)]
@@ -54,7 +54,7 @@ pub(crate) fn select_query(i: &str) -> IResult<&str, SelectQuery> {
     map(
         tuple((
             terminated(select_clause, sp1),
-            separated_list(sp, data_set_clause),
+            sp_list0(data_set_clause),
             sp_enc(where_clause),
             solution_modifier,
         )),
diff --git a/src/terminals.rs b/src/terminals.rs
index 43bcfc0..6a4d310 100644
--- a/src/terminals.rs
+++ b/src/terminals.rs
@@ -127,6 +127,32 @@ where
     separated_pair(first, sp, second)
 }
 
+/// One or more `pat`, with any amount of space, or none, between them.
+#[inline]
+pub(crate) fn sp_list1<'a, O1, F>(pat: F) -> impl Fn(&'a str) -> IResult<&'a str, Vec<O1>>
+where
+    F: Fn(&'a str) -> IResult<&'a str, O1>,
+{
+    move |i| {
+        let (mut i, first) = pat(i)?;
+        let mut items = vec![first];
+        while let (rest, Some(item)) = opt(preceded(sp, &pat))(i)? {
+            items.push(item);
+            i = rest;
+        }
+        Ok((i, items))
+    }
+}
+
+/// Any number of `pat`, with any amount of space, or none, between them.
+#[inline]
+pub(crate) fn sp_list0<'a, O1, F>(pat: F) -> impl Fn(&'a str) -> IResult<&'a str, Vec<O1>>
+where
+    F: Fn(&'a str) -> IResult<&'a str, O1>,
+{
+    map(opt(sp_list1(pat)), Option::unwrap_or_default)
+}
+
 pub(crate) fn string_content(i: &str) -> IResult<&str, &str> {
     escaped(none_of("'\"\\"), '\\', one_of(r#""tbnrf\'"#))(i)
 }
diff --git a/src/var.rs b/src/var.rs
index 432c2c5..a797c00 100644
--- a/src/var.rs
+++ b/src/var.rs
@@ -1,14 +1,13 @@
 use crate::expression::{expression_as_var, ExpressionAsVar, Iri};
 use crate::graph::{graph_term, GraphTerm};
 use crate::node::ObjectList;
-use crate::terminals::{iri, is_pn_chars_u, sp};
+use crate::terminals::{iri, is_pn_chars_u, sp, sp_list1};
 use nom::branch::alt;
 use nom::bytes::complete::take_while;
 use nom::bytes::complete::{escaped, tag, tag_no_case, take_while1, take_while_m_n};
 use nom::character::complete::{anychar, char, digit1, none_of, one_of};
 use nom::combinator::recognize;
 use nom::combinator::{complete, cond, cut, map, map_res, not, opt, peek};
-use nom::multi::separated_nonempty_list;
 use nom::sequence::{delimited, pair, preceded, separated_pair, terminated, tuple};
 use nom::{AsChar, IResult};
 
@@ -86,7 +85,7 @@ pub(crate) fn var(i: &str) -> IResult<&str, Var> {
 pub(crate) fn var_or_iris_or_all(i: &str) -> IResult<&str, VarOrIrisOrAll> {
     alt((
         map(
-            separated_nonempty_list(sp, var_or_iri),
+            sp_list1(var_or_iri),
             VarOrIrisOrAll::VarIri,
         ),
         map(char('*'), |_| VarOrIrisOrAll::All),
-- 
2.43.0


From 9d937a142ad04860157a61e289d293953b0ae434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:10 +0000
Subject: [PATCH 6/8] fix: CONTAINS was spelt STRLEN, so a failing nested
 STRLEN was tried twice at every level

---
 src/call.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/call.rs b/src/call.rs
index c9e0c5f..d94222c 100644
--- a/src/call.rs
+++ b/src/call.rs
@@ -146,7 +146,7 @@ fn built_in_call_1(i: &str) -> IResult<&str, BuiltInCall> {
         ),
         map(
             preceded_bracketted(
-                "strlen",
+                "contains",
                 separated_pair(expression, sp_enc(char(',')), expression),
             ),
             BuiltInCall::Contains,
-- 
2.43.0


From 06147de86af42a31e89994d333958b9f86ba8301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:10 +0000
Subject: [PATCH 7/8] fix: a sequence path was separated by | like an
 alternative one, so nested paths doubled the work at every level

---
 src/path.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/path.rs b/src/path.rs
index d7cadbe..a827d04 100644
--- a/src/path.rs
+++ b/src/path.rs
@@ -221,7 +221,7 @@ pub(crate) fn path_alternative(i: &str) -> IResult<&str, PathAlternative> {
 
 pub(crate) fn path_sequence(i: &str) -> IResult<&str, PathSequence> {
     map(
-        separated_nonempty_list(delimited(sp, tag("|"), sp), path_elt_or_inverse),
+        separated_nonempty_list(delimited(sp, tag("/"), sp), path_elt_or_inverse),
         PathSequence,
     )(i)
 }
-- 
2.43.0


From 46b1d3a9d260c3d30f18364d6cd7694e7c9a5f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:27 +0000
Subject: [PATCH 8/8] fix: match keywords in ASCII only

nom's tag_no_case compares letters by Unicode lower-casing and then splits the
input by the tag's length, so 'AS' followed by a Kelvin sign (U+212A) panicked:
the split lies inside the three-byte letter.
---
 src/aggregate.rs       |  6 ++++--
 src/arithmetic.rs      |  2 +-
 src/call.rs            |  5 +++--
 src/clauses.rs         |  4 ++--
 src/data.rs            |  7 +++++--
 src/expression/iri.rs  |  2 +-
 src/expression/mod.rs  |  7 +++++--
 src/graph.rs           |  4 ++--
 src/group.rs           |  4 ++--
 src/literal.rs         |  4 ++--
 src/operations.rs      |  4 ++--
 src/order.rs           |  2 +-
 src/quads.rs           |  4 ++--
 src/query/ask.rs       |  2 +-
 src/query/construct.rs |  3 +--
 src/query/describe.rs  |  3 +--
 src/query/select.rs    |  4 ++--
 src/terminals.rs       | 13 ++++++++++++-
 src/var.rs             |  4 ++--
 19 files changed, 51 insertions(+), 33 deletions(-)

diff --git a/src/aggregate.rs b/src/aggregate.rs
index 840ebd4..0cd6c08 100644
--- a/src/aggregate.rs
+++ b/src/aggregate.rs
@@ -1,11 +1,13 @@
 use crate::{
     expression::{distinct_expression, expression, ArgList, DistinctExpression, Expression, Iri},
     literal::distinct,
-    terminals::{bracketted, preceded_bracketted, preceded_tag, sp, sp1, sp_enc, string_literal},
+    terminals::{
+        bracketted, preceded_bracketted, preceded_tag, sp, sp1, sp_enc, string_literal,
+        tag_no_case,
+    },
 };
 use nom::{
     branch::alt,
-    bytes::complete::tag_no_case,
     character::complete::char,
     combinator::{map, opt},
     sequence::{pair, preceded, terminated, tuple},
diff --git a/src/arithmetic.rs b/src/arithmetic.rs
index 782fcbe..cffc0a7 100644
--- a/src/arithmetic.rs
+++ b/src/arithmetic.rs
@@ -5,7 +5,7 @@ use crate::literal::{numeric_literal, NumericLiteral};
 use crate::terminals::{preceded_tag, sp, sp_enc, sp_enc1, sp_list0};
 use nom::branch::alt;
 use nom::bytes::complete::tag;
-use nom::bytes::complete::tag_no_case;
+use crate::terminals::tag_no_case;
 use nom::combinator::{map, opt};
 use nom::multi::separated_nonempty_list;
 use nom::sequence::{pair, preceded, terminated};
diff --git a/src/call.rs b/src/call.rs
index d94222c..29714bc 100644
--- a/src/call.rs
+++ b/src/call.rs
@@ -1,6 +1,5 @@
 use nom::{
     branch::alt,
-    bytes::complete::tag_no_case,
     character::complete::char,
     combinator::{map, opt},
     multi::separated_nonempty_list,
@@ -20,7 +19,9 @@ use crate::{
     },
     graph::{group_graph_pattern, GroupGraphPattern},
     literal::distinct,
-    terminals::{iri, nil, preceded_bracketted, preceded_tag1, sp, sp1, sp_enc, sp_enc1},
+    terminals::{
+        iri, nil, preceded_bracketted, preceded_tag1, sp, sp1, sp_enc, sp_enc1, tag_no_case,
+    },
     var::{var, Var},
 };
 
diff --git a/src/clauses.rs b/src/clauses.rs
index 11900a8..6748351 100644
--- a/src/clauses.rs
+++ b/src/clauses.rs
@@ -1,6 +1,6 @@
 use nom::{
     branch::alt,
-    bytes::complete::{escaped, tag, tag_no_case, take_while1, take_while_m_n},
+    bytes::complete::{escaped, tag, take_while1, take_while_m_n},
     character::is_digit,
     combinator::map_res,
     combinator::{map, opt},
@@ -18,7 +18,7 @@ use crate::{
     group::{group_clause, GroupClause},
     order::{order_condition, OrderCondition},
     quads::{quads_pattern, Quads},
-    terminals::{default_or_named_iri, preceded_tag1, sp, sp1, sp_list1},
+    terminals::{default_or_named_iri, preceded_tag1, sp, sp1, sp_list1, tag_no_case},
 };
 
 #[derive(Debug, Clone, Eq, PartialEq)]
diff --git a/src/data.rs b/src/data.rs
index 24fc86f..cb4dcd0 100644
--- a/src/data.rs
+++ b/src/data.rs
@@ -1,6 +1,6 @@
 use nom::{
     branch::alt,
-    bytes::complete::{tag, tag_no_case},
+    bytes::complete::tag,
     character::complete::char,
     combinator::map,
     multi::{many0, many1, separated_list, separated_nonempty_list},
@@ -12,7 +12,10 @@ use crate::{
     expression::{DefaultOrNamedIri, Iri},
     literal::{boolean, numeric_literal, NumericLiteral},
     node::RdfLiteral,
-    terminals::{bracketted, default_or_named_iri, iri, preceded_tag1, rdf_literal, sp, sp_enc},
+    terminals::{
+        bracketted, default_or_named_iri, iri, preceded_tag1, rdf_literal, sp, sp_enc,
+        tag_no_case,
+    },
     var::{var, Var},
 };
 
diff --git a/src/expression/iri.rs b/src/expression/iri.rs
index 62c949e..5f1e65f 100644
--- a/src/expression/iri.rs
+++ b/src/expression/iri.rs
@@ -1,7 +1,7 @@
 use crate::expression::Iri;
 use crate::terminals::iri;
 use nom::branch::alt;
-use nom::bytes::complete::tag_no_case;
+use crate::terminals::tag_no_case;
 use nom::character::complete::char;
 use nom::combinator::map;
 use nom::sequence::preceded;
diff --git a/src/expression/mod.rs b/src/expression/mod.rs
index 867e59d..ea327f1 100644
--- a/src/expression/mod.rs
+++ b/src/expression/mod.rs
@@ -1,6 +1,6 @@
 use nom::{
     branch::alt,
-    bytes::complete::{tag, tag_no_case},
+    bytes::complete::tag,
     character::complete::char,
     combinator::{map, opt},
     multi::separated_nonempty_list,
@@ -13,7 +13,10 @@ use crate::{
     call::{built_in_call, function_call, BuiltInCall, FunctionCall},
     literal::{boolean, distinct, numeric_literal, NumericLiteral},
     node::RdfLiteral,
-    terminals::{bracketted, iri_or_fun, nil, preceded_tag1, rdf_literal, sp1, sp_enc, sp_enc1},
+    terminals::{
+        bracketted, iri_or_fun, nil, preceded_tag1, rdf_literal, sp1, sp_enc, sp_enc1,
+        tag_no_case,
+    },
 };
 
 use crate::var::{var, Var};
diff --git a/src/graph.rs b/src/graph.rs
index 86c2919..8f1cd10 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -1,6 +1,6 @@
 use nom::{
     branch::alt,
-    bytes::complete::{escaped, tag, tag_no_case, take_while1, take_while_m_n},
+    bytes::complete::{escaped, tag, take_while1, take_while_m_n},
     character::is_digit,
     combinator::map_res,
     combinator::{map, opt},
@@ -23,7 +23,7 @@ use crate::{
     terminals::sp_sep1,
     terminals::{
         anon, default_or_named_iri, iri, nil, pn_chars_tail, pn_chars_u_one, pn_local,
-        preceded_tag1, rdf_literal, sp, sp1, sp_enc, sp_enc1, sp_list0, sp_sep,
+        preceded_tag1, rdf_literal, sp, sp1, sp_enc, sp_enc1, sp_list0, sp_sep, tag_no_case,
     },
     triple::{property_list, property_list_not_empty, triples_block, triples_node, TriplesBlock},
     var::{var_or_iri, var_or_term, Var, VarOrIri, VarOrTerm, Verb},
diff --git a/src/group.rs b/src/group.rs
index b5a8426..a72cffb 100644
--- a/src/group.rs
+++ b/src/group.rs
@@ -2,7 +2,7 @@ use nom::combinator::map;
 use nom::sequence::delimited;
 use nom::{
     branch::alt,
-    bytes::complete::{escaped, tag, tag_no_case, take_while1, take_while_m_n},
+    bytes::complete::{escaped, tag, take_while1, take_while_m_n},
     character::is_digit,
     combinator::map_res,
     sequence::{preceded, terminated},
@@ -15,7 +15,7 @@ use crate::expression::{
     expression_as_var_opt, DefaultOrNamedIri, ExpressionAsVar, ExpressionAsVarOpt, Iri,
 };
 
-use crate::terminals::{sp1, sp_list1};
+use crate::terminals::{sp1, sp_list1, tag_no_case};
 use crate::var::{var, Var};
 
 #[derive(Debug, Clone, Eq, PartialEq)]
diff --git a/src/literal.rs b/src/literal.rs
index 418fb9c..01eedb9 100644
--- a/src/literal.rs
+++ b/src/literal.rs
@@ -3,7 +3,7 @@ use nom::error::{make_error, ErrorKind};
 use nom::sequence::{pair, tuple};
 use nom::{
     branch::alt,
-    bytes::complete::{escaped, tag, tag_no_case, take_while1, take_while_m_n},
+    bytes::complete::{escaped, tag, take_while1, take_while_m_n},
     character::{
         complete::{char, digit1},
         is_digit,
@@ -15,7 +15,7 @@ use nom::{
 };
 
 use crate::arithmetic::Sign;
-use crate::terminals::{language_tag, rdf_literal, string_literal};
+use crate::terminals::{language_tag, rdf_literal, string_literal, tag_no_case};
 
 #[derive(Debug, Clone, Eq, PartialEq)]
 pub enum StringLiteral {
diff --git a/src/operations.rs b/src/operations.rs
index abc5049..0ae0cab 100644
--- a/src/operations.rs
+++ b/src/operations.rs
@@ -1,6 +1,6 @@
 use nom::{
     branch::alt,
-    bytes::complete::{escaped, tag, tag_no_case, take_while1, take_while_m_n},
+    bytes::complete::{escaped, tag, take_while1, take_while_m_n},
     character::is_digit,
     combinator::map_res,
     combinator::{map, opt},
@@ -18,7 +18,7 @@ use crate::{
     },
     literal::silent,
     quads::{quad_data, Quads},
-    terminals::{iri, preceded_tag1, sp, sp1, sp_enc, sp_enc1, sp_list0},
+    terminals::{iri, preceded_tag1, sp, sp1, sp_enc, sp_enc1, sp_list0, tag_no_case},
 };
 
 #[derive(Debug, Clone, Eq, PartialEq, new)]
diff --git a/src/order.rs b/src/order.rs
index bed59ae..20fba34 100644
--- a/src/order.rs
+++ b/src/order.rs
@@ -1,5 +1,5 @@
 use nom::branch::alt;
-use nom::bytes::complete::tag_no_case;
+use crate::terminals::tag_no_case;
 use nom::combinator::map;
 use nom::sequence::separated_pair;
 use nom::IResult;
diff --git a/src/quads.rs b/src/quads.rs
index cf30fff..ad96970 100644
--- a/src/quads.rs
+++ b/src/quads.rs
@@ -1,6 +1,6 @@
 use nom::{
     branch::alt,
-    bytes::complete::{escaped, tag, tag_no_case, take_while1, take_while_m_n},
+    bytes::complete::{escaped, tag, take_while1, take_while_m_n},
     character::complete::char,
     character::is_digit,
     combinator::map_res,
@@ -16,7 +16,7 @@ use crate::{
     graph::graph_node,
     node::{Collection, ObjectList, PropertyList, TriplesNode},
     path::{triples_same_subject_path, TriplesSameSubjectPath},
-    terminals::{bracketted, sp, sp_enc, sp_sep, sp_sep1},
+    terminals::{bracketted, sp, sp_enc, sp_sep, sp_sep1, tag_no_case},
     triple::{triples_template, TriplesTemplate},
     var::{var_or_iri, var_or_term, VarOrIri, VarOrTerm, VerbList},
 };
diff --git a/src/query/ask.rs b/src/query/ask.rs
index 51aaf36..8bc0972 100644
--- a/src/query/ask.rs
+++ b/src/query/ask.rs
@@ -2,7 +2,7 @@ use crate::clauses::{solution_modifier, where_clause, SolutionModifier};
 use crate::data::{data_set_clause, DataSetClause};
 use crate::graph::GroupGraphPattern;
 use crate::terminals::{sp, sp1, sp_list0};
-use nom::bytes::complete::tag_no_case;
+use crate::terminals::tag_no_case;
 use nom::combinator::map;
 use nom::sequence::{terminated, tuple};
 use nom::IResult;
diff --git a/src/query/construct.rs b/src/query/construct.rs
index a990ef9..b320989 100644
--- a/src/query/construct.rs
+++ b/src/query/construct.rs
@@ -2,14 +2,13 @@ use crate::{
     clauses::{solution_modifier, where_clause, SolutionModifier},
     data::{data_set_clause, DataSetClause},
     graph::GroupGraphPattern,
-    terminals::{preceded_tag1, sp, sp1, sp_enc, sp_enc1, sp_list0},
+    terminals::{preceded_tag1, sp, sp1, sp_enc, sp_enc1, sp_list0, tag_no_case},
     triple::TriplesSameSubject,
     triple::{triples_same_subject, triples_template, TriplesTemplate},
     var::{var_or_iri, VarOrIri},
 };
 use nom::{
     branch::alt,
-    bytes::complete::tag_no_case,
     character::complete::char,
     combinator::{map, opt},
     multi::many1,
diff --git a/src/query/describe.rs b/src/query/describe.rs
index 90d9c59..b22fd9e 100644
--- a/src/query/describe.rs
+++ b/src/query/describe.rs
@@ -1,11 +1,10 @@
 use crate::clauses::{solution_modifier, where_clause, SolutionModifier};
 use crate::data::{data_set_clause, DataSetClause};
 use crate::graph::GroupGraphPattern;
-use crate::terminals::{sp, sp_enc1, sp_list0};
+use crate::terminals::{sp, sp_enc1, sp_list0, tag_no_case};
 use crate::var::{var_or_iri, var_or_iris_or_all, VarOrIri, VarOrIrisOrAll};
 use nom::{
     branch::alt,
-    bytes::complete::tag_no_case,
     character::complete::char,
     combinator::{map, opt},
     sequence::{terminated, tuple},
diff --git a/src/query/select.rs b/src/query/select.rs
index 7589bfa..f952e28 100644
--- a/src/query/select.rs
+++ b/src/query/select.rs
@@ -1,5 +1,5 @@
 use nom::branch::alt;
-use nom::bytes::complete::{escaped, tag, tag_no_case, take_while1, take_while_m_n};
+use nom::bytes::complete::{escaped, tag, take_while1, take_while_m_n};
 use nom::character::complete::{anychar, char, digit1, none_of, one_of};
 use nom::combinator::{complete, cond, cut, map, map_res, not, opt, peek};
 use nom::multi::many1;
@@ -13,7 +13,7 @@ use crate::expression::{
 };
 use crate::graph::GroupGraphPattern;
 
-use crate::terminals::{sp, sp1, sp_enc, sp_list0};
+use crate::terminals::{sp, sp1, sp_enc, sp_list0, tag_no_case};
 use crate::var::{var, var_or_expression_as_var, VarOrExpressionAsVar};
 
 #[derive(Debug, Clone, Eq, PartialEq)]
diff --git a/src/terminals.rs b/src/terminals.rs
index 6a4d310..398462d 100644
--- a/src/terminals.rs
+++ b/src/terminals.rs
@@ -1,7 +1,7 @@
 use nom::{
     branch::alt,
     bytes::complete::take_while,
-    bytes::complete::{escaped, tag, tag_no_case, take_while1, take_while_m_n},
+    bytes::complete::{escaped, tag, take_while1, take_while_m_n},
     character::complete::{anychar, char, digit1, none_of, one_of},
     character::{
         complete::{alpha1, alphanumeric1},
@@ -29,6 +29,17 @@ use crate::{
     var::{Var, VarOrIri, VarOrTerm, VerbList},
 };
 
+/// Recognizes `tag` in any mix of ASCII letter cases.
+///
+/// nom's `tag_no_case` also matches letters outside ASCII that fold to the tag's, such as the
+/// Kelvin sign, and then splits the input by the length of the tag, inside the letter.
+pub(crate) fn tag_no_case<'a>(tag: &'a str) -> impl Fn(&'a str) -> IResult<&'a str, &'a str> {
+    move |i| match i.get(..tag.len()) {
+        Some(head) if head.eq_ignore_ascii_case(tag) => Ok((&i[tag.len()..], head)),
+        _ => Err(Err::Error((i, ErrorKind::Tag))),
+    }
+}
+
 #[inline]
 pub(crate) fn preceded_bracketted<'a, O1, F>(
     tag: &'a str,
diff --git a/src/var.rs b/src/var.rs
index a797c00..14cc40e 100644
--- a/src/var.rs
+++ b/src/var.rs
@@ -1,10 +1,10 @@
 use crate::expression::{expression_as_var, ExpressionAsVar, Iri};
 use crate::graph::{graph_term, GraphTerm};
 use crate::node::ObjectList;
-use crate::terminals::{iri, is_pn_chars_u, sp, sp_list1};
+use crate::terminals::{iri, is_pn_chars_u, sp, sp_list1, tag_no_case};
 use nom::branch::alt;
 use nom::bytes::complete::take_while;
-use nom::bytes::complete::{escaped, tag, tag_no_case, take_while1, take_while_m_n};
+use nom::bytes::complete::{escaped, tag, take_while1, take_while_m_n};
 use nom::character::complete::{anychar, char, digit1, none_of, one_of};
 use nom::combinator::recognize;
 use nom::combinator::{complete, cond, cut, map, map_res, not, opt, peek};
-- 
2.43.0

