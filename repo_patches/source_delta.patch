From ef72a9a302ccf007134d59d1a61694a75eaf56a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:11 +0000
Subject: [PATCH 001/168] fix: hash IN predicates independently of the order of
 their values, as they are compared

---
 postbound/qal/_qal.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 2299ebf..960e43b 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -2859,7 +2859,9 @@ class InPredicate(BasePredicate):
             raise ValueError("No empty value allowed")
         self._column = column
         self._values = tuple(values)
-        hash_val = hash((LogicalOperator.In, self._column, self._values))
+        hash_val = hash(
+            (LogicalOperator.In, self._column, frozenset(self._values))
+        )
         super().__init__(LogicalOperator.In, hash_val=hash_val)
 
     __slots__ = ("_column", "_values")
-- 
2.43.0


From 848100316f47fe5d830ec039a9dbd3a3a12b8f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:11 +0000
Subject: [PATCH 002/168] fix: simple filters and joins hash like the
 predicates that they are equal to

---
 postbound/qal/_qal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 960e43b..9be5296 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -3849,7 +3849,7 @@ class SimpleFilter(AbstractPredicate):
         self._value = value
         self._predicate = predicate
 
-        hash_val = hash((column, operation, value))
+        hash_val = hash(predicate)
         super().__init__(hash_val)
 
     __slots__ = ("_column", "_operation", "_value", "_predicate")
@@ -4082,7 +4082,7 @@ class SimpleJoin(AbstractPredicate):
         self._rhs = rhs
         self._predicate = predicate
 
-        hash_val = hash((lhs, rhs))
+        hash_val = hash(predicate)
         super().__init__(hash_val)
 
     __slots__ = ("_lhs", "_rhs", "_predicate")
-- 
2.43.0


From a285c0560d5f3083d5531c32ad3bb65ae101f230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:11 +0000
Subject: [PATCH 003/168] fix: hash the normalised target format of EXPLAIN
 clauses

---
 postbound/qal/_qal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 9be5296..46586a7 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -5237,7 +5237,7 @@ class Explain(BaseClause):
         self._analyze = analyze
         self._target_format = target_format if target_format != "" else None
 
-        hash_val = hash((analyze, target_format))
+        hash_val = hash((self._analyze, self._target_format))
         super().__init__(hash_val)
 
     __slots__ = ("_analyze", "_target_format")
-- 
2.43.0


From 3a9b4574405b213f5d24226088b23567a045a2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:11 +0000
Subject: [PATCH 004/168] fix: compare the fetch direction of LIMIT clauses

---
 postbound/qal/_qal.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 46586a7..c315589 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -7641,6 +7641,7 @@ class Limit(BaseClause):
             isinstance(other, type(self))
             and self.limit == other.limit
             and self.offset == other.offset
+            and self.fetch_direction == other.fetch_direction
         )
 
     def __str__(self) -> str:
-- 
2.43.0


From aaea883d198554aa75d022e38e5f4ee2662dcd22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:11 +0000
Subject: [PATCH 005/168] fix: compare both input queries of EXCEPT and
 INTERSECT clauses

---
 postbound/qal/_qal.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index c315589..4abfc57 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -7858,7 +7858,8 @@ class ExceptClause(BaseClause):
     def __eq__(self, other: object) -> bool:
         return (
             isinstance(other, type(self))
-            and self._partner_query == other._partner_query
+            and self._lhs == other._lhs
+            and self._rhs == other._rhs
         )
 
     def __str__(self) -> str:
@@ -7953,7 +7954,8 @@ class IntersectClause(BaseClause):
     def __eq__(self, other: object) -> bool:
         return (
             isinstance(other, type(self))
-            and self._partner_query == other._partner_query
+            and self._lhs == other._lhs
+            and self._rhs == other._rhs
         )
 
     def __str__(self) -> str:
-- 
2.43.0


From df89432393230240a48e754d1e24c91a882b1e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:11 +0000
Subject: [PATCH 006/168] fix: lateral subqueries differ from plain ones

---
 postbound/qal/_qal.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 4abfc57..c05b0e4 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -6419,6 +6419,7 @@ class SubqueryTableSource(TableSource):
             isinstance(other, type(self))
             and self._subquery_expression == other._subquery_expression
             and self._target_name == other._target_name
+            and self._lateral == other._lateral
         )
 
     def __repr__(self) -> str:
-- 
2.43.0


From 97d9192d18b443d844ecd0edc86159c3040f50b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:11 +0000
Subject: [PATCH 007/168] fix: compare the subquery input of relation nodes

---
 postbound/relalg.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/postbound/relalg.py b/postbound/relalg.py
index eda6b5a..510e0ef 100644
--- a/postbound/relalg.py
+++ b/postbound/relalg.py
@@ -1127,7 +1127,11 @@ class Relation(RelNode):
     __hash__ = RelNode.__hash__
 
     def __eq__(self, other: object) -> bool:
-        return isinstance(other, type(self)) and self._table == other._table
+        return (
+            isinstance(other, type(self))
+            and self._table == other._table
+            and self._subquery_input == other._subquery_input
+        )
 
     def __repr__(self) -> str:
         return self._table.identifier()
-- 
2.43.0


From 4c4c0aa721dca8f026bc990df6ae66ad496568b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:12 +0000
Subject: [PATCH 008/168] fix: math expressions report the tables and columns
 of all their arguments

---
 postbound/qal/_qal.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index c05b0e4..f3742fa 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -601,7 +601,7 @@ class MathExpression(SqlExpression):
 
     def tables(self) -> set[TableReference]:
         all_tables = set(self.first_arg.tables())
-        if isinstance(self.second_arg, list):
+        if isinstance(self.second_arg, Sequence):
             all_tables |= util.set_union(expr.tables() for expr in self.second_arg)
         elif isinstance(self.second_arg, SqlExpression):
             all_tables |= self.second_arg.tables()
@@ -609,7 +609,7 @@ class MathExpression(SqlExpression):
 
     def columns(self) -> set[ColumnReference]:
         all_columns = set(self.first_arg.columns())
-        if isinstance(self.second_arg, list):
+        if isinstance(self.second_arg, Sequence):
             for expression in self.second_arg:
                 all_columns |= expression.columns()
         elif isinstance(self.second_arg, SqlExpression):
@@ -684,7 +684,7 @@ class MathExpression(SqlExpression):
         operator_str = self.operator.value
         if not self.second_arg:
             return f"{operator_str}{self.first_arg}"
-        if isinstance(self.second_arg, tuple):
+        if isinstance(self.second_arg, Sequence):
             all_args = [self.first_arg] + list(self.second_arg)
             return operator_str.join(f"({arg})" for arg in all_args)
         first_str = (
-- 
2.43.0


From 9a4b2f1dfbe40585151af3be1bd69b4669e0720d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:20 +0000
Subject: [PATCH 009/168] fix: CASE expressions report their result, selector
 and ELSE expressions

---
 postbound/qal/_qal.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index f3742fa..7e74054 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -1539,17 +1539,12 @@ class CaseExpression(SqlExpression):
 
     def iterchildren(self) -> Iterable[SqlExpression]:
         case_children = util.flatten(
-            list(pred.iterchildren()) + list(expr.iterchildren())
-            for pred, expr in self.cases
+            list(pred.iterchildren()) + [expr] for pred, expr in self.cases
         )
         expression_children = (
-            list(self.simple_expression.iterchildren())
-            if self.simple_expression
-            else []
-        )
-        else_children = (
-            list(self.else_expression.iterchildren()) if self.else_expression else []
+            [self.simple_expression] if self.simple_expression else []
         )
+        else_children = [self.else_expression] if self.else_expression else []
         return case_children + expression_children + else_children
 
     def accept_visitor(
-- 
2.43.0


From 06d3d9b907b4c3ea96bfe064a0c695572bbf20cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:20 +0000
Subject: [PATCH 010/168] fix: window expressions report their PARTITION BY
 expressions

---
 postbound/qal/_qal.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 7e74054..771d28b 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -1400,9 +1400,7 @@ class WindowExpression(SqlExpression):
 
     def iterchildren(self) -> Iterable[SqlExpression]:
         function_children = self.window_function.iterchildren()
-        partitioning_children = util.flatten(
-            expr.iterchildren() for expr in self.partitioning
-        )
+        partitioning_children = list(self.partitioning)
         ordering_children = self.ordering.iterexpressions() if self.ordering else []
         filter_children = (
             self.filter_condition.iterexpressions() if self.filter_condition else []
-- 
2.43.0


From 191eba94e60268be1b1a022f1e026bfed8fddbd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:21 +0000
Subject: [PATCH 011/168] fix: the children of a function call include its
 FILTER condition

---
 postbound/qal/_qal.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 771d28b..aa71231 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -997,7 +997,10 @@ class FunctionExpression(SqlExpression):
         return all_columns
 
     def iterchildren(self) -> Iterable[SqlExpression]:
-        return list(self.arguments)
+        filter_children = (
+            list(self._filter_expr.iterchildren()) if self._filter_expr else []
+        )
+        return list(self.arguments) + filter_children
 
     def accept_visitor(
         self, visitor: SqlExpressionVisitor[VisitorResult], *args, **kwargs
-- 
2.43.0


From f9edd24f59e286fe32173536e5ca145e73284029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:21 +0000
Subject: [PATCH 012/168] fix: SELECT clauses report the expressions of
 DISTINCT ON

---
 postbound/qal/_qal.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index aa71231..0b8f3ee 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -6041,16 +6041,25 @@ class Select(BaseClause):
         return [target for target in self.targets if target.is_star()]
 
     def columns(self) -> set[ColumnReference]:
-        return util.set_union(target.columns() for target in self.targets)
+        return util.set_union(
+            target.columns() for target in self.targets
+        ) | util.set_union(expr.columns() for expr in self._distinct_cols)
 
     def itercolumns(self) -> Iterable[ColumnReference]:
-        return util.flatten(target.itercolumns() for target in self.targets)
+        return util.flatten(
+            [expr.itercolumns() for expr in self._distinct_cols]
+            + [target.itercolumns() for target in self.targets]
+        )
 
     def tables(self) -> set[TableReference]:
-        return util.set_union(target.tables() for target in self.targets)
+        return util.set_union(
+            target.tables() for target in self.targets
+        ) | util.set_union(expr.tables() for expr in self._distinct_cols)
 
     def iterexpressions(self) -> Iterable[SqlExpression]:
-        return [target.expression for target in self.targets]
+        return list(self._distinct_cols) + [
+            target.expression for target in self.targets
+        ]
 
     def output_names(self) -> dict[str, ColumnReference]:
         """Output names map the alias of each column to the actual column.
-- 
2.43.0


From 4bd2f95e093ae47841eaf821a62130bef630d7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:21 +0000
Subject: [PATCH 013/168] fix: anonymous function table sources report the
 tables of their function

---
 postbound/qal/_qal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 0b8f3ee..337090d 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -6644,7 +6644,7 @@ class FunctionTableSource(TableSource):
         return self._alias.identifier() if self._alias else ""
 
     def tables(self) -> set[TableReference]:
-        return self._function.tables() | {self._alias} if self._alias else set()
+        return self._function.tables() | ({self._alias} if self._alias else set())
 
     def columns(self) -> set[ColumnReference]:
         return self._function.columns()
-- 
2.43.0


From 0abe02351becef5a8aa35839c6cfcba0bdbfcffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:21 +0000
Subject: [PATCH 014/168] fix: explicit joins report the tables of their join
 condition

---
 postbound/qal/_qal.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 337090d..796afe1 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -6865,7 +6865,10 @@ class JoinTableSource(TableSource):
                 raise TypeError("Unknown table source type: " + str(type(self._left)))
 
     def tables(self) -> set[TableReference]:
-        return self._left.tables() | self._right.tables()
+        condition_tables = (
+            self._join_condition.tables() if self._join_condition else set()
+        )
+        return self._left.tables() | self._right.tables() | condition_tables
 
     def columns(self) -> set[ColumnReference]:
         condition_columns = (
-- 
2.43.0


From ea000b4c4da1f658692041452571f44bc1af7136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:21 +0000
Subject: [PATCH 015/168] fix: set queries report the tables and columns of all
 their clauses

---
 postbound/qal/_qal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 796afe1..1c5ccc6 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -9705,7 +9705,7 @@ class SetQuery:
         set[TableReference]
             All tables that are referenced in the query.
         """
-        return self._lhs.tables() | self._rhs.tables()
+        return util.set_union(clause.tables() for clause in self.clauses())
 
     def columns(self) -> set[ColumnReference]:
         """Provides all columns that are referenced at any point in the query.
@@ -9719,7 +9719,7 @@ class SetQuery:
         set[ColumnReference]
             All columns that are referenced in the query.
         """
-        return self._lhs.columns() | self._rhs.columns()
+        return util.set_union(clause.columns() for clause in self.clauses())
 
     def output_columns(self) -> Sequence[ColumnReference]:
         """Provides the columns that form the result relation of this query.
-- 
2.43.0


From fa9b9e5a0416f11ce2a422d257d5d957422dbb7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:30 +0000
Subject: [PATCH 016/168] fix: CASE expressions report the comparison values of
 simple cases

---
 postbound/qal/_qal.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 1c5ccc6..bd62fb7 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -1540,7 +1540,9 @@ class CaseExpression(SqlExpression):
 
     def iterchildren(self) -> Iterable[SqlExpression]:
         case_children = util.flatten(
-            list(pred.iterchildren()) + [expr] for pred, expr in self.cases
+            (list(pred.iterchildren()) if isinstance(pred, AbstractPredicate) else [pred])
+            + [expr]
+            for pred, expr in self.cases
         )
         expression_children = (
             [self.simple_expression] if self.simple_expression else []
-- 
2.43.0


From 11dd565b75c96e42df5a0f774cd62309d8afdf83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:13 +0000
Subject: [PATCH 017/168] fix: column and window expressions, EXPLAIN and ORDER
 BY clauses pass additional arguments to visitors

---
 postbound/qal/_qal.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index bd62fb7..b8f2759 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -756,7 +756,7 @@ class ColumnExpression(SqlExpression):
     def accept_visitor(
         self, visitor: SqlExpressionVisitor[VisitorResult], *args, **kwargs
     ) -> VisitorResult:
-        return visitor.visit_column_expr(self)
+        return visitor.visit_column_expr(self, *args, **kwargs)
 
     __hash__ = SqlExpression.__hash__
 
@@ -1420,7 +1420,7 @@ class WindowExpression(SqlExpression):
     def accept_visitor(
         self, visitor: SqlExpressionVisitor[VisitorResult], *args, **kwargs
     ) -> VisitorResult:
-        return visitor.visit_window_expr(self)
+        return visitor.visit_window_expr(self, *args, **kwargs)
 
     __hash__ = SqlExpression.__hash__
 
@@ -5278,7 +5278,7 @@ class Explain(BaseClause):
     def accept_visitor(
         self, visitor: ClauseVisitor[VisitorResult], *args, **kwargs
     ) -> VisitorResult:
-        return visitor.visit_explain_clause(self)
+        return visitor.visit_explain_clause(self, *args, **kwargs)
 
     __hash__ = BaseClause.__hash__
 
@@ -7539,7 +7539,7 @@ class OrderBy(BaseClause):
     def accept_visitor(
         self, visitor: ClauseVisitor[VisitorResult], *args, **kwargs
     ) -> VisitorResult:
-        return visitor.visit_orderby_clause(self)
+        return visitor.visit_orderby_clause(self, *args, **kwargs)
 
     def __len__(self) -> int:
         return len(self._expressions)
-- 
2.43.0


From 698df0e990bc21919dc98dbcfadc68bad21f38e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:13 +0000
Subject: [PATCH 018/168] fix: set operation nodes hand themselves to visitors

---
 postbound/relalg.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/postbound/relalg.py b/postbound/relalg.py
index 510e0ef..d6f3f4f 100644
--- a/postbound/relalg.py
+++ b/postbound/relalg.py
@@ -725,7 +725,7 @@ class Union(RelNode):
         return [self._left_input, self._right_input]
 
     def accept_visitor(self, visitor: RelNodeVisitor[VisitorResult]) -> VisitorResult:
-        return visitor.visit_union(visitor)
+        return visitor.visit_union(self)
 
     def mutate(
         self,
@@ -836,7 +836,7 @@ class Intersection(RelNode):
         return [self._left_input, self._right_input]
 
     def accept_visitor(self, visitor: RelNodeVisitor[VisitorResult]) -> VisitorResult:
-        return visitor.visit_intersection(visitor)
+        return visitor.visit_intersection(self)
 
     def mutate(
         self,
@@ -948,7 +948,7 @@ class Difference(RelNode):
         return [self._left_input, self._right_input]
 
     def accept_visitor(self, visitor: RelNodeVisitor[VisitorResult]) -> VisitorResult:
-        return visitor.visit_difference(visitor)
+        return visitor.visit_difference(self)
 
     def mutate(
         self,
-- 
2.43.0


From 815aa6a8ae716695ba5eeb961cc28cf17ea0183c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:52 +0000
Subject: [PATCH 019/168] fix: MySQL casts keep the parameters of their type

---
 postbound/mysql.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/postbound/mysql.py b/postbound/mysql.py
index acba9c2..d622c5a 100644
--- a/postbound/mysql.py
+++ b/postbound/mysql.py
@@ -490,11 +490,18 @@ class _MysqlCastExpression(CastExpression):
                 "MySQL does not support array types in CAST expressions. Ignoring array type."
             )
         super().__init__(
-            original_expression.casted_expression, original_expression.target_type
+            original_expression.casted_expression,
+            original_expression.target_type,
+            type_params=original_expression.type_params,
         )
 
     def __str__(self) -> str:
-        return f"CAST({self.casted_expression} AS {self.target_type})"
+        type_args = (
+            f"({', '.join(str(arg) for arg in self.type_params)})"
+            if self.type_params
+            else ""
+        )
+        return f"CAST({self.casted_expression} AS {self.target_type}{type_args})"
 
 
 def _replace_static_vals(e: SqlExpression) -> SqlExpression:
-- 
2.43.0


From 10bf827aabf1d27fdf2062f25585a06d83901ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:52 +0000
Subject: [PATCH 020/168] fix: Postgres LIMIT clauses keep limits and offsets
 of zero

---
 postbound/postgres.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/postbound/postgres.py b/postbound/postgres.py
index 5e3c750..5b7b8b3 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -2180,11 +2180,11 @@ class PostgresLimitClause(Limit):
         if self.fetch_direction != "first":
             return super().__str__()
 
-        if self.limit and self.offset:
+        if self.limit is not None and self.offset is not None:
             return f"LIMIT {self.limit} OFFSET {self.offset}"
-        elif self.limit:
+        elif self.limit is not None:
             return f"LIMIT {self.limit}"
-        elif self.offset:
+        elif self.offset is not None:
             return f"OFFSET {self.offset}"
         else:
             return ""
-- 
2.43.0


From df40f028e68cf6b7e24772cae12088e82544fa96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:44 +0000
Subject: [PATCH 021/168] fix: rename columns in set queries

---
 postbound/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/transform.py b/postbound/transform.py
index 98d31c7..c9bb255 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -1368,7 +1368,7 @@ def rename_columns_in_query[T: SelectStatement](
         return SetQuery(
             renamed_left,
             renamed_right,
-            query.set_operation,
+            set_operation=query.set_operation,
             cte_clause=renamed_cte,
             orderby_clause=renamed_orderby,
             limit_clause=query.limit_clause,
-- 
2.43.0


From 03cb6ccd1cac158f2bda4eb0e7cc51e0adc5a98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:25 +0000
Subject: [PATCH 022/168] fix: rename columns in array accesses

---
 postbound/transform.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/postbound/transform.py b/postbound/transform.py
index c9bb255..00013aa 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -1516,9 +1516,9 @@ def rename_columns_in_expression(
         )
         return ArrayAccessExpression(
             renamed_array,
-            index=renamed_idx,
-            lower_index=renamed_lower,
-            upper_index=renamed_upper,
+            idx=renamed_idx,
+            lower_idx=renamed_lower,
+            upper_idx=renamed_upper,
         )
     elif isinstance(expression, FunctionExpression):
         renamed_arguments = [
-- 
2.43.0


From 951f1846407e2cf30cd4629df6680c972e0f0d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:25 +0000
Subject: [PATCH 023/168] fix: rename columns in math expressions with several
 operands

---
 postbound/transform.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/postbound/transform.py b/postbound/transform.py
index 00013aa..ca68b45 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -1487,9 +1487,17 @@ def rename_columns_in_expression(
         renamed_first_arg = rename_columns_in_expression(
             expression.first_arg, available_renamings
         )
-        renamed_second_arg = rename_columns_in_expression(
-            expression.second_arg, available_renamings
-        )
+        if expression.second_arg is None or isinstance(
+            expression.second_arg, SqlExpression
+        ):
+            renamed_second_arg = rename_columns_in_expression(
+                expression.second_arg, available_renamings
+            )
+        else:
+            renamed_second_arg = [
+                rename_columns_in_expression(arg, available_renamings)
+                for arg in expression.second_arg
+            ]
         return MathExpression(
             expression.operator, renamed_first_arg, renamed_second_arg
         )
-- 
2.43.0


From 2b3a4448579c1c7ba771ff6edbd3993eb2fa6deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:25 +0000
Subject: [PATCH 024/168] fix: renaming columns keeps the filters of
 aggregations

---
 postbound/transform.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/postbound/transform.py b/postbound/transform.py
index ca68b45..cff28bd 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -1533,8 +1533,14 @@ def rename_columns_in_expression(
             rename_columns_in_expression(arg, available_renamings)
             for arg in expression.arguments
         ]
+        renamed_filter = rename_columns_in_predicate(
+            expression.filter_where, available_renamings
+        )
         return FunctionExpression(
-            expression.function, renamed_arguments, distinct=expression.distinct
+            expression.function,
+            renamed_arguments,
+            distinct=expression.distinct,
+            filter_where=renamed_filter,
         )
     elif isinstance(expression, SubqueryExpression):
         return SubqueryExpression(
-- 
2.43.0


From 819fb76040429cf9da06abe53e48f137b894afd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:25 +0000
Subject: [PATCH 025/168] fix: rename columns in simple CASE expressions

---
 postbound/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/transform.py b/postbound/transform.py
index cff28bd..ece1986 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -1575,7 +1575,7 @@ def rename_columns_in_expression(
     elif isinstance(expression, CaseExpression):
         renamed_cases = [
             (
-                rename_columns_in_predicate(condition, available_renamings),
+                rename_columns_in_expression(condition, available_renamings),
                 rename_columns_in_expression(result, available_renamings),
             )
             for condition, result in expression.cases
-- 
2.43.0


From 576c9ddf52fbb011cc71aec8eba07ded25f3a856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:25 +0000
Subject: [PATCH 026/168] fix: rename columns in simple filters and joins

---
 postbound/transform.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/postbound/transform.py b/postbound/transform.py
index ece1986..8ab57c8 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -70,6 +70,8 @@ from .qal import (
     Select,
     SelectStatement,
     SetQuery,
+    SimpleFilter,
+    SimpleJoin,
     SqlExpression,
     SqlExpressionVisitor,
     SqlQuery,
@@ -1703,6 +1705,8 @@ def rename_columns_in_predicate(
             ]
         )
         return CompoundPredicate(predicate.operation, renamed_children)
+    elif isinstance(predicate, (SimpleFilter, SimpleJoin)):
+        return rename_columns_in_predicate(predicate.unwrap(), available_renamings)
     else:
         raise ValueError("Unknown predicate type: " + str(predicate))
 
-- 
2.43.0


From 9a4e8a40943b37ed8c3f2371a408a39434a2f4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:25 +0000
Subject: [PATCH 027/168] fix: renaming columns keeps VALUES CTEs and applies
 all renamings to them

---
 postbound/transform.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/postbound/transform.py b/postbound/transform.py
index 8ab57c8..7f3882d 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -1851,6 +1851,7 @@ def rename_columns_in_clause(
                 continue
 
             if not any(col.belongs_to(cte.target_table) for col in available_renamings):
+                renamed_ctes.append(cte)
                 continue
 
             renamed_cte = cte
@@ -1864,7 +1865,7 @@ def rename_columns_in_clause(
 
                 # if we found a column that should be renamed, we need to replace the whole column specification
                 # this process might be repeated multiple times, if multiple appropriate renamings exist
-                current_col_spec = cte.cols
+                current_col_spec = renamed_cte.cols
                 new_col_spec = [
                     (col if col.name != current_col.name else target_col.name)
                     for col in current_col_spec
-- 
2.43.0


From 09bc4dda8f33558282a2ab75919c85de1ee66e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:25 +0000
Subject: [PATCH 028/168] fix: rename columns in DISTINCT ON specifications

---
 postbound/transform.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/postbound/transform.py b/postbound/transform.py
index 7f3882d..1e284ca 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -1888,7 +1888,13 @@ def rename_columns_in_clause(
             )
             for proj in clause.targets
         ]
-        return Select(renamed_targets, distinct=clause.distinct_specifier())
+        renamed_distinct = clause.distinct_specifier()
+        if clause.distinct_on:
+            renamed_distinct = [
+                rename_columns_in_expression(expr, available_renamings)
+                for expr in clause.distinct_on
+            ]
+        return Select(renamed_targets, distinct=renamed_distinct)
     elif isinstance(clause, ImplicitFromClause):
         return clause
     elif isinstance(clause, ExplicitFromClause):
-- 
2.43.0


From fdd293231b60263371cc3ea31b3df7d39779ad1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:31 +0000
Subject: [PATCH 029/168] fix: column renamings do not access the HAVING clause
 of set queries

---
 postbound/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/transform.py b/postbound/transform.py
index 1e284ca..e711f04 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -1359,7 +1359,6 @@ def rename_columns_in_query[T: SelectStatement](
         was added later on.
     """
     renamed_cte = rename_columns_in_clause(query.cte_clause, available_renamings)
-    renamed_having = rename_columns_in_clause(query.having_clause, available_renamings)
     renamed_orderby = rename_columns_in_clause(
         query.orderby_clause, available_renamings
     )
@@ -1384,6 +1383,7 @@ def rename_columns_in_query[T: SelectStatement](
     renamed_groupby = rename_columns_in_clause(
         query.groupby_clause, available_renamings
     )
+    renamed_having = rename_columns_in_clause(query.having_clause, available_renamings)
 
     if isinstance(query, ImplicitSqlQuery):
         return ImplicitSqlQuery(
-- 
2.43.0


From 5ba17a551827b4a67b51fc781e3ea226304c9e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:59 +0000
Subject: [PATCH 030/168] fix: replace expressions in simple filters and joins

---
 postbound/transform.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/postbound/transform.py b/postbound/transform.py
index e711f04..55e8930 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -1019,6 +1019,8 @@ def _replace_expression_in_predicate(
                 for child in predicate.children
             ]
         return CompoundPredicate(predicate.operation, renamed_children)
+    elif isinstance(predicate, (SimpleFilter, SimpleJoin)):
+        return _replace_expression_in_predicate(predicate.unwrap(), replacement)
     else:
         raise ValueError("Unknown predicate type: " + str(predicate))
 
-- 
2.43.0


From 9043340ecd8383e033602c2c82517a2d1255ef00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:59 +0000
Subject: [PATCH 031/168] fix: replace expressions in DISTINCT ON
 specifications

---
 postbound/transform.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/postbound/transform.py b/postbound/transform.py
index 55e8930..a8c078c 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -1163,7 +1163,10 @@ def _replace_expressions_in_clause(
             BaseProjection(replacement(proj.expression), proj.target_name)
             for proj in clause.targets
         ]
-        return Select(replaced_targets, distinct=clause.distinct_specifier())
+        replaced_distinct = clause.distinct_specifier()
+        if clause.distinct_on:
+            replaced_distinct = [replacement(expr) for expr in clause.distinct_on]
+        return Select(replaced_targets, distinct=replaced_distinct)
     elif isinstance(clause, ImplicitFromClause):
         return clause
     elif isinstance(clause, ExplicitFromClause):
-- 
2.43.0


From d88774fd954c9979d52a642d055073f33018be80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:59 +0000
Subject: [PATCH 032/168] fix: transformations handle VALUES sources without an
 alias

---
 postbound/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/transform.py b/postbound/transform.py
index a8c078c..44330cf 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -1091,7 +1091,7 @@ def _replace_expression_in_table_source(
             ]
             return ValuesTableSource(
                 replaced_values,
-                alias=table_source.table.identifier(),
+                alias=table_source.table,
                 columns=table_source.cols,
             )
         case FunctionTableSource():
-- 
2.43.0


From 8ea6d2e124359ff9122f659d0473aa7f27ce95af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:59 +0000
Subject: [PATCH 033/168] fix: rename tables in quantifier expressions

---
 postbound/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/transform.py b/postbound/transform.py
index 44330cf..7cc6853 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -2271,7 +2271,7 @@ class _TableReferenceRenamer(
         self, expr: QuantifierExpression, *args, **kwargs
     ) -> QuantifierExpression:
         renamed_child = expr.expression.accept_visitor(self)
-        return QuantifierExpression(expr.quantifier, quantifier=renamed_child)
+        return QuantifierExpression(renamed_child, quantifier=expr.quantifier)
 
     def visit_array_expr(
         self, expr: ArrayExpression, *args, **kwargs
-- 
2.43.0


From 6c67245a058978ef929514d37a80866f13fcd341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:29 +0000
Subject: [PATCH 034/168] fix: rename tables in array accesses

---
 postbound/transform.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/postbound/transform.py b/postbound/transform.py
index 7cc6853..1fd32cc 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -2283,7 +2283,7 @@ class _TableReferenceRenamer(
         self, expr: ArrayAccessExpression, *args, **kwargs
     ) -> ArrayAccessExpression:
         renamed_array = expr.array.accept_visitor(self)
-        renamed_idx = expr.lower_index.accept_visitor(self) if expr.index else None
+        renamed_idx = expr.index.accept_visitor(self) if expr.index else None
         renamed_lower = (
             expr.lower_index.accept_visitor(self) if expr.lower_index else None
         )
@@ -2293,8 +2293,8 @@ class _TableReferenceRenamer(
         return ArrayAccessExpression(
             renamed_array,
             idx=renamed_idx,
-            lower_index=renamed_lower,
-            upper_index=renamed_upper,
+            lower_idx=renamed_lower,
+            upper_idx=renamed_upper,
         )
 
     def visit_predicate_expr(
-- 
2.43.0


From 425ee3d53d52410bacd54cd78662c08814d5613c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:29 +0000
Subject: [PATCH 035/168] fix: renaming tables retains the ORDER BY clause

---
 postbound/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/transform.py b/postbound/transform.py
index 1fd32cc..c578abc 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -2082,7 +2082,7 @@ class _TableReferenceRenamer(
                 )
             )
 
-        return renamed_orderings
+        return OrderBy(renamed_orderings)
 
     def visit_limit_clause(self, clause: Limit, *args, **kwargs) -> Limit:
         return clause
-- 
2.43.0


From 2500cabd1869ce81e1163d0d03003ebf523288f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:29 +0000
Subject: [PATCH 036/168] fix: rename tables in the operands of set operations

---
 postbound/transform.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/postbound/transform.py b/postbound/transform.py
index c578abc..b398a85 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -2088,22 +2088,22 @@ class _TableReferenceRenamer(
         return clause
 
     def visit_union_clause(self, clause: UnionClause, *args, **kwargs) -> UnionClause:
-        renamed_lhs = clause.left_query.accept_visitor(self)
-        renamed_rhs = clause.right_query.accept_visitor(self)
+        renamed_lhs = build_query(clause.left_query.accept_visitor(self).values())
+        renamed_rhs = build_query(clause.right_query.accept_visitor(self).values())
         return UnionClause(renamed_lhs, renamed_rhs, union_all=clause.union_all)
 
     def visit_except_clause(
         self, clause: ExceptClause, *args, **kwargs
     ) -> ExceptClause:
-        renamed_lhs = clause.left_query.accept_visitor(self)
-        renamed_rhs = clause.right_query.accept_visitor(self)
+        renamed_lhs = build_query(clause.left_query.accept_visitor(self).values())
+        renamed_rhs = build_query(clause.right_query.accept_visitor(self).values())
         return ExceptClause(renamed_lhs, renamed_rhs)
 
     def visit_intersect_clause(
         self, clause: IntersectClause, *args, **kwargs
     ) -> IntersectClause:
-        renamed_lhs = clause.left_query.accept_visitor(self)
-        renamed_rhs = clause.right_query.accept_visitor(self)
+        renamed_lhs = build_query(clause.left_query.accept_visitor(self).values())
+        renamed_rhs = build_query(clause.right_query.accept_visitor(self).values())
         return IntersectClause(renamed_lhs, renamed_rhs)
 
     def visit_binary_predicate(
-- 
2.43.0


From 5f87ec374b84d2844abb641c6ad209889c30130c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:29 +0000
Subject: [PATCH 037/168] fix: renaming tables retains VALUES CTEs

---
 postbound/transform.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/postbound/transform.py b/postbound/transform.py
index b398a85..8b3782d 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -1994,6 +1994,17 @@ class _TableReferenceRenamer(
         ctes: list[WithQuery] = []
 
         for cte in clause.queries:
+            if isinstance(cte, ValuesWithQuery):
+                ctes.append(
+                    ValuesWithQuery(
+                        cte.rows,
+                        target_name=self._rename_table(cte.target_table),
+                        columns=cte.cols,
+                        materialized=cte.materialized,
+                    )
+                )
+                continue
+
             nested_renamings = cte.query.accept_visitor(self)
             nested_query = build_query(nested_renamings.values())
             target_table = self._rename_table(cte.target_table)
-- 
2.43.0


From f3a7074df5a803536b1ed97fa2e208e0e9ec4c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:29 +0000
Subject: [PATCH 038/168] fix: rename tables in DISTINCT ON specifications

---
 postbound/transform.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/postbound/transform.py b/postbound/transform.py
index 8b3782d..cebc178 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -2022,7 +2022,10 @@ class _TableReferenceRenamer(
             renamed_expression = proj.expression.accept_visitor(self)
             projections.append(BaseProjection(renamed_expression, proj.target_name))
 
-        return Select(projections, distinct=clause.distinct_specifier())
+        distinct = clause.distinct_specifier()
+        if clause.distinct_on:
+            distinct = [expr.accept_visitor(self) for expr in clause.distinct_on]
+        return Select(projections, distinct=distinct)
 
     def visit_from_clause(self, clause: From, *args, **kwargs) -> From:
         used_identifieres = set(tab.identifier() for tab in clause.tables())
-- 
2.43.0


From 1e3f8febe235a17bd4cb9fd02951c0f5aaadb113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:29 +0000
Subject: [PATCH 039/168] fix: rename tables of table functions

---
 postbound/transform.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/postbound/transform.py b/postbound/transform.py
index cebc178..6309d66 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -2346,8 +2346,9 @@ class _TableReferenceRenamer(
                 renamed_alias = self._rename_table(alias)
                 return ValuesTableSource(rows, alias=renamed_alias, columns=columns)
 
-            case FunctionTableSource(function, alias):
+            case FunctionTableSource(function):
                 renamed_function = function.accept_visitor(self)
+                alias = source.target_table
                 renamed_alias = self._rename_table(alias) if alias else ""
                 return FunctionTableSource(renamed_function, alias=renamed_alias)
 
-- 
2.43.0


From e0fd372157757bdd82ef74720e0894566ae20040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:29 +0000
Subject: [PATCH 040/168] fix: renaming several tables at once binds each
 column to the target of its table

---
 postbound/transform.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/postbound/transform.py b/postbound/transform.py
index 6309d66..7cbc7cb 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -2451,7 +2451,9 @@ def rename_table[T: SelectStatement](
             if prefix_column_names
             else column.name
         )
-        necessary_renamings[column] = ColumnReference(new_column_name, target_table)
+        necessary_renamings[column] = ColumnReference(
+            new_column_name, renamings[column.table]
+        )
 
     renamed_cols = rename_columns_in_query(source_query, necessary_renamings)
 
-- 
2.43.0


From b9149dcc0d1cd039cac46ed6748c321185c20328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:03 +0000
Subject: [PATCH 041/168] fix: keep hints and EXPLAIN when converting to an
 implicit query

---
 postbound/transform.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/postbound/transform.py b/postbound/transform.py
index 7cbc7cb..6cb0393 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -237,6 +237,8 @@ def explicit_to_implicit(source_query: ExplicitSqlQuery) -> ImplicitSqlQuery:
         orderby_clause=source_query.orderby_clause,
         limit_clause=source_query.limit_clause,
         cte_clause=source_query.cte_clause,
+        hints=source_query.hints,
+        explain_clause=source_query.explain,
     )
 
 
-- 
2.43.0


From 5118c7bd5d9a6d8f4693dafa9c8b4f3a63620747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:03 +0000
Subject: [PATCH 042/168] fix: keep joins without equivalence class when adding
 the implied predicates

---
 postbound/transform.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/postbound/transform.py b/postbound/transform.py
index 6cb0393..b603c9e 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -667,7 +667,14 @@ def add_ec_predicates(query: ImplicitSqlQuery) -> ImplicitSqlQuery:
     ec_classes = determine_join_equivalence_classes(predicates.joins())
     ec_predicates = generate_predicates_for_equivalence_classes(ec_classes)
 
-    all_predicates = list(ec_predicates) + list(predicates.filters())
+    remaining_joins = [
+        join
+        for join in predicates.joins()
+        if not determine_join_equivalence_classes([join])
+    ]
+    all_predicates = (
+        list(ec_predicates) + remaining_joins + list(predicates.filters())
+    )
     updated_where_clause = Where(CompoundPredicate.create_and(all_predicates))
 
     return replace_clause(query, updated_where_clause)
-- 
2.43.0


From 2c6d191afaea0ee62c14d6f4d57ff22f3a6579e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:03 +0000
Subject: [PATCH 043/168] fix: do not wrap table sources when moving tables
 into a subquery

---
 postbound/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/transform.py b/postbound/transform.py
index b603c9e..cf2cd76 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -619,7 +619,7 @@ def move_into_subquery(
         for table_source in query.from_clause.items
         if not table_source.tables() < tables
     ]
-    update_from_clause = ImplicitFromClause.create_for(
+    update_from_clause = ImplicitFromClause(
         updated_from_sources + [subquery_table_source]
     )
     updated_predicate = query.where_clause.predicate if query.where_clause else None
-- 
2.43.0


From d5a05e2459d185fdd2a05a44f61a4148e173b90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:58 +0000
Subject: [PATCH 044/168] fix: build custom query plans with the requested
 operators and base tables

---
 postbound/opt/_helpers.py | 39 +++++++++++++++++++++++++++++++--------
 1 file changed, 31 insertions(+), 8 deletions(-)

diff --git a/postbound/opt/_helpers.py b/postbound/opt/_helpers.py
index ef3df24..f912268 100644
--- a/postbound/opt/_helpers.py
+++ b/postbound/opt/_helpers.py
@@ -348,7 +348,12 @@ def _make_simple_plan(
         children = []
 
     if query is None:
-        return QueryPlan(operator, children=children, estimated_cardinality=cardinality)
+        return QueryPlan(
+            operator,
+            children=children,
+            base_table=join_tree.base_table if join_tree.is_scan() else None,
+            estimated_cardinality=cardinality,
+        )
 
     predicates = query.predicates()
     filter_condition = (
@@ -361,8 +366,9 @@ def _make_simple_plan(
     return QueryPlan(
         operator,
         children=children,
+        base_table=join_tree.base_table if join_tree.is_scan() else None,
         estimated_cardinality=cardinality,
-        filter_condition=filter_condition,
+        filter_predicate=filter_condition,
     )
 
 
@@ -395,7 +401,12 @@ def _make_custom_plan(
         plan_params.parallel_workers.get(tables, None) if plan_params else None
     )
 
-    operator = physical_ops.get(tables)
+    assignment = (
+        physical_ops.scan_operators.get(join_tree.base_table)
+        if join_tree.is_scan()
+        else physical_ops.join_operators.get(tables)
+    )
+    operator = assignment.operator if assignment else None
     if not operator and len(tables) == 1:
         operator = fallback_scan_op
     elif not operator and len(tables) > 1:
@@ -404,11 +415,21 @@ def _make_custom_plan(
         raise ValueError("No operator assignment found for join: " + str(tables))
 
     if join_tree.is_join():
-        outer_plan = _make_simple_plan(
-            join_tree.outer_child, physical_ops=physical_ops, plan_params=plan_params
+        outer_plan = _make_custom_plan(
+            join_tree.outer_child,
+            physical_ops=physical_ops,
+            query=query,
+            plan_params=plan_params,
+            fallback_scan_op=fallback_scan_op,
+            fallback_join_op=fallback_join_op,
         )
-        inner_plan = _make_simple_plan(
-            join_tree.inner_child, physical_ops=physical_ops, plan_params=plan_params
+        inner_plan = _make_custom_plan(
+            join_tree.inner_child,
+            physical_ops=physical_ops,
+            query=query,
+            plan_params=plan_params,
+            fallback_scan_op=fallback_scan_op,
+            fallback_join_op=fallback_join_op,
         )
         children = (outer_plan, inner_plan)
     else:
@@ -418,6 +439,7 @@ def _make_custom_plan(
         plan = QueryPlan(
             operator,
             children=children,
+            base_table=join_tree.base_table if join_tree.is_scan() else None,
             estimated_cardinality=cardinality,
             parallel_workers=par_workers,
         )
@@ -433,8 +455,9 @@ def _make_custom_plan(
         plan = QueryPlan(
             operator,
             children=children,
+            base_table=join_tree.base_table if join_tree.is_scan() else None,
             estimated_cardinality=cardinality,
-            filter_condition=filter_condition,
+            filter_predicate=filter_condition,
             parallel_workers=par_workers,
         )
 
-- 
2.43.0


From 8233d91cf50ff5cdf861a2dd08496a2447168005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:58 +0000
Subject: [PATCH 045/168] fix: read sort keys and subplans of query plans from
 JSON

---
 postbound/opt/_helpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postbound/opt/_helpers.py b/postbound/opt/_helpers.py
index f912268..ef7a550 100644
--- a/postbound/opt/_helpers.py
+++ b/postbound/opt/_helpers.py
@@ -584,7 +584,7 @@ def read_query_plan_json(json_data: dict | str) -> QueryPlan:
             for col in sort_key_json.get("equivalence_class", [])
         ]
         ascending = sort_key_json["ascending"]
-        sort_keys.append(SortKey.of(sort_column, ascending))
+        sort_keys.append(SortKey(sort_column, ascending=ascending))
 
     index = params_json.get("index", "")
     additional_params = {
@@ -633,7 +633,7 @@ def read_query_plan_json(json_data: dict | str) -> QueryPlan:
 
     subplan_json: dict = json_data.get("subplan", {})
     if subplan_json:
-        subplan_root = parser.parse_query(subplan_json["root"])
+        subplan_root = read_query_plan_json(subplan_json["root"])
         subplan_target = subplan_json.get("target_name", "")
         subplan = Subplan(root=subplan_root, target_name=subplan_target)
     else:
-- 
2.43.0


From 83a2077c0ad6966e1cd589fc44f919e0999e0401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:58 +0000
Subject: [PATCH 046/168] fix: delegate to the scan-only and join-only operator
 enumerations

---
 postbound/opt/enumeration.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/postbound/opt/enumeration.py b/postbound/opt/enumeration.py
index 1b56dec..0e99ea8 100644
--- a/postbound/opt/enumeration.py
+++ b/postbound/opt/enumeration.py
@@ -294,9 +294,11 @@ class ExhaustiveOperatorEnumerator:
             will they specify join directions or parallization data.
         """
         if not self._include_scans:
-            return self._all_join_assignments_for(query, join_order)
+            yield from self._all_join_assignments_for(query, join_order)
+            return
         elif not self._include_joins:
-            return self._all_scan_assignments_for(query)
+            yield from self._all_scan_assignments_for(query, join_order)
+            return
 
         tables = list(query.tables())
         scan_ops = [list(self.allowed_scan_ops)] * len(tables)
-- 
2.43.0


From 8748feec7228ed055964c69e55a72c7a37d6b2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:58 +0000
Subject: [PATCH 047/168] fix: hand the operators to to_query_plan by name

---
 postbound/opt/enumeration.py | 4 +++-
 postbound/opt/randomized.py  | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/postbound/opt/enumeration.py b/postbound/opt/enumeration.py
index 0e99ea8..50f59fb 100644
--- a/postbound/opt/enumeration.py
+++ b/postbound/opt/enumeration.py
@@ -432,4 +432,6 @@ class ExhaustivePlanEnumerator:
             ) in self._operator_generator.all_operator_assignments_for(
                 query, join_order
             ):
-                yield to_query_plan(join_order, operator_assignment)
+                yield to_query_plan(
+                    join_order, query=query, physical_ops=operator_assignment
+                )
diff --git a/postbound/opt/randomized.py b/postbound/opt/randomized.py
index 5859d4c..5e22998 100644
--- a/postbound/opt/randomized.py
+++ b/postbound/opt/randomized.py
@@ -568,7 +568,9 @@ class RandomPlanGenerator:
             )
             physical_operators = next(operator_generator)
 
-            query_plan = to_query_plan(join_order, physical_operators)
+            query_plan = to_query_plan(
+                join_order, query=query, physical_ops=physical_operators
+            )
             if self._eliminate_duplicates:
                 current_plan_hash = hash(query_plan)
                 if current_plan_hash in plan_hashes:
-- 
2.43.0


From 5a1471fe6281b44b57514fc5b1b04fc01cf5b047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:58 +0000
Subject: [PATCH 048/168] fix: combine the support checks of the random plan
 optimizer

---
 postbound/opt/randomized.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/postbound/opt/randomized.py b/postbound/opt/randomized.py
index 5e22998..04e1566 100644
--- a/postbound/opt/randomized.py
+++ b/postbound/opt/randomized.py
@@ -648,6 +648,10 @@ class RandomPlanOptimizer(CompleteOptimizationAlgorithm):
 
     def pre_check(self) -> OptimizationPreCheck:
         return CompoundCheck(
-            CrossProductPreCheck(),
-            SupportedHintCheck(self._generator._operator_generator.necessary_hints()),
+            [
+                CrossProductPreCheck(),
+                SupportedHintCheck(
+                    self._generator._operator_generator.necessary_hints()
+                ),
+            ]
         )
-- 
2.43.0


From 5ba2b0e726cf1dc61c02ed6a7ad447c9cda8bcd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:58 +0000
Subject: [PATCH 049/168] fix: order by columns when costing a sort

---
 postbound/opt/native.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/opt/native.py b/postbound/opt/native.py
index f404546..059a817 100644
--- a/postbound/opt/native.py
+++ b/postbound/opt/native.py
@@ -398,7 +398,7 @@ class NativeCostModel(CostModel):
                     and col.column in target_columns
                 )
             )
-            orderby_cols.append(col)
+            orderby_cols.append(col.column)
         orderby_clause = OrderBy.create_for(orderby_cols)
         query_fragment = transform.add_clause(query_fragment, orderby_clause)
 
-- 
2.43.0


From c60973794d2eeeffa7019ec8fb228a4cc22f9c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:59 +0000
Subject: [PATCH 050/168] fix: report the columns of VALUES CTEs

---
 postbound/qal/_qal.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index b8f2759..b200a0f 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -5547,9 +5547,7 @@ class ValuesWithQuery(WithQuery):
         return set()
 
     def columns(self) -> set[ColumnReference]:
-        if not self._columns:
-            return set()
-        return {ColumnReference(col, self.target_table) for col in self._columns}
+        return set(self._columns)
 
     def output_columns(self) -> Sequence[ColumnExpression]:
         """Provides the columns that form the result relation of this CTE.
@@ -5560,7 +5558,7 @@ class ValuesWithQuery(WithQuery):
             The columns. If no columns were provided, generic column names are used.
         """
         if self._columns:
-            return self._columns
+            return [ColumnExpression(col) for col in self._columns]
         return [
             ColumnExpression.of(f"column_{i + 1}") for i in range(len(self._values[0]))
         ]
@@ -5569,7 +5567,7 @@ class ValuesWithQuery(WithQuery):
         return util.flatten(row for row in self._values)
 
     def itercolumns(self) -> list[ColumnReference]:
-        return [ColumnReference(col, self.target_table) for col in self._columns]
+        return list(self._columns)
 
     def __eq__(self, other: object) -> bool:
         return (
-- 
2.43.0


From 78b7647cbca4e4bef9d766a88eac94f698c47a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:59 +0000
Subject: [PATCH 051/168] fix: render HAVING clauses in the AST

---
 postbound/qal/_qal.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index b200a0f..1bc83b7 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -8347,9 +8347,12 @@ def _create_ast(item: Any, *, indentation: int = 0) -> str:
             )
 
         # Clauses
-        case Where() | Having():
+        case Where():
             predicate_str = _create_ast(item.predicate, indentation=indentation + 2)
             return f"{prefix}+-{item_str}\n{predicate_str}"
+        case Having():
+            predicate_str = _create_ast(item.condition, indentation=indentation + 2)
+            return f"{prefix}+-{item_str}\n{predicate_str}"
         case DirectTableSource():
             return f"{prefix}+-{item_str} [{item.table}]"
         case JoinTableSource():
-- 
2.43.0


From c719f0e0fc79b828085d46f02078c739528febbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:59 +0000
Subject: [PATCH 052/168] fix: instantiate the graph when plotting join graphs

---
 postbound/vis/optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/vis/optimizer.py b/postbound/vis/optimizer.py
index 4783c00..1296719 100644
--- a/postbound/vis/optimizer.py
+++ b/postbound/vis/optimizer.py
@@ -87,7 +87,7 @@ def _plot_join_graph_from_query(
     if not query.predicates():
         return gv.Graph()
     join_graph: nx.Graph = query.predicates().join_graph()
-    gv_graph = gv.Digraph() if include_pk_fk_joins else gv.Graph
+    gv_graph = gv.Digraph() if include_pk_fk_joins else gv.Graph()
     for table in join_graph.nodes:
         node_label = str(table)
         node_label += (
-- 
2.43.0


From 7a1c888cf7d66976ea0c9f6dc9fd0ba8495197e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:59 +0000
Subject: [PATCH 053/168] fix: describe custom support checks

---
 postbound/validation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/postbound/validation.py b/postbound/validation.py
index 5e62baa..82ba617 100644
--- a/postbound/validation.py
+++ b/postbound/validation.py
@@ -732,3 +732,6 @@ class CustomCheck(OptimizationPreCheck):
         if self._db_check is None:
             return PreCheckResult.with_all_passed()
         return self._db_check(database_instance)
+
+    def describe(self) -> dict:
+        return {"name": self.name}
-- 
2.43.0


From 8a861b6338252e5eaaf04fb74c9af5603385bdfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:59 +0000
Subject: [PATCH 054/168] fix: provide histograms for MySQL

---
 postbound/mysql.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/postbound/mysql.py b/postbound/mysql.py
index d622c5a..0f58eab 100644
--- a/postbound/mysql.py
+++ b/postbound/mysql.py
@@ -69,6 +69,8 @@ from .db import (
     DatabaseSchema,
     DatabaseStatistics,
     HintService,
+    Histogram,
+    HistogramApproximation,
     OptimizerInterface,
     UnsupportedDatabaseFeatureError,
 )
@@ -452,6 +454,15 @@ class MysqlStatisticsInterface(DatabaseStatistics):
             )
         return self._calculate_most_common_values(column, k=k, cache_enabled=True)
 
+    def _retrieve_histogram_from_stats(
+        self, column: BoundColumnReference, *, interpolation: HistogramApproximation
+    ) -> Optional[Histogram]:
+        if not self.enable_emulation_fallback:
+            raise UnsupportedDatabaseFeatureError(self._db, "histogram statistics")
+        return self._calculate_histogram(
+            column, n_bins=100, interpolation=interpolation, cache_enabled=True
+        )
+
 
 MysqlJoinHints = {JoinOperator.HashJoin, JoinOperator.NestedLoopJoin}
 MysqlScanHints = {ScanOperator.IndexScan, ScanOperator.SequentialScan}
-- 
2.43.0


From aa75aac39b58ad88b8a7e1767c48c57358814928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:10 +0000
Subject: [PATCH 055/168] fix: keep the schema when updating a table reference

---
 postbound/_core.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/postbound/_core.py b/postbound/_core.py
index 5418d82..dc7ca9e 100755
--- a/postbound/_core.py
+++ b/postbound/_core.py
@@ -858,7 +858,9 @@ class TableReference:
         """
         if not self.full_name:
             raise StateError("Cannot add an alias to a table without full name")
-        return TableReference(self.full_name, alias, virtual=self.virtual)
+        return TableReference(
+            self.full_name, alias, virtual=self.virtual, schema=self._schema
+        )
 
     def make_virtual(self) -> TableReference:
         """Creates a new virtual table reference for the same table.
@@ -878,7 +880,7 @@ class TableReference:
         full_name: Optional[str] = None,
         alias: Optional[str] = None,
         virtual: Optional[bool] = None,
-        schema: Optional[str] = "",
+        schema: Optional[str] = None,
     ) -> TableReference:
         full_name = self._full_name if full_name is None else full_name
         alias = self._alias if alias is None else alias
-- 
2.43.0


From 1615716aabbaff34c580da1bb4adc35fb555d366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:10 +0000
Subject: [PATCH 056/168] fix: compute hashes of dictionaries independent of
 the insertion order

---
 postbound/util/dicts.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/postbound/util/dicts.py b/postbound/util/dicts.py
index 5a684a9..02e9bd0 100644
--- a/postbound/util/dicts.py
+++ b/postbound/util/dicts.py
@@ -138,20 +138,20 @@ def explode(dictionary: dict[K, list[V]]) -> list[tuple[K, V]]:
 
 def hash_dict(dictionary: dict[K, V]) -> int:
     """Calculates a hash value based on the current dict contents (keys and values)."""
-    keys = list(dictionary.keys())
-    values = []
-    for val in dictionary.values():
+    entries = []
+    for key, val in dictionary.items():
         if isinstance(val, collections.abc.Hashable):
-            values.append(hash(val))
-        elif isinstance(val, list) or isinstance(val, set):
-            values.append(hash(tuple(val)))
+            entries.append((key, hash(val)))
+        elif isinstance(val, list):
+            entries.append((key, hash(tuple(val))))
+        elif isinstance(val, set):
+            entries.append((key, hash(frozenset(val))))
         elif isinstance(val, dict):
-            values.append(hash_dict(val))
+            entries.append((key, hash_dict(val)))
         else:
             warnings.warn(f"Unhashable type, skipping: {type(val)}", stacklevel=2)
-    keys_hash = hash(tuple(keys))
-    values_hash = hash(tuple(values))
-    return hash((keys_hash, values_hash))
+            entries.append((key, 0))
+    return hash(frozenset(entries))
 
 
 def generate_multi(entries: Iterable[tuple[K, V]]) -> dict[K, list[V]]:
-- 
2.43.0


From 6f897c3ae060c150806bb2907eec441581d57fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:10 +0000
Subject: [PATCH 057/168] fix: compare the intermediate operators of operator
 assignments

---
 postbound/_hints.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/postbound/_hints.py b/postbound/_hints.py
index a78e5fe..c724299 100644
--- a/postbound/_hints.py
+++ b/postbound/_hints.py
@@ -579,6 +579,7 @@ class PhysicalOperatorAssignment:
                 util.hash_dict(self.global_settings),
                 util.hash_dict(self.scan_operators),
                 util.hash_dict(self.join_operators),
+                util.hash_dict(self.intermediate_operators),
             )
         )
 
@@ -588,6 +589,7 @@ class PhysicalOperatorAssignment:
             and self.global_settings == other.global_settings
             and self.scan_operators == other.scan_operators
             and self.join_operators == other.join_operators
+            and self.intermediate_operators == other.intermediate_operators
         )
 
     def __repr__(self) -> str:
-- 
2.43.0


From cdb60b4ef8b4f7c922ad33be62678d6e380a2e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:10 +0000
Subject: [PATCH 058/168] fix: look up scan operators by singleton
 intermediates

---
 postbound/_hints.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/postbound/_hints.py b/postbound/_hints.py
index c724299..49f1c66 100644
--- a/postbound/_hints.py
+++ b/postbound/_hints.py
@@ -459,7 +459,7 @@ class PhysicalOperatorAssignment:
 
         intermediate_set = frozenset(intermediate)
         return (
-            self.scan_operators.get(intermediate)
+            self.scan_operators.get(util.simplify(intermediate_set), default)
             if len(intermediate_set) == 1
             else self.join_operators.get(intermediate_set, default)
         )
@@ -555,7 +555,7 @@ class PhysicalOperatorAssignment:
 
         items = frozenset(item)
         return (
-            item in self.scan_operators
+            util.simplify(items) in self.scan_operators
             if len(items) == 1
             else items in self.join_operators
         )
@@ -569,7 +569,7 @@ class PhysicalOperatorAssignment:
         elif isinstance(item, TableReference):
             return self.scan_operators.get(item, None)
         elif isinstance(item, Iterable):
-            return self.join_operators.get(frozenset(item), None)
+            return self.get(item)
         else:
             return None
 
-- 
2.43.0


From 3697ea96ccac28074e44bf9956465c989ecce097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:10 +0000
Subject: [PATCH 059/168] fix: remove overwritten operators from operator
 assignments

---
 postbound/_hints.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postbound/_hints.py b/postbound/_hints.py
index 49f1c66..6028b98 100644
--- a/postbound/_hints.py
+++ b/postbound/_hints.py
@@ -153,13 +153,13 @@ class PhysicalOperatorAssignment:
                 self.scan_operators = {
                     table: current_setting
                     for table, current_setting in self.scan_operators.items()
-                    if current_setting != operator
+                    if current_setting.operator != operator
                 }
             case JoinOperator():
                 self.join_operators = {
                     join: current_setting
                     for join, current_setting in self.join_operators.items()
-                    if current_setting != operator
+                    if current_setting.operator != operator
                 }
             case IntermediateOperator():
                 self.intermediate_operators = {
-- 
2.43.0


From dc658c026a0ba4ae0c554cf2c59afa6718059944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:10 +0000
Subject: [PATCH 060/168] fix: print intermediate operators of operator
 assignments

---
 postbound/_hints.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/postbound/_hints.py b/postbound/_hints.py
index 6028b98..85f58a0 100644
--- a/postbound/_hints.py
+++ b/postbound/_hints.py
@@ -614,11 +614,11 @@ class PhysicalOperatorAssignment:
         )
 
         intermediates_keys = (
-            (intermediate, " ⨝ ".join(tab.identifier() for tab in intermediate))
-            for intermediate in self.intermediate_operators.keys()
+            (op, " ⨝ ".join(tab.identifier() for tab in intermediate))
+            for intermediate, op in self.intermediate_operators.items()
         )
         intermediates_str = ", ".join(
-            f"{key}: {intermediate.value}" for intermediate, key in intermediates_keys
+            f"{key}: {op.value}" for op, key in intermediates_keys
         )
 
         return f"global=[{global_str}] scans=[{scans_str}] joins=[{joins_str}] intermediates=[{intermediates_str}]"
-- 
2.43.0


From bf8c6a86d799e7b7ea696adbcf4732108b2a9002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:10 +0000
Subject: [PATCH 061/168] fix: keep the execution mode when merging plan
 parameters

---
 postbound/_hints.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/postbound/_hints.py b/postbound/_hints.py
index 85f58a0..83c4cf5 100644
--- a/postbound/_hints.py
+++ b/postbound/_hints.py
@@ -828,6 +828,11 @@ class PlanParameterization:
         merged_params.system_settings = (
             self.system_settings | other_parameters.system_settings
         )
+        merged_params.execution_mode = (
+            other_parameters.execution_mode
+            if other_parameters.execution_mode is not None
+            else self.execution_mode
+        )
         return merged_params
 
     def drop_workers(self) -> PlanParameterization:
-- 
2.43.0


From 133cc9accc47ba2838d72a6117ec8dacd1d9d168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:11 +0000
Subject: [PATCH 062/168] fix: retain the type of logical join trees

---
 postbound/_hints.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/postbound/_hints.py b/postbound/_hints.py
index 83c4cf5..3435def 100644
--- a/postbound/_hints.py
+++ b/postbound/_hints.py
@@ -1514,12 +1514,9 @@ class JoinTree(Container[TableReference], Generic[JoinTreeAnnotation]):
         """
         if self.is_empty():
             raise StateError("Cannot update annotation of an empty join tree.")
-        return JoinTree(
-            base_table=self._table,
-            outer_child=self._outer,
-            inner_child=self._inner,
-            annotation=new_annotation,
-        )
+        if self.is_scan():
+            return self.scan(self._table, annotation=new_annotation)
+        return self.join(self._outer, self._inner, annotation=new_annotation)
 
     def join_with(
         self,
@@ -1562,12 +1559,12 @@ class JoinTree(Container[TableReference], Generic[JoinTreeAnnotation]):
         if isinstance(partner, JoinTree) and partner_annotation is not None:
             partner = partner.update_annotation(partner_annotation)
         elif isinstance(partner, TableReference):
-            partner = JoinTree.scan(partner, annotation=partner_annotation)
+            partner = self.scan(partner, annotation=partner_annotation)
 
         outer, inner = (
             (self, partner) if partner_direction == "inner" else (partner, self)
         )
-        return JoinTree.join(outer, inner, annotation=annotation)
+        return self.join(outer, inner, annotation=annotation)
 
     def inspect(self) -> str:
         """Provides a pretty-printed an human-readable representation of the join tree."""
@@ -1603,7 +1600,7 @@ class JoinTree(Container[TableReference], Generic[JoinTreeAnnotation]):
     ) -> JoinTree[JoinTreeAnnotation]:
         """Handler method to create a new join tree when the current tree is empty."""
         if isinstance(partner, TableReference):
-            return JoinTree.scan(partner, annotation=annotation)
+            return self.scan(partner, annotation=annotation)
 
         if annotation is not None:
             partner = partner.update_annotation(annotation)
@@ -1784,11 +1781,11 @@ def jointree_from_plan(
         else plan.actual_cardinality
     )
     if plan.is_scan():
-        return JoinTree.scan(plan.base_table, annotation=card)
+        return LogicalJoinTree.scan(plan.base_table, annotation=card)
     elif plan.is_join():
         outer = jointree_from_plan(plan.outer_child, card_source=card_source)
         inner = jointree_from_plan(plan.inner_child, card_source=card_source)
-        return JoinTree.join(outer, inner, annotation=card)
+        return LogicalJoinTree.join(outer, inner, annotation=card)
     else:
         # auxiliary node handler
         return jointree_from_plan(plan.input_node, card_source=card_source)
-- 
2.43.0


From c5164681c8e9c27b65e08003f4f89692bc131525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:11 +0000
Subject: [PATCH 063/168] fix: extract parallel workers at all levels of a
 query plan

---
 postbound/_hints.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/postbound/_hints.py b/postbound/_hints.py
index 3435def..9e9414f 100644
--- a/postbound/_hints.py
+++ b/postbound/_hints.py
@@ -1849,7 +1849,9 @@ def operators_from_plan(
     """
     assignment = PhysicalOperatorAssignment()
     if not query_plan.operator and query_plan.input_node:
-        return operators_from_plan(query_plan.input_node)
+        return operators_from_plan(
+            query_plan.input_node, include_workers=include_workers
+        )
 
     workers = query_plan.parallel_workers if include_workers else math.nan
     match query_plan.operator:
@@ -1871,6 +1873,6 @@ def operators_from_plan(
             assignment.add(query_plan.operator, query_plan.tables())
 
     for child in query_plan.children:
-        child_assignment = operators_from_plan(child)
+        child_assignment = operators_from_plan(child, include_workers=include_workers)
         assignment = assignment.merge_with(child_assignment)
     return assignment
-- 
2.43.0


From afaa353c55a319ddda11438c6b092eb851fe1adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:11 +0000
Subject: [PATCH 064/168] fix: check the shape of all joins in a join tree

---
 postbound/_hints.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/postbound/_hints.py b/postbound/_hints.py
index 9e9414f..2acfcca 100644
--- a/postbound/_hints.py
+++ b/postbound/_hints.py
@@ -1432,7 +1432,9 @@ class JoinTree(Container[TableReference], Generic[JoinTreeAnnotation]):
             raise StateError("An empty join tree does not have a shape.")
         if self.is_scan():
             return True
-        return self._outer.is_scan() or self._inner.is_scan()
+        if not self._outer.is_scan() and not self._inner.is_scan():
+            return False
+        return self._outer.is_linear() and self._inner.is_linear()
 
     def is_bushy(self) -> bool:
         """Checks, whether the join tree encodes a bushy join sequence.
-- 
2.43.0


From b45a12b164cce8633f4024dfbd17442556d0611a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:11 +0000
Subject: [PATCH 065/168] fix: extract the requested cardinalities from
 exploded query plans

---
 postbound/opt/_helpers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/postbound/opt/_helpers.py b/postbound/opt/_helpers.py
index ef7a550..d38703c 100644
--- a/postbound/opt/_helpers.py
+++ b/postbound/opt/_helpers.py
@@ -707,7 +707,10 @@ def explode_query_plan(
         The different components of the query plan
     """
     return (
-        jointree_from_plan(query_plan, card_source=card_source),
+        jointree_from_plan(
+            query_plan,
+            card_source="estimates" if card_source == "estimated" else "actual",
+        ),
         operators_from_plan(query_plan),
         parameters_from_plan(query_plan, target_cardinality=card_source),
     )
-- 
2.43.0


From 2847def00b7fbc765b7fdd157561fbd8efdc7f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:43 +0000
Subject: [PATCH 066/168] fix: match sort keys against the columns they contain

---
 postbound/_qep.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postbound/_qep.py b/postbound/_qep.py
index 029066d..b1f03be 100644
--- a/postbound/_qep.py
+++ b/postbound/_qep.py
@@ -109,7 +109,7 @@ class SortKey:
             raise ValueError("Sort key must contain at least one column")
         self._ascending = ascending
 
-    __match_args___ = ("equivalence_class", "ascending")
+    __match_args__ = ("equivalence_class", "ascending")
 
     @property
     def column(self) -> SqlExpression:
@@ -134,7 +134,7 @@ class SortKey:
         For single column references, this essentially checks whether the column is part of the key's equivalence class.
         """
         if isinstance(other, ColumnReference):
-            return other in self._members
+            return ColumnExpression(other) in self._members
 
         if self.ascending != other.ascending:
             return False
-- 
2.43.0


From f6f56739aa780097117e485e977cf25ed89fab80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:43 +0000
Subject: [PATCH 067/168] fix: include the lookup key in the columns of a plan
 node

---
 postbound/_qep.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/postbound/_qep.py b/postbound/_qep.py
index b1f03be..8ee11c6 100644
--- a/postbound/_qep.py
+++ b/postbound/_qep.py
@@ -320,15 +320,20 @@ class PlanParams:
     def columns(self) -> set[ColumnReference]:
         """Provides all columns that are referenced at some point in the plan parameters.
 
-        This includes only the well-defined properties available to all parameterizations, i.e. just the `filter_predicate`. If
-        users decide to store additional metadata with column information in the parameters, these are not retained here.
+        This includes only the well-defined properties available to all parameterizations, i.e. `filter_predicate` and
+        `lookup_key`. If users decide to store additional metadata with column information in the parameters, these are not retained here.
 
         Returns
         -------
         set[ColumnReference]
             The columns
         """
-        return self.filter_predicate.columns() if self.filter_predicate else set()
+        columns = set()
+        if self.filter_predicate:
+            columns |= self.filter_predicate.columns()
+        if self.lookup_key:
+            columns |= self.lookup_key.columns()
+        return columns
 
     def get(self, key: str, default: Any = None) -> Any:
         """Retrieves the value of a specific key from the parameters.
-- 
2.43.0


From 8b51d1d313acee5cd1ed27246fe5e4cbfd40f47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:43 +0000
Subject: [PATCH 068/168] fix: consider all children and subplans when
 searching query plans

---
 postbound/_qep.py | 37 ++++++++++++++-----------------------
 1 file changed, 14 insertions(+), 23 deletions(-)

diff --git a/postbound/_qep.py b/postbound/_qep.py
index 8ee11c6..e0193dd 100644
--- a/postbound/_qep.py
+++ b/postbound/_qep.py
@@ -1422,7 +1422,9 @@ class QueryPlan:
 
     def iternodes(self) -> Iterable[QueryPlan]:
         """Provides all nodes that are contained in the plan in depth-first order, prioritizing outer child nodes."""
-        return util.flatten(child.iternodes() for child in self._children) + [self]
+        subplan_nodes = list(self._subplan.root.iternodes()) if self._subplan else []
+        child_nodes = util.flatten(child.iternodes() for child in self._children)
+        return child_nodes + subplan_nodes + [self]
 
     def lookup(
         self, tables: TableReference | Iterable[TableReference]
@@ -1457,7 +1459,7 @@ class QueryPlan:
             if result is not None:
                 return result
 
-        return None
+        return self._subplan.root.lookup(needle) if self._subplan else None
 
     def find_first_node(
         self,
@@ -1488,30 +1490,16 @@ class QueryPlan:
         """
         if predicate(self, *args, **kwargs):
             return self
-        if not self.children:
-            return None
 
-        if len(self.children) == 1:
-            return self.input_node.find_first_node(
+        candidates = (
+            self._children if direction == "outer" else reversed(self._children)
+        )
+        for candidate in candidates:
+            match = candidate.find_first_node(
                 predicate, *args, direction=direction, **kwargs
             )
-
-        first_candidate, second_candidate = (
-            (self.outer_child, self.inner_child)
-            if direction == "outer"
-            else (self.inner_child, self.outer_child)
-        )
-        first_match = first_candidate.find_first_node(
-            predicate, *args, direction=direction, **kwargs
-        )
-        if first_match:
-            return first_match
-
-        second_match = second_candidate.find_first_node(
-            predicate, *args, direction=direction, **kwargs
-        )
-        if second_match:
-            return second_match
+            if match:
+                return match
 
         return (
             self._subplan.root.find_first_node(
@@ -2095,4 +2083,7 @@ def _astify(plan: QueryPlan, *, indentation: int = _starting_indentation) -> str
     child_str = "\n".join(
         _astify(child, indentation=indentation + 2) for child in plan.children
     )
+    if plan.subplan:
+        subplan_str = _astify(plan.subplan.root, indentation=indentation + 2)
+        child_str = f"{child_str}\n{subplan_str}" if child_str else subplan_str
     return f"{item_str}\n{child_str}" if child_str else item_str
-- 
2.43.0


From 3b774b1a840de83adde0c2e150ba22f08fdf50ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:43 +0000
Subject: [PATCH 069/168] fix: keep additional estimates and measurements of
 derived query plans

---
 postbound/_qep.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/postbound/_qep.py b/postbound/_qep.py
index e0193dd..29e8503 100644
--- a/postbound/_qep.py
+++ b/postbound/_qep.py
@@ -1629,7 +1629,9 @@ class QueryPlan:
         """
         cardinality = self.estimated_cardinality if cardinality is None else cardinality
         cost = self.estimated_cost if cost is None else cost
-        updated_estimates = PlanEstimates(cardinality=cardinality, cost=cost)
+        updated_estimates = PlanEstimates(
+            cardinality=cardinality, cost=cost, **self._estimates.additional_estimates
+        )
         updated_measures = self._measures if keep_measures else None
         return QueryPlan(
             self.node_type,
@@ -1754,6 +1756,8 @@ class QueryPlan:
             updated_measures = PlanMeasures(
                 cardinality=updated_actual,
                 execution_time=self.execution_time,
+                cache_hits=self._measures.cache_hits,
+                cache_misses=self._measures.cache_misses,
                 **(self._measures.additional_measures),
             )
 
-- 
2.43.0


From eab4f67fc859964862bf2d7d0535d7520d78bf29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:43 +0000
Subject: [PATCH 070/168] fix: update query plans at all levels

---
 postbound/opt/_helpers.py | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/postbound/opt/_helpers.py b/postbound/opt/_helpers.py
index d38703c..029f183 100644
--- a/postbound/opt/_helpers.py
+++ b/postbound/opt/_helpers.py
@@ -212,37 +212,34 @@ def update_plan(
     """
     query_plan = query_plan.canonical() if simplify else query_plan
 
-    updated_operator = (
-        operators.get(query_plan.tables(), query_plan.operator)
-        if operators
-        else query_plan.operator
-    )
+    intermediate = frozenset(query_plan.tables())
+    assignment = operators.get(intermediate) if operators else None
+    updates_operator = assignment is not None and not query_plan.is_auxiliary()
+    updated_operator = assignment.operator if updates_operator else query_plan.operator
     updated_card_est = (
-        params.cardinalities.get(query_plan.tables(), query_plan.estimated_cardinality)
+        params.cardinalities.get(intermediate, query_plan.estimated_cardinality)
         if params
         else query_plan.estimated_cardinality
     )
     updated_workers = (
-        params.parallel_workers.get(
-            query_plan.tables(), query_plan.params.parallel_workers
-        )
+        params.parallel_workers.get(intermediate, query_plan.params.parallel_workers)
         if params
         else query_plan.params.parallel_workers
     )
 
     updated_params = PlanParams(
-        **(query_plan.params.items() | {"parallel_workers": updated_workers})
+        **(dict(query_plan.params.items()) | {"parallel_workers": updated_workers})
     )
     updated_estimates = PlanEstimates(
-        **(query_plan.estimates.items() | {"estimated_cardinality": updated_card_est})
+        **(dict(query_plan.estimates.items()) | {"cardinality": updated_card_est})
     )
     updated_children = [
-        update_plan(child, operators=operators, params=params)
+        update_plan(child, operators=operators, params=params, simplify=simplify)
         for child in query_plan.children
     ]
 
     return QueryPlan(
-        query_plan.node_type,
+        updated_operator if updates_operator else query_plan.node_type,
         operator=updated_operator,
         children=updated_children,
         plan_params=updated_params,
-- 
2.43.0


From 2b4ebc43230353c4e61dec072891fbb6d25af33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:43 +0000
Subject: [PATCH 071/168] fix: store all attributes of hints in JSON

---
 postbound/_hints.py       | 20 ++++++++++++++++----
 postbound/opt/_helpers.py | 26 ++++++++++++++++++++------
 postbound/parser.py       |  2 +-
 3 files changed, 37 insertions(+), 11 deletions(-)

diff --git a/postbound/_hints.py b/postbound/_hints.py
index 2acfcca..384ba98 100644
--- a/postbound/_hints.py
+++ b/postbound/_hints.py
@@ -501,11 +501,15 @@ class PhysicalOperatorAssignment:
         jsonized = {
             "global_settings": [],
             "scan_operators": [
-                {"table": scan.table, "operator": scan.operator}
+                {
+                    "table": scan.table,
+                    "operator": scan.operator,
+                    "parallel_workers": scan.parallel_workers,
+                }
                 for scan in self.scan_operators.values()
             ],
             "join_operators": [
-                {"intermediate": join.join, "operator": join.operator}
+                {"intermediate": join.join, **join.__json__()}
                 for join in self.join_operators.values()
             ],
             "intermediate_operators": [
@@ -872,8 +876,16 @@ class PlanParameterization:
 
     def __json__(self) -> jsondict:
         return {
-            "cardinality_hints": self.cardinalities,
-            "parallel_worker_hints": self.parallel_workers,
+            "cardinality_hints": [
+                {"intermediate": tables, "cardinality": cardinality}
+                for tables, cardinality in self.cardinalities.items()
+            ],
+            "parallel_worker_hints": [
+                {"intermediate": tables, "workers": workers}
+                for tables, workers in self.parallel_workers.items()
+            ],
+            "system_settings": self.system_settings,
+            "execution_mode": self.execution_mode,
         }
 
     def __repr__(self) -> str:
diff --git a/postbound/opt/_helpers.py b/postbound/opt/_helpers.py
index 029f183..9b6134f 100644
--- a/postbound/opt/_helpers.py
+++ b/postbound/opt/_helpers.py
@@ -7,6 +7,7 @@ from typing import Literal, Optional, Union
 
 from .. import parser
 from .._core import (
+    Cardinality,
     IntermediateOperator,
     JoinOperator,
     PhysicalOperator,
@@ -119,15 +120,22 @@ def read_operator_assignment_json(json_data: dict | str) -> PhysicalOperatorAssi
     for hint in json_data.get("scan_operators", []):
         parsed_table = parser.load_table_json(hint["table"])
         assignment.scan_operators[parsed_table] = ScanOperatorAssignment(
-            ScanOperator(hint["operator"]), parsed_table
+            ScanOperator(hint["operator"]),
+            parsed_table,
+            hint.get("parallel_workers", math.nan),
         )
 
     for hint in json_data.get("join_operators", []):
         parsed_tables = frozenset(
             parser.load_table_json(tab) for tab in hint["intermediate"]
         )
+        if hint.get("directional", False):
+            assignment.join_operators[parsed_tables] = read_operator_json(hint)
+            continue
         assignment.join_operators[parsed_tables] = JoinOperatorAssignment(
-            JoinOperator(hint["operator"]), parsed_tables
+            JoinOperator(hint["operator"]),
+            parsed_tables,
+            parallel_workers=hint.get("parallel_workers", math.nan),
         )
 
     for hint in json_data.get("intermediate_operators", []):
@@ -157,13 +165,19 @@ def read_plan_params_json(json_data: dict | str) -> PlanParameterization:
     json_data = json.loads(json_data) if isinstance(json_data, str) else json_data
     params = PlanParameterization()
     params.cardinalities = {
-        frozenset(parser.load_table_json(tab)): card
-        for tab, card in json_data.get("cardinality_hints", {}).items()
+        frozenset(
+            parser.load_table_json(tab) for tab in hint["intermediate"]
+        ): Cardinality.of(hint["cardinality"])
+        for hint in json_data.get("cardinality_hints", [])
     }
     params.parallel_workers = {
-        frozenset(parser.load_table_json(tab)): workers
-        for tab, workers in json_data.get("parallel_worker_hints", {}).items()
+        frozenset(parser.load_table_json(tab) for tab in hint["intermediate"]): hint[
+            "workers"
+        ]
+        for hint in json_data.get("parallel_worker_hints", [])
     }
+    params.system_settings = dict(json_data.get("system_settings", {}))
+    params.execution_mode = json_data.get("execution_mode", None)
     return params
 
 
diff --git a/postbound/parser.py b/postbound/parser.py
index ba756a0..72b812d 100644
--- a/postbound/parser.py
+++ b/postbound/parser.py
@@ -2396,7 +2396,7 @@ def load_table_json(json_data):
         json_data.get("full_name", ""),
         json_data.get("alias", ""),
         virtual=json_data.get("virtual", False),
-        schema=json_data.get("schemaname", None),
+        schema=json_data.get("schema", None),
     )
 
 
-- 
2.43.0


From 2b5bc74f952f3cc95dd159ca5ad0e9751f84b14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:43 +0000
Subject: [PATCH 072/168] fix: read the lookup key and the kind of trees from
 JSON

---
 postbound/opt/_helpers.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/postbound/opt/_helpers.py b/postbound/opt/_helpers.py
index 9b6134f..18ec88a 100644
--- a/postbound/opt/_helpers.py
+++ b/postbound/opt/_helpers.py
@@ -311,8 +311,7 @@ def parse_nested_table_sequence(sequence: list[dict | list]) -> NestedTableSeque
     if isinstance(sequence, list):
         return [parse_nested_table_sequence(item) for item in sequence]
     elif isinstance(sequence, dict):
-        table_name, alias = sequence["full_name"], sequence.get("alias", "")
-        return TableReference(table_name, alias)
+        return parser.load_table_json(sequence)
     else:
         raise TypeError(f"Unknown list element: {sequence}")
 
@@ -597,11 +596,15 @@ def read_query_plan_json(json_data: dict | str) -> QueryPlan:
         ascending = sort_key_json["ascending"]
         sort_keys.append(SortKey(sort_column, ascending=ascending))
 
+    lookup_key_json: dict | None = params_json.get("lookup_key")
+    lookup_key = parser.load_expression_json(lookup_key_json)
+
     index = params_json.get("index", "")
     additional_params = {
         key: value
         for key, value in params_json.items()
-        if key not in {"base_table", "filter_predicate", "sort_keys", "index"}
+        if key
+        not in {"base_table", "filter_predicate", "sort_keys", "index", "lookup_key"}
     }
 
     plan_params = PlanParams(
@@ -609,6 +612,7 @@ def read_query_plan_json(json_data: dict | str) -> QueryPlan:
         filter_predicate=filter_predicate,
         sort_keys=sort_keys,
         index=index,
+        lookup_key=lookup_key,
         **additional_params,
     )
 
@@ -689,15 +693,20 @@ def read_jointree_json(json_data: dict | str) -> JoinTree:
     json_data = json.loads(json_data) if isinstance(json_data, str) else json_data
 
     annotation = json_data.get("annotation", None)
+    if json_data.get("type") == "join_tree_logical":
+        tree_type = LogicalJoinTree
+        annotation = None if annotation is None else Cardinality.of(annotation)
+    else:
+        tree_type = JoinTree
 
     table_json = json_data.get("table", None)
     if table_json:
         base_table = parser.load_table_json(table_json)
-        return JoinTree.scan(base_table, annotation=annotation)
+        return tree_type.scan(base_table, annotation=annotation)
 
     outer_child = read_jointree_json(json_data["outer"])
     inner_child = read_jointree_json(json_data["inner"])
-    return JoinTree.join(outer_child, inner_child, annotation=annotation)
+    return tree_type.join(outer_child, inner_child, annotation=annotation)
 
 
 def explode_query_plan(
-- 
2.43.0


From 97522ba7b8a9d91a2290097bde4ccb16768a8a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:32 +0000
Subject: [PATCH 073/168] fix: do not modify the given data frames

---
 postbound/train/_train.py | 2 +-
 postbound/util/_df.py     | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/postbound/train/_train.py b/postbound/train/_train.py
index 6b57d53..bb1ae89 100644
--- a/postbound/train/_train.py
+++ b/postbound/train/_train.py
@@ -288,7 +288,7 @@ class TrainingData:
         feature_map: dict[TrainingFeature, str] = {feat: feat for feat in df.columns}
         query_col = feature_map.get("query")
         if query_col:
-            df[query_col] = df[query_col].map(parse_query)
+            df = df.assign(**{query_col: df[query_col].map(parse_query)})
 
         return TrainingData(df, source=source, feature_map=feature_map)
 
diff --git a/postbound/util/_df.py b/postbound/util/_df.py
index 4e303cf..a0223d5 100644
--- a/postbound/util/_df.py
+++ b/postbound/util/_df.py
@@ -49,6 +49,7 @@ def write_df(
     path = Path(path)
     path.parent.mkdir(parents=True, exist_ok=True)
 
+    df = df.copy(deep=False)
     for col in df.columns:
         if df[col].dtype != "object":
             continue
-- 
2.43.0


From e3869bad30d566d7b5435ec03e5330d0d4e8a6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:48 +0000
Subject: [PATCH 074/168] fix: enumerate linear join orders

---
 postbound/opt/enumeration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/opt/enumeration.py b/postbound/opt/enumeration.py
index 50f59fb..13660ee 100644
--- a/postbound/opt/enumeration.py
+++ b/postbound/opt/enumeration.py
@@ -154,7 +154,7 @@ class ExhaustiveJoinOrderEnumerator:
         For now, the underlying algorithm is limited to queries without cross-products.
         """
         if self._tree_structure == "left-deep" or self._tree_structure == "right-deep":
-            self._linear_join_orders(query)
+            yield from self._linear_join_orders(query)
             return
 
         join_graph = query.predicates().join_graph()
-- 
2.43.0


From 79cb86a1f58613e26d88028df777605a652ced99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:48 +0000
Subject: [PATCH 075/168] fix: respect the node order in breadth-first
 traversals

---
 postbound/util/nx.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/postbound/util/nx.py b/postbound/util/nx.py
index 4c428f6..85e8127 100644
--- a/postbound/util/nx.py
+++ b/postbound/util/nx.py
@@ -179,9 +179,8 @@ def nx_bfs_tree(
                 if node not in visited_nodes
             ]
             if node_order:
-                sorted(
-                    neighbor_nodes,
-                    key=lambda neighbor: node_order(neighbor[0], neighbor[1]),
+                neighbor_nodes.sort(
+                    key=lambda neighbor: node_order(neighbor[0], neighbor[1])
                 )
             shell_nodes.extend(neighbor_nodes)
             yield current_node, current_edge
-- 
2.43.0


From f4a26487cb4e05a19c3b64c5926aa25e4dc1c909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:48 +0000
Subject: [PATCH 076/168] fix: join smaller UES partitions first

---
 postbound/opt/ues.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/opt/ues.py b/postbound/opt/ues.py
index 226c343..bc80766 100644
--- a/postbound/opt/ues.py
+++ b/postbound/opt/ues.py
@@ -1063,7 +1063,7 @@ class UESJoinOrderOptimizer(JoinOrderOptimization):
                 optimized_components.append(optimized_component)
 
             # insert cross-products such that the smaller partitions are joined first
-            sorted(optimized_components, key=operator.attrgetter("annotation"))
+            optimized_components.sort(key=operator.attrgetter("annotation"))
             final_join_tree, *remaining_joins = optimized_components
             for remaining_join in remaining_joins:
                 output_cardinality = (
-- 
2.43.0


From 04e9e46a0a41dda8033585bf3c487f0ba7848ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:48 +0000
Subject: [PATCH 077/168] fix: use the MySQL variant of EXPLAIN when formatting
 queries

---
 postbound/mysql.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/postbound/mysql.py b/postbound/mysql.py
index 0f58eab..251cbaa 100644
--- a/postbound/mysql.py
+++ b/postbound/mysql.py
@@ -645,7 +645,9 @@ class MysqlHintService(HintService):
         updated_query = query
 
         if updated_query.is_explain():
-            transform.replace_clause(query, _MysqlExplainClause(query.explain))
+            updated_query = transform.replace_clause(
+                query, _MysqlExplainClause(query.explain)
+            )
 
         if "ANSI_QUOTES" not in self._mysql_instance.server_mode():
             updated_query = transform.replace_expressions(
-- 
2.43.0


From 811923c7acee90104af5630b779fdd6bfdabb187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:13 +0000
Subject: [PATCH 078/168] fix: operator assignments with unknown worker counts
 can be equal

---
 postbound/_hints.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/postbound/_hints.py b/postbound/_hints.py
index 384ba98..ea72951 100644
--- a/postbound/_hints.py
+++ b/postbound/_hints.py
@@ -898,6 +898,11 @@ class PlanParameterization:
         )
 
 
+def _workers_key(workers: float | int) -> float | int | None:
+    """Normalizes worker counts for comparisons, since *NaN* (i.e. unknown) is never equal to itself."""
+    return None if workers != workers else workers
+
+
 class ScanOperatorAssignment:
     """Models the selection of a scan operator for a specific base table.
 
@@ -921,7 +926,9 @@ class ScanOperatorAssignment:
         self._operator = operator
         self._table = table
         self._parallel_workers = parallel_workers
-        self._hash_val = hash((self._operator, self._table, self._parallel_workers))
+        self._hash_val = hash(
+            (self._operator, self._table, _workers_key(self._parallel_workers))
+        )
 
     __match_args__ = ("operator", "table", "parallel_workers")
 
@@ -986,7 +993,8 @@ class ScanOperatorAssignment:
             isinstance(other, type(self))
             and self.operator == other.operator
             and self.table == other.table
-            and self.parallel_workers == other.parallel_workers
+            and _workers_key(self.parallel_workers)
+            == _workers_key(other.parallel_workers)
         )
 
     def __repr__(self) -> str:
@@ -1035,7 +1043,9 @@ class JoinOperatorAssignment:
         self._join = frozenset(join)
         self._parallel_workers = parallel_workers
 
-        self._hash_val = hash((self._operator, self._join, self._parallel_workers))
+        self._hash_val = hash(
+            (self._operator, self._join, _workers_key(self._parallel_workers))
+        )
 
     __match_args__ = ("operator", "join", "parallel_workers")
 
@@ -1124,7 +1134,8 @@ class JoinOperatorAssignment:
             isinstance(other, type(self))
             and self._operator == other._operator
             and self._join == other._join
-            and self._parallel_workers == other._parallel_workers
+            and _workers_key(self._parallel_workers)
+            == _workers_key(other._parallel_workers)
         )
 
     def __repr__(self) -> str:
-- 
2.43.0


From 5b765efabb6ce738e41e3f7a1d5941ec46dcbe29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:13 +0000
Subject: [PATCH 079/168] fix: infinite cardinalities are larger than all valid
 ones

---
 postbound/_core.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/postbound/_core.py b/postbound/_core.py
index dc7ca9e..5da5a4a 100755
--- a/postbound/_core.py
+++ b/postbound/_core.py
@@ -290,8 +290,8 @@ class Cardinality(Number):
         return NotImplemented
 
     def __le__(self, other: object) -> bool:
-        if not self._valid:
-            return False
+        if not self._valid and isinstance(other, (Cardinality, int, float)):
+            return self.get() <= float(other)
 
         match other:
             case Cardinality(_, otherval):
@@ -307,15 +307,15 @@ class Cardinality(Number):
         return NotImplemented
 
     def __gt__(self, other: object) -> bool:
-        if not self._valid:
-            return False
+        if not self._valid and isinstance(other, (Cardinality, int, float)):
+            return self.get() > float(other)
 
         match other:
             case Cardinality(_, otherval):
                 if other._nan:
                     return False
                 if other._inf:
-                    return True
+                    return False
                 return self.value > otherval
 
             case int() | float():
@@ -324,15 +324,15 @@ class Cardinality(Number):
         return NotImplemented
 
     def __ge__(self, other: object) -> bool:
-        if not self._valid:
-            return False
+        if not self._valid and isinstance(other, (Cardinality, int, float)):
+            return self.get() >= float(other)
 
         match other:
             case Cardinality(_, otherval):
                 if other._nan:
                     return False
                 if other._inf:
-                    return True
+                    return False
                 return self.value >= otherval
 
             case int() | float():
-- 
2.43.0


From 572730c996e5ed52d54b440e1f3ddbb81a9b4c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:13 +0000
Subject: [PATCH 080/168] fix: cardinalities in different states are not equal,
 equal ones have equal hashes

---
 postbound/_core.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/postbound/_core.py b/postbound/_core.py
index 5da5a4a..5f22569 100755
--- a/postbound/_core.py
+++ b/postbound/_core.py
@@ -368,7 +368,7 @@ class Cardinality(Number):
                     return True
                 if self._inf and other._inf:
                     return True
-                return self.value == other.value
+                return self._valid and other._valid and self.value == other.value
 
             case int():
                 return self._valid and self.value == other
@@ -383,8 +383,8 @@ class Cardinality(Number):
         return NotImplemented
 
     def __hash__(self) -> int:
-        # There is no need to hash _valid, since it is directly derived from _nan and _inf
-        return hash((self._nan, self._inf, self._value))
+        # cardinalities are equal to normal numbers with the same value
+        return hash(self._value) if self._valid else hash(self.get())
 
     def __repr__(self) -> str:
         return str(self)
-- 
2.43.0


From 4c460417076eacfd283c9213072e00ab78f22afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:33 +0000
Subject: [PATCH 081/168] fix: plan shape checks consider all joins instead of
 just the root node

---
 postbound/_qep.py | 35 +++++++++++++++++------------------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/postbound/_qep.py b/postbound/_qep.py
index 29e8503..289be9c 100644
--- a/postbound/_qep.py
+++ b/postbound/_qep.py
@@ -1286,22 +1286,19 @@ class QueryPlan:
 
         As a special case, scan nodes are considered to be linear as well.
         """
-        if self.is_scan():
-            return True
-        outer_join = self.outer_child.find_first_node(QueryPlan.is_join)
-        inner_join = self.inner_child.find_first_node(QueryPlan.is_join)
-        return outer_join is None or inner_join is None
+        if self.is_join():
+            outer_join = self.outer_child.find_first_node(QueryPlan.is_join)
+            inner_join = self.inner_child.find_first_node(QueryPlan.is_join)
+            if outer_join is not None and inner_join is not None:
+                return False
+        return all(child.is_linear() for child in self.children)
 
     def is_bushy(self) -> bool:
         """Checks, whether the plan performs joins in a bushy order.
 
         This is the case if at least one join node joins two intermediates that are themselves the result of a join.
         """
-        if self.is_scan():
-            return False
-        outer_join = self.outer_child.find_first_node(QueryPlan.is_join)
-        inner_join = self.inner_child.find_first_node(QueryPlan.is_join)
-        return outer_join is not None and inner_join is not None
+        return not self.is_linear()
 
     def is_left_deep(self) -> bool:
         """Checks, whether the plan performs all joins in a left-deep order.
@@ -1309,10 +1306,11 @@ class QueryPlan:
         Left deep order means that the plan is linear and all joins are performed with the base table as the inner relation.
         As a special case, scan nodes are considered to be right-deep as well.
         """
-        if self.is_scan():
-            return True
-        inner_join = self.inner_child.find_first_node(QueryPlan.is_join)
-        return inner_join is None
+        if self.is_join():
+            inner_join = self.inner_child.find_first_node(QueryPlan.is_join)
+            if inner_join is not None:
+                return False
+        return all(child.is_left_deep() for child in self.children)
 
     def is_right_deep(self) -> bool:
         """Checks, whether the plan performs all joins in a right-deep order.
@@ -1320,10 +1318,11 @@ class QueryPlan:
         Right deep order means that the plan is linear and all joins are performed with the base table as the outer relation.
         As a special case, scan nodes are considered to be right-deep as well.
         """
-        if self.is_scan():
-            return True
-        outer_join = self.outer_child.find_first_node(QueryPlan.is_join)
-        return outer_join is None
+        if self.is_join():
+            outer_join = self.outer_child.find_first_node(QueryPlan.is_join)
+            if outer_join is not None:
+                return False
+        return all(child.is_right_deep() for child in self.children)
 
     def is_zigzag(self) -> bool:
         """Checks, whether the plan performs all joins in a zigzag order.
-- 
2.43.0


From d1844eb39709d5499264a35abb3536f7629f22cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:42 +0000
Subject: [PATCH 082/168] fix: combined support checks also check the database
 system

---
 postbound/validation.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/postbound/validation.py b/postbound/validation.py
index 82ba617..1d883ea 100644
--- a/postbound/validation.py
+++ b/postbound/validation.py
@@ -347,6 +347,14 @@ class CompoundCheck(OptimizationPreCheck):
         )
         return PreCheckResult(aggregated_passed, aggregated_failures)
 
+    def check_supported_database_system(
+        self, database_instance: Database
+    ) -> PreCheckResult:
+        return PreCheckResult.merge(
+            check.check_supported_database_system(database_instance)
+            for check in self.checks
+        )
+
     def describe(self) -> dict:
         return {"multiple_checks": [check.describe() for check in self.checks]}
 
-- 
2.43.0


From d52e56c4c5a917c0e65344121d32b08ab2edb721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:42 +0000
Subject: [PATCH 083/168] fix: hint and custom checks with different
 requirements are not equal

---
 postbound/validation.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/postbound/validation.py b/postbound/validation.py
index 1d883ea..5bab9c7 100644
--- a/postbound/validation.py
+++ b/postbound/validation.py
@@ -700,6 +700,14 @@ class SupportedHintCheck(OptimizationPreCheck):
     def describe(self) -> dict:
         return {"name": "database_operator_support", "features": self._features}
 
+    def __hash__(self) -> int:
+        return hash((self.name, frozenset(self._features)))
+
+    def __eq__(self, other: object) -> bool:
+        return isinstance(other, type(self)) and frozenset(
+            self._features
+        ) == frozenset(other._features)
+
 
 class CustomCheck(OptimizationPreCheck):
     """Check to quickly implement arbitrary one-off checks.
@@ -743,3 +751,14 @@ class CustomCheck(OptimizationPreCheck):
 
     def describe(self) -> dict:
         return {"name": self.name}
+
+    def __hash__(self) -> int:
+        return hash((self.name, self._query_check, self._db_check))
+
+    def __eq__(self, other: object) -> bool:
+        return (
+            isinstance(other, type(self))
+            and self.name == other.name
+            and self._query_check == other._query_check
+            and self._db_check == other._db_check
+        )
-- 
2.43.0


From 97287fd2222e8778166ed751140a9bae57585b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:42 +0000
Subject: [PATCH 084/168] fix: changing the algorithm of an integrated pipeline
 requires a new build

---
 postbound/_pipelines.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/postbound/_pipelines.py b/postbound/_pipelines.py
index 4f7511b..35149cc 100644
--- a/postbound/_pipelines.py
+++ b/postbound/_pipelines.py
@@ -390,6 +390,7 @@ class IntegratedOptimizationPipeline(OptimizationPipeline):
             The current pipeline to allow for easy method-chaining.
         """
         self._optimization_algorithm = algorithm
+        self._build = False
         return self
 
     def use(self, algorithm: CompleteOptimizationAlgorithm) -> Self:
-- 
2.43.0


From 3ddabc8bdb238254aa84db251d202d2aa3840cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:42 +0000
Subject: [PATCH 085/168] fix: integrated pipelines raise the documented errors
 for failed checks

---
 postbound/_pipelines.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postbound/_pipelines.py b/postbound/_pipelines.py
index 35149cc..3522c80 100644
--- a/postbound/_pipelines.py
+++ b/postbound/_pipelines.py
@@ -428,7 +428,7 @@ class IntegratedOptimizationPipeline(OptimizationPipeline):
         if pre_check is not None:
             pre_check.check_supported_database_system(
                 self._target_db
-            ).ensure_all_passed()
+            ).ensure_all_passed(self._target_db)
         self._build = True
         return self
 
@@ -441,7 +441,7 @@ class IntegratedOptimizationPipeline(OptimizationPipeline):
         assert self.optimization_algorithm is not None
         pre_check = self.optimization_algorithm.pre_check()
         if pre_check is not None:
-            pre_check.check_supported_query(query).ensure_all_passed()
+            pre_check.check_supported_query(query).ensure_all_passed(query)
 
         physical_qep = self.optimization_algorithm.optimize_query(query)
         return physical_qep
-- 
2.43.0


From 2f2f983ef826318f9fb8c16b6a9ed7a439c2ac60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:42 +0000
Subject: [PATCH 086/168] fix: multi-stage pipelines raise the documented error
 for unsupported hints

---
 postbound/_pipelines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/_pipelines.py b/postbound/_pipelines.py
index 3522c80..d11ffdc 100644
--- a/postbound/_pipelines.py
+++ b/postbound/_pipelines.py
@@ -964,7 +964,7 @@ class MultiStageOptimizationPipeline(OptimizationPipeline):
         )
         if not db_check_result.passed:
             failures = (
-                " and ".join(db_check_result.failure_reason)
+                " and ".join(str(reason) for reason in db_check_result.failure_reason)
                 if isinstance(db_check_result.failure_reason, list)
                 else db_check_result.failure_reason
             )
-- 
2.43.0


From a1ebbd97971dcc02f378daa51edf3cd6f004a07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:42 +0000
Subject: [PATCH 087/168] fix: multi-stage pipelines release their cardinality
 estimator after errors

---
 postbound/_pipelines.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/postbound/_pipelines.py b/postbound/_pipelines.py
index d11ffdc..672eb65 100644
--- a/postbound/_pipelines.py
+++ b/postbound/_pipelines.py
@@ -1008,11 +1008,13 @@ class MultiStageOptimizationPipeline(OptimizationPipeline):
             # To support this, we manually call these methods to prevent weird errors on the user side.
             if isinstance(self._plan_parameterization, CardinalityEstimator):
                 self._plan_parameterization.initialize(self._target_db, query)
-            plan_parameters = self._plan_parameterization.generate_plan_parameters(
-                query, join_order, physical_operators
-            )
-            if isinstance(self._plan_parameterization, CardinalityEstimator):
-                self._plan_parameterization.cleanup()
+            try:
+                plan_parameters = self._plan_parameterization.generate_plan_parameters(
+                    query, join_order, physical_operators
+                )
+            finally:
+                if isinstance(self._plan_parameterization, CardinalityEstimator):
+                    self._plan_parameterization.cleanup()
 
         return self._target_db.hinting().generate_hints(
             query,
-- 
2.43.0


From 7745f7218e7ac886ffcd3c72586385f8e19f978b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:42 +0000
Subject: [PATCH 088/168] fix: rebuilding a multi-stage pipeline drops the
 checks of replaced stages

---
 postbound/_pipelines.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/postbound/_pipelines.py b/postbound/_pipelines.py
index 672eb65..3d80599 100644
--- a/postbound/_pipelines.py
+++ b/postbound/_pipelines.py
@@ -722,6 +722,7 @@ class MultiStageOptimizationPipeline(OptimizationPipeline):
     def __init__(self, target_db: Database) -> None:
         self._target_db = target_db
         self._pre_check: OptimizationPreCheck | None = EmptyPreCheck()
+        self._support_check: OptimizationPreCheck = EmptyPreCheck()
         self._join_order_enumerator: JoinOrderOptimization | None = None
         self._physical_operator_selection: PhysicalOperatorSelection | None = None
         self._plan_parameterization: ParameterGeneration | None = None
@@ -957,9 +958,9 @@ class MultiStageOptimizationPipeline(OptimizationPipeline):
         if self.plan_parameterization is not None:
             all_checks.append(self.plan_parameterization.pre_check())
 
-        self._pre_check = merge_checks(all_checks)
+        self._support_check = merge_checks(all_checks)
 
-        db_check_result = self._pre_check.check_supported_database_system(
+        db_check_result = self._support_check.check_supported_database_system(
             self._target_db
         )
         if not db_check_result.passed:
@@ -982,8 +983,7 @@ class MultiStageOptimizationPipeline(OptimizationPipeline):
 
     def optimize_query(self, query: SqlQuery) -> SqlQuery:
         self._assert_is_build()
-        assert self._pre_check is not None
-        supported_query_check = self._pre_check.check_supported_query(query)
+        supported_query_check = self._support_check.check_supported_query(query)
         if not supported_query_check.passed:
             raise UnsupportedQueryError(query, supported_query_check.failure_reason)
 
@@ -1034,10 +1034,11 @@ class MultiStageOptimizationPipeline(OptimizationPipeline):
         return s
 
     def describe(self) -> jsondict:
+        pre_check = self._support_check if self._build else self._pre_check
         return {
             "name": "multi_stage_pipeline",
             "database_system": self._target_db.describe(),
-            "query_pre_check": self._pre_check.describe() if self._pre_check else None,
+            "query_pre_check": pre_check.describe() if pre_check else None,
             "join_ordering": self._join_order_enumerator.describe()
             if self._join_order_enumerator
             else None,
-- 
2.43.0


From 051b2f504aef70b9e6e1105090d9a28e881df060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:00 +0000
Subject: [PATCH 089/168] fix: distorted estimators set up, release and check
 the estimator they are based on

---
 postbound/opt/_cardinalities.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/postbound/opt/_cardinalities.py b/postbound/opt/_cardinalities.py
index 39075ab..2e6876e 100644
--- a/postbound/opt/_cardinalities.py
+++ b/postbound/opt/_cardinalities.py
@@ -14,6 +14,7 @@ from .._stages import (
 )
 from ..db import Database, DatabasePool
 from ..qal import SqlQuery
+from ..validation import OptimizationPreCheck
 from ..workloads import Workload
 
 
@@ -342,7 +343,7 @@ class CardinalityDistortion(CardinalityEstimator):
     def describe(self) -> dict:
         return {
             "name": "cardinality-distortion",
-            "estimator": "distortion",
+            "estimator": self.estimator.describe(),
             "distortion_factor": self.distortion_factor,
             "distortion_strategy": self.distortion_strategy,
         }
@@ -364,3 +365,14 @@ class CardinalityDistortion(CardinalityEstimator):
                 f"Unknown distortion strategy: '{self.distortion_strategy}'"
             )
         return round(card_est * distortion_factor)
+
+    def initialize(self, target_db: Database, query: SqlQuery) -> None:
+        super().initialize(target_db, query)
+        self.estimator.initialize(target_db, query)
+
+    def cleanup(self) -> None:
+        self.estimator.cleanup()
+        super().cleanup()
+
+    def pre_check(self) -> OptimizationPreCheck:
+        return self.estimator.pre_check()
-- 
2.43.0


From 847faa1241030fa1eaa6f3757df3eaf712f96922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:06 +0000
Subject: [PATCH 090/168] fix: merge_checks keeps additional checks if the
 first argument is empty

---
 postbound/validation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/validation.py b/postbound/validation.py
index 5bab9c7..459a26a 100644
--- a/postbound/validation.py
+++ b/postbound/validation.py
@@ -397,7 +397,7 @@ def merge_checks(
         A check that combines all of the given checks.
     """
     if not checks:
-        return EmptyPreCheck()
+        checks = []
     all_checks = (
         {checks} if isinstance(checks, OptimizationPreCheck) else set(checks)
     ) | set(more_checks)
-- 
2.43.0


From 5e44ff4e3c85bfd44cae727c041dd1ac4ceee0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:04 +0000
Subject: [PATCH 091/168] fix: InnerJoinPreCheck accepts inner joins and table
 functions

---
 postbound/validation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/postbound/validation.py b/postbound/validation.py
index 459a26a..ea86dc6 100644
--- a/postbound/validation.py
+++ b/postbound/validation.py
@@ -29,9 +29,11 @@ from .qal import (
     DirectTableSource,
     ExplicitFromClause,
     From,
+    FunctionTableSource,
     ImplicitFromClause,
     ImplicitSqlQuery,
     JoinTableSource,
+    JoinType,
     LogicalOperator,
     SqlQuery,
     SubqueryTableSource,
@@ -601,14 +603,14 @@ class InnerJoinPreCheck(OptimizationPreCheck):
     def _check_table_source(self, source: TableSource) -> PreCheckResult:
         """Handler method to check a single table source."""
         match source:
-            case DirectTableSource() | ValuesTableSource():
+            case DirectTableSource() | ValuesTableSource() | FunctionTableSource():
                 return PreCheckResult.with_all_passed()
             case SubqueryTableSource(subquery):
                 return self.check_supported_query(subquery)
             case JoinTableSource(left, right, _, join_type):
                 checks = (
                     [PreCheckResult.with_failure(InnerJoinFailure)]
-                    if join_type != "INNER"
+                    if join_type not in (JoinType.InnerJoin, JoinType.NaturalInnerJoin)
                     else []
                 )
                 checks.extend(
-- 
2.43.0


From d4714cb3e427cafea7878864caecc0405a678ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:01 +0000
Subject: [PATCH 092/168] fix: subqueries() and bound_tables() handle all kinds
 of table sources

---
 postbound/qal/_qal.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 1bc83b7..980d336 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -8118,11 +8118,8 @@ def _collect_subqueries_in_table_source(table_source: TableSource) -> set[SqlQue
     if isinstance(table_source, SubqueryTableSource):
         return {table_source.query}
     elif isinstance(table_source, JoinTableSource):
-        source_subqueries = _collect_subqueries_in_table_source(table_source.source)
-        nested_subqueries = util.set_union(
-            _collect_subqueries_in_table_source(nested_join)
-            for nested_join in table_source.joined_table
-        )
+        source_subqueries = _collect_subqueries_in_table_source(table_source.left)
+        nested_subqueries = _collect_subqueries_in_table_source(table_source.right)
         condition_subqueries = (
             util.set_union(
                 collect_subqueries_in_expression(cond_expr)
@@ -8132,6 +8129,8 @@ def _collect_subqueries_in_table_source(table_source: TableSource) -> set[SqlQue
             else set()
         )
         return source_subqueries | nested_subqueries | condition_subqueries
+    elif isinstance(table_source, FunctionTableSource):
+        return collect_subqueries_in_expression(table_source.function)
     else:
         return set()
 
@@ -8239,12 +8238,11 @@ def _collect_bound_tables_from_source(table_source: TableSource) -> set[TableRef
     elif isinstance(table_source, SubqueryTableSource):
         return _collect_bound_tables(table_source.query.from_clause)
     elif isinstance(table_source, JoinTableSource):
-        direct_tables = _collect_bound_tables_from_source(table_source.source)
-        nested_tables = util.set_union(
-            _collect_bound_tables_from_source(nested_join)
-            for nested_join in table_source.joined_table
-        )
+        direct_tables = _collect_bound_tables_from_source(table_source.left)
+        nested_tables = _collect_bound_tables_from_source(table_source.right)
         return direct_tables | nested_tables
+    else:
+        return table_source.tables()
 
 
 def _collect_bound_tables(from_clause: From) -> set[TableReference]:
@@ -8268,7 +8266,9 @@ def _collect_bound_tables(from_clause: From) -> set[TableReference]:
     --------
     SqlQuery.bound_tables
     """
-    if isinstance(from_clause, ImplicitFromClause):
+    if from_clause is None:
+        return set()
+    elif isinstance(from_clause, ImplicitFromClause):
         return from_clause.tables()
     else:
         return util.set_union(
@@ -8842,7 +8842,7 @@ class SqlQuery:
         if self.where_clause:
             current_predicate = current_predicate.and_(self.where_clause.predicate)
 
-        from_predicates = self.from_clause.predicates()
+        from_predicates = self.from_clause.predicates() if self.from_clause else None
         if from_predicates:
             current_predicate = current_predicate.and_(from_predicates)
 
-- 
2.43.0


From 2fb83fd8223385cc3282eb10e693090685bedbf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:30 +0000
Subject: [PATCH 093/168] fix: bound_tables() contains the targets of
 subqueries in the FROM clause

---
 postbound/qal/_qal.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 980d336..424c6f4 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -8236,7 +8236,8 @@ def _collect_bound_tables_from_source(table_source: TableSource) -> set[TableRef
     if isinstance(table_source, DirectTableSource):
         return {table_source.table}
     elif isinstance(table_source, SubqueryTableSource):
-        return _collect_bound_tables(table_source.query.from_clause)
+        target = {table_source.target_table} if table_source.target_table else set()
+        return target | _collect_bound_tables(table_source.query.from_clause)
     elif isinstance(table_source, JoinTableSource):
         direct_tables = _collect_bound_tables_from_source(table_source.left)
         nested_tables = _collect_bound_tables_from_source(table_source.right)
-- 
2.43.0


From c3e36632ef06f37e8bc0d92931284ada60cd3863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:30 +0000
Subject: [PATCH 094/168] fix: cross products are detected for all tables of
 the FROM clause

---
 postbound/qal/_qal.py   | 40 ++++++++++++++++++++++++++++++++++++----
 postbound/validation.py |  4 +---
 2 files changed, 37 insertions(+), 7 deletions(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 424c6f4..99b0287 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -8246,6 +8246,34 @@ def _collect_bound_tables_from_source(table_source: TableSource) -> set[TableRef
         return table_source.tables()
 
 
+def _collect_joined_tables(table_source: TableSource) -> set[TableReference]:
+    """Handler method to provide all tables that a table source contributes to the joins of a query.
+
+    In contrast to bound tables, this does not include the tables that are only used within subqueries.
+
+    Parameters
+    ----------
+    table_source : TableSource
+        The table to check
+
+    Returns
+    -------
+    set[TableReference]
+        The joined tables
+
+    See Also
+    --------
+    SqlQuery.contains_cross_product
+    """
+    if isinstance(table_source, JoinTableSource):
+        left_tables = _collect_joined_tables(table_source.left)
+        return left_tables | _collect_joined_tables(table_source.right)
+    elif isinstance(table_source, SubqueryTableSource):
+        return {table_source.target_table} if table_source.target_table else set()
+    else:
+        return table_source.tables()
+
+
 def _collect_bound_tables(from_clause: From) -> set[TableReference]:
     """Handler method to provide all tables that are "produced" in the given clause.
 
@@ -9100,10 +9128,14 @@ class SqlQuery:
         """
         if not self._from_clause:
             return False
-        if self.predicates().empty_predicate():
-            return True
-        join_graph = self.predicates().join_graph()
-        return len(nx.connected_components(join_graph)) > 1
+        joined_tables = util.set_union(
+            _collect_joined_tables(source) for source in self._from_clause.items
+        )
+        if len(joined_tables) < 2:
+            return False
+        join_graph = nx.Graph(self.predicates().join_graph().subgraph(joined_tables))
+        join_graph.add_nodes_from(joined_tables)
+        return not nx.is_connected(join_graph)
 
     def iterexpressions(self) -> Iterable[SqlExpression]:
         """Provides access to all expressions that are directly contained in this query.
diff --git a/postbound/validation.py b/postbound/validation.py
index ea86dc6..a1b85d6 100644
--- a/postbound/validation.py
+++ b/postbound/validation.py
@@ -13,8 +13,6 @@ from collections.abc import Callable, Iterable
 from dataclasses import dataclass
 from typing import Optional
 
-import networkx as nx
-
 from . import util
 from ._core import PhysicalOperator
 from ._hints import HintType
@@ -448,7 +446,7 @@ class CrossProductPreCheck(OptimizationPreCheck):
         super().__init__("no-cross-products")
 
     def check_supported_query(self, query: SqlQuery) -> PreCheckResult:
-        no_cross_products = nx.is_connected(query.predicates().join_graph())
+        no_cross_products = not query.contains_cross_product()
         failure_reason = "" if no_cross_products else CrossProductFailure
         return PreCheckResult(no_cross_products, failure_reason)
 
-- 
2.43.0


From d6bf6fd2cf0fbc9b0deac8f4a59e97c9fea340de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:03 +0000
Subject: [PATCH 095/168] fix: subqueries() covers the DISTINCT ON expressions

---
 postbound/qal/_qal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 99b0287..1db05a7 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -8172,8 +8172,8 @@ def _collect_subqueries(clause: BaseClause) -> set[SqlQuery]:
         return set()
     elif isinstance(clause, Select):
         return util.set_union(
-            collect_subqueries_in_expression(target.expression)
-            for target in clause.targets
+            collect_subqueries_in_expression(expression)
+            for expression in clause.iterexpressions()
         )
     elif isinstance(clause, ImplicitFromClause):
         return set()
-- 
2.43.0


From 28a1b447409dc9e4049f67b2bf33daf24abd3262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:06 +0000
Subject: [PATCH 096/168] fix: schema lookups reject virtual tables before they
 contact the database

---
 postbound/db/_db.py | 14 ++++++++++++++
 postbound/duckdb.py |  7 +++++++
 2 files changed, 21 insertions(+)

diff --git a/postbound/db/_db.py b/postbound/db/_db.py
index 7199ce8..1bcf79a 100644
--- a/postbound/db/_db.py
+++ b/postbound/db/_db.py
@@ -980,6 +980,8 @@ class DatabaseSchema(abc.ABC, Mapping[TableReference, TableInfo]):
         """
         if (table := column.table) is None:
             raise UnboundColumnError(column)
+        if table.virtual:
+            raise VirtualTableError(table)
 
         schema_placeholder = (
             self._prep_placeholder if table.schema else "current_schema()"
@@ -1031,6 +1033,8 @@ class DatabaseSchema(abc.ABC, Mapping[TableReference, TableInfo]):
         *information_schema.table_constraints* and *information_schema.constraint_column_usage* views.
         """
         table = table if isinstance(table, TableReference) else TableReference(table)
+        if table.virtual:
+            raise VirtualTableError(table)
         schema_placeholder = (
             self._prep_placeholder if table.schema else "current_schema()"
         )
@@ -1101,6 +1105,8 @@ class DatabaseSchema(abc.ABC, Mapping[TableReference, TableInfo]):
 
         if (table := column.table) is None:
             raise UnboundColumnError(column)
+        if table.virtual:
+            raise VirtualTableError(table)
 
         schema_placeholder = (
             self._prep_placeholder if table.schema else "current_schema()"
@@ -1183,6 +1189,8 @@ class DatabaseSchema(abc.ABC, Mapping[TableReference, TableInfo]):
         """
         if (table := column.table) is None:
             raise UnboundColumnError(column)
+        if table.virtual:
+            raise VirtualTableError(table)
 
         schema_placeholder = (
             self._prep_placeholder if table.schema else "current_schema()"
@@ -1280,6 +1288,8 @@ class DatabaseSchema(abc.ABC, Mapping[TableReference, TableInfo]):
         """
         if (table := column.table) is None:
             raise UnboundColumnError(column)
+        if table.virtual:
+            raise VirtualTableError(table)
 
         schema_placeholder = (
             self._prep_placeholder if table.schema else "current_schema()"
@@ -1364,6 +1374,8 @@ class DatabaseSchema(abc.ABC, Mapping[TableReference, TableInfo]):
         """
         if (table := column.table) is None:
             raise UnboundColumnError(column)
+        if table.virtual:
+            raise VirtualTableError(table)
 
         schema_placeholder = (
             self._prep_placeholder if table.schema else "current_schema()"
@@ -1414,6 +1426,8 @@ class DatabaseSchema(abc.ABC, Mapping[TableReference, TableInfo]):
         """
         if (table := column.table) is None:
             raise UnboundColumnError(column)
+        if table.virtual:
+            raise VirtualTableError(table)
 
         schema_placeholder = (
             self._prep_placeholder if table.schema else "current_schema()"
diff --git a/postbound/duckdb.py b/postbound/duckdb.py
index e46a99d..f5e5471 100644
--- a/postbound/duckdb.py
+++ b/postbound/duckdb.py
@@ -27,6 +27,7 @@ from ._core import (
     ScanOperator,
     TableReference,
     UnboundColumnError,
+    VirtualTableError,
 )
 from ._hints import (
     HintType,
@@ -262,6 +263,8 @@ class DuckDBSchema(DatabaseSchema):
     def has_secondary_index(self, column: ColumnReference) -> bool:
         if not ColumnReference.assert_bound(column):
             raise UnboundColumnError(column)
+        if column.table.virtual:
+            raise VirtualTableError(column.table)
 
         schema_placeholder = "?" if column.table.schema else "current_schema()"
 
@@ -287,6 +290,8 @@ class DuckDBSchema(DatabaseSchema):
     def indexes_on(self, column: ColumnReference) -> set[str]:
         if not ColumnReference.assert_bound(column):
             raise UnboundColumnError(column)
+        if column.table.virtual:
+            raise VirtualTableError(column.table)
 
         schema_placeholder = "?" if column.table.schema else "current_schema()"
 
@@ -338,6 +343,8 @@ class DuckDBSchema(DatabaseSchema):
     def foreign_keys_on(self, column: ColumnReference) -> set[BoundColumnReference]:
         if not ColumnReference.assert_bound(column):
             raise UnboundColumnError(column)
+        if column.table.virtual:
+            raise VirtualTableError(column.table)
 
         schema_placeholder = "?" if column.table.schema else "current_schema()"
         query_template = f"""
-- 
2.43.0


From c5c64cb3350d20b6c840a45891cf5ae47bec3575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:06 +0000
Subject: [PATCH 097/168] fix: foreign keys are read from the table and column
 of the result row

---
 postbound/db/_db.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/db/_db.py b/postbound/db/_db.py
index 1bcf79a..d1805de 100644
--- a/postbound/db/_db.py
+++ b/postbound/db/_db.py
@@ -1225,7 +1225,7 @@ class DatabaseSchema(abc.ABC, Mapping[TableReference, TableInfo]):
         assert result_set is not None
 
         return {
-            BoundColumnReference(row[1], TableReference(row[0], schema=table.schema))
+            BoundColumnReference(row[2], TableReference(row[1], schema=table.schema))
             for row in result_set
         }
 
-- 
2.43.0


From 770884c73b0704abdd7ed05acf80501d5f805873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:06 +0000
Subject: [PATCH 098/168] fix: MySQL catalog queries receive their parameters
 as a tuple

---
 postbound/mysql.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postbound/mysql.py b/postbound/mysql.py
index 251cbaa..21a0939 100644
--- a/postbound/mysql.py
+++ b/postbound/mysql.py
@@ -401,7 +401,7 @@ class MysqlSchemaInterface(DatabaseSchema):
             FROM information_schema.columns
             WHERE table_name = %s AND column_key <> ''
         """)
-        self._db.cursor().execute(index_query, table.full_name)
+        self._db.cursor().execute(index_query, (table.full_name,))
         result_set = self._db.cursor().fetchall()
         assert result_set is not None
         index_map = dict(result_set)
@@ -416,7 +416,7 @@ class MysqlStatisticsInterface(DatabaseStatistics):
         count_query = (
             "SELECT table_rows FROM information_schema.tables WHERE table_name = %s"
         )
-        self._db.cursor().execute(count_query, table.full_name)
+        self._db.cursor().execute(count_query, (table.full_name,))
         result_set = self._db.cursor().fetchone()
         assert result_set is not None
         count = result_set[0]
-- 
2.43.0


From 6ef40fdaca572b74539534b8d45c57cab00027a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:06 +0000
Subject: [PATCH 099/168] fix: MySQL distinct value statistics are returned as
 a number

---
 postbound/mysql.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/mysql.py b/postbound/mysql.py
index 21a0939..1146c47 100644
--- a/postbound/mysql.py
+++ b/postbound/mysql.py
@@ -436,7 +436,7 @@ class MysqlStatisticsInterface(DatabaseStatistics):
         elif distinct_vals is None:
             return self._calculate_distinct_values(column, cache_enabled=True)
         else:
-            return distinct_vals
+            return distinct_vals[0]
 
     def _retrieve_min_max_values_from_stats(
         self, column: BoundColumnReference
-- 
2.43.0


From 99af0923cc6c3df12f912e0b760c5f96f63e0ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:59 +0000
Subject: [PATCH 100/168] fix: emulated histograms pass the cache choice on to
 the row count

---
 postbound/db/_db.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/postbound/db/_db.py b/postbound/db/_db.py
index d1805de..7f18dfa 100644
--- a/postbound/db/_db.py
+++ b/postbound/db/_db.py
@@ -2856,7 +2856,9 @@ class DatabaseStatistics(abc.ABC):
         interpolation: HistogramApproximation,
         cache_enabled: Optional[bool] = None,
     ) -> Optional[Histogram]:
-        n_rows = self._calculate_total_rows(column.table)
+        n_rows = self._calculate_total_rows(
+            column.table, cache_enabled=cache_enabled
+        )
         if n_rows == 0:
             return None
 
-- 
2.43.0


From 97b768cdbe70a6b1e371d590a6fb54e1d45733ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:59 +0000
Subject: [PATCH 101/168] fix: DuckDB queries fall back to the cache setting of
 the database

---
 postbound/duckdb.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/postbound/duckdb.py b/postbound/duckdb.py
index f5e5471..dd7eb0a 100644
--- a/postbound/duckdb.py
+++ b/postbound/duckdb.py
@@ -112,6 +112,9 @@ class DuckDBInterface(Database):
         elif isinstance(query, UserString):
             query = str(query)
 
+        cache_enabled = cache_enabled or (
+            cache_enabled is None and self._cache_enabled
+        )
         if cache_enabled:
             cached_res = self._query_cache.get(query)
             if cached_res is not None:
-- 
2.43.0


From b31b50153448434cfaa7143c36717e9bbb36baea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:29 +0000
Subject: [PATCH 102/168] fix: ignored execution errors leave no partial result
 row

---
 postbound/bench.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/postbound/bench.py b/postbound/bench.py
index 6e9eba7..e6d80d1 100644
--- a/postbound/bench.py
+++ b/postbound/bench.py
@@ -944,7 +944,8 @@ def _exec_ctl_loop(
         case _FailedExecution(err) if cfg.error_action == "raise":
             raise err
         case _FailedExecution(_) if cfg.error_action == "ignore":
-            pass
+            sample.timestamps.pop()
+            return
         case _FailedExecution(_):
             raise ValueError(f"Unknown error action: {cfg.error_action}")
         case _ as other:
-- 
2.43.0


From 8624e93f343eb4df138e4b01c86dba5fd1daf7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:29 +0000
Subject: [PATCH 103/168] fix: logged execution errors are contained in the
 progressive output

---
 postbound/bench.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/bench.py b/postbound/bench.py
index e6d80d1..de964b8 100644
--- a/postbound/bench.py
+++ b/postbound/bench.py
@@ -951,7 +951,7 @@ def _exec_ctl_loop(
         case _ as other:
             raise RuntimeError(f"Unhandled execution result: {other}")
 
-    if cfg.output and sample.last_successful():
+    if cfg.output:
         sample.write_progressive(cfg.output, cfg.output_args)
 
     if cfg.exec_callback and sample.last_successful():
-- 
2.43.0


From f950e17f804ec5fc103a025cad041b8241b2cb7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:29 +0000
Subject: [PATCH 104/168] fix: timeouts are not used as feedback for online
 training

---
 postbound/bench.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/bench.py b/postbound/bench.py
index de964b8..2808b0b 100644
--- a/postbound/bench.py
+++ b/postbound/bench.py
@@ -786,7 +786,7 @@ class _ResultSample:
     def to_execution_results(self) -> list[ExecutionResult]:
         results: list[ExecutionResult] = []
         for i, status in enumerate(self.status):
-            if status in ["optimization-error", "execution-error"]:
+            if status in ["optimization-error", "execution-error", "timeout"]:
                 continue
 
             sample = ExecutionResult(
-- 
2.43.0


From f241033abb38fa33650d274f52b0662cd33899ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:29 +0000
Subject: [PATCH 105/168] fix: errors during the query preparation are handled
 like execution errors

---
 postbound/bench.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/postbound/bench.py b/postbound/bench.py
index 2808b0b..ed22cdd 100644
--- a/postbound/bench.py
+++ b/postbound/bench.py
@@ -542,10 +542,10 @@ def _execute_query(
     if timeout and not isinstance(on, TimeoutSupport):
         raise ValueError(f"Database system {on} does not provide timeout support")
 
-    if query_prep:
-        query = query_prep.prepare_query(query, on=on)
-
     try:
+        if query_prep:
+            query = query_prep.prepare_query(query, on=on)
+
         if timeout:
             exec_start = time.perf_counter_ns()
             result_set = on.execute_with_timeout(query, timeout=timeout)  # type: ignore[arg-type]
-- 
2.43.0


From 4886386b2d318d94c5218847a2de9574aea89a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:29 +0000
Subject: [PATCH 106/168] fix: unknown error actions are rejected for failed
 optimizations

---
 postbound/bench.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/postbound/bench.py b/postbound/bench.py
index ed22cdd..32d5fd2 100644
--- a/postbound/bench.py
+++ b/postbound/bench.py
@@ -995,6 +995,8 @@ def _workload_ctl_loop(
                     raise err
                 case "ignore":
                     results.scratch_last_sample()
+                case _:
+                    raise ValueError(f"Unknown error action: {cfg.error_action}")
             continue
 
         for _ in range(cfg.per_query_repetitions):
-- 
2.43.0


From 4d3bd9e9f30b881bf110b4a656c81b69dfee2639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:43 +0000
Subject: [PATCH 107/168] fix: queries that cannot be parsed are skipped when
 reading workloads

---
 postbound/workloads.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/postbound/workloads.py b/postbound/workloads.py
index 01eb024..de9fb11 100644
--- a/postbound/workloads.py
+++ b/postbound/workloads.py
@@ -215,6 +215,7 @@ class Workload(UserDict[LabelType, SqlQuery]):
                         )
                     case "ignore":
                         pass
+                continue
 
             query_label = query_file_path.stem
             queries[label_prefix + query_label] = parsed_query
@@ -733,6 +734,7 @@ def read_workload(
                     )
                 case "ignore":
                     pass
+            continue
 
         query_label = query_file_path.stem
         queries[query_label] = parsed_query
-- 
2.43.0


From efd5265f1692648a697b5dd835d0f4a2a4a866ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:43 +0000
Subject: [PATCH 108/168] fix: read_workload applies the label prefix and
 passes the encoding on

---
 postbound/workloads.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/postbound/workloads.py b/postbound/workloads.py
index de9fb11..e79f03c 100644
--- a/postbound/workloads.py
+++ b/postbound/workloads.py
@@ -737,7 +737,7 @@ def read_workload(
             continue
 
         query_label = query_file_path.stem
-        queries[query_label] = parsed_query
+        queries[query_label_prefix + query_label] = parsed_query
 
     base_workload = Workload(queries, name=name, root=root)
     if not recurse_subdirectories:
@@ -757,6 +757,7 @@ def read_workload(
             query_file_pattern=query_file_pattern,
             recurse_subdirectories=True,
             query_label_prefix=subdir_prefix,
+            file_encoding=file_encoding,
             bind_columns=bind_columns,
             include_hints=include_hints,
             on_error=on_error,
-- 
2.43.0


From 54af1f6881daf20135fc6642af481fc4b803fdb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:43 +0000
Subject: [PATCH 109/168] fix: Workload.last(0) is empty

---
 postbound/workloads.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/workloads.py b/postbound/workloads.py
index e79f03c..9dc066a 100644
--- a/postbound/workloads.py
+++ b/postbound/workloads.py
@@ -379,7 +379,7 @@ class Workload(UserDict[LabelType, SqlQuery]):
         Workload[LabelType]
             A workload consisting of the last `n` queries of the current workload
         """
-        last_n_labels = self._sorted_labels[-n:]
+        last_n_labels = self._sorted_labels[-n:] if n else []
         sub_workload = {label: self.data[label] for label in last_n_labels}
         return Workload(sub_workload, self._name, self._root)
 
-- 
2.43.0


From 4a4716070e806feaf87d0590d17e91b8334e6e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:13 +0000
Subject: [PATCH 110/168] fix: benchmarks whose queries are all ignored yield
 an empty result

---
 postbound/bench.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/postbound/bench.py b/postbound/bench.py
index 32d5fd2..ca2ef01 100644
--- a/postbound/bench.py
+++ b/postbound/bench.py
@@ -912,6 +912,8 @@ class _ExecutionResults:
 
     def to_df(self) -> pd.DataFrame:
         """Provides all results as a single data frame. This is the final output of the benchmarking process."""
+        if not self._samples:
+            return pd.DataFrame()
         samples = [sample.to_df() for sample in self._samples]
         return pd.concat(samples, ignore_index=True)
 
-- 
2.43.0


From 48ab3c7394f616f5c80db59ddf4aaa11b158f4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:00 +0000
Subject: [PATCH 111/168] fix: pg_lab hints of parallel operators do not
 replace other operators

---
 postbound/postgres.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/postbound/postgres.py b/postbound/postgres.py
index 5b7b8b3..178dc94 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -2392,6 +2392,7 @@ def _generate_pglab_hints(
                     category=HintWarning,
                     stacklevel=3,
                 )
+                hint = f"{op}({table})"
             else:
                 hint = f"{op}({table})"
             hints.append(hint)
@@ -2409,6 +2410,7 @@ def _generate_pglab_hints(
                     category=HintWarning,
                     stacklevel=3,
                 )
+                hint = f"{op}({intermediate})"
             else:
                 hint = f"{op}({intermediate})"
             hints.append(hint)
-- 
2.43.0


From 2a91409b1fedd0f2039bba02e99772308e8bb75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:00 +0000
Subject: [PATCH 112/168] fix: DuckDB system settings are emitted and executed
 as SET statements

---
 postbound/duckdb.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/postbound/duckdb.py b/postbound/duckdb.py
index dd7eb0a..593715e 100644
--- a/postbound/duckdb.py
+++ b/postbound/duckdb.py
@@ -104,8 +104,7 @@ class DuckDBInterface(Database):
             and query.hints
             and query.hints.preparatory_statements
         ):
-            for preparatory_statement in query.hints.preparatory_statements:
-                self._cur.execute(preparatory_statement)
+            self._cur.execute(query.hints.preparatory_statements)
             query = transform.drop_hints(query, preparatory_statements_only=True)
         if isinstance(query, SqlQuery):
             query = self._hinting.format_query(query)
@@ -908,7 +907,7 @@ class DuckDBHintService(HintService):
             else:
                 val_txt = str(val)
 
-            global_settings.append(f"{param} = {val_txt};")
+            global_settings.append(f"SET {param} = {val_txt};")
 
         return HintParts(global_settings, hints)
 
-- 
2.43.0


From ba452df5113a9a9262abba7ab20bbc6028775570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:00 +0000
Subject: [PATCH 113/168] fix: MySQL settings are kept if there are no other
 hints

---
 postbound/mysql.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/postbound/mysql.py b/postbound/mysql.py
index 1146c47..d313ac8 100644
--- a/postbound/mysql.py
+++ b/postbound/mysql.py
@@ -630,14 +630,11 @@ class MysqlHintService(HintService):
         operator_hint = _generate_operator_hints(physical_operators)
         prep_statements = _generate_prep_statements(physical_operators, plan_parameters)
 
-        if not join_order_hint and not operator_hint:
+        if not join_order_hint and not operator_hint and not prep_statements:
             return query
 
-        final_hint_block = (
-            "/*+\n"
-            + "\n".join(hint for hint in (join_order_hint, operator_hint) if hint)
-            + "\n*/"
-        )
+        hints = [hint for hint in (join_order_hint, operator_hint) if hint]
+        final_hint_block = "/*+\n" + "\n".join(hints) + "\n*/" if hints else ""
         hint_clause = Hint(prep_statements, final_hint_block)
         return transform.add_clause(query, hint_clause)
 
-- 
2.43.0


From a4b7825a4d3e80f403e5b45d30a836f4f74fe562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:00 +0000
Subject: [PATCH 114/168] fix: MySQL rejects bushy plans and plans that are
 combined with other decisions

---
 postbound/mysql.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/postbound/mysql.py b/postbound/mysql.py
index d313ac8..ab273a4 100644
--- a/postbound/mysql.py
+++ b/postbound/mysql.py
@@ -615,10 +615,13 @@ class MysqlHintService(HintService):
         physical_operators: Optional[PhysicalOperatorAssignment] = None,
         plan_parameters: Optional[PlanParameterization] = None,
     ) -> SqlQuery:
-        if join_order and not join_order.is_linear():
-            raise UnsupportedDatabaseFeatureError(
-                self._mysql_instance,
-                "Can only enforce join order for linear join trees for now",
+        has_param = any(
+            param is not None
+            for param in (join_order, physical_operators, plan_parameters)
+        )
+        if plan is not None and has_param:
+            raise ValueError(
+                "Can only hint an entire query plan, or individual parts, not both."
             )
 
         if plan is not None:
@@ -626,6 +629,12 @@ class MysqlHintService(HintService):
             physical_operators = operators_from_plan(plan)
             plan_parameters = parameters_from_plan(plan)
 
+        if join_order and not join_order.is_linear():
+            raise UnsupportedDatabaseFeatureError(
+                self._mysql_instance,
+                "Can only enforce join order for linear join trees for now",
+            )
+
         join_order_hint = _generate_join_order_hint(join_order)
         operator_hint = _generate_operator_hints(physical_operators)
         prep_statements = _generate_prep_statements(physical_operators, plan_parameters)
-- 
2.43.0


From fa47c3bbb507fcf500f955653c8ad1ed9d223396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:20 +0000
Subject: [PATCH 115/168] fix: MySQL and DuckDB warn about decisions that they
 cannot enforce

---
 postbound/duckdb.py |  7 +++++++
 postbound/mysql.py  | 13 +++++++++++++
 2 files changed, 20 insertions(+)

diff --git a/postbound/duckdb.py b/postbound/duckdb.py
index 593715e..f57a3f1 100644
--- a/postbound/duckdb.py
+++ b/postbound/duckdb.py
@@ -845,6 +845,8 @@ class DuckDBHintService(HintService):
                     raise UnsupportedDatabaseFeatureError(self._db, scan.operator)
             tab_txt = tab.identifier()
             hints.append(f"{op_txt}({tab_txt})")
+            if scan.parallel_workers > 1:
+                warnings.warn("Cannot generate parallel worker hints for DuckDB.")
 
         for intermediate, join in ops.join_operators.items():
             match join.operator:
@@ -859,6 +861,8 @@ class DuckDBHintService(HintService):
 
             intermediate_txt = self._intermediate_to_hint(intermediate)
             hints.append(f"{op_txt}({intermediate_txt})")
+            if join.parallel_workers > 1:
+                warnings.warn("Cannot generate parallel worker hints for DuckDB.")
 
         if ops.intermediate_operators:
             raise UnsupportedDatabaseFeatureError(
@@ -900,6 +904,9 @@ class DuckDBHintService(HintService):
         if parameters.parallel_workers:
             raise UnsupportedDatabaseFeatureError(self._db, "parallel worker hints")
 
+        if parameters.execution_mode is not None:
+            warnings.warn("Cannot generate execution mode hints for DuckDB.")
+
         global_settings: list[str] = []
         for param, val in parameters.system_settings.items():
             if isinstance(val, str):
diff --git a/postbound/mysql.py b/postbound/mysql.py
index ab273a4..e83b4ec 100644
--- a/postbound/mysql.py
+++ b/postbound/mysql.py
@@ -553,11 +553,15 @@ def _generate_operator_hints(
         table_key = table.identifier()
         operator = MysqlOptimizerHints[scan_assignment.operator]
         hints.append(f"  {operator}({table_key})")
+        if scan_assignment.parallel_workers > 1:
+            warnings.warn("Cannot generate parallel worker hints for MySQL.")
 
     for join, join_assignment in physical_operators.join_operators.items():
         join_key = ", ".join(tab.identifier() for tab in join)
         operator = MysqlOptimizerHints[join_assignment.operator]
         hints.append(f"  {operator}({join_key})")
+        if join_assignment.parallel_workers > 1:
+            warnings.warn("Cannot generate parallel worker hints for MySQL.")
 
     if physical_operators.intermediate_operators:
         warnings.warn("Cannot generate intermediate operator hints for MySQL.")
@@ -624,6 +628,15 @@ class MysqlHintService(HintService):
                 "Can only hint an entire query plan, or individual parts, not both."
             )
 
+        if plan_parameters and (
+            plan_parameters.cardinalities
+            or plan_parameters.parallel_workers
+            or plan_parameters.execution_mode is not None
+        ):
+            warnings.warn(
+                "Cannot generate cardinality or parallelization hints for MySQL."
+            )
+
         if plan is not None:
             join_order = jointree_from_plan(plan)
             physical_operators = operators_from_plan(plan)
-- 
2.43.0


From ecc0ea54e5d05b735adf802cfc50a5937191cf9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:51 +0000
Subject: [PATCH 116/168] fix: MySQL plans are parsed before they are
 translated

---
 postbound/mysql.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/postbound/mysql.py b/postbound/mysql.py
index e83b4ec..afa5f14 100644
--- a/postbound/mysql.py
+++ b/postbound/mysql.py
@@ -701,7 +701,9 @@ class MysqlOptimizer(OptimizerInterface):
         raise NotImplementedError("MySQL interface does not support ANALYZE plans yet")
 
     def parse_plan(self, plan: Any, *, query: Optional[SqlQuery] = None) -> QueryPlan:
-        mysql_plan = MysqlExplainPlan(plan)
+        if isinstance(plan, str):
+            plan = json.loads(plan)
+        mysql_plan = parse_mysql_explain_plan(query, plan)
         return mysql_plan.as_qep()
 
     def cardinality_estimate(self, query: SqlQuery | str) -> Cardinality:
-- 
2.43.0


From c7626747d6250b84a6a49f50ab1baa4d31a54a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:51 +0000
Subject: [PATCH 117/168] fix: materialized subqueries of MySQL plans become
 subplans

---
 postbound/mysql.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/postbound/mysql.py b/postbound/mysql.py
index afa5f14..3d97e31 100644
--- a/postbound/mysql.py
+++ b/postbound/mysql.py
@@ -1198,6 +1198,7 @@ class MysqlExplainNode:
             operator=_MysqlExplainScanNodes.get(self.scan_type),
             estimated_cost=self.scan_cost,
             estimated_cardinality=Cardinality(self.scan_cardinality_estimate),
+            subplan_root=self.subquery.as_qep() if self.subquery is not None else None,
         )
 
     def _join_str(self) -> str:
-- 
2.43.0


From c5b5b24ab9bcdae8a594c2dc0e1037e6a28e5159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:09 +0000
Subject: [PATCH 118/168] fix: materialized subqueries of MySQL plans are read
 from their query block

---
 postbound/mysql.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/postbound/mysql.py b/postbound/mysql.py
index 3d97e31..a9404ab 100644
--- a/postbound/mysql.py
+++ b/postbound/mysql.py
@@ -989,13 +989,12 @@ def _parse_mysql_table_node(
     scan_cost, join_cost = _parse_cost_info(explain_data)
     scan_card, join_card = _parse_cardinality_info(explain_data)
 
-    subquery = (
-        _parse_next_mysql_explain_node(
-            query, explain_data["materialized_from_subquery"]
+    subquery = None
+    if "materialized_from_subquery" in explain_data:
+        subquery_data: dict = explain_data["materialized_from_subquery"]
+        subquery = _parse_next_mysql_explain_node(
+            query, subquery_data.get("query_block", subquery_data)
         )
-        if "materialized_from_subquery" in explain_data
-        else None
-    )
     table_node = MysqlExplainNode(
         scan_type,
         join_type,
-- 
2.43.0


From 7f9b19f4401b52fe1b812bb15780951e558b942c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:47 +0000
Subject: [PATCH 119/168] fix: compare the costs of both plans when comparing
 query plans

---
 postbound/opt/_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/opt/_analysis.py b/postbound/opt/_analysis.py
index ace8cbd..9e1804c 100644
--- a/postbound/opt/_analysis.py
+++ b/postbound/opt/_analysis.py
@@ -625,7 +625,7 @@ def compare_query_plans(left: QueryPlan, right: QueryPlan) -> PlanChangeset:
             )
         )
     if left_cost != right_cost and not (
-        math.isnan(left_cost) and math.isnan(left_cost)
+        math.isnan(left_cost) and math.isnan(right_cost)
     ):
         changes.append(
             PlanChangeEntry(
-- 
2.43.0


From e21b7fb4d68e5d4c732797f388653e587671f7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:48 +0000
Subject: [PATCH 120/168] fix: sort partial outer paths themselves when
 generating parallel merge joins

---
 postbound/opt/dynprog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/opt/dynprog.py b/postbound/opt/dynprog.py
index 3dd90c9..34062e5 100644
--- a/postbound/opt/dynprog.py
+++ b/postbound/opt/dynprog.py
@@ -1027,7 +1027,7 @@ class PostgresDynProg(PlanEnumerator):
                     continue
 
                 outer_path = (
-                    outer_path
+                    outer_partial
                     if self._is_sorted_by(outer_partial, outer_col)
                     else self._create_sort_path(outer_partial, sort_key=outer_col)
                 )
-- 
2.43.0


From 5a0c16ebadd0d28ea4d0e6ec3cd35458c00fd60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:48 +0000
Subject: [PATCH 121/168] fix: generate merge joins for join keys with exactly
 one pair of partners

---
 postbound/opt/dynprog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/opt/dynprog.py b/postbound/opt/dynprog.py
index 34062e5..f1ad93e 100644
--- a/postbound/opt/dynprog.py
+++ b/postbound/opt/dynprog.py
@@ -1730,7 +1730,7 @@ class PostgresDynProg(PlanEnumerator):
         This method assumes that we indeed only perform a binary equi-join and will break otherwise.
         """
         partners = join_key.join_partners()
-        if len(partners) != 2:
+        if len(partners) != 1:
             # TODO: in all further processing, we ignore the case where a path might be sorted by more than one join key
             # already this should occur very rarely, but it might provide a decent performance boost in those situations
             return None, None
-- 
2.43.0


From 3182c5b73d2f305e0c5526b81f4f96fe6ff25e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:48 +0000
Subject: [PATCH 122/168] fix: collect columns of star expressions without
 set/list mixups

---
 postbound/opt/dynprog.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postbound/opt/dynprog.py b/postbound/opt/dynprog.py
index f1ad93e..a9d007e 100644
--- a/postbound/opt/dynprog.py
+++ b/postbound/opt/dynprog.py
@@ -67,12 +67,12 @@ def _calc_plan_estimates(
 def _collect_used_columns(
     query: SqlQuery, table: TableReference, *, schema: DatabaseSchema
 ) -> set[ColumnReference]:
-    columns = query.columns_of(table)
+    columns = set(query.columns_of(table))
     for star_expression in query.select_clause.star_expressions():
         if table not in star_expression.tables():
             continue
 
-        columns |= schema.columns(table)
+        columns |= set(schema.columns(table))
     return columns
 
 
-- 
2.43.0


From 5d6842ceb2f76e4e42a5bb41d7d02091e8557692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:48 +0000
Subject: [PATCH 123/168] fix: store the estimated cardinality in index and
 bitmap scan candidates

---
 postbound/opt/dynprog.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/postbound/opt/dynprog.py b/postbound/opt/dynprog.py
index a9d007e..4243162 100644
--- a/postbound/opt/dynprog.py
+++ b/postbound/opt/dynprog.py
@@ -1339,6 +1339,7 @@ class PostgresDynProg(PlanEnumerator):
                         base_table=base_table,
                         index=index,
                         sort_keys=sorting,
+                        estimated_cardinality=rel.cardinality,
                         filter_predicate=filter_condition,
                         estimated_workers=workers,
                     )
@@ -1349,6 +1350,7 @@ class PostgresDynProg(PlanEnumerator):
                         base_table=base_table,
                         index=index,
                         sort_keys=sorting,
+                        estimated_cardinality=rel.cardinality,
                         filter_predicate=filter_condition,
                         estimated_workers=workers,
                     )
@@ -1401,6 +1403,7 @@ class PostgresDynProg(PlanEnumerator):
             ScanOperator.BitmapScan,
             base_table=base_table,
             indexes=candidate_indexes,
+            estimated_cardinality=rel.cardinality,
             filter_predicate=filter_condition,
             estimated_workers=workers,
         )
-- 
2.43.0


From 99247ce653f806c278f1379c6fa3acf4ae1bd0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:48 +0000
Subject: [PATCH 124/168] fix: return the native plan parameters

---
 postbound/opt/native.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/opt/native.py b/postbound/opt/native.py
index 059a817..b753356 100644
--- a/postbound/opt/native.py
+++ b/postbound/opt/native.py
@@ -515,7 +515,7 @@ class NativePlanParameterization(ParameterGeneration):
                 query, join_order=join_order, physical_operators=operator_assignment
             )
         query_plan = self.db_instance.optimizer().query_plan(query)
-        parameters_from_plan(query_plan)
+        return parameters_from_plan(query_plan)
 
     def describe(self) -> jsondict:
         return {"name": "native", "database_system": self.db_instance.describe()}
-- 
2.43.0


From 221b532587000e025e02efb661efd4bea7aca387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:48 +0000
Subject: [PATCH 125/168] fix: respect error_on_missing_card for unknown
 pre-computed cardinalities

---
 postbound/opt/_cardinalities.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/postbound/opt/_cardinalities.py b/postbound/opt/_cardinalities.py
index 2e6876e..add4b62 100644
--- a/postbound/opt/_cardinalities.py
+++ b/postbound/opt/_cardinalities.py
@@ -203,7 +203,11 @@ class PreComputedCardinalities(CardinalityEstimator):
             )
 
         fallback_value = self._attempt_fallback_estimate(n_samples, query, tables)
-        if fallback_value is None and self._error_on_missing_card:
+        if (
+            self._error_on_missing_card
+            and self._live_db is None
+            and fallback_value.isnan()
+        ):
             raise ValueError(
                 f"No matching sample found for join {tables_debug} in query {label}"
             )
-- 
2.43.0


From 166240f7111dad149dbd317bb6384f2ee736ae8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:48 +0000
Subject: [PATCH 126/168] fix: keep the lookup table of pre-computed
 cardinalities readable when saving fallback estimates

---
 postbound/opt/_cardinalities.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/postbound/opt/_cardinalities.py b/postbound/opt/_cardinalities.py
index add4b62..eaf1b6e 100644
--- a/postbound/opt/_cardinalities.py
+++ b/postbound/opt/_cardinalities.py
@@ -290,7 +290,7 @@ class PreComputedCardinalities(CardinalityEstimator):
         """
         result_row = {}
         result_row[self._label_col] = [self._workload.label_of(query)]
-        result_row[self._tables_col] = [util.to_json(tables)]
+        result_row[self._tables_col] = [tables]
 
         if "query" in self._true_card_df.columns:
             result_row["query"] = [str(query)]
@@ -305,7 +305,9 @@ class PreComputedCardinalities(CardinalityEstimator):
         self._true_card_df = pd.concat(
             [self._true_card_df, result_df], ignore_index=True
         )
-        self._true_card_df.to_csv(self._lookup_df_path, index=False)
+        export_df = self._true_card_df.copy()
+        export_df[self._tables_col] = export_df[self._tables_col].map(util.to_json)
+        export_df.to_csv(self._lookup_df_path, index=False)
 
 
 class CardinalityDistortion(CardinalityEstimator):
-- 
2.43.0


From ed0f6f0f3dca0d8d1c7d6e0bb76045a22ccf0d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:18 +0000
Subject: [PATCH 127/168] fix: find the materialize and memoize nodes whose
 cost is requested

---
 postbound/opt/native.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/postbound/opt/native.py b/postbound/opt/native.py
index b753356..217aae4 100644
--- a/postbound/opt/native.py
+++ b/postbound/opt/native.py
@@ -248,8 +248,8 @@ class NativeCostModel(CostModel):
 
         # Finally, we need to extract the cost estimate of the materialize node.
         intermediate_node = topped_explain.find_first_node(
-            lambda node: node.node_type == IntermediateOperator.Materialize
-            and node.tables == plan.tables()
+            lambda node: node.operator == IntermediateOperator.Materialize
+            and node.tables() == plan.tables()
         )
         if not intermediate_node:
             warnings.warn(
@@ -354,8 +354,8 @@ class NativeCostModel(CostModel):
 
         # Finally, we need to extract the cost estimate of the materialize node.
         intermediate_node = topped_explain.find_first_node(
-            lambda node: node.node_type == IntermediateOperator.Memoize
-            and node.tables == plan.tables()
+            lambda node: node.operator == IntermediateOperator.Memoize
+            and node.tables() == plan.tables()
         )
         if not intermediate_node:
             warnings.warn(
-- 
2.43.0


From 3a3c0808381b682926ed8abe6127d1ce5076eff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:26 +0000
Subject: [PATCH 128/168] fix: update existing Postgres settings instead of
 nesting them

---
 postbound/postgres.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postbound/postgres.py b/postbound/postgres.py
index 178dc94..73b4396 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -461,10 +461,10 @@ class PostgresConfiguration(collections.UserString):
             The updated configuration. The original config is not modified.
         """
         match setting:
-            case str():
-                setting = PostgresSetting(setting, value)
             case PostgresSetting(name, _):
                 setting = PostgresSetting(name, value)
+            case str():
+                setting = PostgresSetting(setting, value)
 
         target_settings = dict(self._settings)
         target_settings[setting.parameter] = setting
-- 
2.43.0


From 957b433ca62e70bcd3f705d63ef24930d7d32813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:26 +0000
Subject: [PATCH 129/168] fix: skip nodes that are no joins when integrating
 costs into a QEP-S

---
 postbound/opt/tonic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/postbound/opt/tonic.py b/postbound/opt/tonic.py
index 8fb2e86..632b1be 100644
--- a/postbound/opt/tonic.py
+++ b/postbound/opt/tonic.py
@@ -551,8 +551,9 @@ class QEPsNode:
             return
 
         next_node, *remaining_nodes = query_plan
-        if not next_node.is_join:
+        if not next_node.is_join():
             self.integrate_costs(query, remaining_nodes)
+            return
 
         first_child, second_child = (
             _left_query_plan_child(next_node),
-- 
2.43.0


From 643901f2e2654204167752ee88a4b915541a191c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:35 +0000
Subject: [PATCH 130/168] fix: do not reuse the namespace of the previous table
 when expanding star expressions

---
 postbound/parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/postbound/parser.py b/postbound/parser.py
index 72b812d..a22d97d 100644
--- a/postbound/parser.py
+++ b/postbound/parser.py
@@ -349,6 +349,7 @@ class QueryNamespace:
                             )
                             continue
 
+                        defining_nsp = None
                         if table.alias:
                             defining_nsp = self._lookup_namespace(table.alias)
                         if not defining_nsp and table.full_name:
-- 
2.43.0


From 6432b6f1887ff2f4ce1f3f2bc100a10732245478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:13 +0000
Subject: [PATCH 131/168] fix: write boolean settings of MySQL as TRUE and
 FALSE

---
 postbound/mysql.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/postbound/mysql.py b/postbound/mysql.py
index a9404ab..0ebbb41 100644
--- a/postbound/mysql.py
+++ b/postbound/mysql.py
@@ -575,10 +575,10 @@ MysqlSwitchableOptimizations = {JoinOperator.HashJoin: "block_nested_loop"}
 
 def _escape_setting(setting) -> str:
     """Transforms the setting variable into a string that can be used in an SQL query."""
-    if isinstance(setting, float) or isinstance(setting, int):
-        return str(setting)
-    elif isinstance(setting, bool):
+    if isinstance(setting, bool):
         return "TRUE" if setting else "FALSE"
+    elif isinstance(setting, float) or isinstance(setting, int):
+        return str(setting)
     return f"'{setting}'"
 
 
-- 
2.43.0


From 53010ecc8b053c54303897ff816918ea2c32d5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:13 +0000
Subject: [PATCH 132/168] fix: remove an unreachable case of the expression
 formatter

---
 postbound/qal/_formatter.py | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/postbound/qal/_formatter.py b/postbound/qal/_formatter.py
index 80b7118..0166556 100644
--- a/postbound/qal/_formatter.py
+++ b/postbound/qal/_formatter.py
@@ -771,12 +771,6 @@ def _expression_prettifier(
                 lower_idx=replaced_lo,
                 upper_idx=replaced_hi,
             )
-        case ArrayAccessExpression(arr, idx, lo, hi):
-            # This has to be implemented before the FunctionExpression since that is a supertype of this
-            pretty_array = _expression_prettifier(
-                arr, flavor=flavor, inline_hints=inline_hints, indentation=indentation
-            )
-            return target(pretty_array, idx=idx, lower_idx=lo, upper_idx=hi)
         case FunctionExpression(fn, args, distinct, cond):
             replaced_args = [
                 _expression_prettifier(
-- 
2.43.0


From 264563532b6bc8c4014b5c48fc27e32e6af02550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:13 +0000
Subject: [PATCH 133/168] fix: mirror the operator of simple filters whose
 column is on the right-hand side

---
 postbound/qal/_qal.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 1db05a7..087c508 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -3661,6 +3661,16 @@ UnwrappedFilter = tuple[ColumnReference, LogicalOperator, object]
 """Type that captures the main components of a filter predicate."""
 
 
+_MirroredOperators = {
+    LogicalOperator.Less: LogicalOperator.Greater,
+    LogicalOperator.LessEqual: LogicalOperator.GreaterEqual,
+    LogicalOperator.Greater: LogicalOperator.Less,
+    LogicalOperator.GreaterEqual: LogicalOperator.LessEqual,
+    LogicalOperator.Contains: LogicalOperator.ContainedBy,
+    LogicalOperator.ContainedBy: LogicalOperator.Contains,
+}
+
+
 def _attempt_filter_unwrap(
     predicate: AbstractPredicate,
 ) -> tuple[ColumnReference, LogicalOperator, Any]:
@@ -3693,9 +3703,9 @@ def _attempt_filter_unwrap(
     match predicate:
         case BinaryPredicate(op, lhs, rhs):
             left, right = _unwrap_expression(lhs), _unwrap_expression(rhs)
-            left, right = (
-                (left, right) if isinstance(left, ColumnReference) else (right, left)
-            )
+            if not isinstance(left, ColumnReference):
+                left, right = right, left
+                op = _MirroredOperators.get(op, op)
             assert isinstance(left, ColumnReference)
             return left, op, right
 
-- 
2.43.0


From 1b6ae0895dedf2fb4efd843ba451c734e45ef030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:22 +0000
Subject: [PATCH 134/168] fix: bracket conjunctions below NOT

---
 postbound/qal/_qal.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 087c508..e4e1527 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -3350,6 +3350,11 @@ class CompoundPredicate(AbstractPredicate):
 
     def _stringify_not(self) -> str:
         if not isinstance(self.children, InPredicate):
+            if (
+                isinstance(self.children, CompoundPredicate)
+                and self.children.operation == CompoundOperator.And
+            ):
+                return f"NOT ({self.children})"
             return f"NOT {self.children}"
         return f"{self.children.column} NOT IN {self.children._stringify_values()}"
 
-- 
2.43.0


From 46e9c447f886ddefeaa5fe6db3432e5f0c4f08ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:22 +0000
Subject: [PATCH 135/168] fix: bracket nested math expressions according to the
 precedence of their operators

---
 postbound/qal/_qal.py | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index e4e1527..90c79c6 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -648,12 +648,21 @@ class MathExpression(SqlExpression):
     ) -> VisitorResult:
         return visitor.visit_math_expr(self, *args, **kwargs)
 
-    def _requires_brackets(self, child: SqlExpression) -> bool:
+    def _requires_brackets(
+        self, child: SqlExpression, *, right_operand: bool = False
+    ) -> bool:
         """Checks, whether some expression must be wrapped in brackets to ensure correct evaluation order."""
+        if isinstance(child, AbstractPredicate):
+            return True
         if not isinstance(child, MathExpression):
             return False
         if child.operator == self.operator:
-            return False
+            associative_ops = {
+                MathOperator.Add,
+                MathOperator.Multiply,
+                MathOperator.Concatenate,
+            }
+            return right_operand and self.operator not in associative_ops
         if (
             self.operator == MathOperator.Concatenate
             or child.operator == MathOperator.Concatenate
@@ -663,7 +672,15 @@ class MathExpression(SqlExpression):
         lazy_ops = {MathOperator.Add, MathOperator.Multiply, MathOperator.Modulo}
         eager_ops = {MathOperator.Subtract, MathOperator.Divide}
 
-        strict_brackets = self.operator in eager_ops and child.operator in lazy_ops
+        additive_ops = {MathOperator.Add, MathOperator.Subtract}
+        if (child.operator in additive_ops) != (self.operator in additive_ops):
+            # one operator binds stronger than the other
+            binds_weaker = child.operator in additive_ops
+        else:
+            binds_weaker = right_operand
+        strict_brackets = binds_weaker or (
+            self.operator in eager_ops and child.operator in lazy_ops
+        )
 
         # these brackets are not really required, but we still use them for better readability
         pretty_brackets = self.operator in lazy_ops and child.operator in eager_ops
@@ -683,6 +700,8 @@ class MathExpression(SqlExpression):
     def __str__(self) -> str:
         operator_str = self.operator.value
         if not self.second_arg:
+            if isinstance(self.first_arg, (MathExpression, AbstractPredicate)):
+                return f"{operator_str}({self.first_arg})"
             return f"{operator_str}{self.first_arg}"
         if isinstance(self.second_arg, Sequence):
             all_args = [self.first_arg] + list(self.second_arg)
@@ -696,7 +715,7 @@ class MathExpression(SqlExpression):
         assert isinstance(self.second_arg, SqlExpression)
         second_str = (
             f"({self.second_arg})"
-            if self._requires_brackets(self.second_arg)
+            if self._requires_brackets(self.second_arg, right_operand=True)
             else str(self.second_arg)
         )
         return f"{first_str} {operator_str} {second_str}"
-- 
2.43.0


From 4c5655733b8d5da0527fd198fd87ba278cea64ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:22 +0000
Subject: [PATCH 136/168] fix: bracket predicates that are operands of other
 predicates

---
 postbound/qal/_qal.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 90c79c6..79f71f8 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -2520,6 +2520,13 @@ class BasePredicate(AbstractPredicate, abc.ABC):
     __hash__ = AbstractPredicate.__hash__
 
 
+def _stringify_operand(expression: SqlExpression) -> str:
+    """Provides the text of an operand of a predicate. Operands that are predicates themselves are wrapped in brackets."""
+    if isinstance(expression, AbstractPredicate):
+        return f"({expression})"
+    return str(expression)
+
+
 class BinaryPredicate(BasePredicate):
     """A binary predicate combines exactly two base expressions with a comparison operation.
 
@@ -2643,7 +2650,9 @@ class BinaryPredicate(BasePredicate):
         )
 
     def __str__(self) -> str:
-        return f"{self.first_argument} {self.operation.value} {self.second_argument}"
+        first_str = _stringify_operand(self.first_argument)
+        second_str = _stringify_operand(self.second_argument)
+        return f"{first_str} {self.operation.value} {second_str}"
 
 
 class BetweenPredicate(BasePredicate):
@@ -2806,7 +2815,10 @@ class BetweenPredicate(BasePredicate):
 
     def __str__(self) -> str:
         interval_start, interval_end = self.interval
-        return f"{self.column} BETWEEN {interval_start} AND {interval_end}"
+        column_str = _stringify_operand(self.column)
+        start_str = _stringify_operand(interval_start)
+        end_str = _stringify_operand(interval_end)
+        return f"{column_str} BETWEEN {start_str} AND {end_str}"
 
 
 class InPredicate(BasePredicate):
@@ -2984,7 +2996,7 @@ class InPredicate(BasePredicate):
 
     def __str__(self) -> str:
         vals = self._stringify_values()
-        return f"{self.column} IN {vals}"
+        return f"{_stringify_operand(self.column)} IN {vals}"
 
 
 class UnaryPredicate(BasePredicate):
@@ -3375,7 +3387,8 @@ class CompoundPredicate(AbstractPredicate):
             ):
                 return f"NOT ({self.children})"
             return f"NOT {self.children}"
-        return f"{self.children.column} NOT IN {self.children._stringify_values()}"
+        column_str = _stringify_operand(self.children.column)
+        return f"{column_str} NOT IN {self.children._stringify_values()}"
 
     __hash__ = AbstractPredicate.__hash__
 
-- 
2.43.0


From 4c3fd4c4d6c23134e255086f0899d28230b61c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:22 +0000
Subject: [PATCH 137/168] fix: bracket the input queries of set operations if
 necessary

---
 postbound/qal/_qal.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 79f71f8..c779076 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -7717,6 +7717,18 @@ class Limit(BaseClause):
         return ""
 
 
+def _stringify_set_operand(query: SqlQuery, *, trailing_delimiter: bool) -> str:
+    """Provides the text of an input of a set operation. Queries that would extend to the set operation are bracketed."""
+    if (
+        isinstance(query, SetQuery)
+        or query.cte_clause is not None
+        or query.orderby_clause is not None
+        or query.limit_clause is not None
+    ):
+        return f"({query.stringify(trailing_delimiter=False)})"
+    return query.stringify(trailing_delimiter=trailing_delimiter)
+
+
 class UnionClause(BaseClause):
     """The *UNION* or *UNION ALL* clause of a query.
 
@@ -7839,8 +7851,8 @@ class UnionClause(BaseClause):
         )
 
     def __str__(self) -> str:
-        lhs_str = self._lhs.stringify(trailing_delimiter=False)
-        rhs_str = self._rhs.stringify(trailing_delimiter=True)
+        lhs_str = _stringify_set_operand(self._lhs, trailing_delimiter=False)
+        rhs_str = _stringify_set_operand(self._rhs, trailing_delimiter=True)
         union_str = "UNION ALL" if self._union_all else "UNION"
         return f"{lhs_str} {union_str} {rhs_str}"
 
@@ -7919,8 +7931,8 @@ class ExceptClause(BaseClause):
         )
 
     def __str__(self) -> str:
-        lhs_str = self._lhs.stringify(trailing_delimiter=False)
-        rhs_str = self._rhs.stringify(trailing_delimiter=True)
+        lhs_str = _stringify_set_operand(self._lhs, trailing_delimiter=False)
+        rhs_str = _stringify_set_operand(self._rhs, trailing_delimiter=True)
         return f"{lhs_str} EXCEPT {rhs_str}"
 
 
@@ -8015,8 +8027,8 @@ class IntersectClause(BaseClause):
         )
 
     def __str__(self) -> str:
-        lhs_str = self._lhs.stringify(trailing_delimiter=False)
-        rhs_str = self._rhs.stringify(trailing_delimiter=True)
+        lhs_str = _stringify_set_operand(self._lhs, trailing_delimiter=False)
+        rhs_str = _stringify_set_operand(self._rhs, trailing_delimiter=True)
         return f"{lhs_str} INTERSECT {rhs_str}"
 
 
-- 
2.43.0


From 898fadfe48c038d22e5e10211256c404b89d5ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:17 +0000
Subject: [PATCH 138/168] fix: join the inputs of negated join predicates

---
 postbound/relalg.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/postbound/relalg.py b/postbound/relalg.py
index d6f3f4f..abafb25 100644
--- a/postbound/relalg.py
+++ b/postbound/relalg.py
@@ -4046,7 +4046,8 @@ class _ImplicitRelalgParser:
                 return final_fragment
 
             case CompoundOperator.Not:
-                pass
+                first_input, second_input = table_fragments
+                return ThetaJoin(first_input, second_input, predicate)
 
             case _:
                 raise ValueError(
-- 
2.43.0


From eb54efe09066a67685acb1fb15aaa0d3fc0f8b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:37 +0000
Subject: [PATCH 139/168] fix: keep DISTINCT and * of aggregates that are used
 as window functions

---
 postbound/parser.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/postbound/parser.py b/postbound/parser.py
index a22d97d..e7c0509 100644
--- a/postbound/parser.py
+++ b/postbound/parser.py
@@ -1040,11 +1040,18 @@ def _pglast_parse_expression(
                 elem["String"]["sval"] for elem in expression["funcname"]
             )
 
-            args = [
-                _pglast_parse_expression(arg, namespace=namespace, query_txt=query_txt)
-                for arg in expression.get("args", [])
-            ]
-            fn = FunctionExpression(funcname, args)
+            if expression.get("agg_star", False):
+                args = [StarExpression()]
+            else:
+                args = [
+                    _pglast_parse_expression(
+                        arg, namespace=namespace, query_txt=query_txt
+                    )
+                    for arg in expression.get("args", [])
+                ]
+            fn = FunctionExpression(
+                funcname, args, distinct=expression.get("agg_distinct", False)
+            )
 
             window_spec: dict = expression["over"]
 
-- 
2.43.0


From 99af793c362bf7a904ac8aaf91edbbc4beb3a48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:37 +0000
Subject: [PATCH 140/168] fix: LIMIT 0 is a limit

---
 postbound/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postbound/parser.py b/postbound/parser.py
index e7c0509..f77a20c 100644
--- a/postbound/parser.py
+++ b/postbound/parser.py
@@ -1875,9 +1875,9 @@ def _pglast_parse_limit(
         return None
 
     if raw_limit is not None:
-        # for LIMIT ALL there is no second ival, but instead an "isnull" member that is set to true
+        # pglast does not encode zeros, i.e. the second ival is missing for LIMIT 0
         raw_limit = raw_limit["A_Const"]["ival"]
-        nrows: int | None = raw_limit["ival"] if "ival" in raw_limit else None
+        nrows: int | None = raw_limit.get("ival", 0)
     else:
         nrows = None
     if raw_offset is not None:
-- 
2.43.0


From e61aaeafddbc4778f26fbf597e03e05d3bfe26cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:37 +0000
Subject: [PATCH 141/168] fix: format LIMIT 0 and OFFSET 0

---
 postbound/qal/_formatter.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/postbound/qal/_formatter.py b/postbound/qal/_formatter.py
index 0166556..7cb12eb 100644
--- a/postbound/qal/_formatter.py
+++ b/postbound/qal/_formatter.py
@@ -588,24 +588,24 @@ def _quick_format_limit(limit_clause: Limit, *, flavor: SqlDialect) -> list[str]
     match flavor:
         case "vanilla":
             fetch_direction = limit_clause.fetch_direction.upper()
-            if limit_clause.limit and limit_clause.offset:
+            if limit_clause.limit is not None and limit_clause.offset is not None:
                 return [
                     f"FETCH {fetch_direction} {limit_clause.limit} ROWS ONLY",
                     f"OFFSET {limit_clause.offset} ROWS",
                 ]
-            elif limit_clause.limit:
+            elif limit_clause.limit is not None:
                 return [f"FETCH {fetch_direction} {limit_clause.limit} ROWS ONLY"]
-            elif limit_clause.offset:
+            elif limit_clause.offset is not None:
                 return [f"OFFSET {limit_clause.offset} ROWS"]
             else:
                 return []
 
         case "postgres" if limit_clause.fetch_direction in {"first", "next"}:
-            if limit_clause.limit and limit_clause.offset:
+            if limit_clause.limit is not None and limit_clause.offset is not None:
                 return [f"LIMIT {limit_clause.limit}", f"OFFSET {limit_clause.offset}"]
-            elif limit_clause.limit:
+            elif limit_clause.limit is not None:
                 return [f"LIMIT {limit_clause.limit}"]
-            elif limit_clause.offset:
+            elif limit_clause.offset is not None:
                 return [f"OFFSET {limit_clause.offset}"]
             return []
 
-- 
2.43.0


From bdab0fabf58c8456944b76968afc9ce013abbacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:37 +0000
Subject: [PATCH 142/168] fix: parse the operators of ANY and ALL subqueries

---
 postbound/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postbound/parser.py b/postbound/parser.py
index f77a20c..942ec40 100644
--- a/postbound/parser.py
+++ b/postbound/parser.py
@@ -1139,11 +1139,11 @@ def _pglast_parse_expression(
                 return InPredicate.subquery(testexpr, subquery)
 
             if sublink_type == "ANY_SUBLINK":
-                operator = _PglastOperatorMap[expression["operName"]]
+                operator = _pglast_parse_operator(expression["operName"])
                 subquery_expression = QuantifierExpression.any(subquery)
                 return BinaryPredicate(operator, testexpr, subquery_expression)
             elif sublink_type == "ALL_SUBLINK":
-                operator = _PglastOperatorMap[expression["operName"]]
+                operator = _pglast_parse_operator(expression["operName"])
                 subquery_expression = QuantifierExpression.all(subquery)
                 return BinaryPredicate(operator, testexpr, subquery_expression)
             else:
-- 
2.43.0


From 3db6eb64aef815dffae46698e1e0738f62818c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:37 +0000
Subject: [PATCH 143/168] fix: EXPLAIN (ANALYZE off) does not analyze

---
 postbound/parser.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/postbound/parser.py b/postbound/parser.py
index 942ec40..8d96045 100644
--- a/postbound/parser.py
+++ b/postbound/parser.py
@@ -1986,6 +1986,16 @@ def _pglast_parse_setop(
     )
 
 
+def _pglast_parse_switch(definition: dict) -> bool:
+    """Reads the value of an option that can be turned on and off. Options without a value are turned on."""
+    if "arg" not in definition:
+        return True
+    value: dict = definition["arg"]
+    if "Integer" in value:
+        return value["Integer"].get("ival", 0) != 0
+    return value["String"]["sval"].lower() not in {"off", "false"}
+
+
 def _pglast_parse_explain(pglast_data: dict) -> tuple[Optional[Explain], dict]:
     """Handler method to extract the *EXPLAIN* clause from a query.
 
@@ -2013,7 +2023,7 @@ def _pglast_parse_explain(pglast_data: dict) -> tuple[Optional[Explain], dict]:
         definition: dict = option["DefElem"]
         match definition["defname"]:
             case "analyze":
-                use_analyze = True
+                use_analyze = _pglast_parse_switch(definition)
             case "format":
                 output_format = definition["arg"]["String"]["sval"]
             case _:
-- 
2.43.0


From c2b41344d9e365db146c714fa0126f8f82037b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:38 +0000
Subject: [PATCH 144/168] fix: SET LOCAL is not a session-wide SET

---
 postbound/parser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/postbound/parser.py b/postbound/parser.py
index 8d96045..6d86789 100644
--- a/postbound/parser.py
+++ b/postbound/parser.py
@@ -2143,9 +2143,12 @@ def _pglast_parse_set_commands(pglast_data: list[dict]) -> tuple[list[str], list
         if var_set_stmt["kind"] != "VAR_SET_VALUE":
             raise ParserError(f"Unknown variable set option: {var_set_stmt}")
         var_name = var_set_stmt["name"]
+        if len(var_set_stmt["args"]) != 1:
+            raise ParserError(f"Unsupported variable value: {var_set_stmt}")
         var_value = var_set_stmt["args"][0]["A_Const"]["sval"]["sval"]
 
-        parsed_stmt = f"SET {var_name} TO '{var_value}';"
+        scope = "SET LOCAL" if var_set_stmt.get("is_local", False) else "SET"
+        parsed_stmt = f"{scope} {var_name} TO '{var_value}';"
         prep_stmts.append(parsed_stmt)
 
     return prep_stmts, pglast_data[i:]
-- 
2.43.0


From a53760b32057571380168f6378f2d5acb8f7559e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:34 +0000
Subject: [PATCH 145/168] fix: reject SQL that the query abstraction cannot
 represent instead of dropping it

---
 postbound/parser.py | 72 ++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 61 insertions(+), 11 deletions(-)

diff --git a/postbound/parser.py b/postbound/parser.py
index 6d86789..2cc8f7f 100644
--- a/postbound/parser.py
+++ b/postbound/parser.py
@@ -519,6 +519,16 @@ class QueryNamespace:
         self._column_cache.clear()
 
 
+def _pglast_reject(pglast_data: dict, *parts: str) -> None:
+    """Raises an error if a node uses SQL features that our query abstraction cannot represent.
+
+    Ignoring the features would silently change the meaning of the query.
+    """
+    for part in parts:
+        if pglast_data.get(part):
+            raise ParserError(f"Unsupported SQL feature '{part}': {pglast_data}")
+
+
 def _pglast_is_actual_colref(pglast_data: dict) -> bool:
     """Checks, whether a apparent column reference is actually a column reference and not a star expression in disguise.
 
@@ -725,6 +735,9 @@ def _pglast_parse_operator(pglast_data: list[dict]) -> SqlOperator:
     return _PglastOperatorMap[sval]
 
 
+_PglastDefaultFrame = 1058
+"""Postgres' encoding of the default window frame, i.e. *RANGE BETWEEN UNBOUNDED PRECEDING AND CURRENT ROW*."""
+
 _PglastTypeMap: dict[str, str] = {
     "bpchar": "char",
     "serial8": "bigserial",
@@ -1007,6 +1020,9 @@ def _pglast_parse_expression(
             "over" not in pglast_data["FuncCall"]
         ):  # normal functions, aggregates and UDFs
             expression: dict = pglast_data["FuncCall"]
+            _pglast_reject(
+                expression, "agg_order", "agg_within_group", "func_variadic"
+            )
             funcname = ".".join(
                 elem["String"]["sval"] for elem in expression["funcname"]
             )
@@ -1036,6 +1052,9 @@ def _pglast_parse_expression(
 
         case "FuncCall" if "over" in pglast_data["FuncCall"]:  # window functions
             expression: dict = pglast_data["FuncCall"]
+            _pglast_reject(
+                expression, "agg_order", "agg_within_group", "func_variadic"
+            )
             funcname = ".".join(
                 elem["String"]["sval"] for elem in expression["funcname"]
             )
@@ -1054,6 +1073,9 @@ def _pglast_parse_expression(
             )
 
             window_spec: dict = expression["over"]
+            _pglast_reject(window_spec, "name", "refname", "startOffset", "endOffset")
+            if window_spec["frameOptions"] != _PglastDefaultFrame:
+                raise ParserError(f"Unsupported window frame: {window_spec}")
 
             if "partitionClause" in window_spec:
                 partition = [
@@ -1224,7 +1246,9 @@ def _pglast_parse_values_cte(
         The parsed *VALUES* expression and their column names.
     """
     values: ValuesList = []
-    for row in pglast_data["ctequery"]["SelectStmt"]["valuesLists"]:
+    raw_query: dict = pglast_data["ctequery"]["SelectStmt"]
+    _pglast_reject(raw_query, "withClause", "sortClause", "limitCount", "limitOffset")
+    for row in raw_query["valuesLists"]:
         raw_items = row["List"]["items"]
         parsed_items = [
             _pglast_parse_expression(item, namespace=namespace, query_txt=query_txt)
@@ -1265,6 +1289,7 @@ def _pglast_parse_ctes(
     parsed_ctes: list[WithQuery] = []
     for pglast_data in json_data["ctes"]:
         current_cte: dict = pglast_data["CommonTableExpr"]
+        _pglast_reject(current_cte, "search_clause", "cycle_clause")
         target_name = current_cte["ctename"]
         target_table = TableReference.create_virtual(target_name)
 
@@ -1290,6 +1315,7 @@ def _pglast_parse_ctes(
                 materialized=force_materialization,
             )
         else:
+            _pglast_reject(current_cte, "aliascolnames")
             cte_query = _pglast_parse_query(
                 current_cte["ctequery"]["SelectStmt"],
                 namespace=child_nsp,
@@ -1400,6 +1426,14 @@ def _pglast_parse_select(
     return clause
 
 
+def _pglast_parse_alias(pglast_data: dict) -> str:
+    """Extracts the alias of a table source. If there is none, the alias is empty."""
+    if "alias" not in pglast_data:
+        return ""
+    _pglast_reject(pglast_data["alias"], "colnames")
+    return pglast_data["alias"]["aliasname"]
+
+
 def _pglast_parse_rangevar(rangevar: dict) -> TableReference:
     """Handler method to extract the `TableReference` from a *RangeVar* entry in the *FROM* clause.
 
@@ -1413,8 +1447,11 @@ def _pglast_parse_rangevar(rangevar: dict) -> TableReference:
     TableReference
         The parsed table reference.
     """
+    _pglast_reject(rangevar, "catalogname")
+    if not rangevar.get("inh", False):
+        raise ParserError(f"Unsupported SQL feature 'ONLY': {rangevar}")
     name = rangevar["relname"]
-    alias = rangevar["alias"]["aliasname"] if "alias" in rangevar else None
+    alias = _pglast_parse_alias(rangevar) or None
     schema = rangevar.get("schemaname", "")
     return TableReference(name, alias, schema=schema)
 
@@ -1481,6 +1518,9 @@ def _pglast_parse_from_entry(
 
         case "JoinExpr":
             join_expr: dict = pglast_data["JoinExpr"]
+            _pglast_reject(
+                join_expr, "isNatural", "usingClause", "join_using_alias", "alias"
+            )
             match join_expr["jointype"]:
                 case "JOIN_INNER" if "quals" in join_expr:
                     join_type = JoinType.InnerJoin
@@ -1527,10 +1567,7 @@ def _pglast_parse_from_entry(
             raw_subquery: dict = pglast_data["RangeSubselect"]
             is_lateral = raw_subquery.get("lateral", False)
 
-            if "alias" in raw_subquery:
-                alias: str = raw_subquery["alias"]["aliasname"]
-            else:
-                alias = ""
+            alias = _pglast_parse_alias(raw_subquery)
 
             child_nsp = namespace.open_nested(alias=alias, source="subquery")
             subquery = _pglast_parse_query(
@@ -1547,10 +1584,10 @@ def _pglast_parse_from_entry(
         case "RangeFunction":
             raw_function: dict = pglast_data["RangeFunction"]
 
-            if "alias" in raw_function:
-                alias: str = raw_function["alias"]["aliasname"]
-            else:
-                alias = ""
+            _pglast_reject(raw_function, "ordinality", "coldeflist")
+            if len(raw_function["functions"]) != 1:
+                raise ParserError(f"Unsupported table function: {raw_function}")
+            alias = _pglast_parse_alias(raw_function)
 
             function_expr: dict = raw_function["functions"][0]["List"]["items"][0]
             parsed_function = _pglast_parse_expression(
@@ -1588,7 +1625,10 @@ def _pglast_parse_values(
     raw_alias: dict = pglast_data.get("alias", {})
     alias = raw_alias.get("aliasname", "")
     child_nsp = parent_namespace.open_nested(alias=alias, source="values")
-    raw_values: list[dict] = pglast_data["subquery"]["SelectStmt"]["valuesLists"]
+    _pglast_reject(pglast_data, "lateral")
+    raw_query: dict = pglast_data["subquery"]["SelectStmt"]
+    _pglast_reject(raw_query, "withClause", "sortClause", "limitCount", "limitOffset")
+    raw_values: list[dict] = raw_query["valuesLists"]
 
     values: ValuesList = []
     for row in raw_values:
@@ -1947,6 +1987,9 @@ def _pglast_parse_setop(
         query_txt=query_txt,
     )
 
+    _pglast_reject(pglast_data, "lockingClause")
+    if pglast_data["op"] != "SETOP_UNION":
+        _pglast_reject(pglast_data, "all")
     match pglast_data["op"]:
         case "SETOP_UNION":
             operator = (
@@ -1968,6 +2011,8 @@ def _pglast_parse_setop(
     else:
         order_clause = None
 
+    if pglast_data["limitOption"] == "LIMIT_OPTION_WITH_TIES":
+        raise ParserError("WITH TIES is not supported")
     if pglast_data["limitOption"] == "LIMIT_OPTION_COUNT":
         limit_clause = _pglast_parse_limit(
             pglast_data, namespace=parent_namespace, query_txt=query_txt
@@ -2064,6 +2109,9 @@ def _pglast_parse_query(
             stmt, parent_namespace=namespace, query_txt=query_txt
         )
 
+    _pglast_reject(
+        stmt, "intoClause", "groupDistinct", "windowClause", "lockingClause"
+    )
     clauses: list[BaseClause] = []
 
     if "withClause" in stmt:
@@ -2106,6 +2154,8 @@ def _pglast_parse_query(
         )
         clauses.append(order_clause)
 
+    if stmt["limitOption"] == "LIMIT_OPTION_WITH_TIES":
+        raise ParserError("WITH TIES is not supported")
     if stmt["limitOption"] == "LIMIT_OPTION_COUNT":
         limit_clause = _pglast_parse_limit(
             stmt, namespace=namespace, query_txt=query_txt
-- 
2.43.0


From d3cc7168a814aa514de6423c2183baf8553b499c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:24 +0000
Subject: [PATCH 146/168] fix: tables with a schema do not refer to CTEs

---
 postbound/parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/postbound/parser.py b/postbound/parser.py
index 2cc8f7f..257b999 100644
--- a/postbound/parser.py
+++ b/postbound/parser.py
@@ -1503,7 +1503,9 @@ def _pglast_parse_from_entry(
             # If we specified a virtual table in a CTE, we will reference it later in some FROM clause. In this case,
             # we should not create a new table reference, but rather use the existing one.
             # But, if we alias the virtual table, we still need a new reference
-            similar_table = namespace.resolve_table(table.full_name)
+            similar_table = (
+                namespace.resolve_table(table.full_name) if not table.schema else None
+            )
             if similar_table and similar_table.virtual and not table.alias:
                 # a simple reference to the CTE
                 namespace.register_table(similar_table)
-- 
2.43.0


From b76cf6b098caa499822a289cd3e22823b65bda54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:31 +0000
Subject: [PATCH 147/168] fix: keep the schema of user-defined types in casts

---
 postbound/parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/postbound/parser.py b/postbound/parser.py
index 257b999..201d23d 100644
--- a/postbound/parser.py
+++ b/postbound/parser.py
@@ -770,6 +770,8 @@ def _pglast_parse_type(pglast_data: dict) -> str:
     if len(names) > 2:
         raise ParserError("Unknown type format: " + str(pglast_data))
     raw_type = names[-1]["String"]["sval"]
+    if len(names) == 2 and names[0]["String"]["sval"] != "pg_catalog":
+        return names[0]["String"]["sval"] + "." + raw_type
 
     # for user-defined types we use get with the same type as argument
     return _PglastTypeMap.get(raw_type, raw_type)
-- 
2.43.0


From decd4a9b72f595f2a9ffe855e5bd999b1adfc920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:53 +0000
Subject: [PATCH 148/168] fix: format MATERIALIZED and RECURSIVE of single
 VALUES CTEs

---
 postbound/qal/_formatter.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/postbound/qal/_formatter.py b/postbound/qal/_formatter.py
index 7cb12eb..c877651 100644
--- a/postbound/qal/_formatter.py
+++ b/postbound/qal/_formatter.py
@@ -180,10 +180,18 @@ def _quick_format_cte(
 
     if len(cte_clause.queries) == 1:
         cte_query = cte_clause.queries[0]
+        match cte_query.materialized:
+            case None:
+                mat_info = ""
+            case True:
+                mat_info = "MATERIALIZED "
+            case False:
+                mat_info = "NOT MATERIALIZED "
+
         if isinstance(cte_query, ValuesWithQuery):
             cte_structure = ", ".join(quote(target.name) for target in cte_query.cols)
             cte_structure = f"({cte_structure})" if cte_structure else ""
-            cte_header = f"WITH {quote(cte_query.target_name)}{cte_structure} AS ("
+            cte_header = f"WITH {recursive_info}{quote(cte_query.target_name)}{cte_structure} AS {mat_info}("
             cte_rows: list[str] = []
             for row in cte_query.rows:
                 row_values = ", ".join(str(value) for value in row)
@@ -191,14 +199,6 @@ def _quick_format_cte(
             cte_rows[0] = f"VALUES {cte_rows[0]}" if cte_rows else ""
             cte_content = ",\n".join(cte_rows)
         else:
-            match cte_query.materialized:
-                case None:
-                    mat_info = ""
-                case True:
-                    mat_info = "MATERIALIZED "
-                case False:
-                    mat_info = "NOT MATERIALIZED "
-
             cte_header = (
                 f"WITH {recursive_info}{quote(cte_query.target_name)} AS {mat_info}("
             )
-- 
2.43.0


From 35cfe566988f744163c3e1cf662f9a0d337dec29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:53 +0000
Subject: [PATCH 149/168] fix: keep the array type when formatting casts

---
 postbound/qal/_formatter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/qal/_formatter.py b/postbound/qal/_formatter.py
index c877651..fde0606 100644
--- a/postbound/qal/_formatter.py
+++ b/postbound/qal/_formatter.py
@@ -709,7 +709,7 @@ def _expression_prettifier(
                 indentation=indentation,
             )
             return (
-                target(replaced_cast, typ, type_params=params)
+                target(replaced_cast, typ, type_params=params, array_type=array)
                 if flavor == "vanilla"
                 else _PostgresCastExpression(
                     replaced_cast, typ, type_params=params, array_type=array
-- 
2.43.0


From c90ae28adb7bdffcaaebb8d3de0ee15b46fad7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:53 +0000
Subject: [PATCH 150/168] fix: format the limit of set queries for the
 requested flavor

---
 postbound/qal/_formatter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/qal/_formatter.py b/postbound/qal/_formatter.py
index fde0606..832a8bc 100644
--- a/postbound/qal/_formatter.py
+++ b/postbound/qal/_formatter.py
@@ -982,7 +982,7 @@ def _quick_format_set_query(
     if query.orderby_clause:
         query_parts.append(str(query.orderby_clause))
     if query.limit_clause:
-        query_parts.append(str(query.limit_clause))
+        query_parts.extend(_quick_format_limit(query.limit_clause, flavor=flavor))
 
     suffix = ";" if trailing_semicolon else ""
     if suffix:
-- 
2.43.0


From 00f919c007b4c759ebd41207939b74f34cf509c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:58 +0000
Subject: [PATCH 151/168] fix: find dependent subqueries inside other
 subqueries

---
 postbound/validation.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/postbound/validation.py b/postbound/validation.py
index a1b85d6..ab172fa 100644
--- a/postbound/validation.py
+++ b/postbound/validation.py
@@ -643,7 +643,10 @@ class DependentSubqueryPreCheck(OptimizationPreCheck):
         super().__init__("no-dependent-subquery")
 
     def check_supported_query(self, query: SqlQuery) -> PreCheckResult:
-        passed = not any(subquery.is_dependent() for subquery in query.subqueries())
+        passed = not any(
+            subquery.is_dependent() or not self.check_supported_query(subquery).passed
+            for subquery in query.subqueries()
+        )
         failure_reason = "" if passed else DependentSubqueryFailure
         return PreCheckResult(passed, failure_reason)
 
-- 
2.43.0


From 3b9a91a89b18819028fe468a461be05eeec137d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:58 +0000
Subject: [PATCH 152/168] fix: check the joins of both input queries of set
 queries

---
 postbound/validation.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/postbound/validation.py b/postbound/validation.py
index ab172fa..1fd7edd 100644
--- a/postbound/validation.py
+++ b/postbound/validation.py
@@ -483,6 +483,12 @@ class EquiJoinPreCheck(OptimizationPreCheck):
         self._allow_nesting = allow_nesting
 
     def check_supported_query(self, query: SqlQuery) -> PreCheckResult:
+        if query.is_set_query():
+            return PreCheckResult.merge(
+                self.check_supported_query(input_query)
+                for input_query in (query.left_query, query.right_query)
+            )
+
         join_predicates = query.predicates().joins()
         all_passed = all(
             self._perform_predicate_check(join_pred) for join_pred in join_predicates
@@ -581,6 +587,12 @@ class InnerJoinPreCheck(OptimizationPreCheck):
         super().__init__("inner-joins-only")
 
     def check_supported_query(self, query: SqlQuery) -> PreCheckResult:
+        if query.is_set_query():
+            return PreCheckResult.merge(
+                self.check_supported_query(input_query)
+                for input_query in (query.left_query, query.right_query)
+            )
+
         if not query.from_clause:
             return PreCheckResult.with_all_passed()
 
-- 
2.43.0


From 62513a1c5fd05934402cbd23ece98fa703beaea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:22 +0000
Subject: [PATCH 153/168] fix: keep the HAVING clause in the relational algebra

---
 postbound/relalg.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/postbound/relalg.py b/postbound/relalg.py
index abafb25..c6dcf6c 100644
--- a/postbound/relalg.py
+++ b/postbound/relalg.py
@@ -3699,7 +3699,9 @@ class _ImplicitRelalgParser:
         --------
         _filter_eval_phase
         """
-        predicate = _filter_eval_phase(predicate, eval_phase)
+        if eval_phase != EvaluationPhase.PostAggregation:
+            # the HAVING clause is evaluated as a whole, no matter when its parts could have been evaluated
+            predicate = _filter_eval_phase(predicate, eval_phase)
         if predicate is None:
             return input_node
 
-- 
2.43.0


From 6ef7595fa9d08d6f109859968bea8e06372eec7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:22 +0000
Subject: [PATCH 154/168] fix: sort in ascending order by default in the
 relational algebra

---
 postbound/relalg.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/postbound/relalg.py b/postbound/relalg.py
index c6dcf6c..0da7bba 100644
--- a/postbound/relalg.py
+++ b/postbound/relalg.py
@@ -3664,7 +3664,9 @@ class _ImplicitRelalgParser:
             final_fragment = self._add_expression(
                 order.column, input_node=final_fragment
             )
-            sorting.append((order.column, "asc" if order.ascending else "desc"))
+            sorting.append(
+                (order.column, "desc" if order.ascending is False else "asc")
+            )
 
         final_fragment = Sort(final_fragment, sorting)
         return final_fragment
-- 
2.43.0


From 68361ac0095f45e71bddce9b3a725a670349ee4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:22 +0000
Subject: [PATCH 155/168] fix: eliminate duplicates of SELECT DISTINCT in the
 relational algebra

---
 postbound/relalg.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/postbound/relalg.py b/postbound/relalg.py
index 0da7bba..5ee9c09 100644
--- a/postbound/relalg.py
+++ b/postbound/relalg.py
@@ -3412,6 +3412,8 @@ class _ImplicitRelalgParser:
             )
 
         final_fragment = self._add_final_projection(final_fragment)
+        if self._query.select_clause.is_distinct():
+            final_fragment = DuplicateElimination(final_fragment)
         return final_fragment
 
     def _update_query(self, query: SelectStatement) -> None:
-- 
2.43.0


From 5061750568c402d7c87c1284b67ef4eab50ec6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:22 +0000
Subject: [PATCH 156/168] fix: translate the inputs of set queries and
 references to CTEs independently

---
 postbound/relalg.py | 48 ++++++++++++++++++++++-----------------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/postbound/relalg.py b/postbound/relalg.py
index 5ee9c09..524adc7 100644
--- a/postbound/relalg.py
+++ b/postbound/relalg.py
@@ -3341,8 +3341,10 @@ class _ImplicitRelalgParser:
         query: ImplicitSqlQuery,
         *,
         provided_base_tables: Optional[dict[TableReference, RelNode]] = None,
+        ctes: Optional[dict[TableReference, RelNode]] = None,
     ) -> None:
         self._query = query
+        self._ctes: dict[TableReference, RelNode] = dict(ctes) if ctes else {}
         self._base_table_fragments: dict[TableReference, RelNode] = {}
         self._required_columns: dict[TableReference, set[ColumnReference]] = (
             collections.defaultdict(set)
@@ -3365,16 +3367,19 @@ class _ImplicitRelalgParser:
         RelNode
             Root node of the algebraic expression
         """
+        if self._query.cte_clause:
+            for cte in self._query.cte_clause.queries:
+                self._ctes[cte.target_table] = Relation(
+                    cte.target_table,
+                    self._required_columns[cte.target_table],
+                    subquery_input=self._add_subquery(cte.query),
+                )
+
         if isinstance(self._query, SetQuery):
             return self._parse_set_query(self._query)
 
         # TODO: robustness: query without FROM clause
 
-        if self._query.cte_clause:
-            for cte in self._query.cte_clause.queries:
-                cte_root = self._add_subquery(cte.query)
-                self._add_table(cte.target_table, input_node=cte_root)
-
         # we add the WHERE clause before all explicit JOIN statements to make sure filters are already present and we can
         # stitch together the correct fragments in OUTER JOINs
         # Once the explicit JOINs have been processed, we continue with all remaining implicit joins
@@ -3416,13 +3421,6 @@ class _ImplicitRelalgParser:
             final_fragment = DuplicateElimination(final_fragment)
         return final_fragment
 
-    def _update_query(self, query: SelectStatement) -> None:
-        self._query = query
-        query_cols = self._query.columns()
-        util.collections.foreach(
-            query_cols, lambda col: self._required_columns[col.table].add(col)
-        )
-
     def _parse_set_query(self, query: SetQuery) -> RelNode:
         """Handler method to translate a set query into a relational algebra fragment.
 
@@ -3441,17 +3439,14 @@ class _ImplicitRelalgParser:
         ValueError
             _description_
         """
-        parser = _ImplicitRelalgParser(None)
-
-        if query.cte_clause:
-            for cte in query.cte_clause.queries:
-                parser._update_query(cte.query)
-                parser.generate_relnode()  # we don't care about the result, we just want to add the CTE to the base tables
-
-        parser._update_query(query.left_query)
-        left_relalg = parser.generate_relnode()
-        parser._update_query(query.right_query)
-        right_relalg = parser.generate_relnode()
+        left_relalg, right_relalg = (
+            _ImplicitRelalgParser(
+                input_query,
+                provided_base_tables=self._provided_base_tables,
+                ctes=self._ctes,
+            ).generate_relnode()
+            for input_query in (query.left_query, query.right_query)
+        )
 
         match query.set_operation:
             case SetOperator.Union:
@@ -3514,6 +3509,9 @@ class _ImplicitRelalgParser:
                 if table_source.table.virtual:
                     # Virtual tables in direct table sources are only created through references to CTEs. However, these CTEs
                     # have already been included in the base table fragments.
+                    self._base_table_fragments[table_source.table] = self._ctes[
+                        table_source.table
+                    ]
                     return self._base_table_fragments[table_source.table]
                 return self._add_table(table_source.table)
             case SubqueryTableSource():
@@ -4135,7 +4133,9 @@ class _ImplicitRelalgParser:
     def _add_subquery(self, subquery: SqlQuery) -> SubqueryScan:
         """Generates the appropriate algebra fragment to include a subquery in the current algebra tree."""
         subquery_parser = _ImplicitRelalgParser(
-            subquery, provided_base_tables=self._base_table_fragments
+            subquery,
+            provided_base_tables=self._base_table_fragments,
+            ctes=self._ctes,
         )
         subquery_root = subquery_parser.generate_relnode()
         self._required_columns = util.dicts.merge(
-- 
2.43.0


From e0563140379c5aa48ca85239a0c736f5180b1b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:33 +0000
Subject: [PATCH 157/168] fix: translate subqueries that depend on queries
 further outside

---
 postbound/relalg.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/postbound/relalg.py b/postbound/relalg.py
index 524adc7..b24ae35 100644
--- a/postbound/relalg.py
+++ b/postbound/relalg.py
@@ -4134,7 +4134,10 @@ class _ImplicitRelalgParser:
         """Generates the appropriate algebra fragment to include a subquery in the current algebra tree."""
         subquery_parser = _ImplicitRelalgParser(
             subquery,
-            provided_base_tables=self._base_table_fragments,
+            provided_base_tables={
+                **self._provided_base_tables,
+                **self._base_table_fragments,
+            },
             ctes=self._ctes,
         )
         subquery_root = subquery_parser.generate_relnode()
-- 
2.43.0


From 9f7c140409bc51c973738f4c10aff877f7bd7896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:25 +0000
Subject: [PATCH 158/168] fix: keep all parts of conjunctions in the relational
 algebra

---
 postbound/relalg.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/postbound/relalg.py b/postbound/relalg.py
index b24ae35..a43a80a 100644
--- a/postbound/relalg.py
+++ b/postbound/relalg.py
@@ -3269,10 +3269,6 @@ def _filter_eval_phase(
     --------
     _determine_predicate_phase
     """
-    eval_phase = _determine_predicate_phase(predicate)
-    if eval_phase < expected_eval_phase:
-        return None
-
     if (
         isinstance(predicate, CompoundPredicate)
         and predicate.operation == CompoundOperator.And
@@ -3286,6 +3282,7 @@ def _filter_eval_phase(
             CompoundPredicate.create_and(child_predicates) if child_predicates else None
         )
 
+    eval_phase = _determine_predicate_phase(predicate)
     return predicate if eval_phase == expected_eval_phase else None
 
 
-- 
2.43.0


From 1ad2bc1e94c4fd8258a5f7e8df51df04f8172a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:25 +0000
Subject: [PATCH 159/168] fix: translate tables without required columns next
 to subqueries to relational algebra

---
 postbound/relalg.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/postbound/relalg.py b/postbound/relalg.py
index a43a80a..2de6991 100644
--- a/postbound/relalg.py
+++ b/postbound/relalg.py
@@ -4138,8 +4138,9 @@ class _ImplicitRelalgParser:
             ctes=self._ctes,
         )
         subquery_root = subquery_parser.generate_relnode()
-        self._required_columns = util.dicts.merge(
-            subquery_parser._required_columns, self._required_columns
+        self._required_columns = collections.defaultdict(
+            set,
+            util.dicts.merge(subquery_parser._required_columns, self._required_columns),
         )
         # We do not include the subquery base tables in our _base_table_fragments since the subquery base tables are already
         # processed completely and this would contradict the interpretation of the _base_table_fragments in
-- 
2.43.0


From c5caace23fcb49b2abfcf9b458df0b444487cd90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:10 +0000
Subject: [PATCH 160/168] fix: combine only the branches of disjunctions of
 subquery predicates

---
 postbound/relalg.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/postbound/relalg.py b/postbound/relalg.py
index 2de6991..6e208fa 100644
--- a/postbound/relalg.py
+++ b/postbound/relalg.py
@@ -3912,7 +3912,11 @@ class _ImplicitRelalgParser:
                     subquery_branch = self._convert_predicate(
                         subquery_pred, input_node=input_node
                     )
-                    final_fragment = Union(final_fragment, subquery_branch)
+                    if final_fragment is input_node:
+                        # without regular predicates, the first branch must not be combined with the unfiltered input
+                        final_fragment = subquery_branch
+                    else:
+                        final_fragment = Union(final_fragment, subquery_branch)
                 return final_fragment
 
             case CompoundOperator.Not:
-- 
2.43.0


From 57f8801a83bc94602ccd54f1321229e8cbd416ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:18 +0000
Subject: [PATCH 161/168] fix: compute the hash values of modified relational
 algebra trees bottom-up

---
 postbound/relalg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/relalg.py b/postbound/relalg.py
index 6e208fa..ba41c0f 100644
--- a/postbound/relalg.py
+++ b/postbound/relalg.py
@@ -391,9 +391,9 @@ class RelNode(abc.ABC):
 
     def _rehash(self) -> None:
         """Re-calculates the hash value of the current node and all its children."""
-        self._hash_val = hash((self._node_type, self._recalc_hash_val()))
         for child in self.children():
             child._rehash()
+        self._hash_val = hash((self._node_type, self._recalc_hash_val()))
 
     def _assert_correct_update_child_count(self, children: Sequence[RelNode]) -> None:
         """Ensures that the correct number of child nodes is supplied for updating the current node.
-- 
2.43.0


From e0b5bc3ede67bd5229ad581efdf44d2fb34717e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:18 +0000
Subject: [PATCH 162/168] fix: store the parameters of modified relational
 algebra nodes in the same form as new ones

---
 postbound/relalg.py | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/postbound/relalg.py b/postbound/relalg.py
index ba41c0f..604a824 100644
--- a/postbound/relalg.py
+++ b/postbound/relalg.py
@@ -1114,6 +1114,11 @@ class Relation(RelNode):
             for param, val in locals().items()
             if param != "self" and not param.startswith("__")
         }
+        if provided_columns is not None:
+            params["provided_cols"] = frozenset(
+                col if isinstance(col, ColumnExpression) else ColumnExpression(col)
+                for col in provided_columns
+            )
         return super().mutate(**params)
 
     def _update_child_nodes(self, children: Sequence[RelNode]) -> None:
@@ -1358,6 +1363,8 @@ class Projection(RelNode):
             for param, val in locals().items()
             if param != "self" and not param.startswith("__")
         }
+        if targets is not None:
+            params["targets"] = tuple(targets)
         return super().mutate(**params)
 
     def _recalc_hash_val(self) -> int:
@@ -1499,6 +1506,10 @@ class Grouping(RelNode):
             for param, val in locals().items()
             if param != "self" and not param.startswith("__")
         }
+        if group_columns is not None:
+            params["group_columns"] = tuple(group_columns)
+        if aggregates is not None:
+            params["aggregates"] = util.frozendict(aggregates)
         return super().mutate(**params)
 
     def _recalc_hash_val(self) -> int:
@@ -1632,6 +1643,8 @@ class Rename(RelNode):
             for param, val in locals().items()
             if param != "self" and not param.startswith("__")
         }
+        if mapping is not None:
+            params["mapping"] = util.frozendict(mapping)
         return super().mutate(**params)
 
     def _recalc_hash_val(self) -> int:
@@ -1760,6 +1773,11 @@ class Sort(RelNode):
             for param, val in locals().items()
             if param != "self" and not param.startswith("__")
         }
+        if sorting is not None:
+            params["sorting"] = tuple(
+                sort_item if isinstance(sort_item, tuple) else (sort_item, "asc")
+                for sort_item in sorting
+            )
         return super().mutate(**params)
 
     def _recalc_hash_val(self) -> int:
@@ -1892,6 +1910,15 @@ class Map(RelNode):
             for param, val in locals().items()
             if param != "self" and not param.startswith("__")
         }
+        if mapping is not None:
+            params["mapping"] = util.frozendict(
+                {
+                    ColumnExpression(expression)
+                    if isinstance(expression, ColumnReference)
+                    else expression: target
+                    for expression, target in mapping.items()
+                }
+            )
         return super().mutate(**params)
 
     def _recalc_hash_val(self) -> int:
-- 
2.43.0


From b37ca5ebf6133e7266bdff78735da881e1f16922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:46 +0000
Subject: [PATCH 163/168] fix: register the recipients of modified relational
 algebra nodes under their new hash values

---
 postbound/relalg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/relalg.py b/postbound/relalg.py
index 604a824..4f1c25f 100644
--- a/postbound/relalg.py
+++ b/postbound/relalg.py
@@ -2648,8 +2648,8 @@ class _RelNodeUpdateManager:
         assert updated_initiator is not None
         assert updated_root is not None
 
-        updated_root._rebuild_linkage()
         updated_root._rehash()
+        updated_root._rebuild_linkage()
         self._root._rebuild_linkage()
         self._root._rehash()
 
-- 
2.43.0


From 061fcc2639493a3324f6bd76d0b11d6328e778ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:15 +0000
Subject: [PATCH 164/168] fix: name the columns of training data after their
 features when exporting it

---
 postbound/train/_train.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/train/_train.py b/postbound/train/_train.py
index bb1ae89..be6085e 100644
--- a/postbound/train/_train.py
+++ b/postbound/train/_train.py
@@ -409,7 +409,7 @@ class TrainingData:
         Columns of the data frame are automatically aligned with the features of the given spec. If no spec is given, the
         columns of the data frame are the original columns, but renamed according to the feature map.
         """
-        renamings = {target: col for target, col in self._feature_map.items()}
+        renamings = {col: feature for feature, col in self._feature_map.items()}
 
         if requested_spec is None:
             return self._samples.rename(columns=renamings)
-- 
2.43.0


From 48147ac377a340c4808333bebe6f54f7b2be8d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:15 +0000
Subject: [PATCH 165/168] fix: merge training data based on its features
 instead of its column names

---
 postbound/train/_train.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/postbound/train/_train.py b/postbound/train/_train.py
index be6085e..e99ccd9 100644
--- a/postbound/train/_train.py
+++ b/postbound/train/_train.py
@@ -436,9 +436,11 @@ class TrainingData:
                 f"the other dataset is missing the following features: {violations.missing_features}"
             )
 
+        own_samples = self.as_df(self._spec)
         other_samples = other.as_df(self._spec)
-        merged_samples = pd.concat([self._samples, other_samples])
-        return TrainingData(merged_samples, source=None, feature_map=self._feature_map)
+        merged_samples = pd.concat([own_samples, other_samples])
+        feature_map = {feature: feature for feature in self._feature_map}
+        return TrainingData(merged_samples, source=None, feature_map=feature_map)
 
     def __len__(self) -> int:
         return len(self._samples)
-- 
2.43.0


From 7ede7e0fb0b4d1b83bf7b5d5f9c756d2791edd92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:15 +0000
Subject: [PATCH 166/168] fix: merge training data that provides more features
 than required

---
 postbound/train/_train.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/postbound/train/_train.py b/postbound/train/_train.py
index e99ccd9..9e566de 100644
--- a/postbound/train/_train.py
+++ b/postbound/train/_train.py
@@ -302,11 +302,10 @@ class TrainingData:
         will contain the features required by the spec and nothing more.
         If any of the input datasets does not satisfy the spec, an error is raised.
         """
-        datasets = list(datasets)
-        merged, *rest = datasets
+        merged, *rest = [ds.conform_to(according_to) for ds in datasets]
         for ds in rest:
             merged = merged.merge_with(ds)
-        return merged.conform_to(according_to)
+        return merged
 
     def __init__(
         self,
@@ -501,6 +500,6 @@ class TrainingDataRepository:
         if not matching:
             return None
         elif len(matching) == 1:
-            return matching[0]
+            return matching[0].conform_to(spec)
         else:
             return TrainingData.merge(matching, according_to=spec)
-- 
2.43.0


From fb263ee976f624477eb55ed19e942e347a8cbb62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:15 +0000
Subject: [PATCH 167/168] fix: order the features of training data as required
 by the spec

---
 postbound/train/_train.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/postbound/train/_train.py b/postbound/train/_train.py
index 9e566de..f4e919d 100644
--- a/postbound/train/_train.py
+++ b/postbound/train/_train.py
@@ -394,9 +394,7 @@ class TrainingData:
         if not self._spec.satisfies(spec):
             raise ValueError("Requested spec is not compatible with the training data")
         reduced_spec: dict[TrainingFeature, str] = {
-            feature: col
-            for feature, col in self._feature_map.items()
-            if spec.requires(feature)
+            feature: self._feature_map[feature] for feature in spec.features
         }
         return TrainingData(
             self._samples, source=self._source, feature_map=reduced_spec
-- 
2.43.0


From 69440c9c92d4218d46c6fd8e1dbcb79151bcdbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:35 +0000
Subject: [PATCH 168/168] fix: cached results are simplified for queries with a
 timeout, too

---
 postbound/postgres.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/postbound/postgres.py b/postbound/postgres.py
index 73b4396..1051987 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -3764,7 +3764,10 @@ class TimeoutQueryExecutor:
             and query in self._pg_instance._query_cache
         )
         if cached_query:
-            return self._pg_instance._query_cache[str(query)]
+            cached_result = self._pg_instance._query_cache[str(query)]
+            if kwargs.get("raw", False):
+                return cached_result
+            return simplify_result_set(cached_result)
 
         self._init_watchdog()
 
-- 
2.43.0

