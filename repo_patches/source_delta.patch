From f80c3106c0bed5f00f7603b95872d4d7245dd380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:28 +0000
Subject: [PATCH 01/38] fix: do not crash when a rule matches an empty sequence
 of tokens

---
 yargy/parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/yargy/parser.py b/yargy/parser.py
index 72866ce..9bb402f 100644
--- a/yargy/parser.py
+++ b/yargy/parser.py
@@ -201,6 +201,9 @@ def prepare_trees(states):
 
 def prepare_match(tree):
     tree = tree.normalized
+    if not tree.root:
+        # rule matched an empty sequence, there are no tokens to return
+        return
     relations = tree.relations
     if relations.validate():
         tree = tree.constrain(relations)
-- 
2.43.0


From 5fb0f04b5005c32bff68e5dfccb71009be130f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:28 +0000
Subject: [PATCH 02/38] fix: match() of a recursive rule returned a match of a
 suffix of the text

---
 yargy/parser.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/yargy/parser.py b/yargy/parser.py
index 9bb402f..3ae1dc1 100644
--- a/yargy/parser.py
+++ b/yargy/parser.py
@@ -277,11 +277,14 @@ class Parser(object):
 
     def matches(self, text, all=True):
         chart = self.chart(text, all=all)
+        if all:
+            return chart.matches(self.rule)
+        # recursive rules complete in the last column with any start,
+        # only states that cover the whole text are of interest
         return (
-            chart
-            if all
-            else chart.last_column
-        ).matches(self.rule)
+            _ for _ in chart.last_column.matches(self.rule)
+            if _.start_column.first
+        )
 
     def extract(self, text, all=True):
         states = self.matches(text, all=all)
-- 
2.43.0


From 9c93be7997095bb72425ff9321083519c5849b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:57 +0000
Subject: [PATCH 03/38] fix: parser lost derivations with optional rules and
 never stopped on loops

Classic Earley issue: rule that matches an empty sequence is completed once
per column, states that wait for it but appear later were never advanced, so
rule(OPT, rule(OPT, 'b')) did not match 'b'. On the other side rules that can
derive themselves on the same range, rule(A.optional()).repeatable() for
example, have infinite number of derivations and parser did not terminate.
---
 yargy/parser.py | 38 ++++++++++++++++++++++++++++++--------
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/yargy/parser.py b/yargy/parser.py
index 3ae1dc1..20520e6 100644
--- a/yargy/parser.py
+++ b/yargy/parser.py
@@ -76,6 +76,7 @@ class Column(object):
         self.states = []
         self.hashes = set()
         self.states_index = defaultdict(list)
+        self.empty_index = defaultdict(list)
 
     def __iter__(self):
         return iter(self.states)
@@ -93,7 +94,10 @@ class Column(object):
             self.update_index(state)
 
     def update_index(self, state):
-        if not state.completed:
+        if state.completed:
+            if state.start_column is self:
+                self.empty_index[id(state.rule)].append(state)
+        else:
             next_term = state.next_term
             if is_rule(next_term):
                 self.states_index[id(next_term)].append(state)
@@ -127,7 +131,7 @@ class Column(object):
 class State(object):
     def __init__(self, rule, production, dot_index,
                  start_column, stop_column,
-                 node):
+                 node, parts=()):
         self.rule = rule
         self.production = production
         self.dot_index = dot_index
@@ -135,6 +139,18 @@ class State(object):
         self.stop_column = stop_column
         self.node = node
 
+        # Rules that derive the whole range of the state. Rule that
+        # derives itself on the same range is a loop, number of such
+        # derivations is infinite
+        self.covers = set()
+        for part in parts:
+            if part.range == self.range:
+                self.covers |= part.covers
+        self.loop = False
+        if self.completed:
+            self.loop = id(rule) in self.covers
+            self.covers.add(id(rule))
+
     def __hash__(self):
         return hash((
             id(self.rule), id(self.production), self.dot_index,
@@ -271,6 +287,10 @@ class Parser(object):
                     next_term = state.next_term
                     if is_rule(next_term):
                         self.predict(column, next_column, next_term)
+                        # Rule that matches an empty sequence could be
+                        # already completed in this column
+                        for empty in column.empty_index[id(next_term)]:
+                            self.complete(column, empty)
                     elif next_column:
                         self.scan(next_column, next_term, state)
         return chart
@@ -343,12 +363,14 @@ class Parser(object):
             column.append(state)
 
     def complete(self, column, completed):
-        for state in completed.parents:
+        for parent in completed.parents:
             state = State(
-                state.rule, state.production,
-                dot_index=state.dot_index + 1,
-                start_column=state.start_column,
+                parent.rule, parent.production,
+                dot_index=parent.dot_index + 1,
+                start_column=parent.start_column,
                 stop_column=column,
-                node=state.node.attached(completed.node)
+                node=parent.node.attached(completed.node),
+                parts=(parent, completed)
             )
-            column.append(state)
+            if not state.loop:
+                column.append(state)
-- 
2.43.0


From 201337ad28727c9751580228172907f918f8c68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:57 +0000
Subject: [PATCH 04/38] fix: nested repeatable/optional rules were mixed up, id
 of a temporary rule was reused

---
 yargy/rule/transformators.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/yargy/rule/transformators.py b/yargy/rule/transformators.py
index 5edf771..9851f5e 100644
--- a/yargy/rule/transformators.py
+++ b/yargy/rule/transformators.py
@@ -58,6 +58,7 @@ class InplaceRuleTransformator(Visitor):
 class RuleTransformator(Visitor):
     def __init__(self):
         self.visited = {}
+        self.items = []
 
     def __call__(self, root):
         for item in root.walk(types=ForwardRule):
@@ -70,6 +71,8 @@ class RuleTransformator(Visitor):
         if item_id in self.visited:
             return self.visited[item_id]
         else:
+            # keep item alive, otherwise its id may be reused
+            self.items.append(item)
             item = self.resolve_method(item)(item)
             self.visited[item_id] = item
             return item
-- 
2.43.0


From 226b015cb089f5715937c045f05b145e5ac94318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:32 +0000
Subject: [PATCH 05/38] fix: Parser, normalized and as_bnf modified the rule
 they were built from

Predicates, pipelines were activated in place, forward rules were redefined
with transformed rules. Second parser for the same rule used tokenizer of the
first one, lost interpretations of recursive rules or failed with
RecursionError. forward().define(A.repeatable()) raised ValueError.
---
 yargy/rule/bnf.py            | 10 ++++++----
 yargy/rule/transformators.py | 26 +++++++++++++++-----------
 2 files changed, 21 insertions(+), 15 deletions(-)

diff --git a/yargy/rule/bnf.py b/yargy/rule/bnf.py
index d1298b2..4574883 100644
--- a/yargy/rule/bnf.py
+++ b/yargy/rule/bnf.py
@@ -115,7 +115,7 @@ class BNFTransformator(RuleTransformator):
     def visit_WrapperRule(self, item):
         item = item.rule
         if is_forward_rule(item):
-            return lift(item)
+            return lift(self.visit(item))
         shared = self.is_shared(item)
         item = self.visit(item)
         if shared:
@@ -162,9 +162,11 @@ class RemoveForwardTransformator(InplaceRuleTransformator):
         return item
 
     def visit_ForwardRule(self, item):
-        if not item.rule:
-            raise TypeError('forward not defined')
-        return item.rule
+        while is_forward_rule(item):
+            item = item.rule
+            if not item:
+                raise TypeError('forward not defined')
+        return item
 
     def visit_PipelineBNFRule(self, item):
         return item
diff --git a/yargy/rule/transformators.py b/yargy/rule/transformators.py
index 9851f5e..513de7f 100644
--- a/yargy/rule/transformators.py
+++ b/yargy/rule/transformators.py
@@ -29,6 +29,7 @@ from .constructors import (
     InterpretationRule,
     RelationRule,
     ForwardRule,
+    PipelineRule,
 )
 
 
@@ -61,9 +62,13 @@ class RuleTransformator(Visitor):
         self.items = []
 
     def __call__(self, root):
-        for item in root.walk(types=ForwardRule):
+        # user may reuse forward in other rules, leave it as is
+        items = list(root.walk(types=ForwardRule))
+        for item in items:
+            self.visited[id(item)] = ForwardRule()
+        for item in items:
             if item.rule:
-                item.define(self.visit(item.rule))
+                self.visit(item).rule = self.visit(item.rule)
         return self.visit(root)
 
     def visit(self, item):
@@ -102,17 +107,17 @@ class RuleTransformator(Visitor):
         return OrRule([self.visit(_) for _ in item.rules])
 
     def visit_OptionalRule(self, item):
-        return OptionalRule(self.visit(item.rule, item.reverse))
+        return OptionalRule(self.visit(item.rule), item.reverse)
 
     def visit_RepeatableRule(self, item):
-        return RepeatableRule(self.visit(item.rule, item.reverse))
+        return RepeatableRule(self.visit(item.rule), item.reverse)
 
     def visit_RepeatableOptionalRule(self, item):
-        return RepeatableOptionalRule(self.visit(
-            item.rule,
+        return RepeatableOptionalRule(
+            self.visit(item.rule),
             item.reverse_repeatable,
             item.reverse_optional
-        ))
+        )
 
     def visit_MinBoundedRule(self, item):
         return MinBoundedRule(self.visit(item.rule), item.min, item.reverse)
@@ -145,7 +150,7 @@ class RuleTransformator(Visitor):
         return item
 
 
-class ActivateTransformator(InplaceRuleTransformator):
+class ActivateTransformator(RuleTransformator):
     def __init__(self, context):
         super(ActivateTransformator, self).__init__()
         self.context = context
@@ -154,11 +159,10 @@ class ActivateTransformator(InplaceRuleTransformator):
         if is_predicate(item):
             return item.activate(self.context)
         else:
-            return item
+            return super(ActivateTransformator, self).visit_term(item)
 
     def visit_PipelineRule(self, item):
-        item.pipeline = item.pipeline.activate(self.context)
-        return item
+        return PipelineRule(item.pipeline.activate(self.context))
 
 
 class SquashExtendedTransformator(RuleTransformator):
-- 
2.43.0


From 0e9a5f44972887c646aca054e3e3e0cd277bcdf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:38 +0000
Subject: [PATCH 06/38] fix: main() was resolved to a wrong child when optional
 terms of a rule are empty

---
 yargy/tree/constructors.py   | 10 ++++++++--
 yargy/tree/transformators.py | 21 ++++++++++++---------
 2 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/yargy/tree/constructors.py b/yargy/tree/constructors.py
index b1c2f03..1c3b091 100644
--- a/yargy/tree/constructors.py
+++ b/yargy/tree/constructors.py
@@ -81,11 +81,17 @@ def dfs_tree(root):
 class Node(Record):
     __attributes__ = ['rule', 'production', 'rank', 'children']
 
-    def __init__(self, rule, production, rank, children):
+    def __init__(self, rule, production, rank, children, main_index=None):
         self.rule = rule
         self.production = production
         self.rank = rank
         self.children = children
+        # differs from production.main when empty children are dropped
+        self.main_index = (
+            production.main
+            if main_index is None
+            else main_index
+        )
 
     def attached(self, node):
         return Node(
@@ -97,7 +103,7 @@ class Node(Record):
 
     @property
     def main(self):
-        return self.children[self.production.main].main
+        return self.children[self.main_index].main
 
     @property
     def interpretator(self):
diff --git a/yargy/tree/transformators.py b/yargy/tree/transformators.py
index 1fa1660..a17aacc 100644
--- a/yargy/tree/transformators.py
+++ b/yargy/tree/transformators.py
@@ -37,7 +37,8 @@ class TreeTransformator(Visitor):
             item.rule,
             item.production,
             item.rank,
-            [self.visit(_) for _ in item.children]
+            [self.visit(_) for _ in item.children],
+            item.main_index
         )
 
     def visit_Leaf(self, item):
@@ -45,20 +46,22 @@ class TreeTransformator(Visitor):
 
 
 class PropogateEmptyTransformator(TreeTransformator):
-    def visit_children(self, item):
-        return list(filter(
-            None,
-            [self.visit(_) for _ in item.children]
-        ))
-
     def visit_Node(self, item):
-        children = self.visit_children(item)
+        children = []
+        main_index = 0
+        for index, child in enumerate(item.children):
+            child = self.visit(child)
+            if child:
+                if index == item.main_index:
+                    main_index = len(children)
+                children.append(child)
         if children:
             return Node(
                 item.rule,
                 item.production,
                 item.rank,
-                children
+                children,
+                main_index
             )
 
 
-- 
2.43.0


From 88a317f6960434cf090e70581fcc4e5dbde1f721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:45 +0000
Subject: [PATCH 07/38] fix: relations of one match changed tokens of other
 matches of the same text

---
 yargy/tree/transformators.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/yargy/tree/transformators.py b/yargy/tree/transformators.py
index a17aacc..f837d19 100644
--- a/yargy/tree/transformators.py
+++ b/yargy/tree/transformators.py
@@ -121,12 +121,16 @@ class RelationsTransformator(InplaceTreeTransformator):
             self.relations.add(item.relation, item.main)
 
 
-class ApplyRelationsTransformator(InplaceTreeTransformator):
+class ApplyRelationsTransformator(TreeTransformator):
     def __init__(self, relations):
         self.relations = relations
 
     def visit_Leaf(self, item):
-        item.token = self.relations.constrain(item.token)
+        # leaf is shared between all trees of the chart
+        return Leaf(
+            item.predicate,
+            self.relations.constrain(item.token)
+        )
 
 
 class DotTreeTransformator(DotTransformator, InplaceTreeTransformator):
-- 
2.43.0


From 5ffa89622233e94f845068ba3710c3f730f1af22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:47 +0000
Subject: [PATCH 08/38] fix: merge of facts dropped values of repeatable
 attributes

---
 yargy/interpretation/fact.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yargy/interpretation/fact.py b/yargy/interpretation/fact.py
index b956d6a..b305127 100644
--- a/yargy/interpretation/fact.py
+++ b/yargy/interpretation/fact.py
@@ -94,6 +94,8 @@ class InterpretatorFact(Record):
     def merge(self, fact):
         for key in fact.modified:
             value = fact.attributes[key]
+            if key in self.repeatable:
+                value = self.attributes[key] + value
             self.attributes[key] = value
             self.modified.add(key)
 
-- 
2.43.0


From 05538e24e47257d99dfcd846911c9350d53d6666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:47 +0000
Subject: [PATCH 09/38] fix: fact.spans raised AttributeError for const
 attributes

---
 yargy/interpretation/interpretator.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/yargy/interpretation/interpretator.py b/yargy/interpretation/interpretator.py
index bf640eb..3c364c8 100644
--- a/yargy/interpretation/interpretator.py
+++ b/yargy/interpretation/interpretator.py
@@ -30,6 +30,18 @@ class InterpretatorInput(Record):
         self.items = list(items)
         self.key = key
 
+    @property
+    def spans(self):
+        if all(is_token(_) for _ in self.items):
+            yield get_tokens_span(self.items)
+        else:
+            for item in self.items:
+                if is_token(item):
+                    yield item.span
+                else:
+                    for span in item.spans:
+                        yield span
+
 
 class InterpretatorResult(Record):
     normalized = None
-- 
2.43.0


From 5cd04089fb72c0d7310cce8fc91006af6851247b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:47 +0000
Subject: [PATCH 10/38] fix: tag() with a tag unknown to tagger was not
 reported

---
 yargy/predicates/bank.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/yargy/predicates/bank.py b/yargy/predicates/bank.py
index 28ed691..c264ddf 100644
--- a/yargy/predicates/bank.py
+++ b/yargy/predicates/bank.py
@@ -416,7 +416,8 @@ class tag(ParameterPredicateScheme):
     """
 
     def activate(self, context):
-        context.tagger.check_tag(self.value)
+        if not context.tagger.check_tag(self.value):
+            raise ValueError(self.value)
         return TagPredicate(self.value)
 
 
-- 
2.43.0


From ec061ed88b05022dcaf1f43ba1bde65945ecae3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:47 +0000
Subject: [PATCH 11/38] fix: Span and records that contain it were not hashable

---
 yargy/span.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/yargy/span.py b/yargy/span.py
index cce713a..6e22b0c 100644
--- a/yargy/span.py
+++ b/yargy/span.py
@@ -14,6 +14,9 @@ class Span(Record):
             return tuple(self) == other
         return Record.__eq__(self, other)
 
+    # class with __eq__ and no __hash__ is not hashable
+    __hash__ = Record.__hash__
+
     def __lt__(self, other):
         return tuple(self) < tuple(other)
 
-- 
2.43.0


From 590fbe2d305eb0a6ffb193540468e7f6ac0dec4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:47 +0000
Subject: [PATCH 12/38] fix: escape backslash in dot labels

---
 yargy/dot.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/yargy/dot.py b/yargy/dot.py
index 6fdbf5c..b011edd 100644
--- a/yargy/dot.py
+++ b/yargy/dot.py
@@ -35,6 +35,7 @@ class style(Record):
     def quote(self, value):
         value = str(value)
         replace = {
+            '\\': r'\\',
             '"': r'\"',
             '\n': r'\n',
             '\r': r'\r'
-- 
2.43.0


From e54dc5df892917ab0bf5820db712dee5aa3e1702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:47 +0000
Subject: [PATCH 13/38] fix: choice of morph_pipeline line for ambiguous word
 depended on hash seed

---
 yargy/pipelines.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/yargy/pipelines.py b/yargy/pipelines.py
index 93ac7ed..a3a853c 100644
--- a/yargy/pipelines.py
+++ b/yargy/pipelines.py
@@ -1,5 +1,8 @@
 
-from collections import defaultdict
+from collections import (
+    defaultdict,
+    OrderedDict
+)
 
 from .record import Record
 from .check import assert_type
@@ -63,7 +66,10 @@ class MorphPipelineBNFRule(PipelineBNFRule):
 
     def predict(self, token):
         if is_morph_token(token):
-            normalized = {_.normalized for _ in token.forms}
+            # most probable form first, set has random order
+            normalized = OrderedDict.fromkeys(
+                _.normalized for _ in token.forms
+            )
             for value in normalized:
                 if value in self.index:
                     for production in self.index[value]:
-- 
2.43.0


From d145eac319370fc2806d44dfec1d1fb4adbf98ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:47 +0000
Subject: [PATCH 14/38] fix: nested optional, repeatable(min) rules accepted
 wrong number of items

---
 yargy/rule/transformators.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/yargy/rule/transformators.py b/yargy/rule/transformators.py
index 513de7f..2eff92e 100644
--- a/yargy/rule/transformators.py
+++ b/yargy/rule/transformators.py
@@ -165,6 +165,14 @@ class ActivateTransformator(RuleTransformator):
         return PipelineRule(item.pipeline.activate(self.context))
 
 
+def is_squashable(item):
+    # (a{2,})+ is not a+
+    return (
+        isinstance(item, (RepeatableRule, MaxBoundedRule))
+        and not isinstance(item, MinBoundedRule)
+    )
+
+
 class SquashExtendedTransformator(RuleTransformator):
     def visit_RepeatableRule(self, item):
         child = item.rule
@@ -181,7 +189,7 @@ class SquashExtendedTransformator(RuleTransformator):
                 child.reverse_optional
             ))
 
-        elif isinstance(child, (RepeatableRule, BoundedRule)):
+        elif is_squashable(child):
             return self.visit(RepeatableRule(child.rule, item.reverse))
         else:
             return RepeatableRule(self.visit(child), item.reverse)
@@ -207,8 +215,7 @@ class SquashExtendedTransformator(RuleTransformator):
 
     def visit_RepeatableOptionalRule(self, item):
         child = item.rule
-        if isinstance(child, (RepeatableRule, BoundedRule,
-                              OptionalRule, RepeatableOptionalRule)):
+        if is_squashable(child) or isinstance(child, OptionalRule):
             return self.visit(RepeatableOptionalRule(
                 child.rule,
                 item.reverse_repeatable,
@@ -239,9 +246,7 @@ class SquashExtendedTransformator(RuleTransformator):
             return self.visit_BoundedRule(item)
         elif isinstance(child, OptionalRule):
             return self.visit(OptionalRule(
-                MinBoundedRule(
-                    child.rule, item.min, item.reverse
-                ),
+                RepeatableRule(child.rule, item.reverse),
                 child.reverse
             ))
         else:
@@ -267,8 +272,8 @@ class SquashExtendedTransformator(RuleTransformator):
             return self.visit_BoundedRule(item)
         elif isinstance(child, OptionalRule):
             return self.visit(OptionalRule(
-                MinMaxBoundedRule(
-                    child.rule, item.min, item.max, item.reverse
+                MaxBoundedRule(
+                    child.rule, item.max, item.reverse
                 ),
                 child.reverse
             ))
-- 
2.43.0


From 9576a3028dd2908384f834bb42be3866fef488ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:47 +0000
Subject: [PATCH 15/38] fix: normalized() lost key of a pipeline that is used
 more than once

---
 yargy/tree/transformators.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/yargy/tree/transformators.py b/yargy/tree/transformators.py
index f837d19..0bd21e9 100644
--- a/yargy/tree/transformators.py
+++ b/yargy/tree/transformators.py
@@ -79,12 +79,22 @@ class KeepInterpretationNodesTransformator(TreeTransformator):
                 for item in self.flatten(child):
                     yield item
 
+    def unwrap(self, item):
+        # pipeline that is used in several rules is wrapped into a
+        # rule with a single term
+        while len(item.rule.productions) == len(item.production.terms) == 1:
+            child = item.children[0]
+            if isinstance(child, Leaf) or child.interpretator:
+                break
+            item = child
+        return item.production
+
     def visit_Node(self, item):
         if item.interpretator:
             children = [self.visit(_) for _ in self.flatten(item)]
             return Node(
                 item.rule,
-                item.production,
+                self.unwrap(item),
                 item.rank,
                 children
             )
-- 
2.43.0


From dafcda8ba75c85e520830cca56403d063cd8ac41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:46 +0000
Subject: [PATCH 16/38] fix: relations were checked in one pass, words in a
 match could disagree

---
 yargy/relations/graph.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/yargy/relations/graph.py b/yargy/relations/graph.py
index 7be590c..47356c9 100644
--- a/yargy/relations/graph.py
+++ b/yargy/relations/graph.py
@@ -64,11 +64,31 @@ class TokenRelationsGraph(RelationsGraph):
             self.token_forms[first_id] = checked_first_forms
             self.token_forms[second_id] = checked_second_forms
 
+        # Forms dropped by one relation may be the only ones that
+        # satisfied another, repeat until nothing changes
+        while self.prune():
+            pass
+
         for token_id in self.tokens:
             if not self.token_forms[token_id]:
                 return False
         return True
 
+    def prune(self):
+        sizes = sum(len(_) for _ in self.token_forms.values())
+        for relation, first, second in self.edges:
+            first_id = id(first)
+            second_id = id(second)
+            self.token_forms[first_id] = [
+                form for form in self.token_forms[first_id]
+                if any(relation(form, _) for _ in self.token_forms[second_id])
+            ]
+            self.token_forms[second_id] = [
+                form for form in self.token_forms[second_id]
+                if any(relation(_, form) for _ in self.token_forms[first_id])
+            ]
+        return sum(len(_) for _ in self.token_forms.values()) < sizes
+
     def constrain(self, token):
         token_id = id(token)
         if token_id in self.tokens:
-- 
2.43.0


From 0d3e7f793961a82a0ac1de6190ae83195b419ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:16 +0000
Subject: [PATCH 17/38] fix: relation on a token without morphology raised
 AttributeError

Such token has no forms to agree with others, there is no match.
---
 yargy/relations/graph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/yargy/relations/graph.py b/yargy/relations/graph.py
index 47356c9..1e35efa 100644
--- a/yargy/relations/graph.py
+++ b/yargy/relations/graph.py
@@ -3,6 +3,7 @@ from collections import defaultdict
 from itertools import combinations
 
 from yargy.record import Record
+from yargy.token import is_morph_token
 
 
 class Edge(Record):
@@ -42,7 +43,7 @@ class TokenRelationsGraph(RelationsGraph):
         super(TokenRelationsGraph, self).add(relation, token)
         token_id = id(token)
         self.tokens[token_id] = token
-        if token_id not in self.token_forms:
+        if token_id not in self.token_forms and is_morph_token(token):
             for form in token.forms:
                 self.token_forms[token_id].append(form)
 
-- 
2.43.0


From bb038dc792cfa2362450013e3ea232254a43189b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:25 +0000
Subject: [PATCH 18/38] fix: forward that is defined only by itself hung Parser

---
 yargy/rule/bnf.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/yargy/rule/bnf.py b/yargy/rule/bnf.py
index 4574883..0db3fda 100644
--- a/yargy/rule/bnf.py
+++ b/yargy/rule/bnf.py
@@ -162,10 +162,12 @@ class RemoveForwardTransformator(InplaceRuleTransformator):
         return item
 
     def visit_ForwardRule(self, item):
+        visited = set()
         while is_forward_rule(item):
-            item = item.rule
-            if not item:
+            if id(item) in visited or not item.rule:
                 raise TypeError('forward not defined')
+            visited.add(id(item))
+            item = item.rule
         return item
 
     def visit_PipelineBNFRule(self, item):
-- 
2.43.0


From 7abba4bb53e6a55a72e8ebcdf7099adad98d69bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:34 +0000
Subject: [PATCH 19/38] fix: inflected() without grams raised TypeError

---
 yargy/interpretation/normalizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yargy/interpretation/normalizer.py b/yargy/interpretation/normalizer.py
index 42367ed..f096365 100644
--- a/yargy/interpretation/normalizer.py
+++ b/yargy/interpretation/normalizer.py
@@ -35,7 +35,7 @@ class NormalizedNormalizer(MorphNormalizer):
 class InflectedNormalizer(MorphNormalizer):
     __attributes__ = ['grams']
 
-    def __init__(self, grams=None):
+    def __init__(self, grams={'nomn', 'sing'}):
         self.grams = grams
 
     def custom(self, function):
-- 
2.43.0


From e8bb32601813280138e005a562cc4563d31aa2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:39 +0000
Subject: [PATCH 20/38] fix: label of inflected() depended on hash seed

---
 yargy/interpretation/normalizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yargy/interpretation/normalizer.py b/yargy/interpretation/normalizer.py
index f096365..72772f6 100644
--- a/yargy/interpretation/normalizer.py
+++ b/yargy/interpretation/normalizer.py
@@ -50,7 +50,7 @@ class InflectedNormalizer(MorphNormalizer):
     @property
     def label(self):
         return 'inflected({grams})'.format(
-            grams=', '.join(self.grams)
+            grams=', '.join(sorted(self.grams))
         )
 
 
-- 
2.43.0


From 388bc8987d254d3ece5d20ead727c6805b485601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:50 +0000
Subject: [PATCH 21/38] fix: is_capitalized raised IndexError on a token with
 empty value

---
 yargy/predicates/bank.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yargy/predicates/bank.py b/yargy/predicates/bank.py
index c264ddf..611dabf 100644
--- a/yargy/predicates/bank.py
+++ b/yargy/predicates/bank.py
@@ -154,7 +154,7 @@ class is_capitalized(Predicate):
     """
 
     def __call__(self, token):
-        return token.value[0].isupper()
+        return token.value[:1].isupper()
 
 
 class eq(ParameterPredicate):
-- 
2.43.0


From 49ad0893a2893c9d13428e981776d6eaa2b859c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:50 +0000
Subject: [PATCH 22/38] fix: tokenizer rule added twice raised re.error

---
 yargy/tokenizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yargy/tokenizer.py b/yargy/tokenizer.py
index 8c47152..8238048 100644
--- a/yargy/tokenizer.py
+++ b/yargy/tokenizer.py
@@ -81,9 +81,9 @@ class Tokenizer(object):
         types = set()
         mapping = {}
         patterns = []
-        for rule in rules:
+        for index, rule in enumerate(rules):
             type, pattern = rule
-            name = 'rule_{id}'.format(id=id(rule))
+            name = 'rule_{index}'.format(index=index)
             pattern = r'(?P<{name}>{pattern})'.format(
                 name=name,
                 pattern=pattern
-- 
2.43.0


From f6bb4d7b405ea8fe10a944412a7e72c6c971d4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:53 +0000
Subject: [PATCH 23/38] fix: two words of common gender did not agree in gender

---
 yargy/relations/bank.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/yargy/relations/bank.py b/yargy/relations/bank.py
index ded58e3..0fafe96 100644
--- a/yargy/relations/bank.py
+++ b/yargy/relations/bank.py
@@ -25,6 +25,7 @@ class gender_relation(Relation):
             (form_male and other_male)
             or (form_female and other_female)
             or (form_neutral and other_neutral)
+            or (form_bi and other_bi)
             or (form_bi and (other_male or other_female))
             or (other_bi and (form_male or form_female))
             or form_general
-- 
2.43.0


From aa0f4f77790642a41540ffc328eadb75d9b966cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:12 +0000
Subject: [PATCH 24/38] fix: BNF of a rule with a pipeline raised
 AttributeError

---
 yargy/pipelines.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/yargy/pipelines.py b/yargy/pipelines.py
index a3a853c..2f5be3f 100644
--- a/yargy/pipelines.py
+++ b/yargy/pipelines.py
@@ -154,6 +154,11 @@ class PipelineScheme(Pipeline):
             tokenizer.split(line)
         )
 
+    @property
+    def as_bnf(self):
+        # keys are known after activation
+        return self.pipeline.bnf([])
+
     def activate(self, context):
         return self.pipeline(
             self.get_key(_, context.tokenizer)
-- 
2.43.0


From eac9d4e071434e9d447a5ffb67b95fbaf2af5f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:39 +0000
Subject: [PATCH 25/38] fix: gte and lte raised ValueError on numbers of more
 than 4300 digits

---
 yargy/predicates/bank.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/yargy/predicates/bank.py b/yargy/predicates/bank.py
index 611dabf..fd5e97d 100644
--- a/yargy/predicates/bank.py
+++ b/yargy/predicates/bank.py
@@ -1,4 +1,5 @@
 
+from decimal import Decimal
 from functools import wraps
 
 from yargy.tokenizer import INT
@@ -38,11 +39,19 @@ __all__ = [
 ]
 
 
+def parse_int(value):
+    try:
+        return int(value)
+    except ValueError:
+        # more digits than int is allowed to parse
+        return Decimal(value)
+
+
 def int_required(method):
     @wraps(method)
     def wrapper(self, token):
         if token.type == INT:
-            value = int(token.value)
+            value = parse_int(token.value)
             return method(self, value)
         else:
             return False
-- 
2.43.0


From 1dc0a6c66bd6e1aeedb03a0f8e8463ed5be4c4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:32 +0000
Subject: [PATCH 26/38] fix: tokenizer without rules yields no tokens instead
 of failing with KeyError

---
 yargy/tokenizer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/yargy/tokenizer.py b/yargy/tokenizer.py
index 8238048..cb6a897 100644
--- a/yargy/tokenizer.py
+++ b/yargy/tokenizer.py
@@ -91,7 +91,8 @@ class Tokenizer(object):
             mapping[name] = type
             types.add(type)
             patterns.append(pattern)
-        pattern = '|'.join(patterns)
+        # empty pattern matches everywhere, no rules should match nowhere
+        pattern = '|'.join(patterns) or r'(?!)'
         regexp = re.compile(pattern, re.UNICODE | re.IGNORECASE)
         return regexp, mapping, types
 
-- 
2.43.0


From a9b77244c2ae8739a9d1a2d64c2c0a7d93a1e323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:32 +0000
Subject: [PATCH 27/38] fix: rejected tokenizer rule does not stay in the
 tokenizer

---
 yargy/tokenizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yargy/tokenizer.py b/yargy/tokenizer.py
index cb6a897..ccbcee9 100644
--- a/yargy/tokenizer.py
+++ b/yargy/tokenizer.py
@@ -57,8 +57,8 @@ class Tokenizer(object):
     def reset(self, rules):
         for rule in rules:
             assert_type(rule, TokenRule)
-        self.rules = rules
         self.regexp, self.mapping, self.types = self.compile(rules)
+        self.rules = rules
 
     def add_rules(self, *rules):
         self.reset(list(rules) + self.rules)
-- 
2.43.0


From d5428d7c0f002b0dc068511c3029e73015e44ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:33 +0000
Subject: [PATCH 28/38] fix: changing forms of a token does not change the
 analysis cache

---
 yargy/morph.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/yargy/morph.py b/yargy/morph.py
index 9193955..bbf1b2c 100644
--- a/yargy/morph.py
+++ b/yargy/morph.py
@@ -140,4 +140,8 @@ class CachedMorphAnalyzer(MorphAnalyzer):
     def __init__(self):
         super(CachedMorphAnalyzer, self).__init__()
 
-    __call__ = lru_cache(CACHE_SIZE)(MorphAnalyzer.__call__)
+    parse = lru_cache(CACHE_SIZE)(MorphAnalyzer.__call__)
+
+    def __call__(self, word):
+        # cached list is shared, caller may change the one it gets
+        return list(self.parse(word))
-- 
2.43.0


From ddbf306c2b1a98e13928aa1888f155e3a35e9cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:52 +0000
Subject: [PATCH 29/38] fix: labels of functions that have no __name__

---
 yargy/interpretation/normalizer.py | 13 ++++++++-----
 yargy/predicates/bank.py           |  3 ++-
 yargy/record.py                    |  5 +++++
 3 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/yargy/interpretation/normalizer.py b/yargy/interpretation/normalizer.py
index 72772f6..b880b09 100644
--- a/yargy/interpretation/normalizer.py
+++ b/yargy/interpretation/normalizer.py
@@ -1,5 +1,8 @@
 
-from yargy.record import Record
+from yargy.record import (
+    Record,
+    function_name
+)
 from yargy.check import assert_type
 from yargy.token import (
     join_normalized_tokens,
@@ -93,7 +96,7 @@ class FunctionNormalizer(CustomNormalizer):
     @property
     def label(self):
         return 'custom({name})'.format(
-            name=self.function.__name__
+            name=function_name(self.function)
         )
 
 
@@ -111,8 +114,8 @@ class FunctionFunctionNormalizer(CustomNormalizer):
     @property
     def label(self):
         return 'custom({first}).custom({second})'.format(
-            first=self.first.__name__,
-            second=self.second.__name__
+            first=function_name(self.first),
+            second=function_name(self.second)
         )
 
 
@@ -131,5 +134,5 @@ class MorphFunctionNormalizer(MorphNormalizer, CustomNormalizer):
     def label(self):
         return '{morph}.{function}'.format(
             morph=self.morph.label,
-            function=self.function.__name__
+            function=function_name(self.function)
         )
diff --git a/yargy/predicates/bank.py b/yargy/predicates/bank.py
index fd5e97d..3d4a43f 100644
--- a/yargy/predicates/bank.py
+++ b/yargy/predicates/bank.py
@@ -2,6 +2,7 @@
 from decimal import Decimal
 from functools import wraps
 
+from yargy.record import function_name
 from yargy.tokenizer import INT
 from yargy.token import (
     is_tag_token,
@@ -513,5 +514,5 @@ class CustomPredicate(Predicate):
     @property
     def label(self):
         return 'custom({name})'.format(
-            name=self.function.__name__
+            name=function_name(self.function)
         )
diff --git a/yargy/record.py b/yargy/record.py
index b5eadb6..082a2d9 100644
--- a/yargy/record.py
+++ b/yargy/record.py
@@ -55,3 +55,8 @@ class Record(object):
                             printer.break_()
                 printer.break_()
             printer.text(')')
+
+
+def function_name(function):
+    # partial or other callable object has no name
+    return getattr(function, '__name__', type(function).__name__)
-- 
2.43.0


From ed8159cbcca6bb88d8bda9aedfb88f021eb52c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:41 +0000
Subject: [PATCH 30/38] fix: words in second genitive and locative did not
 agree with words in genitive and locative

---
 yargy/morph.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/yargy/morph.py b/yargy/morph.py
index bbf1b2c..222181c 100644
--- a/yargy/morph.py
+++ b/yargy/morph.py
@@ -46,6 +46,14 @@ class Number(Record):
         self.only_plural = 'Pltm' in grams
 
 
+# index in mask -> grams of the same case
+RARE_CASES = {
+    1: ['gen1', 'gen2'],
+    3: ['acc1', 'acc2'],
+    5: ['loc1', 'loc2'],
+}
+
+
 class Case(Record):
     __attributes__ = ['mask', 'fixed']
 
@@ -54,6 +62,10 @@ class Case(Record):
             (_ in grams)
             for _ in ['nomn', 'gent', 'datv', 'accs', 'ablt', 'loct', 'voct']
         ]
+        # "в прошлом году": adjective in loct, noun in loc2
+        for index, rare in RARE_CASES.items():
+            if any(_ in grams for _ in rare):
+                self.mask[index] = True
         self.fixed = 'Fixd' in grams
 
 
-- 
2.43.0


From f1d8916d4703fd43e4c75b52bddd386cd204f735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:29 +0000
Subject: [PATCH 31/38] fix: rules of a tokenizer given as a tuple or an
 iterator

---
 yargy/tokenizer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/yargy/tokenizer.py b/yargy/tokenizer.py
index ccbcee9..f5bdad3 100644
--- a/yargy/tokenizer.py
+++ b/yargy/tokenizer.py
@@ -55,6 +55,7 @@ class Tokenizer(object):
         self.reset(rules)
 
     def reset(self, rules):
+        rules = list(rules)
         for rule in rules:
             assert_type(rule, TokenRule)
         self.regexp, self.mapping, self.types = self.compile(rules)
-- 
2.43.0


From da8b39cc206f0562477fba0f1e260c05ad916271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:29 +0000
Subject: [PATCH 32/38] fix: zero bounds of a repeatable rule were taken for no
 bounds

---
 yargy/rule/constructors.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/yargy/rule/constructors.py b/yargy/rule/constructors.py
index 6489777..d665038 100644
--- a/yargy/rule/constructors.py
+++ b/yargy/rule/constructors.py
@@ -72,11 +72,11 @@ class Rule(Record):
         return OptionalRule(self, reverse)
 
     def repeatable(self, min=None, max=None, reverse=False):
-        if min and max:
+        if min is not None and max is not None:
             return MinMaxBoundedRule(self, min, max, reverse)
-        elif min:
+        elif min is not None:
             return MinBoundedRule(self, min, reverse)
-        elif max:
+        elif max is not None:
             return MaxBoundedRule(self, max, reverse)
         else:
             return RepeatableRule(self, reverse)
-- 
2.43.0


From 2cb07c6c23dab604c917808d2e5d99f683fdc5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:43 +0000
Subject: [PATCH 33/38] fix: define() of a named or annotated forward returned
 the forward itself

---
 yargy/rule/constructors.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/yargy/rule/constructors.py b/yargy/rule/constructors.py
index d665038..45d7ad0 100644
--- a/yargy/rule/constructors.py
+++ b/yargy/rule/constructors.py
@@ -177,7 +177,8 @@ class WrapperRule(Rule):
         self.rule = rule
 
     def define(self, *args):
-        return self.rule.define(*args)
+        self.rule.define(*args)
+        return self
 
     @property
     def children(self):
-- 
2.43.0


From 821875ba96c0454e17151361a759f9903bc1b5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:50:11 +0000
Subject: [PATCH 34/38] fix: rule() without terms was listed as nothing instead
 of e

---
 yargy/rule/constructors.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/yargy/rule/constructors.py b/yargy/rule/constructors.py
index 45d7ad0..d80a641 100644
--- a/yargy/rule/constructors.py
+++ b/yargy/rule/constructors.py
@@ -44,7 +44,8 @@ class Production(Record):
             if self.main > 0 and self.main == index:
                 label = '^' + label
             labels.append(label)
-        return ' '.join(labels)
+        # rule() without terms is an empty sequence too
+        return ' '.join(labels) or 'e'
 
 
 class EmptyProduction(Production):
-- 
2.43.0


From 521aaee6b747a5a406f6da0d1841b32f95de6f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:50:15 +0000
Subject: [PATCH 35/38] fix: composition of taggers given as an iterator tagged
 nothing after the first use

---
 yargy/tagger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yargy/tagger.py b/yargy/tagger.py
index 5ef4a67..ad25a9a 100644
--- a/yargy/tagger.py
+++ b/yargy/tagger.py
@@ -18,7 +18,7 @@ class PassTagger(Tagger):
 
 class TaggersComposition(Tagger):
     def __init__(self, taggers):
-        self.taggers = taggers
+        self.taggers = list(taggers)
 
     def __call__(self, tokens):
         for tagger in self.taggers:
-- 
2.43.0


From 62cee76330a5c25312d1516f305d41043e0180aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:19 +0000
Subject: [PATCH 36/38] fix: tokens that were being read while rules of the
 tokenizer changed got wrong types

---
 yargy/tokenizer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/yargy/tokenizer.py b/yargy/tokenizer.py
index f5bdad3..30591d2 100644
--- a/yargy/tokenizer.py
+++ b/yargy/tokenizer.py
@@ -98,11 +98,13 @@ class Tokenizer(object):
         return regexp, mapping, types
 
     def __call__(self, text):
-        for match in re.finditer(self.regexp, text):
+        # rules may be changed while tokens are being read
+        regexp, mapping = self.regexp, self.mapping
+        for match in re.finditer(regexp, text):
             name = match.lastgroup
             value = match.group(0)
             start, stop = match.span()
-            type = self.mapping[name]
+            type = mapping[name]
             token = Token(value, Span(start, stop), type)
             yield token
 
-- 
2.43.0


From 439532cb750f5cc8deff8e32d558e5cdb067d32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:19 +0000
Subject: [PATCH 37/38] fix: optional() of a predicate did not take reverse

---
 yargy/predicates/constructors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yargy/predicates/constructors.py b/yargy/predicates/constructors.py
index 41b0f91..d544ba1 100644
--- a/yargy/predicates/constructors.py
+++ b/yargy/predicates/constructors.py
@@ -10,9 +10,9 @@ class Predicate(Record):
         # return True of False
         raise NotImplementedError
 
-    def optional(self):
+    def optional(self, reverse=False):
         from yargy.api import rule
-        return rule(self).optional()
+        return rule(self).optional(reverse=reverse)
 
     def repeatable(self, min=None, max=None, reverse=False):
         from yargy.api import rule
-- 
2.43.0


From 1f7ae6cb9976383e3627e877149feffa9f9a0479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:19 +0000
Subject: [PATCH 38/38] fix: in_() and dictionary() given an iterator matched
 only until it was exhausted

---
 yargy/predicates/bank.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/yargy/predicates/bank.py b/yargy/predicates/bank.py
index 3d4a43f..202c9c3 100644
--- a/yargy/predicates/bank.py
+++ b/yargy/predicates/bank.py
@@ -1,4 +1,5 @@
 
+from collections.abc import Iterator
 from decimal import Decimal
 from functools import wraps
 
@@ -48,6 +49,13 @@ def parse_int(value):
         return Decimal(value)
 
 
+def prepare_values(values):
+    # iterator can be read once, predicate is used many times
+    if isinstance(values, Iterator):
+        values = set(values)
+    return values
+
+
 def int_required(method):
     @wraps(method)
     def wrapper(self, token):
@@ -268,6 +276,9 @@ class in_(ParameterPredicate):
 
     """
 
+    def __init__(self, value):
+        super(in_, self).__init__(prepare_values(value))
+
     def __call__(self, token):
         return token.value in self.value
 
@@ -330,6 +341,9 @@ class dictionary(ParameterPredicateScheme):
 
     """
 
+    def __init__(self, value):
+        super(dictionary, self).__init__(prepare_values(value))
+
     def activate(self, context):
         normalized = set()
         for item in self.value:
-- 
2.43.0

