From dc79f9b9960382c6049c4e7f3bc8e1862701b500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:21 +0000
Subject: [PATCH 01/27] fix: match_at tries least costly rules first across
 branches of the graph

---
 graphtransliterator/core.py | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/graphtransliterator/core.py b/graphtransliterator/core.py
index d102b83..dd67fd0 100644
--- a/graphtransliterator/core.py
+++ b/graphtransliterator/core.py
@@ -28,7 +28,8 @@ from .schemas import (
     TransliterationRuleSchema,
     WhitespaceSettingsSchema,
 )
-from collections import deque
+from heapq import heappop, heappush
+from itertools import count
 
 from graphtransliterator import __version__ as __version__
 import json
@@ -242,6 +243,12 @@ class GraphTransliterator:
         if not graph:
             graph = _graph_from(rules)
         self._graph = graph
+        # As the graph is a tree, each node has the cost of its one incoming edge
+        self._node_costs = {
+            tail: edge_data.get("cost", 0)
+            for tails in graph.edge.values()
+            for tail, edge_data in tails.items()
+        }
 
         self._rule_keys = []  # last matched rules
 
@@ -706,7 +713,12 @@ class GraphTransliterator:
         graph_edge = graph.edge
         if match_all:
             matches = []
-        stack = deque()
+        queue = []  # heap, least costly edge first, then last added
+        order = count(0, -1)
+
+        def _append(child_key, node_key, token_i):
+            cost = self._node_costs[child_key]
+            heappush(queue, (cost, next(order), child_key, node_key, token_i))
 
         def _append_children(node_key, token_i):
             children = None
@@ -714,22 +726,22 @@ class GraphTransliterator:
             if ordered_children:
                 children = ordered_children.get(tokens[token_i])
                 if children:
-                    # reordered high to low for stack:
+                    # reordered high to low, as last added are tried first:
                     for child_key in reversed(children):
-                        stack.appendleft((child_key, node_key, token_i))
+                        _append(child_key, node_key, token_i)
                 else:
                     rules_keys = ordered_children.get("__rules__")  # leafs
                     if rules_keys:
                         # There may be more than one rule, as certain rules have
                         # constraints on them.
-                        # Reordered so higher cost go on stack last.
+                        # Reordered so that of equal costs the first is tried first.
                         for rule_key in reversed(rules_keys):
-                            stack.appendleft((rule_key, node_key, token_i))
+                            _append(rule_key, node_key, token_i)
 
         _append_children(0, token_i)  # Append all children of root node
 
-        while stack:  # LIFO
-            node_key, parent_key, token_i = stack.popleft()
+        while queue:  # best first
+            _, _, node_key, parent_key, token_i = heappop(queue)
 
             curr_node = graph_node[node_key]
             # Constraints are only on preceding edge if it is accepting
-- 
2.43.0


From 83fa62029a080a5e9df0ec29724ba0d6ee8a74d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:21 +0000
Subject: [PATCH 02/27] fix: match_at does not match the last token twice or
 misplace constraints at end of input

---
 graphtransliterator/core.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/graphtransliterator/core.py b/graphtransliterator/core.py
index dd67fd0..cadde92 100644
--- a/graphtransliterator/core.py
+++ b/graphtransliterator/core.py
@@ -724,7 +724,8 @@ class GraphTransliterator:
             children = None
             ordered_children = graph_node[node_key].get("ordered_children")
             if ordered_children:
-                children = ordered_children.get(tokens[token_i])
+                if token_i < len(tokens):
+                    children = ordered_children.get(tokens[token_i])
                 if children:
                     # reordered high to low, as last added are tried first:
                     for child_key in reversed(children):
@@ -757,8 +758,7 @@ class GraphTransliterator:
                 else:
                     return curr_node["rule_key"]
             else:
-                if token_i < len(tokens) - 1:
-                    token_i += 1
+                token_i += 1
                 _append_children(node_key, token_i)
         if match_all:
             return matches
-- 
2.43.0


From 47a12adf63339b5848b0d1de4edb06c56e2614bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:49 +0000
Subject: [PATCH 03/27] fix: check_for_ambiguity compares every pair of rules
 of the same cost

---
 graphtransliterator/ambiguity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphtransliterator/ambiguity.py b/graphtransliterator/ambiguity.py
index 7e5a102..b9dd0e7 100644
--- a/graphtransliterator/ambiguity.py
+++ b/graphtransliterator/ambiguity.py
@@ -114,7 +114,7 @@ def check_for_ambiguity(transliterator):
                 j_index = group[j][0]
                 intersection = full_intersection(i_index, j_index)
                 if not intersection:
-                    break
+                    continue
 
                 # Check if a less costly rule matches intersection
 
-- 
2.43.0


From 3c19b392c1944c79a11b41eac75ad15122572f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:49 +0000
Subject: [PATCH 04/27] fix: check_for_ambiguity only lets a less costly rule
 resolve an ambiguity

---
 graphtransliterator/ambiguity.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/graphtransliterator/ambiguity.py b/graphtransliterator/ambiguity.py
index b9dd0e7..5cdeaa0 100644
--- a/graphtransliterator/ambiguity.py
+++ b/graphtransliterator/ambiguity.py
@@ -120,9 +120,7 @@ def check_for_ambiguity(transliterator):
 
                 def covered_by_less_costly():
                     for r_i, rule in enumerate(rules):
-                        if r_i in (i_index, j_index):
-                            continue
-                        if rule.cost > rules[i_index].cost:
+                        if rule.cost >= rules[i_index].cost:
                             continue
                         rule_tokens = matrix[r_i]
                         if covered_by(intersection, rule_tokens):
-- 
2.43.0


From b271aa74deb87f667248bf2e0220577c16a61676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:50 +0000
Subject: [PATCH 05/27] fix: load and loads honor check_ambiguity and
 ignore_errors

---
 graphtransliterator/core.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/graphtransliterator/core.py b/graphtransliterator/core.py
index cadde92..dafe889 100644
--- a/graphtransliterator/core.py
+++ b/graphtransliterator/core.py
@@ -91,8 +91,9 @@ class GraphTransliteratorSchema(Schema):
             raise IncorrectVersionException
         compressed_settings = data.get("compressed_settings")
         if compressed_settings:
-            data = decompress_config(compressed_settings)
-            data.update(graphtransliterator_version=version)
+            # Keep any other settings, e.g. keyword parameters of load()
+            options = {k: v for k, v in data.items() if k != "compressed_settings"}
+            data = dict(decompress_config(compressed_settings), **options)
         return data
 
     @post_load
@@ -102,7 +103,7 @@ class GraphTransliteratorSchema(Schema):
             if data.get(key):  # tokens_by_class can be generated
                 data[key] = {k: set(v) for k, v in data[key].items()}
         # Do not check ambiguity by default if deserializing
-        data["check_ambiguity"] = kwargs.get("check_ambiguity", False)
+        data.setdefault("check_ambiguity", False)
         return GraphTransliterator(**data)
 
     @validates_schema
-- 
2.43.0


From 11a1d341e3f7a5eeb7f7c4c3ce89196bdf64f8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:50 +0000
Subject: [PATCH 06/27] fix: compressed dumps preserve ignore_errors

---
 graphtransliterator/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/graphtransliterator/core.py b/graphtransliterator/core.py
index dafe889..7c2d285 100644
--- a/graphtransliterator/core.py
+++ b/graphtransliterator/core.py
@@ -578,13 +578,16 @@ class GraphTransliterator:
             raise ValueError(
                 f"Compression level must be between 0 and {HIGHEST_COMPRESSION_LEVEL}"
             )
-        return {
+        config = {
             "graphtransliterator_version": __version__,
             "compressed_settings": compress_config(
                 GraphTransliteratorSchema().dump(self),
                 compression_level=compression_level,
             ),
         }
+        if self.ignore_errors:  # not part of compressed settings
+            config["ignore_errors"] = True
+        return config
 
     def dumps(self, compression_level=2):
         """
-- 
2.43.0


From 081b14ac5726e4097a07f39c4564579385d2303a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:50 +0000
Subject: [PATCH 07/27] fix: dumps of transliterators without metadata can be
 loaded

---
 graphtransliterator/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphtransliterator/core.py b/graphtransliterator/core.py
index 7c2d285..6894cab 100644
--- a/graphtransliterator/core.py
+++ b/graphtransliterator/core.py
@@ -63,7 +63,7 @@ class GraphTransliteratorSchema(Schema):
         OnMatchRuleSchema, many=True, required=False, allow_none=True
     )
     metadata = fields.Dict(
-        keys=fields.Str(), required=False  # No restriction on values
+        keys=fields.Str(), required=False, allow_none=True  # any values
     )
     ignore_errors = fields.Bool(required=False)
     onmatch_rules_lookup = fields.Dict(required=False, allow_none=True)
-- 
2.43.0


From 6fe4583121fe2b06b318752fdca60460ae207b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:50 +0000
Subject: [PATCH 08/27] fix: onmatch_rules are optional in from_dict

---
 graphtransliterator/schemas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphtransliterator/schemas.py b/graphtransliterator/schemas.py
index c988882..4bf83bf 100644
--- a/graphtransliterator/schemas.py
+++ b/graphtransliterator/schemas.py
@@ -145,7 +145,7 @@ class SettingsSchema(Schema):
 
         # Validate onmatch_rules and rules
         for rule_type in ("onmatch_rules", "rules"):
-            for rule in data[rule_type]:
+            for rule in data.get(rule_type) or []:
                 for property in ("prev_classes", "next_classes"):
                     values = getattr(rule, property)
                     if not values:
-- 
2.43.0


From 0ebc8811f7bb0bd18e4e8c1d9107f0bf6458aa03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:50 +0000
Subject: [PATCH 09/27] fix: pruned_of a str only removes rules with exactly
 that production

---
 graphtransliterator/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphtransliterator/core.py b/graphtransliterator/core.py
index 6894cab..dc0d68f 100644
--- a/graphtransliterator/core.py
+++ b/graphtransliterator/core.py
@@ -814,6 +814,8 @@ class GraphTransliterator:
           gt.pruned_of(['<A>', '<AA>']).rules
 
         """  # noqa
+        if isinstance(productions, str):
+            productions = [productions]
         pruned_rules = [_ for _ in self._rules if _.production not in productions]
         return GraphTransliterator(
             self._tokens,
-- 
2.43.0


From b2af688ce2dbbcb7fe8ea3b57af8eae457049102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:50 +0000
Subject: [PATCH 10/27] fix: detect later versions numerically when loading

---
 graphtransliterator/core.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/graphtransliterator/core.py b/graphtransliterator/core.py
index dc0d68f..90cb939 100644
--- a/graphtransliterator/core.py
+++ b/graphtransliterator/core.py
@@ -51,6 +51,11 @@ DEFAULT_COMPRESSION_LEVEL = 2
 HIGHEST_COMPRESSION_LEVEL = 2
 
 
+def _version_key(version):
+    """Key to compare versions numerically, e.g. 1.10.0 is later than 1.9.0."""
+    return [int(_) for _ in re.findall(r"\d+", version)]
+
+
 class GraphTransliteratorSchema(Schema):
     """Schema for Graph Transliterator."""
 
@@ -87,7 +92,7 @@ class GraphTransliteratorSchema(Schema):
     def check_version_and_compression(self, data, **kwargs):
         """Raises error if serialized GraphTransliterator is from a later version."""
         version = data.get("graphtransliterator_version")
-        if version and version > __version__:
+        if version and _version_key(version) > _version_key(__version__):
             raise IncorrectVersionException
         compressed_settings = data.get("compressed_settings")
         if compressed_settings:
-- 
2.43.0


From a3df328c77ff369efa2626dd4f541ebd4fcfe502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:50 +0000
Subject: [PATCH 11/27] fix: generated tests of on match rules use their next
 classes

---
 graphtransliterator/transliterators/bundled.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphtransliterator/transliterators/bundled.py b/graphtransliterator/transliterators/bundled.py
index 6ce327e..dbf315f 100644
--- a/graphtransliterator/transliterators/bundled.py
+++ b/graphtransliterator/transliterators/bundled.py
@@ -187,7 +187,7 @@ class Bundled(CoverageTransliterator, GraphTransliterator):
                 for _ in rule.prev_classes:
                     token = sample_token(_)
                     input_ += token
-                for _ in rule.prev_classes:
+                for _ in rule.next_classes:
                     token = sample_token(_)
                     input_ += token
                 tests[input_] = self.transliterate(input_)
-- 
2.43.0


From 29b3a2a053fbb03b802d31b449d1b534884e34cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:50 +0000
Subject: [PATCH 12/27] fix: unescape Unicode character names containing digits

---
 graphtransliterator/initialize.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphtransliterator/initialize.py b/graphtransliterator/initialize.py
index f10db33..ead4122 100644
--- a/graphtransliterator/initialize.py
+++ b/graphtransliterator/initialize.py
@@ -261,8 +261,8 @@ def _unescape_charnames(input_str):
     def get_unicode_char(matchobj):
         """Get Unicode character value from escaped character sequences."""
         charname = matchobj.group(0)
-        match = re.match(r"\\N{([-A-Z ]+)}", charname)
+        match = re.match(r"\\N{([-A-Z0-9 ]+)}", charname)
         char = unicodedata.lookup(match.group(1))  # KeyError if invalid
         return char
 
-    return re.sub(r"\\N{[-A-Z ]+}", get_unicode_char, input_str)
+    return re.sub(r"\\N{[-A-Z0-9 ]+}", get_unicode_char, input_str)
-- 
2.43.0


From a7d1c5953938409d559299095f0e832cef501087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:50 +0000
Subject: [PATCH 13/27] fix: add_edge lists an edge only once

---
 graphtransliterator/graphs.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/graphtransliterator/graphs.py b/graphtransliterator/graphs.py
index 53e0490..cfb51bc 100644
--- a/graphtransliterator/graphs.py
+++ b/graphtransliterator/graphs.py
@@ -110,9 +110,10 @@ class DirectedGraph:
         if head not in self.edge:
             self.edge[head] = {}
 
-        self.edge[head][tail] = edge_data
+        if tail not in self.edge[head]:
+            self.edge_list.append(tuple([head, tail]))
 
-        self.edge_list.append(tuple([head, tail]))
+        self.edge[head][tail] = edge_data
 
         return self.edge[head][tail]
 
-- 
2.43.0


From 7c8e713a42d00961e355ed3a1e6f6a2ea82496f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:32 +0000
Subject: [PATCH 14/27] fix: compressed dumps do not vary with the iteration
 order of token classes

---
 graphtransliterator/compression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphtransliterator/compression.py b/graphtransliterator/compression.py
index 7b11a81..b3b9dd5 100644
--- a/graphtransliterator/compression.py
+++ b/graphtransliterator/compression.py
@@ -169,7 +169,7 @@ def compress_config(config, compression_level=1):
     class_list = tuple(sorted(set().union(*config["tokens"].values())))
     _class_id = {_: i for i, _ in enumerate(class_list)}
     tokens = tuple(
-        tuple(_class_id[_] for _ in config["tokens"][tkn]) for tkn in token_list
+        tuple(sorted(_class_id[_] for _ in config["tokens"][tkn])) for tkn in token_list
     )
     nodetype_list = tuple(sorted(set([_["type"] for _ in config["graph"]["node"]])))
     _nodetype_id = {_: i for i, _ in enumerate(nodetype_list)}
-- 
2.43.0


From 09b0a57991b3c025687e4ee17b7e5dc3b23ac8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:32 +0000
Subject: [PATCH 15/27] fix: dumping or pruning a CoverageTransliterator does
 not count as visiting

---
 graphtransliterator/graphs.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/graphtransliterator/graphs.py b/graphtransliterator/graphs.py
index cfb51bc..9b1ddbd 100644
--- a/graphtransliterator/graphs.py
+++ b/graphtransliterator/graphs.py
@@ -171,6 +171,10 @@ class VisitLoggingList(UserList):
         self.visited.add(i)
         return self.data[i]
 
+    def __iter__(self):
+        # Iterating over all items, e.g. to dump them, is not a visit.
+        return iter(self.data)
+
     def clear_visited(self):
         self.visited.clear()
 
@@ -186,6 +190,13 @@ class VisitLoggingDict(UserDict):
         self.visited.add(i)
         return self.data[i]
 
+    def items(self):
+        # Iterating over all items, e.g. to dump them, is not a visit.
+        return self.data.items()
+
+    def values(self):
+        return self.data.values()
+
     def clear_visited(self):
         self.visited.clear()
 
-- 
2.43.0


From 6ca6a8672906b639cb18ea5d4f6849c256e6e624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:32 +0000
Subject: [PATCH 16/27] fix: tokenize terminates if there is an empty token

---
 graphtransliterator/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphtransliterator/core.py b/graphtransliterator/core.py
index 90cb939..837cba0 100644
--- a/graphtransliterator/core.py
+++ b/graphtransliterator/core.py
@@ -878,7 +878,7 @@ class GraphTransliterator:
         match_at = 0
         while match_at < len(input):
             match = self._tokenizer.match(input, match_at)
-            if match:
+            if match and match.group(0):  # an empty token cannot be matched
                 match_at = match.end()  # advance match_at
                 token = match.group(0)
                 # Could save match loc here:
-- 
2.43.0


From 8441750bab96ad29305737d0faa70ca2b0ff2b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:32 +0000
Subject: [PATCH 17/27] fix: reject transliteration rules without tokens, which
 match endlessly

---
 graphtransliterator/schemas.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/graphtransliterator/schemas.py b/graphtransliterator/schemas.py
index 4bf83bf..cc5741e 100644
--- a/graphtransliterator/schemas.py
+++ b/graphtransliterator/schemas.py
@@ -66,7 +66,9 @@ class TransliterationRuleSchema(Schema):
     """Schema for :class:`TransliterationRule`."""
 
     production = fields.Str(required=True)
-    tokens = fields.List(fields.Str(), required=True)
+    tokens = fields.List(
+        fields.Str(), required=True, validate=validate.Length(min=1)
+    )
     prev_classes = fields.List(fields.Str(), allow_none=True)
     next_classes = fields.List(fields.Str(), allow_none=True)
     prev_tokens = fields.List(fields.Str(), allow_none=True)
-- 
2.43.0


From a46c5e9b49a599f7ac147189e02de47969dcffe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:32 +0000
Subject: [PATCH 18/27] fix: do not ignore text after the next classes of an
 easy reading rule

---
 graphtransliterator/process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphtransliterator/process.py b/graphtransliterator/process.py
index c82c546..7d5b61b 100644
--- a/graphtransliterator/process.py
+++ b/graphtransliterator/process.py
@@ -43,7 +43,7 @@ RULE_RE = re.compile(
     r"(?:"
     r"\s+(?:\((.+?)((?:\s+<.+?>?)?)\)$)"
     r"|"
-    r"((?:\s+<.+?>)+)"
+    r"((?:\s+<.+?>)+)\s*$"
     r"|"
     r"$)"
 )
-- 
2.43.0


From 5be114feeabcdc9500c92a258899b0b528a31179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:11 +0000
Subject: [PATCH 19/27] fix: a pruned transliterator does not log visits to the
 on match rules of the original

---
 graphtransliterator/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/graphtransliterator/core.py b/graphtransliterator/core.py
index 837cba0..c5b1840 100644
--- a/graphtransliterator/core.py
+++ b/graphtransliterator/core.py
@@ -822,11 +822,14 @@ class GraphTransliterator:
         if isinstance(productions, str):
             productions = [productions]
         pruned_rules = [_ for _ in self._rules if _.production not in productions]
+        onmatch_rules = self._onmatch_rules
+        if onmatch_rules:  # copied, as those of a CoverageTransliterator log visits
+            onmatch_rules = list(onmatch_rules)
         return GraphTransliterator(
             self._tokens,
             pruned_rules,
             self._whitespace,
-            onmatch_rules=self._onmatch_rules,
+            onmatch_rules=onmatch_rules,
             metadata=self._metadata,
             ignore_errors=self._ignore_errors,
             check_ambiguity=self._check_ambiguity,
-- 
2.43.0


From 3d3ce78f9ec49eba7486f46341f09bf22d0cb5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:12 +0000
Subject: [PATCH 20/27] fix: logging visits to a graph does not alter the graph
 it was made from

---
 graphtransliterator/graphs.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/graphtransliterator/graphs.py b/graphtransliterator/graphs.py
index 9b1ddbd..fe890df 100644
--- a/graphtransliterator/graphs.py
+++ b/graphtransliterator/graphs.py
@@ -212,10 +212,10 @@ class VisitLoggingDirectedGraph(DirectedGraph):
         # We only care about {TAIL: DATA} for checking coverage.
         # First, convert all {TAIL: {DATA}} to VisitLoggingDict
         # (This avoids settings {HEAD: {...}} to visited
-        for head in self.edge.keys():
-            self.edge[head] = VisitLoggingDict(self.edge[head])
+        # The edges of the existing graph are left as they are.
+        edge = {head: VisitLoggingDict(tails) for head, tails in self.edge.items()}
         # Second, convert {HEAD: {...}} to VisitLoggingDict
-        self.edge = VisitLoggingDict(self.edge)
+        self.edge = VisitLoggingDict(edge)
 
     def __init__(self, graph):
         """Initialize from existing graph."""
-- 
2.43.0


From 5ce770108c14c08c805df310d442015270f47ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:19 +0000
Subject: [PATCH 21/27] fix: compress the graph of a transliterator without
 rules

---
 graphtransliterator/compression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphtransliterator/compression.py b/graphtransliterator/compression.py
index b3b9dd5..ef32a8c 100644
--- a/graphtransliterator/compression.py
+++ b/graphtransliterator/compression.py
@@ -136,7 +136,7 @@ def compress_config(config, compression_level=1):
 
     def compress_node(_node):
         def compressed_ordered_children():
-            x = _node.get("ordered_children")
+            x = _node.get("ordered_children") or {}  # none if there are no rules
             out = {}
             for k, v in x.items():
                 if k == "__rules__":
-- 
2.43.0


From b05284b5bf649ab45f0c293ea70b4215118367a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:22 +0000
Subject: [PATCH 22/27] fix: do not ignore text between or within the classes
 of easy reading rules

---
 graphtransliterator/process.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/graphtransliterator/process.py b/graphtransliterator/process.py
index 7d5b61b..aba9afe 100644
--- a/graphtransliterator/process.py
+++ b/graphtransliterator/process.py
@@ -38,12 +38,12 @@ def _process_easyreading_settings(settings):
 # added \n and \r explicitly as validator does not accept re.DOTALL
 
 RULE_RE = re.compile(
-    r"(?:\(((?:\s?<.+?>\s+)+)?(.+?)\s?\) |((?:\s?<.+?>\s+)+)?)?"
+    r"(?:\(((?:\s?<[^<>]+>\s+)+)?(.+?)\s?\) |((?:\s?<[^<>]+>\s+)+)?)?"
     r"((?:\n|\r|.)+?)"
     r"(?:"
-    r"\s+(?:\((.+?)((?:\s+<.+?>?)?)\)$)"
+    r"\s+(?:\((.+?)((?:\s+<[^<>]+>)*)\)$)"
     r"|"
-    r"((?:\s+<.+?>)+)\s*$"
+    r"((?:\s+<[^<>]+>)+)\s*$"
     r"|"
     r"$)"
 )
@@ -58,11 +58,11 @@ def _process_rule(key, value):
     assert match, "Rule pattern is not valid: %s" % key
 
     if match.group(1):
-        rule["prev_classes"] = re.findall("<(.+?)>", match.group(1))
+        rule["prev_classes"] = re.findall("<([^<>]+)>", match.group(1))
     if match.group(2):
         rule["prev_tokens"] = match.group(2).split(" ")
     if match.group(3):
-        rule["prev_classes"] = re.findall("<(.+?)>", match.group(3))
+        rule["prev_classes"] = re.findall("<([^<>]+)>", match.group(3))
     if match.group(4) == " ":
         rule["tokens"] = [" "]
     else:
@@ -70,9 +70,9 @@ def _process_rule(key, value):
     if match.group(5):
         rule["next_tokens"] = match.group(5).split(" ")
     if match.group(6):
-        rule["next_classes"] = re.findall("<(.+?)>", match.group(6))
+        rule["next_classes"] = re.findall("<([^<>]+)>", match.group(6))
     if match.group(7):
-        rule["next_classes"] = re.findall("<(.+?)>", match.group(7))
+        rule["next_classes"] = re.findall("<([^<>]+)>", match.group(7))
 
     return rule
 
@@ -87,7 +87,7 @@ def _process_rules(easyreading_rules):
 
 
 ONMATCH_RE = re.compile(
-    r"^(" r"(?:<[^+< \s]+>\s*)+" r")" r"\+" r"(" r"(?:\s*<[^+<]+>)+)\s*$"
+    r"^(" r"(?:<[^+< \s]+>\s*)+" r")" r"\+" r"(" r"(?:\s*<[^+< \s]+>)+)\s*$"
 )
 
 ONMATCH_CLASS_RE = re.compile(r"(?<=<)[^+< \s]+(?=>)")
-- 
2.43.0


From d87013faaf13b39ca6586ef5fc32439c8a4338a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:29 +0000
Subject: [PATCH 23/27] fix: quote generated tests so that NEL, LS and PS
 characters survive

---
 graphtransliterator/transliterators/bundled.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/graphtransliterator/transliterators/bundled.py b/graphtransliterator/transliterators/bundled.py
index dbf315f..60ff895 100644
--- a/graphtransliterator/transliterators/bundled.py
+++ b/graphtransliterator/transliterators/bundled.py
@@ -192,4 +192,9 @@ class Bundled(CoverageTransliterator, GraphTransliterator):
                     input_ += token
                 tests[input_] = self.transliterate(input_)
 
-        return yaml.dump(dict(tests), allow_unicode=True)
+        # PyYAML only keeps these line breaks in double-quoted strings.
+        breaks = "\x85\u2028\u2029"
+        quote = any(_ in breaks for pair in tests.items() for _ in "".join(pair))
+        return yaml.dump(
+            dict(tests), allow_unicode=True, default_style='"' if quote else None
+        )
-- 
2.43.0


From 4f3623b749956f38115932b7a985fb115cbc1b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:09 +0000
Subject: [PATCH 24/27] fix: iter_transliterators passes its options to the
 transliterators

---
 graphtransliterator/transliterators/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphtransliterator/transliterators/__init__.py b/graphtransliterator/transliterators/__init__.py
index 2bfe9db..a9647a3 100644
--- a/graphtransliterator/transliterators/__init__.py
+++ b/graphtransliterator/transliterators/__init__.py
@@ -72,4 +72,4 @@ def iter_names():
 def iter_transliterators(**kwds):
     """Iterate through instances of bundled transliterators."""
     for _ in iter_names():
-        yield (eval(_ + "()"))
+        yield (eval(_ + "(**kwds)"))
-- 
2.43.0


From cb6f71436224880816ad9ebbb119ea8473c78f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:09 +0000
Subject: [PATCH 25/27] fix: only list Bundled subclasses as transliterators

---
 graphtransliterator/transliterators/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphtransliterator/transliterators/__init__.py b/graphtransliterator/transliterators/__init__.py
index a9647a3..2e68be8 100644
--- a/graphtransliterator/transliterators/__init__.py
+++ b/graphtransliterator/transliterators/__init__.py
@@ -45,8 +45,8 @@ def add_transliterators(path=__path__):
 
         for name, _obj in inspect.getmembers(_module, inspect.isclass):
             # Skip Bundled, as it is already loaded
-            # Skip any classes starting with _
-            if _skip_class_name(name):
+            # Skip any classes starting with _ or that are not a transliterator
+            if _skip_class_name(name) or not issubclass(_obj, Bundled):
                 continue
             if name in __all__:
                 raise ValueError(
-- 
2.43.0


From 9188227fea4ad26bb5b97e34998873486dbcec25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:40 +0000
Subject: [PATCH 26/27] fix: add_transliterators refuses a module of the name
 of another transliterator's

---
 graphtransliterator/transliterators/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/graphtransliterator/transliterators/__init__.py b/graphtransliterator/transliterators/__init__.py
index 2e68be8..57a2124 100644
--- a/graphtransliterator/transliterators/__init__.py
+++ b/graphtransliterator/transliterators/__init__.py
@@ -41,6 +41,11 @@ def add_transliterators(path=__path__):
         # if it is not a submodule, skip it.
         if not is_pkg:
             continue
+        # Do not load it in place of the module of another transliterator.
+        if any(globals()[_].__module__ == module_name for _ in _transliterators):
+            raise ValueError(
+                'A transliterator module named "{}" already exists'.format(module_name)
+            )
         _module = loader.find_module(module_name).load_module(module_name)
 
         for name, _obj in inspect.getmembers(_module, inspect.isclass):
-- 
2.43.0


From b15cfc48527063e29f457fbf40fe75d94df673b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:07 +0000
Subject: [PATCH 27/27] fix: the -nie option of transliterate does not ignore
 errors

---
 graphtransliterator/cli.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/graphtransliterator/cli.py b/graphtransliterator/cli.py
index b91ec99..7cd367b 100644
--- a/graphtransliterator/cli.py
+++ b/graphtransliterator/cli.py
@@ -69,8 +69,7 @@ def load_transliterator(source, **kwargs):
 )
 @click.option(
     "--ignore-errors/--no-ignore-errors",
-    "-ie",
-    "-nie",
+    "-ie/-nie",
     help="Ignore errors.",
     show_default=True,
     default=False,
-- 
2.43.0

