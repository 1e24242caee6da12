From 4437c0e660655b2e828fbf453ee34ee058c102ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:57 +0000
Subject: [PATCH 001/181] fix: cardinality equality must not fail for mixed
 kinds and must agree with hashing

---
 postbound/_core.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/postbound/_core.py b/postbound/_core.py
index 5418d82..9c07c92 100755
--- a/postbound/_core.py
+++ b/postbound/_core.py
@@ -368,7 +368,9 @@ class Cardinality(Number):
                     return True
                 if self._inf and other._inf:
                     return True
-                return self.value == other.value
+                return (
+                    self._valid and other._valid and self._value == other._value
+                )
 
             case int():
                 return self._valid and self.value == other
@@ -376,15 +378,18 @@ class Cardinality(Number):
             case float():
                 if self._nan and math.isnan(other):
                     return True
-                if self._inf and math.isinf(other):
+                if self._inf and other == math.inf:
                     return True
                 return self._valid and self.value == other
 
         return NotImplemented
 
     def __hash__(self) -> int:
-        # There is no need to hash _valid, since it is directly derived from _nan and _inf
-        return hash((self._nan, self._inf, self._value))
+        # Cardinalities are equal to plain numbers, therefore they need to have the same hash value
+        if self._nan:
+            # all unknown cardinalities are equal, but hash(math.nan) is based on the object identity
+            return hash("NaN")
+        return hash(math.inf if self._inf else self._value)
 
     def __repr__(self) -> str:
         return str(self)
-- 
2.43.0


From f5786cb9264bbf8c0e6efd41686820a79954aeb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:31 +0000
Subject: [PATCH 002/181] fix: infinite cardinalities are larger than all known
 ones, in both operand orders

---
 postbound/_core.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/postbound/_core.py b/postbound/_core.py
index 9c07c92..01b42d5 100755
--- a/postbound/_core.py
+++ b/postbound/_core.py
@@ -290,8 +290,10 @@ class Cardinality(Number):
         return NotImplemented
 
     def __le__(self, other: object) -> bool:
-        if not self._valid:
+        if self._nan:
             return False
+        if self._inf and isinstance(other, (Cardinality, int, float)):
+            return self.get() <= float(other)
 
         match other:
             case Cardinality(_, otherval):
@@ -307,15 +309,17 @@ class Cardinality(Number):
         return NotImplemented
 
     def __gt__(self, other: object) -> bool:
-        if not self._valid:
+        if self._nan:
             return False
+        if self._inf and isinstance(other, (Cardinality, int, float)):
+            return self.get() > float(other)
 
         match other:
             case Cardinality(_, otherval):
                 if other._nan:
                     return False
                 if other._inf:
-                    return True
+                    return False
                 return self.value > otherval
 
             case int() | float():
@@ -324,15 +328,17 @@ class Cardinality(Number):
         return NotImplemented
 
     def __ge__(self, other: object) -> bool:
-        if not self._valid:
+        if self._nan:
             return False
+        if self._inf and isinstance(other, (Cardinality, int, float)):
+            return self.get() >= float(other)
 
         match other:
             case Cardinality(_, otherval):
                 if other._nan:
                     return False
                 if other._inf:
-                    return True
+                    return False
                 return self.value >= otherval
 
             case int() | float():
-- 
2.43.0


From 1f68d5aed37bf338fd58d7cb83698bfcf1401110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:31 +0000
Subject: [PATCH 003/181] fix: floor division of cardinalities must round down

---
 postbound/_core.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/postbound/_core.py b/postbound/_core.py
index 01b42d5..fcfd4d9 100755
--- a/postbound/_core.py
+++ b/postbound/_core.py
@@ -232,11 +232,18 @@ class Cardinality(Number):
             own_value = self.value
         return divmod(float(other), own_value)
 
-    def __floordiv__(self, other: object) -> int:
-        return math.floor(self / other)
+    def __floordiv__(self, other: object) -> Cardinality:
+        if not isinstance(other, (Cardinality, int, float)):
+            return NotImplemented
+        # we need the raw quotient here: cardinality division already rounds to the nearest integer
+        quotient = self.get() / float(other)
+        return Cardinality(math.floor(quotient) if math.isfinite(quotient) else quotient)
 
-    def __rfloordiv__(self, other: SupportsFloat | SupportsIndex) -> int:
-        return math.floor(other / self)
+    def __rfloordiv__(self, other: SupportsFloat | SupportsIndex) -> Cardinality:
+        if not isinstance(other, (int, float)):
+            return NotImplemented
+        quotient = float(other) / self.get()
+        return Cardinality(math.floor(quotient) if math.isfinite(quotient) else quotient)
 
     def __mod__(self, other: object) -> Cardinality:
         if not self._valid:
-- 
2.43.0


From 70c5ff291c75593f03e054881e5d7d62100f0ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:31 +0000
Subject: [PATCH 004/181] fix: unknown cardinalities stay unknown under
 exponentiation

---
 postbound/_core.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/postbound/_core.py b/postbound/_core.py
index fcfd4d9..7a888cf 100755
--- a/postbound/_core.py
+++ b/postbound/_core.py
@@ -173,6 +173,9 @@ class Cardinality(Number):
         return NotImplemented
 
     def __pow__(self, other: object) -> Cardinality:
+        if self._nan or (isinstance(other, (Cardinality, int, float)) and math.isnan(other)):
+            # nan ** 0 and 1 ** nan are both 1.0 for plain floats
+            return Cardinality.unknown()
         if isinstance(other, Cardinality):
             # TODO: should we allow exponentiation by a cardinality? What would that mean?
             # For now, I can't really think of a use case, but it's probably not a good idea to restrict the
@@ -184,6 +187,8 @@ class Cardinality(Number):
 
     def __rpow__(self, other: object) -> Cardinality:
         # See comment on __pow__. Not sure, whether this is a good idea or not.
+        if self._nan or (isinstance(other, float) and math.isnan(other)):
+            return Cardinality.unknown()
         if isinstance(other, (int, float)):
             return Cardinality(other ** self.get())
         return NotImplemented
-- 
2.43.0


From a92a53a94f660e2ce2c21281813b3184e20ac18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:36 +0000
Subject: [PATCH 005/181] fix: changing the alias or name of a table must keep
 its schema

---
 postbound/_core.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/postbound/_core.py b/postbound/_core.py
index 7a888cf..33d0961 100755
--- a/postbound/_core.py
+++ b/postbound/_core.py
@@ -881,7 +881,9 @@ class TableReference:
         """
         if not self.full_name:
             raise StateError("Cannot add an alias to a table without full name")
-        return TableReference(self.full_name, alias, virtual=self.virtual)
+        return TableReference(
+            self.full_name, alias, virtual=self.virtual, schema=self._schema
+        )
 
     def make_virtual(self) -> TableReference:
         """Creates a new virtual table reference for the same table.
@@ -901,7 +903,7 @@ class TableReference:
         full_name: Optional[str] = None,
         alias: Optional[str] = None,
         virtual: Optional[bool] = None,
-        schema: Optional[str] = "",
+        schema: Optional[str] = None,
     ) -> TableReference:
         full_name = self._full_name if full_name is None else full_name
         alias = self._alias if alias is None else alias
-- 
2.43.0


From 9f25ce2bb2cd0d93eea66d9f7f16259a5b98dc74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:36 +0000
Subject: [PATCH 006/181] fix: escape quotes within quoted identifiers

---
 postbound/_core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/postbound/_core.py b/postbound/_core.py
index 33d0961..345b7ee 100755
--- a/postbound/_core.py
+++ b/postbound/_core.py
@@ -623,7 +623,10 @@ def quote(identifier: str) -> str:
         _IdentifierPattern.fullmatch(identifier)
         and identifier.upper() not in SqlKeywords
     )
-    return identifier if valid_identifier else f'"{identifier}"'
+    if valid_identifier:
+        return identifier
+    escaped = identifier.replace('"', '""')
+    return f'"{escaped}"'
 
 
 def normalize(identifier: str) -> str:
-- 
2.43.0


From 453b4194a4505dc34cfd6856a3bd3bdd5b7eac6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:51 +0000
Subject: [PATCH 007/181] fix: quote all keywords that Postgres does not accept
 as plain identifiers

---
 postbound/_core.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/postbound/_core.py b/postbound/_core.py
index 345b7ee..f9459f1 100755
--- a/postbound/_core.py
+++ b/postbound/_core.py
@@ -505,6 +505,8 @@ References
 SqlKeywords = frozenset(
     {
         "ALL",
+        "ANALYSE",
+        "ANALYZE",
         "AND",
         "ANY",
         "ARRAY",
@@ -512,13 +514,16 @@ SqlKeywords = frozenset(
         "ASC",
         "ASYMMETRIC",
         "AT",
+        "AUTHORIZATION",
         "BINARY",
         "BOTH",
         "CASE",
         "CAST",
         "CHECK",
         "COLLATE",
+        "COLLATION",
         "COLUMN",
+        "CONCURRENTLY",
         "CONSTRAINT",
         "CREATE",
         "CROSS",
@@ -541,6 +546,7 @@ SqlKeywords = frozenset(
         "FETCH",
         "FOR",
         "FOREIGN",
+        "FREEZE",
         "FROM",
         "FULL",
         "GRANT",
@@ -553,6 +559,7 @@ SqlKeywords = frozenset(
         "INTERSECT",
         "INTO",
         "IS",
+        "ISNULL",
         "JOIN",
         "LATERAL",
         "LEADING",
@@ -563,6 +570,7 @@ SqlKeywords = frozenset(
         "LOCALTIMESTAMP",
         "NATURAL",
         "NOT",
+        "NOTNULL",
         "NULL",
         "OFFSET",
         "ON",
@@ -581,7 +589,9 @@ SqlKeywords = frozenset(
         "SIMILAR",
         "SOME",
         "SYMMETRIC",
+        "SYSTEM_USER",
         "TABLE",
+        "TABLESAMPLE",
         "THEN",
         "TO",
         "TRAILING",
-- 
2.43.0


From 124efeb4fed3692df87fc8309844f9f66fb9826a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:21 +0000
Subject: [PATCH 008/181] fix: breadth-first traversal must apply the requested
 node order (C07)

---
 postbound/util/nx.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/postbound/util/nx.py b/postbound/util/nx.py
index 4c428f6..5fa1dcd 100644
--- a/postbound/util/nx.py
+++ b/postbound/util/nx.py
@@ -167,7 +167,10 @@ def nx_bfs_tree(
     .. NetworkX documentation on usage and definition of edge data:
        https://networkx.org/documentation/stable/reference/introduction.html#nodes-and-edges
     """
-    shell_nodes = Queue([(node, edge) for node, edge in graph.adj[start_node].items()])
+    start_neighbors = [(node, edge) for node, edge in graph.adj[start_node].items()]
+    if node_order:
+        start_neighbors.sort(key=lambda neighbor: node_order(neighbor[0], neighbor[1]))
+    shell_nodes = Queue(start_neighbors)
     visited_nodes = {start_node}
     while shell_nodes:
         current_node, current_edge = shell_nodes.pop()
@@ -179,9 +182,8 @@ def nx_bfs_tree(
                 if node not in visited_nodes
             ]
             if node_order:
-                sorted(
-                    neighbor_nodes,
-                    key=lambda neighbor: node_order(neighbor[0], neighbor[1]),
+                neighbor_nodes.sort(
+                    key=lambda neighbor: node_order(neighbor[0], neighbor[1])
                 )
             shell_nodes.extend(neighbor_nodes)
             yield current_node, current_edge
-- 
2.43.0


From 7202f411682dd1a5b4eea763884e20ab7541618f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:21 +0000
Subject: [PATCH 009/181] fix: deep pk/fk join paths must not miss tables that
 are also n:m-joined (C07)

---
 postbound/util/nx.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/postbound/util/nx.py b/postbound/util/nx.py
index 5fa1dcd..53aa19a 100644
--- a/postbound/util/nx.py
+++ b/postbound/util/nx.py
@@ -174,8 +174,9 @@ def nx_bfs_tree(
     visited_nodes = {start_node}
     while shell_nodes:
         current_node, current_edge = shell_nodes.pop()
-        visited_nodes.add(current_node)
         if condition(current_node, current_edge):
+            # nodes that fail the condition might still be reachable via a different (matching) edge
+            visited_nodes.add(current_node)
             neighbor_nodes = [
                 (node, edge)
                 for node, edge in graph.adj[current_node].items()
-- 
2.43.0


From e6ffc3b2e22992b1091545e6a456a7fa8ee655be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:21 +0000
Subject: [PATCH 010/181] fix: check for free n:m joins must agree with the
 offered n:m join paths (C07)

---
 postbound/opt/_joingraph.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/postbound/opt/_joingraph.py b/postbound/opt/_joingraph.py
index e7425fe..7cacd31 100644
--- a/postbound/opt/_joingraph.py
+++ b/postbound/opt/_joingraph.py
@@ -494,11 +494,9 @@ class JoinGraph(Mapping[TableReference, TableInfo]):
         for first_tab, second_tab, predicate in self._graph.edges.data("predicate"):
             if not self.is_available_join(first_tab, second_tab) and not is_first_join:
                 continue
-            for first_col, second_col in predicate.join_partners():
-                if not self._index_structures[first_col].can_pk_fk_join(
-                    self._index_structures[second_col]
-                ):
-                    return True
+            # a join over multiple predicates is an n:m join only if none of the predicates is a pk/fk join
+            if self.is_n_m_join(first_tab, second_tab):
+                return True
         return False
 
     def count_consumed_tables(self) -> int:
-- 
2.43.0


From 80089afab54d97c00e51dbe2a64a91626385423f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:08 +0000
Subject: [PATCH 011/181] fix: index updates for one join partner must not leak
 into the other partners (C07)

---
 postbound/opt/_joingraph.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/postbound/opt/_joingraph.py b/postbound/opt/_joingraph.py
index 7cacd31..c9a20b2 100644
--- a/postbound/opt/_joingraph.py
+++ b/postbound/opt/_joingraph.py
@@ -995,11 +995,16 @@ class JoinGraph(Mapping[TableReference, TableInfo]):
             # these two tables might have nothing to do with each other (e.g. different components in the join graph)
             return
 
-        partner_tables = {col.table for col in join_edge.join_partners_of(table)}
-        for partner_table in partner_tables:
-            pk_fk_join = self.is_pk_fk_join(table, partner_table)
-            fk_pk_join = self.is_pk_fk_join(partner_table, table)
-
+        # the join types depend on the state of the graph before the join, i.e. they must not be influenced by the index
+        # updates for the other partner tables
+        join_types = {
+            col.table: (
+                self.is_pk_fk_join(table, col.table),
+                self.is_pk_fk_join(col.table, table),
+            )
+            for col in join_edge.join_partners_of(table)
+        }
+        for partner_table, (pk_fk_join, fk_pk_join) in join_types.items():
             if pk_fk_join and fk_pk_join:  # PK/PK join
                 continue
 
@@ -1007,6 +1012,8 @@ class JoinGraph(Mapping[TableReference, TableInfo]):
                 joined_col, partner_col = (
                     (col1, col2) if col1.table == table else (col2, col1)
                 )
+                if partner_col.table != partner_table:
+                    continue
                 if pk_fk_join:
                     self._index_structures[partner_col].invalidate()
                 elif fk_pk_join:
@@ -1018,10 +1025,10 @@ class JoinGraph(Mapping[TableReference, TableInfo]):
             if pk_fk_join:
                 continue
 
-            for table, is_free in self._graph.nodes.data("free"):
-                if is_free or table == partner_table:
+            for joined_table, is_free in self._graph.nodes.data("free"):
+                if is_free or joined_table == partner_table:
                     continue
-                self._invalidate_indexes_on(table)
+                self._invalidate_indexes_on(joined_table)
 
     def clone(self) -> JoinGraph:
         """Provides a deep copy of the current join graph.
-- 
2.43.0


From c3cadfae23ed391361a3b2fc01f7650bc064c652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:22 +0000
Subject: [PATCH 012/181] fix: linearity of join trees has to consider all join
 nodes (C08)

---
 postbound/_hints.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/postbound/_hints.py b/postbound/_hints.py
index a78e5fe..b1eaf32 100644
--- a/postbound/_hints.py
+++ b/postbound/_hints.py
@@ -1425,7 +1425,9 @@ class JoinTree(Container[TableReference], Generic[JoinTreeAnnotation]):
             raise StateError("An empty join tree does not have a shape.")
         if self.is_scan():
             return True
-        return self._outer.is_scan() or self._inner.is_scan()
+        if self._outer.is_join() and self._inner.is_join():
+            return False
+        return self._outer.is_linear() and self._inner.is_linear()
 
     def is_bushy(self) -> bool:
         """Checks, whether the join tree encodes a bushy join sequence.
-- 
2.43.0


From 2730298709ec8a9a1bd6c53065da8f2f208d80e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:31 +0000
Subject: [PATCH 013/181] fix: modifying a logical join tree must not turn it
 into a generic one (C08)

---
 postbound/_hints.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/postbound/_hints.py b/postbound/_hints.py
index b1eaf32..f1d8766 100644
--- a/postbound/_hints.py
+++ b/postbound/_hints.py
@@ -1509,12 +1509,9 @@ class JoinTree(Container[TableReference], Generic[JoinTreeAnnotation]):
         """
         if self.is_empty():
             raise StateError("Cannot update annotation of an empty join tree.")
-        return JoinTree(
-            base_table=self._table,
-            outer_child=self._outer,
-            inner_child=self._inner,
-            annotation=new_annotation,
-        )
+        if self.is_scan():
+            return type(self).scan(self._table, annotation=new_annotation)
+        return type(self).join(self._outer, self._inner, annotation=new_annotation)
 
     def join_with(
         self,
@@ -1557,12 +1554,12 @@ class JoinTree(Container[TableReference], Generic[JoinTreeAnnotation]):
         if isinstance(partner, JoinTree) and partner_annotation is not None:
             partner = partner.update_annotation(partner_annotation)
         elif isinstance(partner, TableReference):
-            partner = JoinTree.scan(partner, annotation=partner_annotation)
+            partner = type(self).scan(partner, annotation=partner_annotation)
 
         outer, inner = (
             (self, partner) if partner_direction == "inner" else (partner, self)
         )
-        return JoinTree.join(outer, inner, annotation=annotation)
+        return type(self).join(outer, inner, annotation=annotation)
 
     def inspect(self) -> str:
         """Provides a pretty-printed an human-readable representation of the join tree."""
@@ -1598,7 +1595,7 @@ class JoinTree(Container[TableReference], Generic[JoinTreeAnnotation]):
     ) -> JoinTree[JoinTreeAnnotation]:
         """Handler method to create a new join tree when the current tree is empty."""
         if isinstance(partner, TableReference):
-            return JoinTree.scan(partner, annotation=annotation)
+            return type(self).scan(partner, annotation=annotation)
 
         if annotation is not None:
             partner = partner.update_annotation(annotation)
-- 
2.43.0


From 186c8cd1d85f272d415bc0a648863fa4461ff403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:31 +0000
Subject: [PATCH 014/181] fix: equality between generic and logical join trees
 must be symmetric (C08)

---
 postbound/_hints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/_hints.py b/postbound/_hints.py
index f1d8766..31754c7 100644
--- a/postbound/_hints.py
+++ b/postbound/_hints.py
@@ -1629,7 +1629,7 @@ class JoinTree(Container[TableReference], Generic[JoinTreeAnnotation]):
 
     def __eq__(self, other: object) -> bool:
         return (
-            isinstance(other, type(self))
+            isinstance(other, JoinTree)
             and self._table == other._table
             and self._outer == other._outer
             and self._inner == other._inner
-- 
2.43.0


From 4b8382b48d8ef35fb40e10f0bc38a63718ef7de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:15 +0000
Subject: [PATCH 015/181] fix: hashes of dictionaries must not depend on the
 insertion order (C09)

---
 postbound/util/dicts.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/postbound/util/dicts.py b/postbound/util/dicts.py
index 5a684a9..6116021 100644
--- a/postbound/util/dicts.py
+++ b/postbound/util/dicts.py
@@ -138,20 +138,21 @@ def explode(dictionary: dict[K, list[V]]) -> list[tuple[K, V]]:
 
 def hash_dict(dictionary: dict[K, V]) -> int:
     """Calculates a hash value based on the current dict contents (keys and values)."""
-    keys = list(dictionary.keys())
-    values = []
-    for val in dictionary.values():
+    # the hash must not depend on the insertion order, since dict equality does not depend on it either
+    items = []
+    for key, val in dictionary.items():
         if isinstance(val, collections.abc.Hashable):
-            values.append(hash(val))
-        elif isinstance(val, list) or isinstance(val, set):
-            values.append(hash(tuple(val)))
+            items.append((key, hash(val)))
+        elif isinstance(val, list):
+            items.append((key, hash(tuple(val))))
+        elif isinstance(val, set):
+            items.append((key, hash(frozenset(val))))
         elif isinstance(val, dict):
-            values.append(hash_dict(val))
+            items.append((key, hash_dict(val)))
         else:
             warnings.warn(f"Unhashable type, skipping: {type(val)}", stacklevel=2)
-    keys_hash = hash(tuple(keys))
-    values_hash = hash(tuple(values))
-    return hash((keys_hash, values_hash))
+            items.append((key, 0))
+    return hash(frozenset(items))
 
 
 def generate_multi(entries: Iterable[tuple[K, V]]) -> dict[K, list[V]]:
-- 
2.43.0


From 24fce5dd050b60164861468b9b36529d1f325d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:15 +0000
Subject: [PATCH 016/181] fix: scan operators must be found for singleton
 intermediates (C09)

---
 postbound/_hints.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postbound/_hints.py b/postbound/_hints.py
index 31754c7..b3ba05e 100644
--- a/postbound/_hints.py
+++ b/postbound/_hints.py
@@ -459,7 +459,7 @@ class PhysicalOperatorAssignment:
 
         intermediate_set = frozenset(intermediate)
         return (
-            self.scan_operators.get(intermediate)
+            self.scan_operators.get(util.simplify(intermediate_set), default)
             if len(intermediate_set) == 1
             else self.join_operators.get(intermediate_set, default)
         )
@@ -555,7 +555,7 @@ class PhysicalOperatorAssignment:
 
         items = frozenset(item)
         return (
-            item in self.scan_operators
+            util.simplify(items) in self.scan_operators
             if len(items) == 1
             else items in self.join_operators
         )
-- 
2.43.0


From 696715858669a56a8e76a7ea97f16f547d41eb21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:15 +0000
Subject: [PATCH 017/181] fix: overwriting fine-grained operator selections has
 to remove them (C09)

---
 postbound/_hints.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postbound/_hints.py b/postbound/_hints.py
index b3ba05e..7433b4e 100644
--- a/postbound/_hints.py
+++ b/postbound/_hints.py
@@ -153,13 +153,13 @@ class PhysicalOperatorAssignment:
                 self.scan_operators = {
                     table: current_setting
                     for table, current_setting in self.scan_operators.items()
-                    if current_setting != operator
+                    if current_setting.operator != operator
                 }
             case JoinOperator():
                 self.join_operators = {
                     join: current_setting
                     for join, current_setting in self.join_operators.items()
-                    if current_setting != operator
+                    if current_setting.operator != operator
                 }
             case IntermediateOperator():
                 self.intermediate_operators = {
-- 
2.43.0


From 1b7bea6142ca4dd21eeba23c12c865edb5796fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:15 +0000
Subject: [PATCH 018/181] fix: intermediate operators are part of the identity
 of an operator assignment (C09)

---
 postbound/_hints.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/postbound/_hints.py b/postbound/_hints.py
index 7433b4e..dd92921 100644
--- a/postbound/_hints.py
+++ b/postbound/_hints.py
@@ -579,6 +579,7 @@ class PhysicalOperatorAssignment:
                 util.hash_dict(self.global_settings),
                 util.hash_dict(self.scan_operators),
                 util.hash_dict(self.join_operators),
+                util.hash_dict(self.intermediate_operators),
             )
         )
 
@@ -588,6 +589,7 @@ class PhysicalOperatorAssignment:
             and self.global_settings == other.global_settings
             and self.scan_operators == other.scan_operators
             and self.join_operators == other.join_operators
+            and self.intermediate_operators == other.intermediate_operators
         )
 
     def __repr__(self) -> str:
-- 
2.43.0


From 16f2124ebbd2d4c31e025b10ffaee1946286717d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:15 +0000
Subject: [PATCH 019/181] fix: operator assignments with unspecified worker
 counts must be equal to each other (C09)

---
 postbound/_hints.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/postbound/_hints.py b/postbound/_hints.py
index dd92921..f8bf927 100644
--- a/postbound/_hints.py
+++ b/postbound/_hints.py
@@ -904,7 +904,7 @@ class ScanOperatorAssignment:
         self._operator = operator
         self._table = table
         self._parallel_workers = parallel_workers
-        self._hash_val = hash((self._operator, self._table, self._parallel_workers))
+        self._hash_val = hash((self._operator, self._table, self._workers_key()))
 
     __match_args__ = ("operator", "table", "parallel_workers")
 
@@ -954,6 +954,10 @@ class ScanOperatorAssignment:
         """
         return f"USING {self.operator}" if self.operator else ""
 
+    def _workers_key(self) -> float | int | None:
+        """Provides the number of workers for comparisons, mapping undefined workers (i.e. NaN) to a comparable value."""
+        return None if math.isnan(self._parallel_workers) else self._parallel_workers
+
     def __json__(self) -> jsondict:
         return {
             "operator": self.operator.value,
@@ -969,7 +973,7 @@ class ScanOperatorAssignment:
             isinstance(other, type(self))
             and self.operator == other.operator
             and self.table == other.table
-            and self.parallel_workers == other.parallel_workers
+            and self._workers_key() == other._workers_key()
         )
 
     def __repr__(self) -> str:
@@ -1018,7 +1022,7 @@ class JoinOperatorAssignment:
         self._join = frozenset(join)
         self._parallel_workers = parallel_workers
 
-        self._hash_val = hash((self._operator, self._join, self._parallel_workers))
+        self._hash_val = hash((self._operator, self._join, self._workers_key()))
 
     __match_args__ = ("operator", "join", "parallel_workers")
 
@@ -1091,6 +1095,10 @@ class JoinOperatorAssignment:
         """
         return False
 
+    def _workers_key(self) -> float | int | None:
+        """Provides the number of workers for comparisons, mapping undefined workers (i.e. NaN) to a comparable value."""
+        return None if math.isnan(self._parallel_workers) else self._parallel_workers
+
     def __json__(self) -> jsondict:
         return {
             "directional": self.is_directional(),
@@ -1107,7 +1115,7 @@ class JoinOperatorAssignment:
             isinstance(other, type(self))
             and self._operator == other._operator
             and self._join == other._join
-            and self._parallel_workers == other._parallel_workers
+            and self._workers_key() == other._workers_key()
         )
 
     def __repr__(self) -> str:
-- 
2.43.0


From 472f31ab0c2b564b6a4ea6f328dad98881d79f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:15 +0000
Subject: [PATCH 020/181] fix: intermediate operators must be supported by
 operator lookup and rendering of assignments (C09)

---
 postbound/_hints.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/postbound/_hints.py b/postbound/_hints.py
index f8bf927..4b92764 100644
--- a/postbound/_hints.py
+++ b/postbound/_hints.py
@@ -562,9 +562,9 @@ class PhysicalOperatorAssignment:
 
     def __getitem__(
         self,
-        item: TableReference | Iterable[TableReference] | ScanOperator | JoinOperator,
+        item: TableReference | Iterable[TableReference] | PhysicalOperator,
     ) -> ScanOperatorAssignment | JoinOperatorAssignment | bool | None:
-        if isinstance(item, ScanOperator) or isinstance(item, JoinOperator):
+        if isinstance(item, (ScanOperator, JoinOperator, IntermediateOperator)):
             return self.global_settings.get(item, None)
         elif isinstance(item, TableReference):
             return self.scan_operators.get(item, None)
@@ -614,11 +614,11 @@ class PhysicalOperatorAssignment:
         )
 
         intermediates_keys = (
-            (intermediate, " ⨝ ".join(tab.identifier() for tab in intermediate))
-            for intermediate in self.intermediate_operators.keys()
+            (operator, " ⨝ ".join(tab.identifier() for tab in intermediate))
+            for intermediate, operator in self.intermediate_operators.items()
         )
         intermediates_str = ", ".join(
-            f"{key}: {intermediate.value}" for intermediate, key in intermediates_keys
+            f"{key}: {operator.value}" for operator, key in intermediates_keys
         )
 
         return f"global=[{global_str}] scans=[{scans_str}] joins=[{joins_str}] intermediates=[{intermediates_str}]"
-- 
2.43.0


From 002ce7b738f183739a158af5f0e696f3f0f54b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:15 +0000
Subject: [PATCH 021/181] fix: merging plan parameters must not drop the
 execution mode (C09)

---
 postbound/_hints.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/postbound/_hints.py b/postbound/_hints.py
index 4b92764..79e11c8 100644
--- a/postbound/_hints.py
+++ b/postbound/_hints.py
@@ -828,6 +828,9 @@ class PlanParameterization:
         merged_params.system_settings = (
             self.system_settings | other_parameters.system_settings
         )
+        merged_params.execution_mode = (
+            other_parameters.execution_mode or self.execution_mode
+        )
         return merged_params
 
     def drop_workers(self) -> PlanParameterization:
@@ -956,7 +959,8 @@ class ScanOperatorAssignment:
 
     def _workers_key(self) -> float | int | None:
         """Provides the number of workers for comparisons, mapping undefined workers (i.e. NaN) to a comparable value."""
-        return None if math.isnan(self._parallel_workers) else self._parallel_workers
+        workers = self._parallel_workers
+        return None if workers is None or math.isnan(workers) else workers
 
     def __json__(self) -> jsondict:
         return {
@@ -1097,7 +1101,8 @@ class JoinOperatorAssignment:
 
     def _workers_key(self) -> float | int | None:
         """Provides the number of workers for comparisons, mapping undefined workers (i.e. NaN) to a comparable value."""
-        return None if math.isnan(self._parallel_workers) else self._parallel_workers
+        workers = self._parallel_workers
+        return None if workers is None or math.isnan(workers) else workers
 
     def __json__(self) -> jsondict:
         return {
-- 
2.43.0


From 3262fb8a6ac8a226cf8a539e237ac9e65584f245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:55 +0000
Subject: [PATCH 022/181] fix: join orders of query plans must be logical join
 trees with the requested cardinalities (C10)

---
 postbound/_hints.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/postbound/_hints.py b/postbound/_hints.py
index 79e11c8..f1ecc77 100644
--- a/postbound/_hints.py
+++ b/postbound/_hints.py
@@ -1778,7 +1778,9 @@ def _inspectify(
 
 
 def jointree_from_plan(
-    plan: QueryPlan, *, card_source: Literal["estimates", "actual"] = "estimates"
+    plan: QueryPlan,
+    *,
+    card_source: Literal["estimates", "estimated", "actual"] = "estimates",
 ) -> LogicalJoinTree:
     """Extracts the join tree encoded in a query plan.
 
@@ -1786,16 +1788,16 @@ def jointree_from_plan(
     actual cardinalities of the query plan.
     """
     card = (
-        plan.estimated_cardinality
-        if card_source == "estimates"
-        else plan.actual_cardinality
+        plan.actual_cardinality
+        if card_source == "actual"
+        else plan.estimated_cardinality
     )
     if plan.is_scan():
-        return JoinTree.scan(plan.base_table, annotation=card)
+        return LogicalJoinTree.scan(plan.base_table, annotation=card)
     elif plan.is_join():
         outer = jointree_from_plan(plan.outer_child, card_source=card_source)
         inner = jointree_from_plan(plan.inner_child, card_source=card_source)
-        return JoinTree.join(outer, inner, annotation=card)
+        return LogicalJoinTree.join(outer, inner, annotation=card)
     else:
         # auxiliary node handler
         return jointree_from_plan(plan.input_node, card_source=card_source)
-- 
2.43.0


From 9aefe4c854b85a7cca2850468d21f0a6dd9a012a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:55 +0000
Subject: [PATCH 023/181] fix: parallel workers must be extracted from all
 nodes of a query plan (C10)

---
 postbound/_hints.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/postbound/_hints.py b/postbound/_hints.py
index f1ecc77..96bdfa0 100644
--- a/postbound/_hints.py
+++ b/postbound/_hints.py
@@ -1861,9 +1861,12 @@ def operators_from_plan(
     """
     assignment = PhysicalOperatorAssignment()
     if not query_plan.operator and query_plan.input_node:
-        return operators_from_plan(query_plan.input_node)
+        return operators_from_plan(
+            query_plan.input_node, include_workers=include_workers
+        )
 
-    workers = query_plan.parallel_workers if include_workers else math.nan
+    # query plans use 0 workers to indicate that no choice has been made
+    workers = (query_plan.parallel_workers or math.nan) if include_workers else math.nan
     match query_plan.operator:
         case ScanOperator():
             operator = ScanOperatorAssignment(
@@ -1883,6 +1886,6 @@ def operators_from_plan(
             assignment.add(query_plan.operator, query_plan.tables())
 
     for child in query_plan.children:
-        child_assignment = operators_from_plan(child)
+        child_assignment = operators_from_plan(child, include_workers=include_workers)
         assignment = assignment.merge_with(child_assignment)
     return assignment
-- 
2.43.0


From 68703019d99dfbdd7ede8005997a3e1a51a00cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:55 +0000
Subject: [PATCH 024/181] fix: extracting parameters must not fail for join
 trees without cardinalities (C10)

---
 postbound/_hints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/_hints.py b/postbound/_hints.py
index 96bdfa0..3bd786d 100644
--- a/postbound/_hints.py
+++ b/postbound/_hints.py
@@ -1835,7 +1835,7 @@ def parameters_from_plan(
             )
         parallel_workers = query_plan.params.parallel_workers
 
-    if not math.isnan(card):
+    if card is not None and not math.isnan(card):
         params.add_cardinality(query_plan.tables(), card)
     if parallel_workers:
         params.set_workers(query_plan.tables(), parallel_workers)
-- 
2.43.0


From 6496d94363089323a0f4f9a308a0703990ab0560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:55 +0000
Subject: [PATCH 025/181] fix: sort keys must recognize the columns they
 consist of (C10)

---
 postbound/_qep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/_qep.py b/postbound/_qep.py
index 029066d..1b2de0c 100644
--- a/postbound/_qep.py
+++ b/postbound/_qep.py
@@ -134,7 +134,7 @@ class SortKey:
         For single column references, this essentially checks whether the column is part of the key's equivalence class.
         """
         if isinstance(other, ColumnReference):
-            return other in self._members
+            return ColumnExpression(other) in self._members
 
         if self.ascending != other.ascending:
             return False
-- 
2.43.0


From 18b91299a955c150e9128ff3c3dc707346739443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:55 +0000
Subject: [PATCH 026/181] fix: changing the estimates of a query plan must keep
 additional estimates (C10)

---
 postbound/_qep.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/postbound/_qep.py b/postbound/_qep.py
index 1b2de0c..348db4a 100644
--- a/postbound/_qep.py
+++ b/postbound/_qep.py
@@ -1636,7 +1636,9 @@ class QueryPlan:
         """
         cardinality = self.estimated_cardinality if cardinality is None else cardinality
         cost = self.estimated_cost if cost is None else cost
-        updated_estimates = PlanEstimates(cardinality=cardinality, cost=cost)
+        updated_estimates = PlanEstimates(
+            cardinality=cardinality, cost=cost, **self._estimates.additional_estimates
+        )
         updated_measures = self._measures if keep_measures else None
         return QueryPlan(
             self.node_type,
-- 
2.43.0


From 6424b436a55d80ca931f0a2f9099e48ab75cbfd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:55 +0000
Subject: [PATCH 027/181] fix: replacing estimates by measurements must respect
 the handling of unknown cardinalities (C10)

---
 postbound/_qep.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/postbound/_qep.py b/postbound/_qep.py
index 348db4a..0b0460d 100644
--- a/postbound/_qep.py
+++ b/postbound/_qep.py
@@ -1677,12 +1677,8 @@ class QueryPlan:
             A new query plan with the actual cardinality as the estimated cardinality and the actual execution time as the
             estimated cost. The current plan is not changed.
         """
-        if self.actual_cardinality:
-            updated_cardinality = (
-                self.estimated_cardinality
-                if ignore_nan and self.actual_cardinality.isnan()
-                else self.actual_cardinality
-            )
+        if not (ignore_nan and self.actual_cardinality.isnan()):
+            updated_cardinality = self.actual_cardinality
             updated_cost = (
                 cost_estimator(self, updated_cardinality)
                 if cost_estimator
-- 
2.43.0


From 42859bfa7bf460cedd30c712979ede48db7a4253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:30 +0000
Subject: [PATCH 028/181] fix: scaling cardinalities must not drop measurements
 or scale subplans that were not asked for (C10)

---
 postbound/_qep.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/postbound/_qep.py b/postbound/_qep.py
index 0b0460d..4d33deb 100644
--- a/postbound/_qep.py
+++ b/postbound/_qep.py
@@ -1759,6 +1759,8 @@ class QueryPlan:
             updated_measures = PlanMeasures(
                 cardinality=updated_actual,
                 execution_time=self.execution_time,
+                cache_hits=self._measures.cache_hits,
+                cache_misses=self._measures.cache_misses,
                 **(self._measures.additional_measures),
             )
 
@@ -1770,13 +1772,13 @@ class QueryPlan:
         else:
             updated_children = self.children
 
-        if self.subplan:
+        if self.subplan and recursive:
             updated_subplan_root = self.subplan.root.scale_cardinality(
-                factor, kind=kind, recursive=recursive
+                factor, kind=kind, recursive=True
             )
             updated_subplan = Subplan(updated_subplan_root, self.subplan.target_name)
         else:
-            updated_subplan = None
+            updated_subplan = self.subplan
 
         return QueryPlan(
             self.node_type,
-- 
2.43.0


From 22b79adc4b452d4e3fab2c56924c0d9c0b88a44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:30 +0000
Subject: [PATCH 029/181] fix: the shape of a query plan depends on all of its
 joins (C10)

---
 postbound/_qep.py | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/postbound/_qep.py b/postbound/_qep.py
index 4d33deb..125da07 100644
--- a/postbound/_qep.py
+++ b/postbound/_qep.py
@@ -1283,20 +1283,17 @@ class QueryPlan:
         """
         if self.is_scan():
             return True
-        outer_join = self.outer_child.find_first_node(QueryPlan.is_join)
-        inner_join = self.inner_child.find_first_node(QueryPlan.is_join)
-        return outer_join is None or inner_join is None
+        return not any(
+            node.outer_child._contains_join() and node.inner_child._contains_join()
+            for node in self._join_nodes()
+        )
 
     def is_bushy(self) -> bool:
         """Checks, whether the plan performs joins in a bushy order.
 
         This is the case if at least one join node joins two intermediates that are themselves the result of a join.
         """
-        if self.is_scan():
-            return False
-        outer_join = self.outer_child.find_first_node(QueryPlan.is_join)
-        inner_join = self.inner_child.find_first_node(QueryPlan.is_join)
-        return outer_join is not None and inner_join is not None
+        return not self.is_linear()
 
     def is_left_deep(self) -> bool:
         """Checks, whether the plan performs all joins in a left-deep order.
@@ -1306,8 +1303,9 @@ class QueryPlan:
         """
         if self.is_scan():
             return True
-        inner_join = self.inner_child.find_first_node(QueryPlan.is_join)
-        return inner_join is None
+        return not any(
+            node.inner_child._contains_join() for node in self._join_nodes()
+        )
 
     def is_right_deep(self) -> bool:
         """Checks, whether the plan performs all joins in a right-deep order.
@@ -1317,8 +1315,9 @@ class QueryPlan:
         """
         if self.is_scan():
             return True
-        outer_join = self.outer_child.find_first_node(QueryPlan.is_join)
-        return outer_join is None
+        return not any(
+            node.outer_child._contains_join() for node in self._join_nodes()
+        )
 
     def is_zigzag(self) -> bool:
         """Checks, whether the plan performs all joins in a zigzag order.
@@ -1331,6 +1330,14 @@ class QueryPlan:
             return True
         return self.is_linear() and not self.is_left_deep() and not self.is_right_deep()
 
+    def _join_nodes(self) -> list[QueryPlan]:
+        """Provides all joins of the current plan, without any subplans."""
+        return [node for node in self.iternodes() if node.is_join()]
+
+    def _contains_join(self) -> bool:
+        """Checks, whether the plan computes an intermediate result, i.e. more than the scan of a base table."""
+        return bool(self._join_nodes())
+
     def is_scan_branch(self) -> bool:
         """Checks, whether the current node directly leads to a scan node.
 
-- 
2.43.0


From a0d4f5f8a6814d7cc5d2e19f74e6fc8fc65453a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:21 +0000
Subject: [PATCH 030/181] fix: searching for plan nodes must visit subplans and
 children of all nodes (C10)

---
 postbound/_qep.py | 27 +++++----------------------
 1 file changed, 5 insertions(+), 22 deletions(-)

diff --git a/postbound/_qep.py b/postbound/_qep.py
index 125da07..174822a 100644
--- a/postbound/_qep.py
+++ b/postbound/_qep.py
@@ -1490,30 +1490,13 @@ class QueryPlan:
         """
         if predicate(self, *args, **kwargs):
             return self
-        if not self.children:
-            return None
-
-        if len(self.children) == 1:
-            return self.input_node.find_first_node(
+        children = self.children if direction == "outer" else self.children[::-1]
+        for child in children:
+            match = child.find_first_node(
                 predicate, *args, direction=direction, **kwargs
             )
-
-        first_candidate, second_candidate = (
-            (self.outer_child, self.inner_child)
-            if direction == "outer"
-            else (self.inner_child, self.outer_child)
-        )
-        first_match = first_candidate.find_first_node(
-            predicate, *args, direction=direction, **kwargs
-        )
-        if first_match:
-            return first_match
-
-        second_match = second_candidate.find_first_node(
-            predicate, *args, direction=direction, **kwargs
-        )
-        if second_match:
-            return second_match
+            if match:
+                return match
 
         return (
             self._subplan.root.find_first_node(
-- 
2.43.0


From 5d1a412f79cd6640fd697cf3de13e050812dd6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:21 +0000
Subject: [PATCH 031/181] fix: q-errors must not be rounded (C10)

---
 postbound/_qep.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/postbound/_qep.py b/postbound/_qep.py
index 174822a..020d066 100644
--- a/postbound/_qep.py
+++ b/postbound/_qep.py
@@ -1581,9 +1581,12 @@ class QueryPlan:
         if not self.is_analyze():
             return math.nan
 
-        larger = max(self.estimated_cardinality, self.actual_cardinality) + 1
-        smaller = min(self.estimated_cardinality, self.actual_cardinality) + 1
-        return larger / smaller
+        # cardinalities are whole numbers, but the q-error is not
+        estimated = self.estimated_cardinality.get()
+        actual = self.actual_cardinality.get()
+        if math.isnan(estimated) or math.isnan(actual):
+            return math.nan
+        return (max(estimated, actual) + 1) / (min(estimated, actual) + 1)
 
     def parallelize(self, workers: int) -> QueryPlan:
         """Creates a parallel version of the query plan with the specified number of workers.
-- 
2.43.0


From 032119d9e0a673018cf85734ab16099968cc8f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:21 +0000
Subject: [PATCH 032/181] fix: query plans must recognize the names of their
 parameters (C10)

---
 postbound/_qep.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postbound/_qep.py b/postbound/_qep.py
index 020d066..056a5ae 100644
--- a/postbound/_qep.py
+++ b/postbound/_qep.py
@@ -1920,13 +1920,13 @@ class QueryPlan:
     ) -> bool:
         if isinstance(key, TableReference):
             return key in self.tables()
-        elif isinstance(key, Iterable):
+        elif isinstance(key, Iterable) and not isinstance(key, str):
             return set(key).issubset(self.tables())
 
         return (
             key in self._plan_params
             or key in self._estimates
-            or (self._measures and key in self._measures)
+            or (bool(self._measures) and key in self._measures)
         )
 
     def __getitem__(self, key: str) -> Any:
-- 
2.43.0


From fdb173ede6a6aeae0aafcffc4e8150cf04f3e014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:36 +0000
Subject: [PATCH 033/181] fix: query plans built from their parts must contain
 these parts (C10)

---
 postbound/opt/_helpers.py | 51 +++++++++++++++++++++++++++------------
 1 file changed, 36 insertions(+), 15 deletions(-)

diff --git a/postbound/opt/_helpers.py b/postbound/opt/_helpers.py
index ef3df24..6ce27ad 100644
--- a/postbound/opt/_helpers.py
+++ b/postbound/opt/_helpers.py
@@ -319,12 +319,13 @@ def _make_simple_plan(
     (Estimated) cardinalities can still be customized accroding to the plan parameters. However, parallel workers are ignored.
     """
     tables = frozenset(join_tree.tables())
-    if plan_params and plan_params.cardinalities.get(tables, None):
+    if plan_params and tables in plan_params.cardinalities:
         cardinality = plan_params.cardinalities[tables]
-    elif isinstance(join_tree, LogicalJoinTree):
+    elif isinstance(join_tree, LogicalJoinTree) and join_tree.annotation is not None:
         cardinality = join_tree.annotation
     else:
         cardinality = math.nan
+    base_table = join_tree.base_table if join_tree.is_scan() else None
 
     if join_tree.is_join():
         operator = join_op
@@ -348,10 +349,15 @@ def _make_simple_plan(
         children = []
 
     if query is None:
-        return QueryPlan(operator, children=children, estimated_cardinality=cardinality)
+        return QueryPlan(
+            operator,
+            children=children,
+            base_table=base_table,
+            estimated_cardinality=cardinality,
+        )
 
     predicates = query.predicates()
-    filter_condition = (
+    filter_predicate = (
         predicates.joins_between(
             join_tree.outer_child.tables(), join_tree.inner_child.tables()
         )
@@ -361,8 +367,9 @@ def _make_simple_plan(
     return QueryPlan(
         operator,
         children=children,
+        base_table=base_table,
         estimated_cardinality=cardinality,
-        filter_condition=filter_condition,
+        filter_predicate=filter_predicate,
     )
 
 
@@ -384,18 +391,20 @@ def _make_custom_plan(
     parameters. As a fallback, cardinalities from the join tree annotations are used.
     """
     tables = frozenset(join_tree.tables())
-    if plan_params and plan_params.cardinalities.get(tables, None):
+    if plan_params and tables in plan_params.cardinalities:
         cardinality = plan_params.cardinalities[tables]
-    elif isinstance(join_tree, LogicalJoinTree):
+    elif isinstance(join_tree, LogicalJoinTree) and join_tree.annotation is not None:
         cardinality = join_tree.annotation
     else:
         cardinality = math.nan
+    base_table = join_tree.base_table if join_tree.is_scan() else None
 
     par_workers = (
         plan_params.parallel_workers.get(tables, None) if plan_params else None
     )
 
-    operator = physical_ops.get(tables)
+    assignment = physical_ops.get(tables)
+    operator = assignment.operator if assignment else None
     if not operator and len(tables) == 1:
         operator = fallback_scan_op
     elif not operator and len(tables) > 1:
@@ -404,11 +413,21 @@ def _make_custom_plan(
         raise ValueError("No operator assignment found for join: " + str(tables))
 
     if join_tree.is_join():
-        outer_plan = _make_simple_plan(
-            join_tree.outer_child, physical_ops=physical_ops, plan_params=plan_params
+        outer_plan = _make_custom_plan(
+            join_tree.outer_child,
+            physical_ops=physical_ops,
+            query=query,
+            plan_params=plan_params,
+            fallback_scan_op=fallback_scan_op,
+            fallback_join_op=fallback_join_op,
         )
-        inner_plan = _make_simple_plan(
-            join_tree.inner_child, physical_ops=physical_ops, plan_params=plan_params
+        inner_plan = _make_custom_plan(
+            join_tree.inner_child,
+            physical_ops=physical_ops,
+            query=query,
+            plan_params=plan_params,
+            fallback_scan_op=fallback_scan_op,
+            fallback_join_op=fallback_join_op,
         )
         children = (outer_plan, inner_plan)
     else:
@@ -418,12 +437,13 @@ def _make_custom_plan(
         plan = QueryPlan(
             operator,
             children=children,
+            base_table=base_table,
             estimated_cardinality=cardinality,
             parallel_workers=par_workers,
         )
     else:
         predicates = query.predicates()
-        filter_condition = (
+        filter_predicate = (
             predicates.joins_between(
                 join_tree.outer_child.tables(), join_tree.inner_child.tables()
             )
@@ -433,12 +453,13 @@ def _make_custom_plan(
         plan = QueryPlan(
             operator,
             children=children,
+            base_table=base_table,
             estimated_cardinality=cardinality,
-            filter_condition=filter_condition,
+            filter_predicate=filter_predicate,
             parallel_workers=par_workers,
         )
 
-    intermediate_op = physical_ops.intermediate_operators.get(frozenset(plan.tables()))
+    intermediate_op = physical_ops.intermediate_operators.get(tables)
     if not intermediate_op:
         return plan
     if intermediate_op in {IntermediateOperator.Sort, IntermediateOperator.Memoize}:
-- 
2.43.0


From b539d7995f45508fe92802145c7e7428e07a8386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:36 +0000
Subject: [PATCH 034/181] fix: updating the operators and parameters of a query
 plan must work at all (C10)

---
 postbound/opt/_helpers.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/postbound/opt/_helpers.py b/postbound/opt/_helpers.py
index 6ce27ad..8eaa18f 100644
--- a/postbound/opt/_helpers.py
+++ b/postbound/opt/_helpers.py
@@ -212,11 +212,12 @@ def update_plan(
     """
     query_plan = query_plan.canonical() if simplify else query_plan
 
-    updated_operator = (
-        operators.get(query_plan.tables(), query_plan.operator)
-        if operators
-        else query_plan.operator
-    )
+    node_type, updated_operator = query_plan.node_type, query_plan.operator
+    if operators and not query_plan.is_auxiliary():
+        assignment = operators.get(query_plan.tables())
+        if assignment and assignment.operator != updated_operator:
+            updated_operator = assignment.operator
+            node_type = updated_operator.name
     updated_card_est = (
         params.cardinalities.get(query_plan.tables(), query_plan.estimated_cardinality)
         if params
@@ -231,18 +232,18 @@ def update_plan(
     )
 
     updated_params = PlanParams(
-        **(query_plan.params.items() | {"parallel_workers": updated_workers})
+        **(dict(query_plan.params.items()) | {"parallel_workers": updated_workers})
     )
     updated_estimates = PlanEstimates(
-        **(query_plan.estimates.items() | {"estimated_cardinality": updated_card_est})
+        **(dict(query_plan.estimates.items()) | {"cardinality": updated_card_est})
     )
     updated_children = [
-        update_plan(child, operators=operators, params=params)
+        update_plan(child, operators=operators, params=params, simplify=simplify)
         for child in query_plan.children
     ]
 
     return QueryPlan(
-        query_plan.node_type,
+        node_type,
         operator=updated_operator,
         children=updated_children,
         plan_params=updated_params,
-- 
2.43.0


From 478e9a2f9339b88084a9917f03450352625ec953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:22 +0000
Subject: [PATCH 035/181] fix: decompose plans with bitmap scans and nodes
 without an operator (C10)

---
 postbound/_hints.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/postbound/_hints.py b/postbound/_hints.py
index 3bd786d..6c88ee6 100644
--- a/postbound/_hints.py
+++ b/postbound/_hints.py
@@ -1835,10 +1835,15 @@ def parameters_from_plan(
             )
         parallel_workers = query_plan.params.parallel_workers
 
-    if card is not None and not math.isnan(card):
-        params.add_cardinality(query_plan.tables(), card)
-    if parallel_workers:
-        params.set_workers(query_plan.tables(), parallel_workers)
+    tables = query_plan.tables()
+    if tables and card is not None and not math.isnan(card):
+        params.add_cardinality(tables, card)
+    if tables and parallel_workers:
+        params.set_workers(tables, parallel_workers)
+
+    if query_plan.is_scan():
+        # children of scans are implementation details (e.g. bitmap index scans), they do not compute an intermediate
+        return params
 
     for child in query_plan.children:
         child_params = parameters_from_plan(
@@ -1883,7 +1888,13 @@ def operators_from_plan(
             )
             assignment.add(operator)
         case _:
-            assignment.add(query_plan.operator, query_plan.tables())
+            tables = query_plan.tables()
+            if query_plan.operator and tables:
+                assignment.add(query_plan.operator, tables)
+
+    if query_plan.is_scan():
+        # children of scans are implementation details (e.g. bitmap index scans)
+        return assignment
 
     for child in query_plan.children:
         child_assignment = operators_from_plan(child, include_workers=include_workers)
-- 
2.43.0


From b19309067a17fc59396f8f92b8d74d01ad49509c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:25 +0000
Subject: [PATCH 036/181] fix: update_plan looks parameters up by frozen table
 sets (C10)

---
 postbound/opt/_helpers.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/postbound/opt/_helpers.py b/postbound/opt/_helpers.py
index 8eaa18f..6fe647d 100644
--- a/postbound/opt/_helpers.py
+++ b/postbound/opt/_helpers.py
@@ -211,22 +211,21 @@ def update_plan(
     QueryPlan.simplify
     """
     query_plan = query_plan.canonical() if simplify else query_plan
+    tables = frozenset(query_plan.tables())
 
     node_type, updated_operator = query_plan.node_type, query_plan.operator
     if operators and not query_plan.is_auxiliary():
-        assignment = operators.get(query_plan.tables())
+        assignment = operators.get(tables)
         if assignment and assignment.operator != updated_operator:
             updated_operator = assignment.operator
             node_type = updated_operator.name
     updated_card_est = (
-        params.cardinalities.get(query_plan.tables(), query_plan.estimated_cardinality)
+        params.cardinalities.get(tables, query_plan.estimated_cardinality)
         if params
         else query_plan.estimated_cardinality
     )
     updated_workers = (
-        params.parallel_workers.get(
-            query_plan.tables(), query_plan.params.parallel_workers
-        )
+        params.parallel_workers.get(tables, query_plan.params.parallel_workers)
         if params
         else query_plan.params.parallel_workers
     )
-- 
2.43.0


From 6c33ce2d34e6be6f6931a4c75d6e146addf2cdae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:28 +0000
Subject: [PATCH 037/181] fix: exhaustive enumeration yields linear orders,
 partial assignments and plans, and notices unjoined tables (C13)

---
 postbound/opt/_helpers.py    |  9 ++++++
 postbound/opt/enumeration.py | 57 ++++++++++++++++++++++++------------
 postbound/opt/randomized.py  | 13 ++++----
 3 files changed, 55 insertions(+), 24 deletions(-)

diff --git a/postbound/opt/_helpers.py b/postbound/opt/_helpers.py
index 6fe647d..c7735f9 100644
--- a/postbound/opt/_helpers.py
+++ b/postbound/opt/_helpers.py
@@ -5,6 +5,8 @@ import math
 import warnings
 from typing import Literal, Optional, Union
 
+import networkx as nx
+
 from .. import parser
 from .._core import (
     IntermediateOperator,
@@ -29,6 +31,13 @@ from .._qep import PlanEstimates, PlanMeasures, PlanParams, QueryPlan, SortKey,
 from ..qal import SqlQuery
 
 
+def complete_join_graph(query: SqlQuery) -> nx.Graph:
+    """Provides the join graph of a query, including those tables that are not part of any predicate."""
+    join_graph = query.predicates().join_graph()
+    join_graph.add_nodes_from(query.tables())
+    return join_graph
+
+
 def read_operator_json(
     json_data: dict | str,
 ) -> Optional[PhysicalOperator | ScanOperatorAssignment | JoinOperatorAssignment]:
diff --git a/postbound/opt/enumeration.py b/postbound/opt/enumeration.py
index 1b56dec..05f9644 100644
--- a/postbound/opt/enumeration.py
+++ b/postbound/opt/enumeration.py
@@ -23,7 +23,7 @@ from .._qep import QueryPlan
 from ..db import Database, DatabasePool
 from ..qal import SqlQuery
 from ..util import nx as nx_utils
-from ._helpers import to_query_plan
+from ._helpers import complete_join_graph, to_query_plan
 
 
 def _merge_nodes(
@@ -154,10 +154,32 @@ class ExhaustiveJoinOrderEnumerator:
         For now, the underlying algorithm is limited to queries without cross-products.
         """
         if self._tree_structure == "left-deep" or self._tree_structure == "right-deep":
-            self._linear_join_orders(query)
-            return
+            join_order_generator = self._linear_join_orders(query)
+        else:
+            join_order_generator = self._bushy_join_orders(query)
+
+        generated_join_orders: set[JoinTree] = set()
+        for join_order in join_order_generator:
+            if join_order in generated_join_orders:
+                continue
+
+            generated_join_orders.add(join_order)
+            yield join_order
+
+    def _bushy_join_orders(self, query: SqlQuery) -> Generator[JoinTree, None, None]:
+        """Handler method to generate arbitrary join orders. The same join order can be generated multiple times.
 
-        join_graph = query.predicates().join_graph()
+        Parameters
+        ----------
+        query : SqlQuery
+            The query to "optimize"
+
+        Yields
+        ------
+        Generator[JoinTree]
+            A generator that produces all possible join orders for the input query.
+        """
+        join_graph = complete_join_graph(query)
         if len(join_graph.nodes) == 0:
             return
         elif len(join_graph.nodes) == 1:
@@ -170,20 +192,13 @@ class ExhaustiveJoinOrderEnumerator:
                 "Cross products are not yet supported for random join order generation!"
             )
 
-        join_order_hashes = set()
-        join_order_generator = _enumerate_join_graph(query, join_graph)
-        for join_order in join_order_generator:
-            current_hash = hash(join_order)
-            if current_hash in join_order_hashes:
-                continue
-
-            join_order_hashes.add(current_hash)
-            yield join_order
+        yield from _enumerate_join_graph(query, join_graph)
 
     def _linear_join_orders(self, query: SqlQuery) -> Generator[JoinTree, None, None]:
         """Handler method to generate left-deep or right-deep join orders.
 
-        The specific kind of join order is inferred based on the `_tree_structure` attribute.
+        The specific kind of join order is inferred based on the `_tree_structure` attribute. The same join order can be
+        generated multiple times.
 
         Parameters
         ----------
@@ -195,7 +210,11 @@ class ExhaustiveJoinOrderEnumerator:
         Generator[JoinTree]
             A generator that produces all possible join orders for the input query.
         """
-        join_graph = query.predicates().join_graph()
+        join_graph = complete_join_graph(query)
+        if len(join_graph.nodes) > 0 and not nx.is_connected(join_graph):
+            raise ValueError(
+                "Cross products are not yet supported for random join order generation!"
+            )
         direction = "inner" if self._tree_structure == "left-deep" else "outer"
 
         for join_path in nx_utils.nx_frontier_walks(join_graph):
@@ -294,9 +313,11 @@ class ExhaustiveOperatorEnumerator:
             will they specify join directions or parallization data.
         """
         if not self._include_scans:
-            return self._all_join_assignments_for(query, join_order)
+            yield from self._all_join_assignments_for(query, join_order)
+            return
         elif not self._include_joins:
-            return self._all_scan_assignments_for(query)
+            yield from self._all_scan_assignments_for(query, join_order)
+            return
 
         tables = list(query.tables())
         scan_ops = [list(self.allowed_scan_ops)] * len(tables)
@@ -430,4 +451,4 @@ class ExhaustivePlanEnumerator:
             ) in self._operator_generator.all_operator_assignments_for(
                 query, join_order
             ):
-                yield to_query_plan(join_order, operator_assignment)
+                yield to_query_plan(join_order, physical_ops=operator_assignment)
diff --git a/postbound/opt/randomized.py b/postbound/opt/randomized.py
index 5859d4c..8ee1cbe 100644
--- a/postbound/opt/randomized.py
+++ b/postbound/opt/randomized.py
@@ -26,7 +26,7 @@ from ..db import Database, DatabasePool
 from ..qal import SqlQuery
 from ..util import nx as nx_utils
 from ..validation import CompoundCheck, CrossProductPreCheck, SupportedHintCheck
-from ._helpers import to_query_plan
+from ._helpers import complete_join_graph, to_query_plan
 
 
 def _merge_nodes(
@@ -187,14 +187,16 @@ class RandomJoinOrderGenerator:
         --------
         For now, the underlying algorithm is limited to queries without cross-products.
         """
-        join_graph = query.predicates().join_graph()
+        join_graph = complete_join_graph(query)
         if len(join_graph.nodes) == 0:
             return
         elif len(join_graph.nodes) == 1:
             base_table = list(join_graph.nodes)[0]
             join_tree = JoinTree.scan(base_table)
-            while True:
+            yield join_tree
+            while not self._eliminate_duplicates:
                 yield join_tree
+            return
         elif not nx.is_connected(join_graph):
             raise ValueError(
                 "Cross products are not yet supported for random join order generation!"
@@ -559,8 +561,7 @@ class RandomPlanGenerator:
         """
         join_order_generator = self._join_order_generator.random_join_orders_for(query)
         plan_hashes = set()
-        while True:
-            join_order = next(join_order_generator)
+        for join_order in join_order_generator:
             operator_generator = (
                 self._operator_generator.random_operator_assignments_for(
                     query, join_order
@@ -568,7 +569,7 @@ class RandomPlanGenerator:
             )
             physical_operators = next(operator_generator)
 
-            query_plan = to_query_plan(join_order, physical_operators)
+            query_plan = to_query_plan(join_order, physical_ops=physical_operators)
             if self._eliminate_duplicates:
                 current_plan_hash = hash(query_plan)
                 if current_plan_hash in plan_hashes:
-- 
2.43.0


From 42b2688593739ffde71d0b598ce8400e13e2e781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:54 +0000
Subject: [PATCH 038/181] fix: complete_join_graph does not modify shared join
 graphs (C13)

---
 postbound/opt/_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/opt/_helpers.py b/postbound/opt/_helpers.py
index c7735f9..61705a6 100644
--- a/postbound/opt/_helpers.py
+++ b/postbound/opt/_helpers.py
@@ -33,7 +33,7 @@ from ..qal import SqlQuery
 
 def complete_join_graph(query: SqlQuery) -> nx.Graph:
     """Provides the join graph of a query, including those tables that are not part of any predicate."""
-    join_graph = query.predicates().join_graph()
+    join_graph = query.predicates().join_graph().copy()
     join_graph.add_nodes_from(query.tables())
     return join_graph
 
-- 
2.43.0


From f9d48a3cf86bca923f89b1ed97055025017e1773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:58 +0000
Subject: [PATCH 039/181] fix: dynamic programming releases its estimators on
 failures and considers the columns of SELECT * (C12)

---
 postbound/opt/dynprog.py | 98 ++++++++++++++++++++--------------------
 1 file changed, 50 insertions(+), 48 deletions(-)

diff --git a/postbound/opt/dynprog.py b/postbound/opt/dynprog.py
index 3dd90c9..5883372 100644
--- a/postbound/opt/dynprog.py
+++ b/postbound/opt/dynprog.py
@@ -67,12 +67,13 @@ def _calc_plan_estimates(
 def _collect_used_columns(
     query: SqlQuery, table: TableReference, *, schema: DatabaseSchema
 ) -> set[ColumnReference]:
-    columns = query.columns_of(table)
+    columns = set(query.columns_of(table))
     for star_expression in query.select_clause.star_expressions():
-        if table not in star_expression.tables():
+        # a plain SELECT * is not restricted to specific tables
+        if star_expression.tables() and table not in star_expression.tables():
             continue
 
-        columns |= schema.columns(table)
+        columns |= set(schema.columns(table))
     return columns
 
 
@@ -160,20 +161,22 @@ class DynamicProgrammingEnumerator(PlanEnumerator):
         cost_model.initialize(self._target_db, query)
         cardinality_estimator.initialize(self._target_db, query)
 
-        dp_table = self._determine_base_access_paths(
-            query, cost_model=cost_model, cardinality_estimator=cardinality_estimator
-        )
-        final_plan = self._build_join_paths(
-            query,
-            dp_table=dp_table,
-            cost_model=cost_model,
-            cardinality_estimator=cardinality_estimator,
-        )
-
-        cost_model.cleanup()
-        cardinality_estimator.cleanup()
-        self.predicates = None
-        return final_plan
+        try:
+            dp_table = self._determine_base_access_paths(
+                query,
+                cost_model=cost_model,
+                cardinality_estimator=cardinality_estimator,
+            )
+            return self._build_join_paths(
+                query,
+                dp_table=dp_table,
+                cost_model=cost_model,
+                cardinality_estimator=cardinality_estimator,
+            )
+        finally:
+            cost_model.cleanup()
+            cardinality_estimator.cleanup()
+            self.predicates = None
 
     def pre_check(self) -> OptimizationPreCheck:
         return merge_checks(
@@ -670,39 +673,38 @@ class PostgresDynProg(PlanEnumerator):
         self.cardinality_estimator = cardinality_estimator
         self.cost_model = cost_model
 
-        base_rels = self._init_base_rels()
-        self._set_base_rel_pathlists(base_rels)
+        try:
+            base_rels = self._init_base_rels()
+            self._set_base_rel_pathlists(base_rels)
 
-        final_rel = self._standard_join_search(initial_rels=base_rels)
-        assert final_rel.cheapest_path is not None, (
-            "No valid plan found for the given query."
-        )
+            final_rel = self._standard_join_search(initial_rels=base_rels)
+            assert final_rel.cheapest_path is not None, (
+                "No valid plan found for the given query."
+            )
 
-        if self._is_pg_cost(cost_model):
-            # This seems weird at first, so let's explain what is going on here:
-            # If we use the actual PG cost model, we can be make better decisions about what the optimal plan is.
-            # The reason is that PG might parallelize a portion of the upper operators (anything that happens after the final
-            # join such as aggregations). With these upper rel parallelizations, a partial plan might become cheaper than its
-            # counterpart that executes the last join in parallel (and which we compute). Consequently, that very path might
-            # become cheaper than the cheapest path that we have computed so far.
-            #
-            # Therefore, we need to explicitly consider all partial paths as well as the sequential ones and retrieve the
-            # final cost estimates for them.
-            # But this only works if know we are using the PG execution engine and cost model.
-
-            plans = final_rel.pathlist + self._generate_pseudo_gather_paths(final_rel)
-            plan_costs = {plan: self._pg_cost_estimate(plan) for plan in plans}
-            cheapest_plan = util.argmin(plan_costs)
-        else:
-            cheapest_plan = final_rel.cheapest_path
-
-        cost_model.cleanup()
-        cardinality_estimator.cleanup()
-        self.query = None
-        self.predicates = None
-        self.cost_model = None
-        self.cardinality_estimator = None
-        return cheapest_plan
+            if self._is_pg_cost(cost_model):
+                # This seems weird at first, so let's explain what is going on here:
+                # If we use the actual PG cost model, we can be make better decisions about what the optimal plan is.
+                # The reason is that PG might parallelize a portion of the upper operators (anything that happens after the final
+                # join such as aggregations). With these upper rel parallelizations, a partial plan might become cheaper than its
+                # counterpart that executes the last join in parallel (and which we compute). Consequently, that very path might
+                # become cheaper than the cheapest path that we have computed so far.
+                #
+                # Therefore, we need to explicitly consider all partial paths as well as the sequential ones and retrieve the
+                # final cost estimates for them.
+                # But this only works if know we are using the PG execution engine and cost model.
+
+                plans = final_rel.pathlist + self._generate_pseudo_gather_paths(final_rel)
+                plan_costs = {plan: self._pg_cost_estimate(plan) for plan in plans}
+                return util.argmin(plan_costs)
+            return final_rel.cheapest_path
+        finally:
+            cost_model.cleanup()
+            cardinality_estimator.cleanup()
+            self.query = None
+            self.predicates = None
+            self.cost_model = None
+            self.cardinality_estimator = None
 
     def describe(self) -> jsondict:
         return {
-- 
2.43.0


From 76a4f79e4360530bd06cfddbf258963b76d56485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:05 +0000
Subject: [PATCH 040/181] fix: index paths carry their cardinality, bitmap
 scans need an index and partial merge joins use their own outer path (C12)

---
 postbound/opt/dynprog.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/postbound/opt/dynprog.py b/postbound/opt/dynprog.py
index 5883372..468f3bf 100644
--- a/postbound/opt/dynprog.py
+++ b/postbound/opt/dynprog.py
@@ -259,6 +259,9 @@ class DynamicProgrammingEnumerator(PlanEnumerator):
             column: self._target_db.schema().indexes_on(column)
             for column in required_columns
         }
+        candidate_indexes = {
+            column: indexes for column, indexes in candidate_indexes.items() if indexes
+        }
 
         if not candidate_indexes:
             return []
@@ -1029,7 +1032,7 @@ class PostgresDynProg(PlanEnumerator):
                     continue
 
                 outer_path = (
-                    outer_path
+                    outer_partial
                     if self._is_sorted_by(outer_partial, outer_col)
                     else self._create_sort_path(outer_partial, sort_key=outer_col)
                 )
@@ -1318,7 +1321,9 @@ class PostgresDynProg(PlanEnumerator):
 
         base_table = util.simplify(rel.intermediate)
         filter_condition = self.predicates.filters_for(base_table)
-        required_columns = self.query.columns_of(base_table)
+        required_columns = _collect_used_columns(
+            self.query, base_table, schema=self.target_db.schema()
+        )
         idx_only_scan = (
             ScanOperator.IndexOnlyScan in self._scan_ops and len(required_columns) <= 1
         )
@@ -1341,6 +1346,7 @@ class PostgresDynProg(PlanEnumerator):
                         base_table=base_table,
                         index=index,
                         sort_keys=sorting,
+                        estimated_cardinality=rel.cardinality,
                         filter_predicate=filter_condition,
                         estimated_workers=workers,
                     )
@@ -1351,6 +1357,7 @@ class PostgresDynProg(PlanEnumerator):
                         base_table=base_table,
                         index=index,
                         sort_keys=sorting,
+                        estimated_cardinality=rel.cardinality,
                         filter_predicate=filter_condition,
                         estimated_workers=workers,
                     )
@@ -1383,11 +1390,16 @@ class PostgresDynProg(PlanEnumerator):
         # Notice that the hinting backend is responsible for selecting the appropriate bitmap index hierarchies.
 
         base_table = util.simplify(rel.intermediate)
-        required_columns = self.query.columns_of(base_table)
+        required_columns = _collect_used_columns(
+            self.query, base_table, schema=self.target_db.schema()
+        )
         candidate_indexes = {
             column: self.target_db.schema().indexes_on(column)
             for column in required_columns
         }
+        candidate_indexes = {
+            column: indexes for column, indexes in candidate_indexes.items() if indexes
+        }
         if not candidate_indexes:
             # We only check if there are no candidate indexes at all and explicitly accept the case where there is a single
             # candidate index. This is because we can still perform an index lookup followed by a sequential scan of the pages.
@@ -1403,6 +1415,7 @@ class PostgresDynProg(PlanEnumerator):
             ScanOperator.BitmapScan,
             base_table=base_table,
             indexes=candidate_indexes,
+            estimated_cardinality=rel.cardinality,
             filter_predicate=filter_condition,
             estimated_workers=workers,
         )
-- 
2.43.0


From 85f24699677d5bbcc6d42812a08c200537e3e08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:19 +0000
Subject: [PATCH 041/181] fix: more expensive paths with a better sort order
 are kept during plan enumeration (C12)

---
 postbound/opt/dynprog.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/postbound/opt/dynprog.py b/postbound/opt/dynprog.py
index 468f3bf..fad8bca 100644
--- a/postbound/opt/dynprog.py
+++ b/postbound/opt/dynprog.py
@@ -767,16 +767,20 @@ class PostgresDynProg(PlanEnumerator):
             # Postgres uses a fuzzy cost comparison (compare_path_costs_fuzzily() from pathnode.c) and evicts old paths even
             # if there cost is slightly better than the new path, if the new path is better sorted.
             old_cost = old_path.estimated_cost
+            same_sorting = self._same_sorting(
+                path.sort_keys, other=old_path.sort_keys
+            )
             new_dominates = (
-                new_cost < old_cost
-                if self._same_sorting(path.sort_keys, other=old_path.sort_keys)
-                else new_cost <= 1.01 * old_cost
+                new_cost < old_cost if same_sorting else new_cost <= 1.01 * old_cost
             )
 
             if new_dominates:
                 # The new path is better (or at least equally) sorted and cheaper, we can evict the old path
                 keep_new = True  # strictly speaking, this is not necessary, but it makes our intention clearer
                 continue  # don't break here, we need to check the remaining paths
+            elif not same_sorting:
+                # The new path is more expensive, but it is also better sorted. We need to keep both.
+                result_paths.append(old_path)
             else:
                 # The existing path is better (or at least equally) sorted and cheaper, we don't need the new path.
                 # This also means that we can stop checking the remaining paths. The new one won't get added and the old ones
-- 
2.43.0


From eefcda7c77deb1b1b6c8949f180dbfb915b7886a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:08 +0000
Subject: [PATCH 042/181] fix: merge joins are considered for simple join
 predicates (C12)

---
 postbound/opt/dynprog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/opt/dynprog.py b/postbound/opt/dynprog.py
index fad8bca..86f105b 100644
--- a/postbound/opt/dynprog.py
+++ b/postbound/opt/dynprog.py
@@ -1749,7 +1749,7 @@ class PostgresDynProg(PlanEnumerator):
         This method assumes that we indeed only perform a binary equi-join and will break otherwise.
         """
         partners = join_key.join_partners()
-        if len(partners) != 2:
+        if len(partners) != 1:
             # TODO: in all further processing, we ignore the case where a path might be sorted by more than one join key
             # already this should occur very rarely, but it might provide a decent performance boost in those situations
             return None, None
-- 
2.43.0


From 7d1b5a5d76272be73aa22dc9ace80e39ab42accb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:42 +0000
Subject: [PATCH 043/181] fix: n-ary math expressions report the tables and
 columns of all arguments (C05)

---
 postbound/qal/_qal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 2299ebf..0e3df99 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -601,7 +601,7 @@ class MathExpression(SqlExpression):
 
     def tables(self) -> set[TableReference]:
         all_tables = set(self.first_arg.tables())
-        if isinstance(self.second_arg, list):
+        if isinstance(self.second_arg, tuple):
             all_tables |= util.set_union(expr.tables() for expr in self.second_arg)
         elif isinstance(self.second_arg, SqlExpression):
             all_tables |= self.second_arg.tables()
@@ -609,7 +609,7 @@ class MathExpression(SqlExpression):
 
     def columns(self) -> set[ColumnReference]:
         all_columns = set(self.first_arg.columns())
-        if isinstance(self.second_arg, list):
+        if isinstance(self.second_arg, tuple):
             for expression in self.second_arg:
                 all_columns |= expression.columns()
         elif isinstance(self.second_arg, SqlExpression):
-- 
2.43.0


From 1fd0b9c2107e21e089d3f450d70ab521f6864127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:07 +0000
Subject: [PATCH 044/181] fix: CASE, window and aggregate expressions provide
 all of their direct children (C05)

---
 postbound/qal/_qal.py | 34 ++++++++++------------------------
 1 file changed, 10 insertions(+), 24 deletions(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 0e3df99..d0fcec6 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -997,7 +997,8 @@ class FunctionExpression(SqlExpression):
         return all_columns
 
     def iterchildren(self) -> Iterable[SqlExpression]:
-        return list(self.arguments)
+        filter_children = [self._filter_expr] if self._filter_expr else []
+        return list(self.arguments) + filter_children
 
     def accept_visitor(
         self, visitor: SqlExpressionVisitor[VisitorResult], *args, **kwargs
@@ -1399,20 +1400,14 @@ class WindowExpression(SqlExpression):
         return util.flatten(expr.itercolumns() for expr in self.iterchildren())
 
     def iterchildren(self) -> Iterable[SqlExpression]:
-        function_children = self.window_function.iterchildren()
-        partitioning_children = util.flatten(
-            expr.iterchildren() for expr in self.partitioning
-        )
+        filter_children = [self.filter_condition] if self.filter_condition else []
         ordering_children = self.ordering.iterexpressions() if self.ordering else []
-        filter_children = (
-            self.filter_condition.iterexpressions() if self.filter_condition else []
-        )
         return util.flatten(
             [
-                function_children,
-                partitioning_children,
-                ordering_children,
+                [self.window_function],
                 filter_children,
+                self.partitioning,
+                ordering_children,
             ]
         )
 
@@ -1538,19 +1533,10 @@ class CaseExpression(SqlExpression):
         return util.flatten(expr.itercolumns() for expr in self.iterchildren())
 
     def iterchildren(self) -> Iterable[SqlExpression]:
-        case_children = util.flatten(
-            list(pred.iterchildren()) + list(expr.iterchildren())
-            for pred, expr in self.cases
-        )
-        expression_children = (
-            list(self.simple_expression.iterchildren())
-            if self.simple_expression
-            else []
-        )
-        else_children = (
-            list(self.else_expression.iterchildren()) if self.else_expression else []
-        )
-        return case_children + expression_children + else_children
+        expression_children = [self.simple_expression] if self.simple_expression else []
+        case_children = util.flatten(self.cases)
+        else_children = [self.else_expression] if self.else_expression else []
+        return expression_children + case_children + else_children
 
     def accept_visitor(
         self, visitor: SqlExpressionVisitor[VisitorResult], *args, **kwargs
-- 
2.43.0


From 279c22769f8126a9d2fbc5a93460dcc6b5a0cb2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:07 +0000
Subject: [PATCH 045/181] fix: compound predicates that combine joins and
 filters provide their join partners (C05)

---
 postbound/qal/_qal.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index d0fcec6..399e6ce 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -3310,7 +3310,9 @@ class CompoundPredicate(AbstractPredicate):
         return util.flatten(child.iterexpressions() for child in self._children)
 
     def join_partners(self) -> set[tuple[ColumnReference, ColumnReference]]:
-        return util.set_union(child.join_partners() for child in self._children)
+        return util.set_union(
+            child.join_partners() for child in self._children if child.is_join()
+        )
 
     def base_predicates(self) -> Iterable[AbstractPredicate]:
         return util.set_union(set(child.base_predicates()) for child in self._children)
-- 
2.43.0


From 1cb93a3acd6e2a506c2691df37fd63dce5faddf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:07 +0000
Subject: [PATCH 046/181] fix: BETWEEN and IN predicates report joins within a
 single boundary or value (C05)

---
 postbound/qal/_qal.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 399e6ce..292de64 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -2750,6 +2750,8 @@ class BetweenPredicate(BasePredicate):
         end_columns = _collect_column_expression_columns(self.interval_end)
 
         partners = _generate_join_pairs(predicate_columns, predicate_columns)
+        partners |= _generate_join_pairs(start_columns, start_columns)
+        partners |= _generate_join_pairs(end_columns, end_columns)
         partners |= _generate_join_pairs(predicate_columns, start_columns)
         partners |= _generate_join_pairs(predicate_columns, end_columns)
         return set(partners)
@@ -2916,6 +2918,7 @@ class InPredicate(BasePredicate):
         partners = _generate_join_pairs(predicate_columns, predicate_columns)
         for value in self.values:
             value_columns = _collect_column_expression_columns(value)
+            partners |= _generate_join_pairs(value_columns, value_columns)
             partners |= _generate_join_pairs(predicate_columns, value_columns)
         return partners
 
-- 
2.43.0


From 3232dce4a6522dd6bd5cfa7f5f16881d59d010a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:41 +0000
Subject: [PATCH 047/181] fix: join lookups and join graphs contain all join
 predicates between tables (C05)

---
 postbound/qal/_qal.py | 61 +++++++++++++++++++++----------------------
 1 file changed, 30 insertions(+), 31 deletions(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 292de64..6875c8c 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -4435,11 +4435,10 @@ class QueryPredicates:
                 filter_predicates = self.filters_for(table)
                 join_graph.add_node(table, predicate=filter_predicates)
 
-            for join in self.joins():
-                for first_col, second_col in join.join_partners():
-                    join_graph.add_edge(
-                        first_col.table, second_col.table, predicate=join
-                    )
+            for tables, joins in self._join_predicate_map.items():
+                first_tab, second_tab = tables
+                join_predicate = CompoundPredicate.create_and(joins)
+                join_graph.add_edge(first_tab, second_tab, predicate=join_predicate)
 
             return join_graph
 
@@ -4454,19 +4453,23 @@ class QueryPredicates:
         for table, preds in table2preds.items():
             join_graph.add_node(table, predicate=preds, aliases=table2alias[table])
 
-        col2join: dict[frozenset[ColumnReference], AbstractPredicate] = {}
+        col2joins: dict[frozenset[ColumnReference], list[AbstractPredicate]] = (
+            collections.defaultdict(list)
+        )
         for join in self.joins():
             for first_col, second_col in join.join_partners():
                 partners = frozenset([first_col, second_col])
-                col2join[partners] = join
+                col2joins[partners].append(join)
 
         tab2join = collections.defaultdict(dict)
-        for partners, join in col2join.items():
-            tabs = frozenset([col.drop_table_alias() for col in partners])
-            tab2join[tabs][partners] = join
+        for partners, joins in col2joins.items():
+            tabs = frozenset([col.table.drop_alias() for col in partners])
+            tab2join[tabs][partners] = CompoundPredicate.create_and(joins)
 
         for tabs, joins in tab2join.items():
-            first_tab, second_tab = tabs
+            # self-joins are represented as loops
+            first_tab, *other_tabs = tabs
+            second_tab = other_tabs[0] if other_tabs else first_tab
             join_graph.add_edge(first_tab, second_tab, predicate=joins)
 
         return join_graph
@@ -4768,32 +4771,31 @@ class QueryPredicates:
 
     def _init_join_predicate_map(
         self,
-    ) -> dict[frozenset[TableReference], AbstractPredicate]:
+    ) -> dict[frozenset[TableReference], Sequence[AbstractPredicate]]:
         """Generates the necessary mapping for `_map_based_joins_between`.
 
         This is a static data structure and hence can be pre-computed.
 
         Returns
         -------
-        dict[frozenset[TableReference], AbstractPredicate]
-            A mapping from a set of tables to the join predicate that is specified between those tables. If a set of tables
+        dict[frozenset[TableReference], Sequence[AbstractPredicate]]
+            A mapping from a pair of tables to all join predicates that are specified between those tables. If a pair of tables
             does not appear in the dictionary, there is no join predicate between the specific tables.
         """
         if self.is_empty():
             return {}
 
-        predicate_map: dict[frozenset[TableReference], AbstractPredicate] = {}
-        for table in self._root.tables():
-            join_partners = self.joins_for(table)
-            for join_predicate in join_partners:
-                partner_tables = {
-                    partner.table for partner in join_predicate.join_partners_of(table)
-                }
-                map_key = frozenset(partner_tables | {table})
-                if map_key in predicate_map:
-                    continue
-                predicate_map[map_key] = join_predicate
-        return predicate_map
+        predicate_map: dict[frozenset[TableReference], list[AbstractPredicate]] = (
+            collections.defaultdict(list)
+        )
+        for join_predicate in self.joins():
+            table_pairs = {
+                frozenset((first_col.table, second_col.table))
+                for first_col, second_col in join_predicate.join_partners()
+            }
+            for map_key in table_pairs:
+                predicate_map[map_key].append(join_predicate)
+        return dict(predicate_map)
 
     def _legacy_joins_between(
         self,
@@ -4914,15 +4916,12 @@ class QueryPredicates:
             predicate between any of the tables, *None* is returned.
 
         """
-        join_predicates = set()
+        join_predicates: set[AbstractPredicate] = set()
         first_table, second_table = util.enlist(first_table), util.enlist(second_table)
         for first in first_table:
             for second in second_table:
                 map_key = frozenset((first, second))
-                if map_key not in self._join_predicate_map:
-                    continue
-                current_predicate = self._join_predicate_map[map_key]
-                join_predicates.add(current_predicate)
+                join_predicates.update(self._join_predicate_map.get(map_key, []))
         if not join_predicates:
             return None
         return CompoundPredicate.create_and(join_predicates)
-- 
2.43.0


From 4bb025be3c95904afc39fd0556120cca336c3699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:59 +0000
Subject: [PATCH 048/181] fix: table and subquery collection handles all kinds
 of FROM clauses (C05)

---
 postbound/qal/_qal.py | 39 ++++++++++++++++++++++++---------------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 6875c8c..71b5186 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -6385,7 +6385,8 @@ class SubqueryTableSource(TableSource):
         ]
 
     def tables(self) -> set[TableReference]:
-        return self._subquery_expression.tables() | {self.target_table}
+        target_tables = {self.target_table} if self.target_table else set()
+        return self._subquery_expression.tables() | target_tables
 
     def columns(self) -> set[ColumnReference]:
         return self._subquery_expression.columns()
@@ -6511,7 +6512,7 @@ class ValuesTableSource(TableSource):
         return self._columns
 
     def tables(self) -> set[TableReference]:
-        return {self._table}
+        return {self._table} if self._table else set()
 
     def columns(self) -> set[ColumnReference]:
         return set(self._columns)
@@ -6626,7 +6627,7 @@ class FunctionTableSource(TableSource):
         return self._alias.identifier() if self._alias else ""
 
     def tables(self) -> set[TableReference]:
-        return self._function.tables() | {self._alias} if self._alias else set()
+        return self._function.tables() | ({self._alias} if self._alias else set())
 
     def columns(self) -> set[ColumnReference]:
         return self._function.columns()
@@ -8095,9 +8096,8 @@ def _collect_subqueries_in_table_source(table_source: TableSource) -> set[SqlQue
         return {table_source.query}
     elif isinstance(table_source, JoinTableSource):
         source_subqueries = _collect_subqueries_in_table_source(table_source.source)
-        nested_subqueries = util.set_union(
-            _collect_subqueries_in_table_source(nested_join)
-            for nested_join in table_source.joined_table
+        nested_subqueries = _collect_subqueries_in_table_source(
+            table_source.joined_table
         )
         condition_subqueries = (
             util.set_union(
@@ -8213,17 +8213,20 @@ def _collect_bound_tables_from_source(table_source: TableSource) -> set[TableRef
     if isinstance(table_source, DirectTableSource):
         return {table_source.table}
     elif isinstance(table_source, SubqueryTableSource):
-        return _collect_bound_tables(table_source.query.from_clause)
+        target_table = table_source.target_table
+        bound_tables = table_source.query.bound_tables()
+        return bound_tables | {target_table} if target_table else bound_tables
     elif isinstance(table_source, JoinTableSource):
         direct_tables = _collect_bound_tables_from_source(table_source.source)
-        nested_tables = util.set_union(
-            _collect_bound_tables_from_source(nested_join)
-            for nested_join in table_source.joined_table
-        )
+        nested_tables = _collect_bound_tables_from_source(table_source.joined_table)
         return direct_tables | nested_tables
+    elif isinstance(table_source, FunctionTableSource):
+        return {table_source.target_table} if table_source.target_table else set()
+    else:
+        return table_source.tables()
 
 
-def _collect_bound_tables(from_clause: From) -> set[TableReference]:
+def _collect_bound_tables(from_clause: Optional[From]) -> set[TableReference]:
     """Handler method to provide all tables that are "produced" in the given clause.
 
     "Produced" tables are tables that are either directly referenced in the *FROM* clause (e.g. ``FROM R``), referenced as
@@ -8244,7 +8247,9 @@ def _collect_bound_tables(from_clause: From) -> set[TableReference]:
     --------
     SqlQuery.bound_tables
     """
-    if isinstance(from_clause, ImplicitFromClause):
+    if from_clause is None:
+        return set()
+    elif isinstance(from_clause, ImplicitFromClause):
         return from_clause.tables()
     else:
         return util.set_union(
@@ -9681,7 +9686,8 @@ class SetQuery:
         set[TableReference]
             All tables that are referenced in the query.
         """
-        return self._lhs.tables() | self._rhs.tables()
+        cte_tables = self._cte.referenced_tables() if self._cte else set()
+        return self._lhs.tables() | self._rhs.tables() | cte_tables
 
     def columns(self) -> set[ColumnReference]:
         """Provides all columns that are referenced at any point in the query.
@@ -9821,7 +9827,10 @@ class SetQuery:
         set[TableReference]
             All tables that are bound (i.e. listed in any *FROM* clause or a CTE) of the query.
         """
-        return self._lhs.bound_tables() | self._rhs.bound_tables()
+        cte_produced_tables = self._cte.tables() if self._cte else set()
+        return (
+            self._lhs.bound_tables() | self._rhs.bound_tables() | cte_produced_tables
+        )
 
     def unbound_tables(self) -> set[TableReference]:
         """Provides all tables that are referenced in this query but not bound.
-- 
2.43.0


From 23fa149fbe086f6a8ff2278f855270e4ebb06c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:59 +0000
Subject: [PATCH 049/181] fix: queries without FROM clause or with nested set
 operations provide their predicates (C05)

---
 postbound/qal/_qal.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 71b5186..bf3052b 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -6398,6 +6398,8 @@ class SubqueryTableSource(TableSource):
         return self._subquery_expression.itercolumns()
 
     def predicates(self) -> QueryPredicates | None:
+        if self._subquery_expression.query.is_set_query():
+            return None
         return self._subquery_expression.query.predicates()
 
     def __hash__(self) -> int:
@@ -8813,6 +8815,8 @@ class SqlQuery:
 
         if self.cte_clause:
             for with_query in self.cte_clause.queries:
+                if with_query.query.is_set_query():
+                    continue
                 current_predicate = current_predicate.and_(
                     with_query.query.predicates()
                 )
@@ -8820,7 +8824,7 @@ class SqlQuery:
         if self.where_clause:
             current_predicate = current_predicate.and_(self.where_clause.predicate)
 
-        from_predicates = self.from_clause.predicates()
+        from_predicates = self.from_clause.predicates() if self.from_clause else None
         if from_predicates:
             current_predicate = current_predicate.and_(from_predicates)
 
-- 
2.43.0


From 38bc28054ff2ce6f35464ad930cd72accb815806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:59 +0000
Subject: [PATCH 050/181] fix: cross products are detected and natural joins
 are kept as such (C05)

---
 postbound/qal/_qal.py | 45 ++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 40 insertions(+), 5 deletions(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index bf3052b..fa9ad20 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -6740,7 +6740,7 @@ class JoinTableSource(TableSource):
         self._left = left
         self._right = right
         self._join_condition = join_condition
-        self._join_type = join_type if join_condition else JoinType.CrossJoin
+        self._join_type = join_type
         self._hash_val = hash(
             (self._left, self._right, self._join_condition, self._join_type)
         )
@@ -8259,6 +8259,32 @@ def _collect_bound_tables(from_clause: Optional[From]) -> set[TableReference]:
         )
 
 
+def _collect_visible_tables(
+    table_source: TableSource,
+    natural_joins: list[tuple[TableReference | TableSource, ...]],
+) -> list[TableReference | TableSource]:
+    """Handler method to provide all tables that a table source exposes to the surrounding query.
+
+    Sources without a name are represented by themselves. All pairs of tables that are connected by natural joins are added to
+    `natural_joins`.
+    """
+    match table_source:
+        case DirectTableSource(table):
+            return [table]
+        case SubqueryTableSource() | FunctionTableSource():
+            return [table_source.target_table or table_source]
+        case ValuesTableSource():
+            return [table_source.table or table_source]
+        case JoinTableSource():
+            left = _collect_visible_tables(table_source.left, natural_joins)
+            right = _collect_visible_tables(table_source.right, natural_joins)
+            if table_source.join_type in AutoJoins - {JoinType.CrossJoin}:
+                natural_joins.append((left[-1], right[0]))
+            return left + right
+        case _:
+            raise TypeError("Unknown table source type: " + str(type(table_source)))
+
+
 FromClauseType = TypeVar("FromClauseType", bound=From)
 
 
@@ -9081,10 +9107,19 @@ class SqlQuery:
         """
         if not self._from_clause:
             return False
-        if self.predicates().empty_predicate():
-            return True
-        join_graph = self.predicates().join_graph()
-        return len(nx.connected_components(join_graph)) > 1
+        visible_tables: list[TableReference | TableSource] = []
+        natural_joins: list[tuple[TableReference | TableSource, ...]] = []
+        for source in self._from_clause.items:
+            visible_tables.extend(_collect_visible_tables(source, natural_joins))
+        join_graph = nx.Graph()
+        join_graph.add_nodes_from(visible_tables)
+        join_graph.add_edges_from(
+            edge
+            for edge in self.predicates().join_graph().edges
+            if edge[0] in join_graph and edge[1] in join_graph
+        )
+        join_graph.add_edges_from(natural_joins)
+        return not nx.is_connected(join_graph)
 
     def iterexpressions(self) -> Iterable[SqlExpression]:
         """Provides access to all expressions that are directly contained in this query.
-- 
2.43.0


From a1f0120024ac0ec8db98e29d717cf820af3d039a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:59 +0000
Subject: [PATCH 051/181] fix: simplified predicate views keep the meaning of
 the predicate and never fail (C05)

---
 postbound/qal/_qal.py | 44 +++++++++++++++++++++++++++++++++----------
 1 file changed, 34 insertions(+), 10 deletions(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index fa9ad20..5015e52 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -3648,6 +3648,26 @@ def _unwrap_expression(expression: SqlExpression) -> ColumnReference | object:
             raise ValueError("Cannot unwrap expression " + str(expression))
 
 
+_MirroredOperators = {
+    LogicalOperator.Equal: LogicalOperator.Equal,
+    LogicalOperator.NotEqual: LogicalOperator.NotEqual,
+    LogicalOperator.Less: LogicalOperator.Greater,
+    LogicalOperator.LessEqual: LogicalOperator.GreaterEqual,
+    LogicalOperator.Greater: LogicalOperator.Less,
+    LogicalOperator.GreaterEqual: LogicalOperator.LessEqual,
+}
+
+
+def _assert_simple_filter(
+    predicate: AbstractPredicate, column: object, values: Sequence[object]
+) -> None:
+    """Raises an error if a filter is not of the form ``<column reference> <operator> <static values>``."""
+    if not isinstance(column, ColumnReference) or any(
+        isinstance(val, ColumnReference) for val in values
+    ):
+        raise ValueError("Not a simple filter: " + str(predicate))
+
+
 UnwrappedFilter = tuple[ColumnReference, LogicalOperator, object]
 """Type that captures the main components of a filter predicate."""
 
@@ -3684,22 +3704,23 @@ def _attempt_filter_unwrap(
     match predicate:
         case BinaryPredicate(op, lhs, rhs):
             left, right = _unwrap_expression(lhs), _unwrap_expression(rhs)
-            left, right = (
-                (left, right) if isinstance(left, ColumnReference) else (right, left)
-            )
-            assert isinstance(left, ColumnReference)
+            if not isinstance(left, ColumnReference):
+                if op not in _MirroredOperators:
+                    raise ValueError("Cannot mirror predicate " + str(predicate))
+                left, op, right = right, _MirroredOperators[op], left
+            _assert_simple_filter(predicate, left, [right])
             return left, op, right
 
         case BetweenPredicate(lhs, lower, upper):
             lhs = _unwrap_expression(lhs)
             lower, upper = _unwrap_expression(lower), _unwrap_expression(upper)
-            assert isinstance(lhs, ColumnReference)
+            _assert_simple_filter(predicate, lhs, [lower, upper])
             return lhs, LogicalOperator.Between, (lower, upper)
 
         case InPredicate(lhs, values):
             lhs = _unwrap_expression(lhs)
             values = [_unwrap_expression(val) for val in values]
-            assert isinstance(lhs, ColumnReference)
+            _assert_simple_filter(predicate, lhs, values)
             return lhs, LogicalOperator.In, tuple(values)
 
         case _:
@@ -4015,10 +4036,13 @@ class SimpleJoin(AbstractPredicate):
             return False
         if not predicate.operation == LogicalOperator.Equal:
             return False
-        lhs, rhs = (
-            _unwrap_expression(predicate.first_argument),
-            _unwrap_expression(predicate.second_argument),
-        )
+        try:
+            lhs, rhs = (
+                _unwrap_expression(predicate.first_argument),
+                _unwrap_expression(predicate.second_argument),
+            )
+        except ValueError:
+            return False
         return isinstance(lhs, ColumnReference) and isinstance(rhs, ColumnReference)
 
     @staticmethod
-- 
2.43.0


From 52290abed40381c9b7530b84befd38bd8b575561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:59 +0000
Subject: [PATCH 052/181] fix: only direct column comparisons form join
 equivalence classes (C06)

---
 postbound/qal/_qal.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 5015e52..552fb8c 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -3575,11 +3575,9 @@ def determine_join_equivalence_classes(
 
     equivalence_graph = nx.Graph()
     for predicate in join_predicates:
-        columns = predicate.columns()
-        if not len(columns) == 2:
-            continue
-        col_a, col_b = columns
-        equivalence_graph.add_edge(col_a, col_b)
+        match predicate:
+            case BinaryPredicate(_, ColumnExpression(col_a), ColumnExpression(col_b)):
+                equivalence_graph.add_edge(col_a, col_b)
 
     equivalence_classes: set[frozenset[ColumnReference]] = set()
     for equivalence_class in nx.connected_components(equivalence_graph):
-- 
2.43.0


From 3759ebe390b39d595c433e9edec045b701138e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:16 +0000
Subject: [PATCH 053/181] fix: join graphs with merged aliases support virtual
 tables (C05)

---
 postbound/qal/_qal.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 552fb8c..5c92116 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -4314,6 +4314,11 @@ def _collect_join_predicates(predicate: AbstractPredicate) -> set[AbstractPredic
         raise ValueError(f"Unknown predicate type: {predicate}")
 
 
+def _physical_table(table: TableReference) -> TableReference:
+    """Provides the table that is referenced by a (potentially) aliased reference. Virtual tables are their own reference."""
+    return table if table.virtual else table.drop_alias()
+
+
 class QueryPredicates:
     """The query predicates provide high-level access to all the different predicates in a query.
 
@@ -4466,7 +4471,7 @@ class QueryPredicates:
 
         table2alias = collections.defaultdict(set)
         for tab in self._root.tables():
-            table2alias[tab.drop_alias()].add(tab)
+            table2alias[_physical_table(tab)].add(tab)
 
         table2preds = {
             tab: {alias: self.filters_for(alias) for alias in aliased}
@@ -4485,7 +4490,7 @@ class QueryPredicates:
 
         tab2join = collections.defaultdict(dict)
         for partners, joins in col2joins.items():
-            tabs = frozenset([col.table.drop_alias() for col in partners])
+            tabs = frozenset([_physical_table(col.table) for col in partners])
             tab2join[tabs][partners] = CompoundPredicate.create_and(joins)
 
         for tabs, joins in tab2join.items():
-- 
2.43.0


From a290ab478b832267af6a311fbe159f7a6e5beb90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:57 +0000
Subject: [PATCH 054/181] fix: tables of subqueries in join conditions are part
 of the query tables (C05)

---
 postbound/qal/_qal.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 5c92116..35a6d22 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -6877,7 +6877,10 @@ class JoinTableSource(TableSource):
                 raise TypeError("Unknown table source type: " + str(type(self._left)))
 
     def tables(self) -> set[TableReference]:
-        return self._left.tables() | self._right.tables()
+        condition_tables = (
+            self._join_condition.tables() if self._join_condition else set()
+        )
+        return self._left.tables() | self._right.tables() | condition_tables
 
     def columns(self) -> set[ColumnReference]:
         condition_columns = (
-- 
2.43.0


From 066d5167223d2cfe7ba97e941132c5ceff3a5a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:29 +0000
Subject: [PATCH 055/181] fix: compound checks apply the database checks of all
 members and report all failures (C15)

---
 postbound/validation.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/postbound/validation.py b/postbound/validation.py
index 5e62baa..3272538 100644
--- a/postbound/validation.py
+++ b/postbound/validation.py
@@ -98,17 +98,20 @@ class PreCheckResult:
         PreCheckResult
             The merged check result
         """
+        all_passed = True
         failures: list[str] = []
         for check in checks:
             if check.passed:
                 continue
+            all_passed = False
             failures.extend(util.enlist(check.failure_reason))
         return (
             PreCheckResult.with_all_passed()
-            if not failures
+            if all_passed
             else PreCheckResult.with_failure(failures)
         )
 
+    @staticmethod
     def with_failure(failure: str | list[str]) -> PreCheckResult:
         """Generates a check result for a specific failure.
 
@@ -338,14 +341,17 @@ class CompoundCheck(OptimizationPreCheck):
         ]
 
     def check_supported_query(self, query: SqlQuery) -> PreCheckResult:
-        check_results = [check.check_supported_query(query) for check in self.checks]
-        aggregated_passed = all(check_result.passed for check_result in check_results)
-        aggregated_failures = (
-            util.flatten(check_result.failure_reason for check_result in check_results)
-            if not aggregated_passed
-            else []
+        return PreCheckResult.merge(
+            check.check_supported_query(query) for check in self.checks
+        )
+
+    def check_supported_database_system(
+        self, database_instance: Database
+    ) -> PreCheckResult:
+        return PreCheckResult.merge(
+            check.check_supported_database_system(database_instance)
+            for check in self.checks
         )
-        return PreCheckResult(aggregated_passed, aggregated_failures)
 
     def describe(self) -> dict:
         return {"multiple_checks": [check.describe() for check in self.checks]}
-- 
2.43.0


From f56fa974d26f2ea4ac0e56afff8af51371238976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:29 +0000
Subject: [PATCH 056/181] fix: merging checks does not lose members, custom
 checks can be created (C15)

---
 postbound/validation.py | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/postbound/validation.py b/postbound/validation.py
index 3272538..8505c8f 100644
--- a/postbound/validation.py
+++ b/postbound/validation.py
@@ -9,6 +9,7 @@ The `OptimizationPreCheck` defines the abstract interface that all checks should
 from __future__ import annotations
 
 import abc
+import enum
 from collections.abc import Callable, Iterable
 from dataclasses import dataclass
 from typing import Optional
@@ -394,10 +395,8 @@ def merge_checks(
     OptimizationPreCheck
         A check that combines all of the given checks.
     """
-    if not checks:
-        return EmptyPreCheck()
     all_checks = (
-        {checks} if isinstance(checks, OptimizationPreCheck) else set(checks)
+        {checks} if isinstance(checks, OptimizationPreCheck) else set(checks or ())
     ) | set(more_checks)
     all_checks = {check for check in all_checks if check}
     compound_checks = [
@@ -682,13 +681,13 @@ class SupportedHintCheck(OptimizationPreCheck):
         self, hints: HintType | PhysicalOperator | Iterable[HintType | PhysicalOperator]
     ) -> None:
         super().__init__("database-check")
-        self._features = util.enlist(hints)
+        self._features = [hints] if isinstance(hints, enum.Enum) else list(hints)
 
     def check_supported_database_system(
         self, database_instance: Database
     ) -> PreCheckResult:
         failures = [
-            hint
+            str(hint)
             for hint in self._features
             if not database_instance.hinting().supports_hint(hint)
         ]
@@ -698,6 +697,14 @@ class SupportedHintCheck(OptimizationPreCheck):
     def describe(self) -> dict:
         return {"name": "database_operator_support", "features": self._features}
 
+    def __hash__(self) -> int:
+        return hash((self.name, frozenset(self._features)))
+
+    def __eq__(self, other: object) -> bool:
+        return isinstance(other, type(self)) and set(self._features) == set(
+            other._features
+        )
+
 
 class CustomCheck(OptimizationPreCheck):
     """Check to quickly implement arbitrary one-off checks.
@@ -738,3 +745,17 @@ class CustomCheck(OptimizationPreCheck):
         if self._db_check is None:
             return PreCheckResult.with_all_passed()
         return self._db_check(database_instance)
+
+    def describe(self) -> dict:
+        return {"name": self.name}
+
+    def __hash__(self) -> int:
+        return hash((self.name, self._query_check, self._db_check))
+
+    def __eq__(self, other: object) -> bool:
+        return (
+            isinstance(other, type(self))
+            and self.name == other.name
+            and self._query_check == other._query_check
+            and self._db_check == other._db_check
+        )
-- 
2.43.0


From 9f67b0f603dbd3b4d2f7929416994f0c5e561b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:00 +0000
Subject: [PATCH 057/181] fix: query checks examine explicit joins, set
 operations and nested queries (C15)

---
 postbound/validation.py | 91 +++++++++++++++++++++--------------------
 1 file changed, 47 insertions(+), 44 deletions(-)

diff --git a/postbound/validation.py b/postbound/validation.py
index 8505c8f..a670b1d 100644
--- a/postbound/validation.py
+++ b/postbound/validation.py
@@ -14,8 +14,6 @@ from collections.abc import Callable, Iterable
 from dataclasses import dataclass
 from typing import Optional
 
-import networkx as nx
-
 from . import util
 from ._core import PhysicalOperator
 from ._hints import HintType
@@ -27,17 +25,14 @@ from .qal import (
     ColumnExpression,
     CompoundOperator,
     CompoundPredicate,
-    DirectTableSource,
-    ExplicitFromClause,
-    From,
-    ImplicitFromClause,
     ImplicitSqlQuery,
     JoinTableSource,
+    JoinType,
     LogicalOperator,
+    SelectStatement,
+    SetQuery,
     SqlQuery,
-    SubqueryTableSource,
     TableSource,
-    ValuesTableSource,
 )
 
 ImplicitFromClauseFailure = "NO_IMPLICIT_FROM_CLAUSE"
@@ -153,7 +148,7 @@ class PreCheckResult:
             return
         if context is None:
             raise util.StateError(f"Pre check failed {self._generate_failure_str()}")
-        elif isinstance(context, SqlQuery):
+        elif isinstance(context, (SqlQuery, SetQuery)):
             raise UnsupportedQueryError(context, self.failure_reason)
         elif isinstance(context, Database):
             raise UnsupportedSystemError(context, self.failure_reason)
@@ -421,6 +416,16 @@ def merge_checks(
     )
 
 
+def _collect_queries(query: SelectStatement) -> list[SelectStatement]:
+    """Provides the given query, along with all queries that are nested in it (including set operations and CTEs)."""
+    children: list[SelectStatement] = list(query.subqueries())
+    if query.is_set_query():
+        children.extend((query.left_query, query.right_query))
+    if query.cte_clause:
+        children.extend(cte.query for cte in query.cte_clause.queries)
+    return [query] + util.flatten(_collect_queries(child) for child in children)
+
+
 class ImplicitQueryPreCheck(OptimizationPreCheck):
     """Check to assert that an input query is a `ImplicitSqlQuery`."""
 
@@ -443,7 +448,7 @@ class CrossProductPreCheck(OptimizationPreCheck):
         super().__init__("no-cross-products")
 
     def check_supported_query(self, query: SqlQuery) -> PreCheckResult:
-        no_cross_products = nx.is_connected(query.predicates().join_graph())
+        no_cross_products = not query.contains_cross_product()
         failure_reason = "" if no_cross_products else CrossProductFailure
         return PreCheckResult(no_cross_products, failure_reason)
 
@@ -480,6 +485,11 @@ class EquiJoinPreCheck(OptimizationPreCheck):
         self._allow_nesting = allow_nesting
 
     def check_supported_query(self, query: SqlQuery) -> PreCheckResult:
+        if query.is_set_query():
+            return PreCheckResult.merge(
+                self.check_supported_query(child)
+                for child in (query.left_query, query.right_query)
+            )
         join_predicates = query.predicates().joins()
         all_passed = all(
             self._perform_predicate_check(join_pred) for join_pred in join_predicates
@@ -578,42 +588,31 @@ class InnerJoinPreCheck(OptimizationPreCheck):
         super().__init__("inner-joins-only")
 
     def check_supported_query(self, query: SqlQuery) -> PreCheckResult:
-        if not query.from_clause:
-            return PreCheckResult.with_all_passed()
-
-        match query.from_clause:
-            case ImplicitFromClause():
-                return PreCheckResult.with_all_passed()
-            case ExplicitFromClause(join):
-                return self._check_table_source(join)
-            case From(items):
-                checks = [self._check_table_source(entry) for entry in items]
-                return PreCheckResult.merge(checks)
-            case _:
-                raise ValueError(f"Unknown FROM clause type: {query.from_clause}")
+        from_items = [
+            item
+            for nested_query in _collect_queries(query)
+            if not nested_query.is_set_query() and nested_query.from_clause
+            for item in nested_query.from_clause.items
+        ]
+        only_inner_joins = all(self._check_table_source(item) for item in from_items)
+        return (
+            PreCheckResult.with_all_passed()
+            if only_inner_joins
+            else PreCheckResult.with_failure(InnerJoinFailure)
+        )
 
     def describe(self) -> dict:
         return {"name": "inner_joins_only"}
 
-    def _check_table_source(self, source: TableSource) -> PreCheckResult:
+    def _check_table_source(self, source: TableSource) -> bool:
         """Handler method to check a single table source."""
-        match source:
-            case DirectTableSource() | ValuesTableSource():
-                return PreCheckResult.with_all_passed()
-            case SubqueryTableSource(subquery):
-                return self.check_supported_query(subquery)
-            case JoinTableSource(left, right, _, join_type):
-                checks = (
-                    [PreCheckResult.with_failure(InnerJoinFailure)]
-                    if join_type != "INNER"
-                    else []
-                )
-                checks.extend(
-                    [self._check_table_source(left), self._check_table_source(right)]
-                )
-                return PreCheckResult.merge(checks)
-            case _:
-                raise ValueError(f"Unknown table source type: {source}")
+        if not isinstance(source, JoinTableSource):
+            return True
+        return (
+            source.join_type == JoinType.InnerJoin
+            and self._check_table_source(source.left)
+            and self._check_table_source(source.right)
+        )
 
 
 class SubqueryPreCheck(OptimizationPreCheck):
@@ -625,7 +624,7 @@ class SubqueryPreCheck(OptimizationPreCheck):
     def check_supported_query(self, query: SqlQuery) -> PreCheckResult:
         return (
             PreCheckResult.with_all_passed()
-            if not query.subqueries()
+            if not any(nested.subqueries() for nested in _collect_queries(query))
             else PreCheckResult.with_failure(SubqueryFailure)
         )
 
@@ -640,7 +639,11 @@ class DependentSubqueryPreCheck(OptimizationPreCheck):
         super().__init__("no-dependent-subquery")
 
     def check_supported_query(self, query: SqlQuery) -> PreCheckResult:
-        passed = not any(subquery.is_dependent() for subquery in query.subqueries())
+        passed = not any(
+            subquery.is_dependent()
+            for nested_query in _collect_queries(query)
+            for subquery in nested_query.subqueries()
+        )
         failure_reason = "" if passed else DependentSubqueryFailure
         return PreCheckResult(passed, failure_reason)
 
@@ -655,7 +658,7 @@ class SetOperationsPreCheck(OptimizationPreCheck):
         super().__init__("no-set-operations")
 
     def check_supported_query(self, query: SqlQuery) -> PreCheckResult:
-        passed = not query.is_set_query()
+        passed = not any(nested.is_set_query() for nested in _collect_queries(query))
         failure_reason = "" if passed else "SET_OPERATION"
         return PreCheckResult(passed, failure_reason)
 
-- 
2.43.0


From a64bd206b58cf7d9f2b70aa8eb7082068c9b5b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:52 +0000
Subject: [PATCH 058/181] fix: selecting a new integrated algorithm requires a
 rebuild (C14)

---
 postbound/_pipelines.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/postbound/_pipelines.py b/postbound/_pipelines.py
index 4f7511b..35149cc 100644
--- a/postbound/_pipelines.py
+++ b/postbound/_pipelines.py
@@ -390,6 +390,7 @@ class IntegratedOptimizationPipeline(OptimizationPipeline):
             The current pipeline to allow for easy method-chaining.
         """
         self._optimization_algorithm = algorithm
+        self._build = False
         return self
 
     def use(self, algorithm: CompleteOptimizationAlgorithm) -> Self:
-- 
2.43.0


From 752fa40b8c33b5f34fdd92be62224ee21c3c8dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:52 +0000
Subject: [PATCH 059/181] fix: integrated pipeline reports unsupported queries
 and systems as documented (C14)

---
 postbound/_pipelines.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postbound/_pipelines.py b/postbound/_pipelines.py
index 35149cc..3522c80 100644
--- a/postbound/_pipelines.py
+++ b/postbound/_pipelines.py
@@ -428,7 +428,7 @@ class IntegratedOptimizationPipeline(OptimizationPipeline):
         if pre_check is not None:
             pre_check.check_supported_database_system(
                 self._target_db
-            ).ensure_all_passed()
+            ).ensure_all_passed(self._target_db)
         self._build = True
         return self
 
@@ -441,7 +441,7 @@ class IntegratedOptimizationPipeline(OptimizationPipeline):
         assert self.optimization_algorithm is not None
         pre_check = self.optimization_algorithm.pre_check()
         if pre_check is not None:
-            pre_check.check_supported_query(query).ensure_all_passed()
+            pre_check.check_supported_query(query).ensure_all_passed(query)
 
         physical_qep = self.optimization_algorithm.optimize_query(query)
         return physical_qep
-- 
2.43.0


From 54ed9a3af63c366edc2c29b06ace7c010bcb9272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:52 +0000
Subject: [PATCH 060/181] fix: rebuilding a multi-stage pipeline drops the
 checks of replaced stages (C14)

---
 postbound/_pipelines.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/postbound/_pipelines.py b/postbound/_pipelines.py
index 3522c80..7b123fe 100644
--- a/postbound/_pipelines.py
+++ b/postbound/_pipelines.py
@@ -722,6 +722,7 @@ class MultiStageOptimizationPipeline(OptimizationPipeline):
     def __init__(self, target_db: Database) -> None:
         self._target_db = target_db
         self._pre_check: OptimizationPreCheck | None = EmptyPreCheck()
+        self._support_check: OptimizationPreCheck = EmptyPreCheck()
         self._join_order_enumerator: JoinOrderOptimization | None = None
         self._physical_operator_selection: PhysicalOperatorSelection | None = None
         self._plan_parameterization: ParameterGeneration | None = None
@@ -957,9 +958,9 @@ class MultiStageOptimizationPipeline(OptimizationPipeline):
         if self.plan_parameterization is not None:
             all_checks.append(self.plan_parameterization.pre_check())
 
-        self._pre_check = merge_checks(all_checks)
+        self._support_check = merge_checks(all_checks)
 
-        db_check_result = self._pre_check.check_supported_database_system(
+        db_check_result = self._support_check.check_supported_database_system(
             self._target_db
         )
         if not db_check_result.passed:
@@ -982,8 +983,7 @@ class MultiStageOptimizationPipeline(OptimizationPipeline):
 
     def optimize_query(self, query: SqlQuery) -> SqlQuery:
         self._assert_is_build()
-        assert self._pre_check is not None
-        supported_query_check = self._pre_check.check_supported_query(query)
+        supported_query_check = self._support_check.check_supported_query(query)
         if not supported_query_check.passed:
             raise UnsupportedQueryError(query, supported_query_check.failure_reason)
 
-- 
2.43.0


From 41bce1b6264f84c3afb535fd0f5e8ec9fa185d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:07 +0000
Subject: [PATCH 061/181] fix: cardinality estimators are cleaned up if the
 plan parameterization fails (C14)

---
 postbound/_pipelines.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/postbound/_pipelines.py b/postbound/_pipelines.py
index 7b123fe..57f87a2 100644
--- a/postbound/_pipelines.py
+++ b/postbound/_pipelines.py
@@ -1008,11 +1008,13 @@ class MultiStageOptimizationPipeline(OptimizationPipeline):
             # To support this, we manually call these methods to prevent weird errors on the user side.
             if isinstance(self._plan_parameterization, CardinalityEstimator):
                 self._plan_parameterization.initialize(self._target_db, query)
-            plan_parameters = self._plan_parameterization.generate_plan_parameters(
-                query, join_order, physical_operators
-            )
-            if isinstance(self._plan_parameterization, CardinalityEstimator):
-                self._plan_parameterization.cleanup()
+            try:
+                plan_parameters = self._plan_parameterization.generate_plan_parameters(
+                    query, join_order, physical_operators
+                )
+            finally:
+                if isinstance(self._plan_parameterization, CardinalityEstimator):
+                    self._plan_parameterization.cleanup()
 
         return self._target_db.hinting().generate_hints(
             query,
-- 
2.43.0


From 693dbf9af1593e164da711b6d0d960767e2de404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:07 +0000
Subject: [PATCH 062/181] fix: as_complete_algorithm initializes cardinality
 estimators (C14)

---
 postbound/_stages.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/postbound/_stages.py b/postbound/_stages.py
index 8dce952..d99417a 100644
--- a/postbound/_stages.py
+++ b/postbound/_stages.py
@@ -1027,11 +1027,7 @@ class _CompleteAlgorithmEmulator(CompleteOptimizationAlgorithm):
             if self._operator_selection is not None
             else None
         )
-        plan_params = (
-            self._plan_parameterization.generate_plan_parameters(query, None, None)
-            if self._plan_parameterization is not None
-            else None
-        )
+        plan_params = self._parameterize_plan(query)
         hinted_query = self.database.hinting().generate_hints(
             query,
             join_order=join_order,
@@ -1040,6 +1036,24 @@ class _CompleteAlgorithmEmulator(CompleteOptimizationAlgorithm):
         )
         return self.database.optimizer().query_plan(hinted_query)
 
+    def _parameterize_plan(self, query: SqlQuery) -> Optional[PlanParameterization]:
+        if self._plan_parameterization is None:
+            return None
+
+        if not isinstance(self._plan_parameterization, CardinalityEstimator):
+            return self._plan_parameterization.generate_plan_parameters(
+                query, None, None
+            )
+
+        # cardinality estimators require additional setup (see MultiStageOptimizationPipeline)
+        self._plan_parameterization.initialize(self.database, query)
+        try:
+            return self._plan_parameterization.generate_plan_parameters(
+                query, None, None
+            )
+        finally:
+            self._plan_parameterization.cleanup()
+
     def describe(self) -> jsondict:
         return self.stage().describe()
 
-- 
2.43.0


From 3dabf9ac067c98feb347797fc688363be891aed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:29 +0000
Subject: [PATCH 063/181] fix: training data frames use feature names instead
 of raw column names (C16)

---
 postbound/train/_train.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/train/_train.py b/postbound/train/_train.py
index 6b57d53..e3a51b1 100644
--- a/postbound/train/_train.py
+++ b/postbound/train/_train.py
@@ -409,7 +409,7 @@ class TrainingData:
         Columns of the data frame are automatically aligned with the features of the given spec. If no spec is given, the
         columns of the data frame are the original columns, but renamed according to the feature map.
         """
-        renamings = {target: col for target, col in self._feature_map.items()}
+        renamings = {col: feature for feature, col in self._feature_map.items()}
 
         if requested_spec is None:
             return self._samples.rename(columns=renamings)
-- 
2.43.0


From 622172a641fcb8fde3fa97a0151100629d4426e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:29 +0000
Subject: [PATCH 064/181] fix: conforming training data keeps exactly the
 requested features in the requested order (C16)

---
 postbound/train/_train.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/postbound/train/_train.py b/postbound/train/_train.py
index e3a51b1..aba64b5 100644
--- a/postbound/train/_train.py
+++ b/postbound/train/_train.py
@@ -395,12 +395,11 @@ class TrainingData:
         if not self._spec.satisfies(spec):
             raise ValueError("Requested spec is not compatible with the training data")
         reduced_spec: dict[TrainingFeature, str] = {
-            feature: col
-            for feature, col in self._feature_map.items()
-            if spec.requires(feature)
+            feature: self._feature_map[feature] for feature in spec.features
         }
+        columns = list(dict.fromkeys(reduced_spec.values()))
         return TrainingData(
-            self._samples, source=self._source, feature_map=reduced_spec
+            self._samples[columns], source=self._source, feature_map=reduced_spec
         )
 
     def as_df(self, requested_spec: Optional[TrainingSpec] = None) -> pd.DataFrame:
-- 
2.43.0


From 0e1b144e3cc605404b6dc83aa80dbbdf6683fc3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:29 +0000
Subject: [PATCH 065/181] fix: merging training data aligns renamed columns and
 only requires the requested features (C16)

---
 postbound/train/_train.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/postbound/train/_train.py b/postbound/train/_train.py
index aba64b5..a0b07d9 100644
--- a/postbound/train/_train.py
+++ b/postbound/train/_train.py
@@ -302,11 +302,10 @@ class TrainingData:
         will contain the features required by the spec and nothing more.
         If any of the input datasets does not satisfy the spec, an error is raised.
         """
-        datasets = list(datasets)
-        merged, *rest = datasets
+        merged, *rest = [ds.conform_to(according_to) for ds in datasets]
         for ds in rest:
             merged = merged.merge_with(ds)
-        return merged.conform_to(according_to)
+        return merged
 
     def __init__(
         self,
@@ -435,9 +434,11 @@ class TrainingData:
                 f"the other dataset is missing the following features: {violations.missing_features}"
             )
 
-        other_samples = other.as_df(self._spec)
-        merged_samples = pd.concat([self._samples, other_samples])
-        return TrainingData(merged_samples, source=None, feature_map=self._feature_map)
+        merged_samples = pd.concat(
+            [self.as_df(self._spec), other.as_df(self._spec)], ignore_index=True
+        )
+        feature_map = {feature: feature for feature in self._spec.features}
+        return TrainingData(merged_samples, source=None, feature_map=feature_map)
 
     def __len__(self) -> int:
         return len(self._samples)
-- 
2.43.0


From 05cc6679d10fd3f1fb2872b9b9fb08f7a0f56644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:29 +0000
Subject: [PATCH 066/181] fix: all retrieved training datasets use exactly the
 requested spec (C16)

---
 postbound/train/_train.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/train/_train.py b/postbound/train/_train.py
index a0b07d9..1f4f39d 100644
--- a/postbound/train/_train.py
+++ b/postbound/train/_train.py
@@ -487,7 +487,7 @@ class TrainingDataRepository:
 
     def retrieve_all(self, spec: TrainingSpec) -> Sequence[TrainingData]:
         """Provides all datasets in the repository that satisfy the given spec."""
-        return [ds for ds in self._datasets if ds.satisfies(spec)]
+        return [ds.conform_to(spec) for ds in self._datasets if ds.satisfies(spec)]
 
     def retrieve_merged(self, spec: TrainingSpec) -> Optional[TrainingData]:
         """Provides all datasets in the repository that satisfy the given spec.
-- 
2.43.0


From e755354e0ba31684ae6562d58e54e4729e448dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:29 +0000
Subject: [PATCH 067/181] fix: loading training data does not modify the input
 data frame (C16)

---
 postbound/train/_train.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/train/_train.py b/postbound/train/_train.py
index 1f4f39d..266242e 100644
--- a/postbound/train/_train.py
+++ b/postbound/train/_train.py
@@ -288,7 +288,7 @@ class TrainingData:
         feature_map: dict[TrainingFeature, str] = {feat: feat for feat in df.columns}
         query_col = feature_map.get("query")
         if query_col:
-            df[query_col] = df[query_col].map(parse_query)
+            df = df.assign(**{query_col: df[query_col].map(parse_query)})
 
         return TrainingData(df, source=source, feature_map=feature_map)
 
-- 
2.43.0


From a6d87af430f19475f57ed467ac4729ade89cd84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:29 +0000
Subject: [PATCH 068/181] fix: different training datasets are not equal to
 each other (C16)

---
 postbound/train/_train.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/postbound/train/_train.py b/postbound/train/_train.py
index 266242e..933e7d3 100644
--- a/postbound/train/_train.py
+++ b/postbound/train/_train.py
@@ -1,7 +1,6 @@
 from __future__ import annotations
 
 from collections.abc import Iterable, Mapping, Sequence
-from dataclasses import dataclass
 from pathlib import Path
 from typing import Literal, Optional, Self
 
@@ -213,7 +212,6 @@ class SpecViolations:
         return f"SpecViolations(missing_features={missing})"
 
 
-@dataclass
 class TrainingData:
     """Represents a dataset of training samples, along with metadata about the features it provides.
 
-- 
2.43.0


From e9f86153d61d95f12ec28d7fcfb06d81409bc5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:29 +0000
Subject: [PATCH 069/181] fix: stages are only trained on samples that provide
 their required features (C16)

---
 postbound/_pipelines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/_pipelines.py b/postbound/_pipelines.py
index 57f87a2..90a1f2f 100644
--- a/postbound/_pipelines.py
+++ b/postbound/_pipelines.py
@@ -247,7 +247,7 @@ class OptimizationPipeline(abc.ABC):
             if isinstance(samples, TrainingDataRepository):
                 current_sample = samples.retrieve_merged(stage.sample_spec())
             else:
-                current_sample = samples
+                current_sample = samples.conform_to(stage.sample_spec())
 
             if current_sample is None:
                 raise ValueError(
-- 
2.43.0


From 396865d8670f7d3f21a2a5b1aef26247fb011cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:49 +0000
Subject: [PATCH 070/181] fix: features that share a raw column are all part of
 the training data frame (C16)

---
 postbound/train/_train.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/train/_train.py b/postbound/train/_train.py
index 933e7d3..e322a57 100644
--- a/postbound/train/_train.py
+++ b/postbound/train/_train.py
@@ -414,7 +414,7 @@ class TrainingData:
             raise ValueError("Requested spec is not compatible with the training data")
 
         columns = [self._feature_map[feature] for feature in requested_spec.features]
-        return self._samples[columns].rename(columns=renamings, errors="ignore")
+        return self._samples[columns].set_axis(requested_spec.features, axis="columns")
 
     def merge_with(
         self,
-- 
2.43.0


From d8775295768a873f1e3950f511fdeed601a78f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:49 +0000
Subject: [PATCH 071/181] fix: stages wrapped by as_complete_algorithm are
 trained (C16)

---
 postbound/_stages.py | 40 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/postbound/_stages.py b/postbound/_stages.py
index d99417a..cd75d6d 100644
--- a/postbound/_stages.py
+++ b/postbound/_stages.py
@@ -1036,6 +1036,46 @@ class _CompleteAlgorithmEmulator(CompleteOptimizationAlgorithm):
         )
         return self.database.optimizer().query_plan(hinted_query)
 
+    # The emulator itself does not learn anything, all training has to reach the actual stage.
+
+    def requires_data_training(self) -> bool:
+        return self.stage().requires_data_training()
+
+    def fit_database(self, database: Database) -> TrainingMetrics:
+        return self.stage().fit_database(database)
+
+    def database_fit_completed(self) -> bool:
+        return self.stage().database_fit_completed()
+
+    def requires_workload_training(self) -> bool:
+        return self.stage().requires_workload_training()
+
+    def fit_workload(self, queries: Workload, database: Database) -> TrainingMetrics:
+        return self.stage().fit_workload(queries, database)
+
+    def workload_fit_completed(self) -> bool:
+        return self.stage().workload_fit_completed()
+
+    def requires_sample_training(self) -> bool:
+        return self.stage().requires_sample_training()
+
+    def fit_samples(self, samples: TrainingData) -> TrainingMetrics:
+        return self.stage().fit_samples(samples)
+
+    def sample_spec(self) -> TrainingSpec:
+        return self.stage().sample_spec()
+
+    def sample_fit_completed(self) -> bool:
+        return self.stage().sample_fit_completed()
+
+    def uses_online_feedback(self) -> bool:
+        return self.stage().uses_online_feedback()
+
+    def learn_from_feedback(
+        self, query: SqlQuery, result_set: ResultSet, *, exec_time: TimeMs
+    ) -> TrainingMetrics:
+        return self.stage().learn_from_feedback(query, result_set, exec_time=exec_time)
+
     def _parameterize_plan(self, query: SqlQuery) -> Optional[PlanParameterization]:
         if self._plan_parameterization is None:
             return None
-- 
2.43.0


From ff92abde5fe9e7b37914fde534e20d70f40b8302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:15 +0000
Subject: [PATCH 072/181] fix: online learners receive feedback for successful
 executions only (C16)

---
 postbound/bench.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/bench.py b/postbound/bench.py
index 6e9eba7..47b5286 100644
--- a/postbound/bench.py
+++ b/postbound/bench.py
@@ -786,7 +786,7 @@ class _ResultSample:
     def to_execution_results(self) -> list[ExecutionResult]:
         results: list[ExecutionResult] = []
         for i, status in enumerate(self.status):
-            if status in ["optimization-error", "execution-error"]:
+            if status != "ok":
                 continue
 
             sample = ExecutionResult(
-- 
2.43.0


From 26e49d345792d65373055496626fabc466248ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:16 +0000
Subject: [PATCH 073/181] fix: ignored execution failures leave no trace in the
 benchmark results (C19)

---
 postbound/bench.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/postbound/bench.py b/postbound/bench.py
index 47b5286..6e3678a 100644
--- a/postbound/bench.py
+++ b/postbound/bench.py
@@ -693,6 +693,10 @@ class _ResultSample:
     def start_execution(self) -> None:
         self.timestamps.append(datetime.now())
 
+    def discard_execution(self) -> None:
+        """Drops the execution that was started last."""
+        self.timestamps.pop()
+
     def add_exec_sample(
         self, result_set: ResultSet, *, exec_time: float, db_config: util.jsondict
     ) -> None:
@@ -944,7 +948,8 @@ def _exec_ctl_loop(
         case _FailedExecution(err) if cfg.error_action == "raise":
             raise err
         case _FailedExecution(_) if cfg.error_action == "ignore":
-            pass
+            sample.discard_execution()
+            return
         case _FailedExecution(_):
             raise ValueError(f"Unknown error action: {cfg.error_action}")
         case _ as other:
-- 
2.43.0


From a47376a27cdd2f4431ef2d7022e30e278bd1182e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:16 +0000
Subject: [PATCH 074/181] fix: progressive output contains all logged failures
 (C19)

---
 postbound/bench.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/postbound/bench.py b/postbound/bench.py
index 6e3678a..d5c096b 100644
--- a/postbound/bench.py
+++ b/postbound/bench.py
@@ -803,11 +803,13 @@ class _ResultSample:
             results.append(sample)
         return results
 
-    def write_progressive(self, file: Path | None, output_args: dict) -> None:
+    def write_progressive(
+        self, file: Path | None, output_args: dict, *, only_last: bool = True
+    ) -> None:
         if file is None:
             return
 
-        df = self.to_df(only_last=True)
+        df = self.to_df(only_last=only_last)
         df = prepare_export(df)
 
         match file.suffix:
@@ -955,7 +957,7 @@ def _exec_ctl_loop(
         case _ as other:
             raise RuntimeError(f"Unhandled execution result: {other}")
 
-    if cfg.output and sample.last_successful():
+    if cfg.output:
         sample.write_progressive(cfg.output, cfg.output_args)
 
     if cfg.exec_callback and sample.last_successful():
@@ -989,7 +991,9 @@ def _workload_ctl_loop(
         if sample.failed_optimization():
             match cfg.error_action:
                 case "log" if cfg.output:
-                    sample.write_progressive(cfg.output, cfg.output_args)
+                    sample.write_progressive(
+                        cfg.output, cfg.output_args, only_last=False
+                    )
                 case "log" if not cfg.output:
                     # we handle the output to CSV as part of the normal result export, no need to do anything here
                     pass
-- 
2.43.0


From 6587ef99871d92e40bb7da65edd31e43fc19efc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:16 +0000
Subject: [PATCH 075/181] fix: ignored optimization failures do not skew the
 execution index (C19)

---
 postbound/bench.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/postbound/bench.py b/postbound/bench.py
index d5c096b..2617a5f 100644
--- a/postbound/bench.py
+++ b/postbound/bench.py
@@ -887,7 +887,6 @@ class _ExecutionResults:
         self.query_reps = query_reps
         self.query_prep = query_prep
 
-        self._execution_counter = 1
         self._workload_rep = 0
         self._samples: list[_ResultSample] = []
 
@@ -895,14 +894,12 @@ class _ExecutionResults:
         self._workload_rep += 1
 
     def next_query(self, query: SqlQuery, *, label: str) -> _ResultSample:
-        if self._samples:
-            last_sample = self._samples[-1]
-            self._execution_counter += last_sample.num_executions()
+        num_executions = sum(sample.num_executions() for sample in self._samples)
 
         sample = _ResultSample(
             query=query,
             label=label,
-            initial_exec_idx=self._execution_counter,
+            initial_exec_idx=num_executions + 1,
             current_workload_rep=self._workload_rep,
             query_prep=self.query_prep,
             max_query_reps=self.query_reps,
-- 
2.43.0


From e78ee9f7c2b6ab08d2470f836a9154db84f30efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:16 +0000
Subject: [PATCH 076/181] fix: benchmarks without any results do not fail (C19)

---
 postbound/bench.py | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/postbound/bench.py b/postbound/bench.py
index 2617a5f..1f5d96f 100644
--- a/postbound/bench.py
+++ b/postbound/bench.py
@@ -627,6 +627,25 @@ class _TqdmLogger:
 _LoggerImpl = _NoOpLogger | _CustomLogger | _TqdmLogger
 
 
+_RESULT_COLUMNS = [
+    "exec_index",
+    "label",
+    "timestamp",
+    "workload_repetition",
+    "query_repetition",
+    "query",
+    "status",
+    "query_result",
+    "exec_time",
+    "failure_reason",
+    "db_config",
+    "query_preparation",
+    "optimization_time",
+    "optimization_pipeline",
+    "optimized_query",
+]
+
+
 class _ResultSample:
     """A result sample corresponds to all executions of a single query within one workload repetition.
 
@@ -915,7 +934,9 @@ class _ExecutionResults:
 
     def to_df(self) -> pd.DataFrame:
         """Provides all results as a single data frame. This is the final output of the benchmarking process."""
-        samples = [sample.to_df() for sample in self._samples]
+        samples = [sample.to_df() for sample in self._samples if len(sample)]
+        if not samples:
+            return pd.DataFrame(columns=_RESULT_COLUMNS)
         return pd.concat(samples, ignore_index=True)
 
 
-- 
2.43.0


From 2e69a6ab223255171f4e15f92fafb9c4c50edcfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:45 +0000
Subject: [PATCH 077/181] fix: failed queries have no benchmark result (C19)

---
 postbound/bench.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/postbound/bench.py b/postbound/bench.py
index 1f5d96f..0747b1b 100644
--- a/postbound/bench.py
+++ b/postbound/bench.py
@@ -627,6 +627,11 @@ class _TqdmLogger:
 _LoggerImpl = _NoOpLogger | _CustomLogger | _TqdmLogger
 
 
+def _export_result(result_set: ResultSet | None) -> Any:
+    """Simplifies the result set of a query, queries without a result (e.g. due to errors) have *None* as their result."""
+    return None if result_set is None else simplify_result_set(result_set)
+
+
 _RESULT_COLUMNS = [
     "exec_index",
     "label",
@@ -752,7 +757,7 @@ class _ResultSample:
         if self._optimization_failure or not self.result_sets:
             return None
 
-        result_set = simplify_result_set(self.result_sets[-1])
+        result_set = _export_result(self.result_sets[-1])
         return ExecutionResult(
             query=self.query,
             status=self.status[-1],
@@ -767,7 +772,7 @@ class _ResultSample:
             return pd.DataFrame()
 
         if only_last:
-            result_set = simplify_result_set(self.result_sets[-1])
+            result_set = _export_result(self.result_sets[-1])
             rows = {
                 "exec_index": [self._initial_idx + n_samples - 1],
                 "label": [self.label],
@@ -794,7 +799,7 @@ class _ResultSample:
                 "query_repetition": [i + 1 for i in range(n_samples)],
                 "query": [self.query] * n_samples,
                 "status": self.status,
-                "query_result": [simplify_result_set(rs) for rs in self.result_sets],
+                "query_result": [_export_result(rs) for rs in self.result_sets],
                 "exec_time": self.exec_times,
                 "failure_reason": self.failure_reasons,
                 "db_config": self.db_configs,
-- 
2.43.0


From 69b145e52567dadc5e1ebb98bce67e7a9f650885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:45 +0000
Subject: [PATCH 078/181] fix: benchmark callbacks and online learners receive
 the query that was executed, failing preparations are handled like failing
 executions (C19)

---
 postbound/bench.py | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/postbound/bench.py b/postbound/bench.py
index 0747b1b..8b722c4 100644
--- a/postbound/bench.py
+++ b/postbound/bench.py
@@ -512,11 +512,13 @@ def _optimize_query(
 class _SuccessfullExecution:
     query_result: Any
     exec_time: float
+    query: SqlQuery
 
 
 @dataclass
 class _TimeoutExecution:
     timeout: float
+    query: SqlQuery
 
 
 @dataclass
@@ -542,16 +544,16 @@ def _execute_query(
     if timeout and not isinstance(on, TimeoutSupport):
         raise ValueError(f"Database system {on} does not provide timeout support")
 
-    if query_prep:
-        query = query_prep.prepare_query(query, on=on)
-
     try:
+        if query_prep:
+            query = query_prep.prepare_query(query, on=on)
+
         if timeout:
             exec_start = time.perf_counter_ns()
             result_set = on.execute_with_timeout(query, timeout=timeout)  # type: ignore[arg-type]
             exec_end = time.perf_counter_ns()
             if result_set is None:
-                return _TimeoutExecution(timeout=timeout)
+                return _TimeoutExecution(timeout=timeout, query=query)
         else:
             exec_start = time.perf_counter_ns()
             result_set = on.execute_query(query, cache_enabled=False, raw=True)
@@ -564,7 +566,9 @@ def _execute_query(
     except Exception as e:
         return _FailedExecution(error=e)
 
-    return _SuccessfullExecution(query_result=result_set, exec_time=exec_time)
+    return _SuccessfullExecution(
+        query_result=result_set, exec_time=exec_time, query=query
+    )
 
 
 class _NoOpLogger:
@@ -677,6 +681,7 @@ class _ResultSample:
 
         # collected data
         self.timestamps: list[datetime | None] = []
+        self.executed_queries: list[SqlQuery] = []
         self.status: list[ExecStatus] = []
         self.optimization_time: float = np.nan
         self.optimization_pipeline: OptimizationPipeline | None = None
@@ -707,6 +712,7 @@ class _ResultSample:
     ) -> None:
         self._optimization_failure = reason
         self.optimization_pipeline = pipeline
+        self.executed_queries += [self.query] * self._max_query_reps
         self.timestamps += [None] * self._max_query_reps
         self.status += ["optimization-error"] * self._max_query_reps  # type: ignore[list-item]]
         self.failure_reasons += [str(reason)] * self._max_query_reps
@@ -759,7 +765,7 @@ class _ResultSample:
 
         result_set = _export_result(self.result_sets[-1])
         return ExecutionResult(
-            query=self.query,
+            query=self.executed_queries[-1],
             status=self.status[-1],
             query_result=result_set,
             optimization_time=self.optimization_time,
@@ -818,7 +824,7 @@ class _ResultSample:
                 continue
 
             sample = ExecutionResult(
-                query=self.query,
+                query=self.executed_queries[i],
                 status=status,
                 query_result=self.result_sets[i],
                 optimization_time=self.optimization_time,
@@ -964,11 +970,14 @@ def _exec_ctl_loop(
     match _execute_query(
         query, on=cfg.target_db, timeout=cfg.timeout, query_prep=cfg.query_prep
     ):
-        case _SuccessfullExecution(result_set, exec_time):
+        case _SuccessfullExecution(result_set, exec_time, executed_query):
+            sample.executed_queries.append(executed_query)
             sample.add_exec_sample(result_set, exec_time=exec_time, db_config=db_config)
-        case _TimeoutExecution(exec_time):
+        case _TimeoutExecution(exec_time, executed_query):
+            sample.executed_queries.append(executed_query)
             sample.add_exec_timeout(exec_time, db_config=db_config)
         case _FailedExecution(err) if cfg.error_action == "log":
+            sample.executed_queries.append(query)
             sample.add_exec_failure(err, db_config=db_config)
         case _FailedExecution(err) if cfg.error_action == "raise":
             raise err
@@ -1044,7 +1053,7 @@ def _workload_ctl_loop(
             assert exec_result.query_result is not None
             exec_time = 1000 * exec_result.execution_time
             pipeline.learn_from_feedback(
-                query, exec_result.query_result, exec_time=exec_time
+                exec_result.query, exec_result.query_result, exec_time=exec_time
             )
 
 
-- 
2.43.0


From efe08f48fef99609931d3c31bcba000a0f7b8ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:07 +0000
Subject: [PATCH 079/181] fix: exported benchmark results encode structured
 values in all rows as well as the pipeline description (C19)

---
 postbound/bench.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/postbound/bench.py b/postbound/bench.py
index 8b722c4..e38ab00 100644
--- a/postbound/bench.py
+++ b/postbound/bench.py
@@ -1274,6 +1274,15 @@ def execute_workload(
     return results.to_df()
 
 
+_EXPORT_AS_JSON = (list, tuple, dict, Jsonizable, OptimizationPipeline)
+
+
+def _export_json(value: Any) -> str | None:
+    if isinstance(value, OptimizationPipeline):
+        value = value.describe()
+    return util.to_json(value)
+
+
 def prepare_export(results_df: pd.DataFrame) -> pd.DataFrame:
     """Modifies a benchmark result dataframe such that it can be written to CSV files without problems.
 
@@ -1305,12 +1314,11 @@ def prepare_export(results_df: pd.DataFrame) -> pd.DataFrame:
 
     prepared_df = results_df.copy()
 
-    example_result = prepared_df.iloc[0]
-    for col in example_result.index:
-        if not isinstance(example_result[col], (list, tuple, dict, Jsonizable)):
+    for col in prepared_df.columns:
+        if not any(isinstance(val, _EXPORT_AS_JSON) for val in prepared_df[col]):
             continue
 
-        prepared_df[col] = prepared_df[col].apply(util.to_json)
+        prepared_df[col] = prepared_df[col].apply(_export_json)
 
     return prepared_df
 
-- 
2.43.0


From a9c9648d56a9d4c20cfdcf8645094966134a12d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:02 +0000
Subject: [PATCH 080/181] fix: benchmarks record the database configuration
 after the preparatory statements (C19)

---
 postbound/bench.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/postbound/bench.py b/postbound/bench.py
index e38ab00..5baced1 100644
--- a/postbound/bench.py
+++ b/postbound/bench.py
@@ -513,17 +513,20 @@ class _SuccessfullExecution:
     query_result: Any
     exec_time: float
     query: SqlQuery
+    db_config: util.jsondict
 
 
 @dataclass
 class _TimeoutExecution:
     timeout: float
     query: SqlQuery
+    db_config: util.jsondict
 
 
 @dataclass
 class _FailedExecution:
     error: Exception
+    db_config: util.jsondict
 
 
 _InternalExecResult = _SuccessfullExecution | _TimeoutExecution | _FailedExecution
@@ -544,16 +547,20 @@ def _execute_query(
     if timeout and not isinstance(on, TimeoutSupport):
         raise ValueError(f"Database system {on} does not provide timeout support")
 
+    db_config = on.describe()
     try:
         if query_prep:
             query = query_prep.prepare_query(query, on=on)
+            db_config = on.describe()  # preparatory statements can change the configuration
 
         if timeout:
             exec_start = time.perf_counter_ns()
             result_set = on.execute_with_timeout(query, timeout=timeout)  # type: ignore[arg-type]
             exec_end = time.perf_counter_ns()
             if result_set is None:
-                return _TimeoutExecution(timeout=timeout, query=query)
+                return _TimeoutExecution(
+                    timeout=timeout, query=query, db_config=db_config
+                )
         else:
             exec_start = time.perf_counter_ns()
             result_set = on.execute_query(query, cache_enabled=False, raw=True)
@@ -564,10 +571,10 @@ def _execute_query(
             exec_time = on.last_query_runtime()
 
     except Exception as e:
-        return _FailedExecution(error=e)
+        return _FailedExecution(error=e, db_config=db_config)
 
     return _SuccessfullExecution(
-        query_result=result_set, exec_time=exec_time, query=query
+        query_result=result_set, exec_time=exec_time, query=query, db_config=db_config
     )
 
 
@@ -965,26 +972,25 @@ def _exec_ctl_loop(
     """
     cfg.log.next_query_rep()
 
-    db_config = cfg.target_db.describe()
     sample.start_execution()
     match _execute_query(
         query, on=cfg.target_db, timeout=cfg.timeout, query_prep=cfg.query_prep
     ):
-        case _SuccessfullExecution(result_set, exec_time, executed_query):
+        case _SuccessfullExecution(result_set, exec_time, executed_query, db_config):
             sample.executed_queries.append(executed_query)
             sample.add_exec_sample(result_set, exec_time=exec_time, db_config=db_config)
-        case _TimeoutExecution(exec_time, executed_query):
+        case _TimeoutExecution(exec_time, executed_query, db_config):
             sample.executed_queries.append(executed_query)
             sample.add_exec_timeout(exec_time, db_config=db_config)
-        case _FailedExecution(err) if cfg.error_action == "log":
+        case _FailedExecution(err, db_config) if cfg.error_action == "log":
             sample.executed_queries.append(query)
             sample.add_exec_failure(err, db_config=db_config)
-        case _FailedExecution(err) if cfg.error_action == "raise":
+        case _FailedExecution(err, _) if cfg.error_action == "raise":
             raise err
-        case _FailedExecution(_) if cfg.error_action == "ignore":
+        case _FailedExecution(_, _) if cfg.error_action == "ignore":
             sample.discard_execution()
             return
-        case _FailedExecution(_):
+        case _FailedExecution(_, _):
             raise ValueError(f"Unknown error action: {cfg.error_action}")
         case _ as other:
             raise RuntimeError(f"Unhandled execution result: {other}")
-- 
2.43.0


From 5f186a31b8437caef222d345daffb8e0a55b52ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:00 +0000
Subject: [PATCH 081/181] fix: sort_results accepts multiple columns, including
 its own default (C19)

---
 postbound/bench.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/postbound/bench.py b/postbound/bench.py
index 5baced1..8edf2cc 100644
--- a/postbound/bench.py
+++ b/postbound/bench.py
@@ -1354,6 +1354,11 @@ def sort_results(
     pd.DataFrame
         A reordered data frame. The original data frame is not modified
     """
-    return results_df.sort_values(
-        by=by_column, key=lambda series: np.argsort(natsort.index_natsorted(series))
-    )
+
+    def natural_rank(series: pd.Series) -> pd.Series:
+        # equal values need equal ranks, otherwise the remaining columns would be ignored
+        ranks = {val: i for i, val in enumerate(natsort.natsorted(series.unique()))}
+        return series.map(ranks)
+
+    columns = [by_column] if isinstance(by_column, str) else list(by_column)
+    return results_df.sort_values(by=columns, key=natural_rank, kind="stable")
-- 
2.43.0


From 8e9122e8a0ad8c36a4075c88e26d27415d3c9463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:05 +0000
Subject: [PATCH 082/181] fix: workloads keep queries that occur multiple times
 (C20)

---
 postbound/workloads.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/postbound/workloads.py b/postbound/workloads.py
index 01eb024..fcb57ad 100644
--- a/postbound/workloads.py
+++ b/postbound/workloads.py
@@ -866,13 +866,9 @@ def read_csv_workload(
     queries = workload_df[query_column].tolist()
     if label_column:
         labels = workload_df[label_column].tolist()
-        label_provider = dict(zip(queries, labels))
-    else:
-        label_provider = None
+        return Workload(dict(zip(labels, queries)), name, filepath)
 
-    return generate_workload(
-        queries, name=name, labels=label_provider, workload_root=filepath
-    )
+    return generate_workload(queries, name=name, workload_root=filepath)
 
 
 def generate_workload(
@@ -913,11 +909,10 @@ def generate_workload(
         Path(workload_root) if isinstance(workload_root, str) else workload_root
     )
     name = name if name else (workload_root.stem if workload_root else "")
-    if not labels:
-        labels: dict[SqlQuery, int] = {
-            query: idx + 1 for idx, query in enumerate(queries)
-        }
-    workload_contents = util.dicts.invert(labels)
+    if labels:
+        workload_contents = util.dicts.invert(labels)
+    else:
+        workload_contents = dict(enumerate(queries, start=1))
     return Workload(workload_contents, name, workload_root)
 
 
-- 
2.43.0


From c08ae1a5bead09d24add42ee96bf6f8f723e661a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:05 +0000
Subject: [PATCH 083/181] fix: the last 0 queries of a workload are none (C20)

---
 postbound/workloads.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/workloads.py b/postbound/workloads.py
index fcb57ad..0ff05b2 100644
--- a/postbound/workloads.py
+++ b/postbound/workloads.py
@@ -378,7 +378,7 @@ class Workload(UserDict[LabelType, SqlQuery]):
         Workload[LabelType]
             A workload consisting of the last `n` queries of the current workload
         """
-        last_n_labels = self._sorted_labels[-n:]
+        last_n_labels = self._sorted_labels[-n:] if n else []
         sub_workload = {label: self.data[label] for label in last_n_labels}
         return Workload(sub_workload, self._name, self._root)
 
-- 
2.43.0


From 3e04556ea1204ac622508ef9836a40f8e8b26ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:05 +0000
Subject: [PATCH 084/181] fix: unreadable query files are skipped when loading
 a workload (C20)

---
 postbound/workloads.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/postbound/workloads.py b/postbound/workloads.py
index 0ff05b2..8d316d9 100644
--- a/postbound/workloads.py
+++ b/postbound/workloads.py
@@ -215,6 +215,7 @@ class Workload(UserDict[LabelType, SqlQuery]):
                         )
                     case "ignore":
                         pass
+                continue
 
             query_label = query_file_path.stem
             queries[label_prefix + query_label] = parsed_query
@@ -733,6 +734,7 @@ def read_workload(
                     )
                 case "ignore":
                     pass
+            continue
 
         query_label = query_file_path.stem
         queries[query_label] = parsed_query
-- 
2.43.0


From 106dbda5dcdaee08034bf80accf5232345ae71ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:05 +0000
Subject: [PATCH 085/181] fix: loading a workload keeps the text of its queries
 (C20)

---
 postbound/workloads.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/postbound/workloads.py b/postbound/workloads.py
index 8d316d9..f4c6a46 100644
--- a/postbound/workloads.py
+++ b/postbound/workloads.py
@@ -194,8 +194,7 @@ class Workload(UserDict[LabelType, SqlQuery]):
 
         for query_file_path in matching_files:
             with open(query_file_path, "r", encoding=file_encoding) as query_file:
-                raw_contents = query_file.readlines()
-            query_contents = "\n".join([line for line in raw_contents])
+                query_contents = query_file.read()
 
             try:
                 parsed_query = parser.parse_query(
@@ -715,8 +714,7 @@ def read_workload(
 
     for query_file_path in matching_files:
         with open(query_file_path, "r", encoding=file_encoding) as query_file:
-            raw_contents = query_file.readlines()
-        query_contents = "\n".join([line for line in raw_contents])
+            query_contents = query_file.read()
 
         try:
             parsed_query = parser.parse_query(
-- 
2.43.0


From 1579eb83ba852541f27b92c28293fa7e84e2bff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:05 +0000
Subject: [PATCH 086/181] fix: read_workload adds the prefixes to the labels
 and reads all directories with the same encoding (C20)

---
 postbound/workloads.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/postbound/workloads.py b/postbound/workloads.py
index f4c6a46..a8d40b5 100644
--- a/postbound/workloads.py
+++ b/postbound/workloads.py
@@ -735,7 +735,7 @@ def read_workload(
             continue
 
         query_label = query_file_path.stem
-        queries[query_label] = parsed_query
+        queries[query_label_prefix + query_label] = parsed_query
 
     base_workload = Workload(queries, name=name, root=root)
     if not recurse_subdirectories:
@@ -749,12 +749,13 @@ def read_workload(
             if query_label_prefix and not query_label_prefix.endswith("/")
             else query_label_prefix
         )
-        subdir_prefix += subdir.stem + "/"
+        subdir_prefix += subdir.name + "/"
         subdir_workload = read_workload(
             subdir,
             query_file_pattern=query_file_pattern,
             recurse_subdirectories=True,
             query_label_prefix=subdir_prefix,
+            file_encoding=file_encoding,
             bind_columns=bind_columns,
             include_hints=include_hints,
             on_error=on_error,
-- 
2.43.0


From 8a3aebddc0c0a4008594efd0d2d2b2e9b923a104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:05 +0000
Subject: [PATCH 087/181] fix: batch workloads skip empty lines (C20)

---
 postbound/workloads.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/workloads.py b/postbound/workloads.py
index a8d40b5..6fb4969 100644
--- a/postbound/workloads.py
+++ b/postbound/workloads.py
@@ -795,7 +795,7 @@ def read_batch_workload(
     name = name if name else filepath.stem
     with open(filename, "r", encoding=file_encoding) as query_file:
         raw_queries = query_file.readlines()
-        parsed_queries = [parser.parse_query(raw) for raw in raw_queries if raw]
+        parsed_queries = [parser.parse_query(raw) for raw in raw_queries if raw.strip()]
         return generate_workload(parsed_queries, name=name, workload_root=filepath)
 
 
-- 
2.43.0


From 55940018347e34a4423a919c12e510fd8b7e38d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:05 +0000
Subject: [PATCH 088/181] fix: labels of CSV workloads are strings (C20)

---
 postbound/workloads.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/postbound/workloads.py b/postbound/workloads.py
index 6fb4969..3c53307 100644
--- a/postbound/workloads.py
+++ b/postbound/workloads.py
@@ -856,10 +856,14 @@ def read_csv_workload(
     else:
         pd_args = {}
 
+    converters: dict[str, Callable] = {query_column: parser.parse_query}
+    if label_column:
+        converters[label_column] = str  # labels are strings, no matter what they look like
+
     workload_df = pd.read_csv(
         filepath,
         usecols=columns,
-        converters={query_column: parser.parse_query},
+        converters=converters,
         encoding=file_encoding,
         **pd_args,
     )
-- 
2.43.0


From 5569b27fee6272316645d123d322af85af8f75da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:05 +0000
Subject: [PATCH 089/181] fix: in-place union does not modify the workload
 (C20)

---
 postbound/workloads.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/postbound/workloads.py b/postbound/workloads.py
index 3c53307..0800b72 100644
--- a/postbound/workloads.py
+++ b/postbound/workloads.py
@@ -635,6 +635,11 @@ class Workload(UserDict[LabelType, SqlQuery]):
             other_data | self.data, name=self._name, root=self._root
         )  # retain own labels in case of conflict
 
+    def __ior__(
+        self, other: dict[LabelType, SqlQuery] | UserDict[LabelType, SqlQuery]
+    ) -> Workload[LabelType]:
+        return self | other  # workloads are immutable
+
     def __repr__(self) -> str:
         return str(self)
 
-- 
2.43.0


From 2df48d4e54f449539110a16d010ed8af3fafe3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:05 +0000
Subject: [PATCH 090/181] fix: invert_multi keeps keys with equal values (C20)

---
 postbound/util/dicts.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/postbound/util/dicts.py b/postbound/util/dicts.py
index 6116021..d643c0e 100644
--- a/postbound/util/dicts.py
+++ b/postbound/util/dicts.py
@@ -179,15 +179,11 @@ def invert_multi(mapping: dict[K, list[V]]) -> dict[V, list[K]]:
     Supppose a multi-dict has the following contents: `{'a': [1, 2], 'b': [2, 3]}`.
     Calling `invert` transforms this mapping to `{1: ['a'], 2: ['a', 'b'], 3: ['b']}`.
     """
-    level1 = {tuple(vs): k for k, vs in mapping.items()}
-    level2: dict[V, list[K]] = {}
-    for vs, k in level1.items():
+    inverted: dict[V, list[K]] = {}
+    for k, vs in mapping.items():
         for v in vs:
-            if v not in level2:
-                level2[v] = [k]
-            else:
-                level2[v].append(k)
-    return level2
+            inverted.setdefault(v, []).append(k)
+    return inverted
 
 
 def aggregate(dictionaries: Iterable[dict[K, V]]) -> dict[K, Sequence[V]]:
-- 
2.43.0


From da7742cb4dd8204a6b82c7797a48f3af1e3496ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:53 +0000
Subject: [PATCH 091/181] fix: cached queries are read from disk once, before
 the first cached query (C17)

The per-query cache switch and the reset of the cache did not work as documented: DuckDB ignored the setting
of the database, did not restore nor persist queries that were cached on demand and could not be created with
an enabled cache. Postgres and MySQL only read the cache after the first query was executed and resurrected
persisted results after the cache had been reset.
---
 postbound/db/_db.py   | 18 ++++++++++++++++++
 postbound/duckdb.py   |  6 ++++--
 postbound/mysql.py    |  3 +--
 postbound/postgres.py |  3 +--
 4 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/postbound/db/_db.py b/postbound/db/_db.py
index 7199ce8..751ea49 100644
--- a/postbound/db/_db.py
+++ b/postbound/db/_db.py
@@ -365,6 +365,7 @@ class Database(abc.ABC):
         self.system_name = system_name
 
         self._cache_enabled = cache_enabled
+        self._cache_inflated = False
         self._query_cache: dict[str, ResultSet] = {}
         if self._cache_enabled:
             self._inflate_query_cache()
@@ -632,6 +633,22 @@ class Database(abc.ABC):
     If caching should be enabled later on and no cached data exists, the cache will be inflated from disk.
     """
 
+    def _use_cache(self, cache_enabled: Optional[bool]) -> bool:
+        """Determines, whether the query cache should be used for a specific query.
+
+        If this is the case and the cached queries have not been read so far, the query cache is inflated from disk.
+
+        Parameters
+        ----------
+        cache_enabled : Optional[bool]
+            The caching mode that was requested for the query. *None* indicates that the "global" configuration of the
+            database system should be used.
+        """
+        use_cache = self._cache_enabled if cache_enabled is None else cache_enabled
+        if use_cache and not self._cache_inflated:
+            self._inflate_query_cache()
+        return use_cache
+
     def _inflate_query_cache(self) -> None:
         """Tries to read the query cache for this database.
 
@@ -640,6 +657,7 @@ class Database(abc.ABC):
         """
         if self._query_cache:
             return
+        self._cache_inflated = True
         query_cache_name = self._query_cache_name()
         if os.path.isfile(query_cache_name):
             with open(query_cache_name, "r") as cache_file:
diff --git a/postbound/duckdb.py b/postbound/duckdb.py
index e46a99d..c463919 100644
--- a/postbound/duckdb.py
+++ b/postbound/duckdb.py
@@ -64,11 +64,12 @@ class DuckDBInterface(Database):
         system_name: str = "DuckDB",
         cache_enabled: bool = False,
     ) -> None:
-        super().__init__(system_name=system_name, cache_enabled=cache_enabled)
-
         self._dbfile = db
 
+        # the query cache is identified by properties of the database, so we need an active connection to initialize it
         self._cur = quacklab.connect(db)
+        super().__init__(system_name=system_name, cache_enabled=cache_enabled)
+
         self._last_query_runtime = math.nan
 
         self._stats = DuckDBStatistics(self)
@@ -111,6 +112,7 @@ class DuckDBInterface(Database):
         elif isinstance(query, UserString):
             query = str(query)
 
+        cache_enabled = self._use_cache(cache_enabled)
         if cache_enabled:
             cached_res = self._query_cache.get(query)
             if cached_res is not None:
diff --git a/postbound/mysql.py b/postbound/mysql.py
index acba9c2..a84f150 100644
--- a/postbound/mysql.py
+++ b/postbound/mysql.py
@@ -170,7 +170,7 @@ class MysqlInterface(Database):
         cache_enabled: Optional[bool] = None,
         raw: bool = False,
     ) -> Any:
-        cache_enabled = cache_enabled or (cache_enabled is None and self._cache_enabled)
+        cache_enabled = self._use_cache(cache_enabled)
         query = self._prepare_query_execution(query)
 
         if cache_enabled and query in self._query_cache:
@@ -179,7 +179,6 @@ class MysqlInterface(Database):
             self._cur.execute(query)
             query_result = self._cur.fetchall()
             if cache_enabled:
-                self._inflate_query_cache()
                 self._query_cache[query] = query_result
 
         if raw:
diff --git a/postbound/postgres.py b/postbound/postgres.py
index 5e3c750..b36cba6 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -718,7 +718,7 @@ class PostgresInterface(Database):
                 query, timeout=timeout, cache_enabled=cache_enabled, raw=raw
             )
 
-        cache_enabled = cache_enabled or (cache_enabled is None and self._cache_enabled)
+        cache_enabled = self._use_cache(cache_enabled)
         if isinstance(query, UserString):
             query = str(query)
         elif isinstance(query, SqlQuery):
@@ -745,7 +745,6 @@ class PostgresInterface(Database):
                 self._cursor.fetchall() if self._cursor.rowcount >= 0 else None
             )
             if cache_enabled:
-                self._inflate_query_cache()
                 self._query_cache[query] = query_result
         except (psycopg.InternalError, psycopg.OperationalError) as e:
             msg = "\n".join(
-- 
2.43.0


From 62efc81e0b0d5e8887c2083dc0307d6ab59f79fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:14 +0000
Subject: [PATCH 092/181] fix: restored query results equal the results that
 were saved (C17)

Rows of a result set were restored as lists instead of tuples. A single value without a JSON representation
(such as decimals, e.g. from an AVG) aborted the entire export, leaving a broken cache file behind.
---
 postbound/db/_db.py | 39 +++++++++++++++++++++++++++++++++++++--
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/postbound/db/_db.py b/postbound/db/_db.py
index 751ea49..41134c3 100644
--- a/postbound/db/_db.py
+++ b/postbound/db/_db.py
@@ -23,10 +23,12 @@ import collections
 import json
 import os
 import textwrap
+import uuid
 import warnings
 from collections.abc import Iterable, Iterator, Mapping, Sequence
 from dataclasses import dataclass
 from datetime import date, datetime, time, timedelta
+from decimal import Decimal
 from typing import Any, Literal, Optional, Protocol, Type, overload, runtime_checkable
 
 import networkx as nx
@@ -296,6 +298,12 @@ class _DBCacheJsonEncoder(json.JSONEncoder):
             return {"$time": o.isoformat()}
         elif isinstance(o, timedelta):
             return {"$timedelta": o.total_seconds()}
+        elif isinstance(o, Decimal):
+            return {"$decimal": str(o)}
+        elif isinstance(o, uuid.UUID):
+            return {"$uuid": str(o)}
+        elif isinstance(o, bytes):
+            return {"$bytes": o.hex()}
         return super().default(o)
 
 
@@ -316,6 +324,12 @@ class _DBCacheJsonDecoder(json.JSONDecoder):
             return time.fromisoformat(obj["$time"])
         elif "$timedelta" in obj:
             return timedelta(seconds=obj["$timedelta"])
+        elif "$decimal" in obj:
+            return Decimal(obj["$decimal"])
+        elif "$uuid" in obj:
+            return uuid.UUID(obj["$uuid"])
+        elif "$bytes" in obj:
+            return bytes.fromhex(obj["$bytes"])
         return obj
 
 
@@ -662,7 +676,14 @@ class Database(abc.ABC):
         if os.path.isfile(query_cache_name):
             with open(query_cache_name, "r") as cache_file:
                 try:
-                    self._query_cache = json.load(cache_file, cls=_DBCacheJsonDecoder)
+                    cached_results = json.load(cache_file, cls=_DBCacheJsonDecoder)
+                    # JSON does not know tuples, make sure that the rows have their original type again
+                    self._query_cache = {
+                        query: result_set
+                        if result_set is None
+                        else [tuple(row) for row in result_set]
+                        for query, result_set in cached_results.items()
+                    }
                 except json.JSONDecodeError as e:
                     warnings.warn(
                         f"Could not read query cache: {e}",
@@ -687,8 +708,22 @@ class Database(abc.ABC):
         query_cache_name : str
             The path where to write the file to. If it exists, it will be overwritten.
         """
+        cached_results: dict[str, str] = {}
+        for query, result_set in self._query_cache.items():
+            try:
+                cached_results[query] = json.dumps(result_set, cls=_DBCacheJsonEncoder)
+            except (TypeError, ValueError) as e:
+                warnings.warn(
+                    f"Could not store result of query '{query}' in cache: {e}",
+                    category=QueryCacheWarning,
+                )
+
+        entries = (
+            f"{json.dumps(query)}: {result_set}"
+            for query, result_set in cached_results.items()
+        )
         with open(query_cache_name, "w") as cache_file:
-            json.dump(self._query_cache, cache_file, cls=_DBCacheJsonEncoder)
+            cache_file.write("{" + ", ".join(entries) + "}")
 
     def _query_cache_name(self) -> str:
         """Provides a normalized file name for the query cache.
-- 
2.43.0


From c73b7d4d30d94d62ad102730d5009d6118e3357c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:27 +0000
Subject: [PATCH 093/181] fix: modifying a query result does not modify the
 query cache (C17)

---
 postbound/duckdb.py   | 3 ++-
 postbound/mysql.py    | 5 +++--
 postbound/postgres.py | 6 +++++-
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/postbound/duckdb.py b/postbound/duckdb.py
index c463919..860b1b9 100644
--- a/postbound/duckdb.py
+++ b/postbound/duckdb.py
@@ -116,6 +116,7 @@ class DuckDBInterface(Database):
         if cache_enabled:
             cached_res = self._query_cache.get(query)
             if cached_res is not None:
+                cached_res = list(cached_res)  # users must not modify the cache
                 return cached_res if raw else simplify_result_set(cached_res)
 
         if timeout is not None:
@@ -133,7 +134,7 @@ class DuckDBInterface(Database):
             ) / 10**9  # convert to seconds
 
         if cache_enabled:
-            self._query_cache[query] = raw_result
+            self._query_cache[query] = list(raw_result)
 
         return raw_result if raw else simplify_result_set(raw_result)
 
diff --git a/postbound/mysql.py b/postbound/mysql.py
index a84f150..7fa31d5 100644
--- a/postbound/mysql.py
+++ b/postbound/mysql.py
@@ -174,12 +174,13 @@ class MysqlInterface(Database):
         query = self._prepare_query_execution(query)
 
         if cache_enabled and query in self._query_cache:
-            query_result = self._query_cache[query]
+            # users must not modify the cache
+            query_result = list(self._query_cache[query])
         else:
             self._cur.execute(query)
             query_result = self._cur.fetchall()
             if cache_enabled:
-                self._query_cache[query] = query_result
+                self._query_cache[query] = list(query_result)
 
         if raw:
             return query_result
diff --git a/postbound/postgres.py b/postbound/postgres.py
index b36cba6..221836d 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -731,6 +731,8 @@ class PostgresInterface(Database):
 
         if cache_enabled and query in self._query_cache:
             query_result = self._query_cache[query]
+            if query_result is not None:
+                query_result = list(query_result)  # users must not modify the cache
             return query_result if raw else simplify_result_set(query_result)
 
         try:
@@ -745,7 +747,9 @@ class PostgresInterface(Database):
                 self._cursor.fetchall() if self._cursor.rowcount >= 0 else None
             )
             if cache_enabled:
-                self._query_cache[query] = query_result
+                self._query_cache[query] = (
+                    list(query_result) if query_result is not None else None
+                )
         except (psycopg.InternalError, psycopg.OperationalError) as e:
             msg = "\n".join(
                 [
-- 
2.43.0


From b3ab6716ce3670296ff256469c88fea8b0faad24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:27 +0000
Subject: [PATCH 094/181] fix: refreshing a DuckDB connection keeps the pooled
 connection (C17)

The new connection is registered under a suffixed key, as it is documented and implemented for Postgres.
---
 postbound/duckdb.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/postbound/duckdb.py b/postbound/duckdb.py
index 860b1b9..7cc1874 100644
--- a/postbound/duckdb.py
+++ b/postbound/duckdb.py
@@ -968,6 +968,11 @@ def connect(
     duckdb_instance = DuckDBInterface(db)
 
     if not private:
+        orig_name = name
+        instance_idx = 2
+        while name in db_pool:
+            name = f"{orig_name} - {instance_idx}"
+            instance_idx += 1
         db_pool.register_database(name, duckdb_instance)
 
     return duckdb_instance
-- 
2.43.0


From 2b0d7554cfc91ffa45ca93b52e117c84f9136ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:06 +0000
Subject: [PATCH 095/181] fix: DuckDB executes preparatory statements as a
 whole (C17)

The statements are a single string and were executed character by character.
---
 postbound/duckdb.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/postbound/duckdb.py b/postbound/duckdb.py
index 7cc1874..add7761 100644
--- a/postbound/duckdb.py
+++ b/postbound/duckdb.py
@@ -104,8 +104,7 @@ class DuckDBInterface(Database):
             and query.hints
             and query.hints.preparatory_statements
         ):
-            for preparatory_statement in query.hints.preparatory_statements:
-                self._cur.execute(preparatory_statement)
+            self._cur.execute(query.hints.preparatory_statements)
             query = transform.drop_hints(query, preparatory_statements_only=True)
         if isinstance(query, SqlQuery):
             query = self._hinting.format_query(query)
-- 
2.43.0


From a88385da43f568b4513db0487f66bf1275965fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:24 +0000
Subject: [PATCH 096/181] fix: the MySQL interface can be instantiated again
 (C17)

The statistics interface did not implement the abstract histogram accessor.
---
 postbound/mysql.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/postbound/mysql.py b/postbound/mysql.py
index 7fa31d5..2c37d2d 100644
--- a/postbound/mysql.py
+++ b/postbound/mysql.py
@@ -68,6 +68,8 @@ from .db import (
     DatabasePool,
     DatabaseSchema,
     DatabaseStatistics,
+    Histogram,
+    HistogramApproximation,
     HintService,
     OptimizerInterface,
     UnsupportedDatabaseFeatureError,
@@ -452,6 +454,15 @@ class MysqlStatisticsInterface(DatabaseStatistics):
             )
         return self._calculate_most_common_values(column, k=k, cache_enabled=True)
 
+    def _retrieve_histogram_from_stats(
+        self, column: BoundColumnReference, *, interpolation: HistogramApproximation
+    ) -> Optional[Histogram]:
+        if not self.enable_emulation_fallback:
+            raise UnsupportedDatabaseFeatureError(self._db, "histogram statistics")
+        return self._calculate_histogram(
+            column, n_bins=100, interpolation=interpolation, cache_enabled=True
+        )
+
 
 MysqlJoinHints = {JoinOperator.HashJoin, JoinOperator.NestedLoopJoin}
 MysqlScanHints = {ScanOperator.IndexScan, ScanOperator.SequentialScan}
-- 
2.43.0


From 1c0172c9196205afb45610521380a70c1b96f754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:11 +0000
Subject: [PATCH 097/181] fix: emulated statistics are calculated for the table
 and column that were asked for, also with schemas or quoted names (C18)

---
 postbound/db/_db.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/postbound/db/_db.py b/postbound/db/_db.py
index 41134c3..dbbd8af 100644
--- a/postbound/db/_db.py
+++ b/postbound/db/_db.py
@@ -45,6 +45,7 @@ from .._core import (
     TableReference,
     UnboundColumnError,
     VirtualTableError,
+    quote,
 )
 from .._hints import (
     HintType,
@@ -2767,7 +2768,7 @@ class DatabaseStatistics(abc.ABC):
         int
             The total number of rows in the table.
         """
-        query_template = "SELECT COUNT(*) FROM {tab}".format(tab=table.full_name)
+        query_template = f"SELECT COUNT(*) FROM {table.qualified_name()}"
         return self._db.execute_query(
             query_template,
             cache_enabled=self._determine_caching_behavior(cache_enabled),
@@ -2795,7 +2796,7 @@ class DatabaseStatistics(abc.ABC):
             The number of distinct values in the column
         """
         query_template = "SELECT COUNT(DISTINCT {col}) FROM {tab}".format(
-            col=column.name, tab=column.table.full_name
+            col=quote(column.name), tab=column.table.qualified_name()
         )
         return self._db.execute_query(
             query_template,
@@ -2824,7 +2825,7 @@ class DatabaseStatistics(abc.ABC):
             A tuple of *(min, max)*
         """
         query_template = "SELECT MIN({col}), MAX({col}) FROM {tab}".format(
-            col=column.name, tab=column.table.full_name
+            col=quote(column.name), tab=column.table.qualified_name()
         )
         return self._db.execute_query(
             query_template,
@@ -2865,20 +2866,22 @@ class DatabaseStatistics(abc.ABC):
         """
         if k is None or k <= 0:
             query_template = """
-                SELECT {col}, COUNT(*) AS n
+                SELECT {col}, COUNT(*)
                 FROM {tab}
                 GROUP BY {col}
-                ORDER BY n DESC, {col}""".format(
-                col=column.name, tab=column.table.full_name
+                ORDER BY COUNT(*) DESC, {col}""".format(
+                col=quote(column.name), tab=column.table.qualified_name()
             )
         else:
             query_template = textwrap.dedent(
                 """
-                SELECT {col}, COUNT(*) AS n
+                SELECT {col}, COUNT(*)
                 FROM {tab}
                 GROUP BY {col}
-                ORDER BY n DESC, {col}
-                LIMIT {k}""".format(col=column.name, tab=column.table.full_name, k=k)
+                ORDER BY COUNT(*) DESC, {col}
+                LIMIT {k}""".format(
+                    col=quote(column.name), tab=column.table.qualified_name(), k=k
+                )
             )
 
         return self._db.execute_query(
@@ -2900,11 +2903,11 @@ class DatabaseStatistics(abc.ABC):
             return None
 
         query_template = """
-            SELECT {col}, COUNT(*) AS n
+            SELECT {col}, COUNT(*)
             FROM {tab}
             GROUP BY {col}
             ORDER BY {col}
-            """.format(col=column.name, tab=column.table.full_name)
+            """.format(col=quote(column.name), tab=column.table.qualified_name())
         result_set = self._db.execute_query(
             query_template,
             cache_enabled=self._determine_caching_behavior(cache_enabled),
-- 
2.43.0


From d6b5648581c949bdf1adca9ff060a262f85d5ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:12 +0000
Subject: [PATCH 098/181] fix: emulated most common values and histograms only
 consider actual values, not NULL, and break ties as documented (C18)

---
 postbound/db/_db.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/postbound/db/_db.py b/postbound/db/_db.py
index dbbd8af..acde297 100644
--- a/postbound/db/_db.py
+++ b/postbound/db/_db.py
@@ -2868,8 +2868,9 @@ class DatabaseStatistics(abc.ABC):
             query_template = """
                 SELECT {col}, COUNT(*)
                 FROM {tab}
+                WHERE {col} IS NOT NULL
                 GROUP BY {col}
-                ORDER BY COUNT(*) DESC, {col}""".format(
+                ORDER BY COUNT(*) DESC, {col} DESC""".format(
                 col=quote(column.name), tab=column.table.qualified_name()
             )
         else:
@@ -2877,8 +2878,9 @@ class DatabaseStatistics(abc.ABC):
                 """
                 SELECT {col}, COUNT(*)
                 FROM {tab}
+                WHERE {col} IS NOT NULL
                 GROUP BY {col}
-                ORDER BY COUNT(*) DESC, {col}
+                ORDER BY COUNT(*) DESC, {col} DESC
                 LIMIT {k}""".format(
                     col=quote(column.name), tab=column.table.qualified_name(), k=k
                 )
@@ -2898,13 +2900,10 @@ class DatabaseStatistics(abc.ABC):
         interpolation: HistogramApproximation,
         cache_enabled: Optional[bool] = None,
     ) -> Optional[Histogram]:
-        n_rows = self._calculate_total_rows(column.table)
-        if n_rows == 0:
-            return None
-
         query_template = """
             SELECT {col}, COUNT(*)
             FROM {tab}
+            WHERE {col} IS NOT NULL
             GROUP BY {col}
             ORDER BY {col}
             """.format(col=quote(column.name), tab=column.table.qualified_name())
@@ -2913,7 +2912,9 @@ class DatabaseStatistics(abc.ABC):
             cache_enabled=self._determine_caching_behavior(cache_enabled),
             raw=True,
         )
-        assert result_set
+        if not result_set:
+            return None
+        n_rows = sum(freq for _, freq in result_set)
 
         lo, bounds, buckets = _infer_histogram_bounds(
             result_set, n_bins=n_bins, n_rows=n_rows
-- 
2.43.0


From e1a4c71799e84e560904f8ffe54c7e626a4608d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:12 +0000
Subject: [PATCH 099/181] fix: emulated histograms cover all rows with at most
 the requested number of buckets (C18)

---
 postbound/db/_db.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/postbound/db/_db.py b/postbound/db/_db.py
index acde297..0f9d70b 100644
--- a/postbound/db/_db.py
+++ b/postbound/db/_db.py
@@ -1793,7 +1793,7 @@ def _infer_histogram_bounds[T](
     if not frequencies:
         raise ValueError("Cannot infer histogram bounds from empty frequency list")
 
-    bucket_size = n_rows // n_bins
+    bucket_size = -(-n_rows // n_bins)
 
     bounds: list[T] = []
     buckets: list[int] = []
@@ -1806,6 +1806,11 @@ def _infer_histogram_bounds[T](
         buckets.append(cumulative_freq)
         cumulative_freq = 0
 
+    if cumulative_freq:
+        # the remaining values do not fill an entire bucket
+        bounds.append(frequencies[-1][0])
+        buckets.append(cumulative_freq)
+
     return frequencies[0][0], bounds, buckets
 
 
-- 
2.43.0


From a8fdc5d0a43d58da0264515d2633401e76ca990b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:12 +0000
Subject: [PATCH 100/181] fix: histogram lookups count the rows of the buckets
 they are about (C18)

---
 postbound/db/_db.py | 52 ++++++++++++++++++++-------------------------
 1 file changed, 23 insertions(+), 29 deletions(-)

diff --git a/postbound/db/_db.py b/postbound/db/_db.py
index 0f9d70b..0073294 100644
--- a/postbound/db/_db.py
+++ b/postbound/db/_db.py
@@ -1926,29 +1926,18 @@ class Histogram[T: SupportsRichComparison[T]]:
         If the value does not align exactly with the bucket bounds, the behavior depends on the selected
         `bucket_interpolation` strategy. See the class documentation for details.
         """
-        upper_idx = bisect.bisect_right(self._bounds, value)
-        if upper_idx == 0:
+        if value < self._lower:
             return 0
-        elif upper_idx == len(self._bounds):
-            return self._n_rows
-
-        if self._bucket_interpolation == "bound":
-            return upper_idx * self._freq_per_bucket
 
-        assert self._bucket_interpolation == "approx-uni"
+        idx = bisect.bisect_right(self._bounds, value)
+        preceding = sum(self._frequencies[:idx])
+        if idx == len(self._bounds) or (idx > 0 and self._bounds[idx - 1] == value):
+            return preceding
 
-        if not isinstance(value, (int, float, date, datetime)):
-            raise ValueError(
-                "Cannot estimate frequency within bucket. "
-                f"Strategy '{self._bucket_interpolation}' is unknown or unsupported "
-                f"for histograms of type {type(value).__name__}."
-            )
-
-        lower_idx = upper_idx - 1
-        upper_bound = self._bounds[upper_idx]
-        lower_bound = self._bounds[lower_idx]
-        in_bucket_frac = (value - lower_bound) / (upper_bound - lower_bound)
-        return (lower_idx + in_bucket_frac) * self._freq_per_bucket
+        # the value is located within the bucket at idx
+        if self._bucket_interpolation == "bound":
+            return preceding + self._frequencies[idx]
+        return preceding + self._interpolate_bucket(idx, value)
 
     def frequency_above(self, value: T) -> int:
         """Estimate the frequency of values that are greater than a given value.
@@ -1959,15 +1948,21 @@ class Histogram[T: SupportsRichComparison[T]]:
         If the value does not align exactly with the bucket bounds, the behavior depends on the selected
         `bucket_interpolation` strategy. See the class documentation for details.
         """
-        lower_idx = bisect.bisect_left(self._bounds, value)
-        if lower_idx == 0:
+        if value < self._lower:
             return self._n_rows
-        elif lower_idx == len(self._bounds):
-            return 0
 
+        idx = bisect.bisect_right(self._bounds, value)
+        remaining = sum(self._frequencies[idx:])
+        if idx == len(self._bounds) or (idx > 0 and self._bounds[idx - 1] == value):
+            return remaining
+
+        # the value is located within the bucket at idx
         if self._bucket_interpolation == "bound":
-            return lower_idx * self._freq_per_bucket
+            return remaining
+        return remaining - self._interpolate_bucket(idx, value)
 
+    def _interpolate_bucket(self, idx: int, value: T) -> float:
+        """Estimates the number of elements in a bucket that are less than or equal to the given value."""
         assert self._bucket_interpolation == "approx-uni"
 
         if not isinstance(value, (int, float, date, datetime)):
@@ -1977,11 +1972,10 @@ class Histogram[T: SupportsRichComparison[T]]:
                 f"for histograms of type {type(value).__name__}."
             )
 
-        upper_idx = lower_idx + 1
-        upper_bound = self._bounds[upper_idx]
-        lower_bound = self._bounds[lower_idx]
+        upper_bound = self._bounds[idx]
+        lower_bound = self._bounds[idx - 1] if idx > 0 else self._lower
         in_bucket_frac = (value - lower_bound) / (upper_bound - lower_bound)
-        return (upper_idx + in_bucket_frac) * self._freq_per_bucket
+        return in_bucket_frac * self._frequencies[idx]
 
     def __len__(self) -> int:
         return len(self._bounds)
-- 
2.43.0


From fbf0717a068c3f83563051e2de93a25e28146812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:55 +0000
Subject: [PATCH 101/181] fix: a DuckDB query that exceeds its timeout ends
 with a timeout instead of an interrupt error (C21)

---
 postbound/duckdb.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/postbound/duckdb.py b/postbound/duckdb.py
index add7761..5577354 100644
--- a/postbound/duckdb.py
+++ b/postbound/duckdb.py
@@ -149,8 +149,14 @@ class DuckDBInterface(Database):
             result_set = self._cur.fetchall()
             return result_set
         except concurrent.futures.TimeoutError:
-            self._cur.interrupt()
-            promise.result()
+            # The worker might not have started the actual execution yet, so a single interrupt could get lost
+            while not promise.done():
+                self._cur.interrupt()
+                concurrent.futures.wait([promise], timeout=0.05)
+            if promise.exception() is not None and not isinstance(
+                promise.exception(), quacklab.InterruptException
+            ):
+                raise promise.exception()
 
             # Make sure to update the last query runtime just now, the worker might terminate while we try to cancel and update
             # the runtime itself. This way we overwrite any measurement that the worker might have produced.
-- 
2.43.0


From b37a4acd3f872964f933aad69a71dab2bee86e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:55 +0000
Subject: [PATCH 102/181] fix: the parallel query executor delivers each result
 once, and without the query to the callback (C21)

---
 postbound/postgres.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/postbound/postgres.py b/postbound/postgres.py
index 221836d..d8dd76b 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -3316,7 +3316,7 @@ def _parallel_query_worker(
             f"[worker id={threading.get_ident()}, ts={util.timestamp()}] Executed query {query}"
         )
     except psycopg.errors.QueryCanceled as e:
-        if "canceling statement due to statement timeout" in e.args:
+        if "canceling statement due to statement timeout" in str(e):
             log(
                 f"[worker id={threading.get_ident()}, ts={util.timestamp()}] Query {query} timed out"
             )
@@ -3438,14 +3438,16 @@ class ParallelQueryExecutor:
         TimeoutError or concurrent.futures.TimeoutError
             If some queries have not completed after the given `timeout`.
         """
-        for future in concurrent.futures.as_completed(self._tasks, timeout=timeout):
-            result_set = future.result()
-            self._results.append(result_set)
+        pending = list(self._queries)
+        for future in concurrent.futures.as_completed(pending, timeout=timeout):
+            # each result is only delivered once, even if it is an error
+            del self._queries[future]
+            query, result_set = future.result()
+            self._results.append((query, result_set))
 
             if not callback:
                 continue
 
-            query = self._queries[future]
             callback(query, result_set)
 
     def result_set(self) -> dict[str | SqlQuery, ResultSet | None]:
-- 
2.43.0


From 558ff6e7892b8e20e791b084e8a0223465aa530d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:55 +0000
Subject: [PATCH 103/181] fix: a timed query does not hang if its worker dies,
 and never leaves the worker behind (C21)

---
 postbound/postgres.py | 39 ++++++++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/postbound/postgres.py b/postbound/postgres.py
index d8dd76b..1a59f79 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -3518,10 +3518,20 @@ class _ResultEvent:
         return _ResultEvent("failure", None, math.nan, error=error)
 
 
+def _timeout_worker_next_event(status_pipe: mp_conn.Connection) -> Any:
+    """Reads the next event, or produces an error event if the worker terminated without sending any more events."""
+    try:
+        return status_pipe.recv()
+    except EOFError:
+        return _WorkerErrorEvent(
+            DatabaseServerError("Timeout query worker terminated unexpectedly")
+        )
+
+
 def _timeout_worker_ctl(
     status_pipe: mp_conn.Connection, *, timeout: float, executor: TimeoutQueryExecutor
 ) -> _ResultEvent:
-    event = status_pipe.recv()
+    event = _timeout_worker_next_event(status_pipe)
     match event:
         case _BackendConnectedEvent(pid):
             return _timeout_worker_prep(
@@ -3540,7 +3550,7 @@ def _timeout_worker_prep(
     backend_pid: int,
     executor: TimeoutQueryExecutor,
 ) -> _ResultEvent:
-    event = status_pipe.recv()
+    event = _timeout_worker_next_event(status_pipe)
     match event:
         case _QueryReadyEvent():
             return _timeout_worker_run_query(
@@ -3566,7 +3576,7 @@ def _timeout_worker_run_query(
             timeout, backend_pid=backend_pid, executor=executor
         )
 
-    event = status_pipe.recv()
+    event = _timeout_worker_next_event(status_pipe)
     match event:
         case _QueryFinishedEvent():
             return _timeout_worker_await_result(
@@ -3582,7 +3592,7 @@ def _timeout_worker_run_query(
 def _timeout_worker_await_result(
     status_pipe: mp_conn.Connection, *, backend_pid: int, executor: TimeoutQueryExecutor
 ) -> _ResultEvent:
-    event = status_pipe.recv()
+    event = _timeout_worker_next_event(status_pipe)
     match event:
         case _ResultEvent():
             return event
@@ -3811,15 +3821,18 @@ class TimeoutQueryExecutor:
         )
 
         query_worker.start()
-        result = _timeout_worker_ctl(status_recv, timeout=timeout, executor=self)
-        timed_out = result.status == "timeout"
-        if timed_out:
-            query_worker.terminate()
-
-        query_worker.join()
-        query_worker.close()
-        status_send.close()
-        status_recv.close()
+        status_send.close()  # only the worker sends, otherwise we would not notice if it dies
+        timed_out, succeeded = False, False
+        try:
+            result = _timeout_worker_ctl(status_recv, timeout=timeout, executor=self)
+            timed_out = result.status == "timeout"
+            succeeded = result.status == "success"
+        finally:
+            if not succeeded:
+                query_worker.terminate()
+            query_worker.join()
+            query_worker.close()
+            status_recv.close()
 
         match result.status:
             case "success" | "timeout":
-- 
2.43.0


From dfdcb8d3d327ebd9066d933c60317bdf98dcb3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:55 +0000
Subject: [PATCH 104/181] fix: timed queries are also cancelled after the
 watchdog lost its connection (C21)

---
 postbound/postgres.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/postbound/postgres.py b/postbound/postgres.py
index 1a59f79..6df12d5 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -3877,7 +3877,7 @@ class TimeoutQueryExecutor:
         }
 
     def _init_watchdog(self) -> None:
-        if self._timeout_watchdog is not None:
+        if self._timeout_watchdog is not None and not self._timeout_watchdog.closed:
             return
 
         assert self._pg_instance is not None
@@ -3888,6 +3888,15 @@ class TimeoutQueryExecutor:
 
     def _abort_backend(self, pid: int) -> None:
         assert self._timeout_watchdog is not None
+        try:
+            self._send_cancel(pid)
+        except psycopg.OperationalError:
+            # the watchdog lost its connection in the meantime
+            self._timeout_watchdog.close()
+            self._init_watchdog()
+            self._send_cancel(pid)
+
+    def _send_cancel(self, pid: int) -> None:
         with self._timeout_watchdog.cursor() as cursor:
             cursor.execute(f"SELECT pg_cancel_backend({pid});")  # type: ignore
         self._timeout_watchdog.rollback()
-- 
2.43.0


From 8b00deb8ceab3ebd6c21691d1eb2b04c3d5a4ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:55 +0000
Subject: [PATCH 105/181] fix: timed queries follow the rules for cached and
 empty results of untimed queries (C21)

---
 postbound/postgres.py | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/postbound/postgres.py b/postbound/postgres.py
index 6df12d5..a2b7926 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -3701,7 +3701,7 @@ def _timeout_query_worker(
         runtime = (end_time - start_time) / 10**9
         pg_instance._last_query_runtime = runtime
 
-        raw_result_set = cursor.fetchall()
+        raw_result_set = cursor.fetchall() if cursor.rowcount >= 0 else None
         if kwargs.get("raw", False):
             result = raw_result_set
         else:
@@ -3772,12 +3772,17 @@ class TimeoutQueryExecutor:
         PostgresInterface.execute_query
         PostgresInterface.reset_connection
         """
-        cached_query: bool = (
-            kwargs.get("cache_enabled", False)
-            and query in self._pg_instance._query_cache
-        )
-        if cached_query:
-            return self._pg_instance._query_cache[str(query)]
+        if self._pg_instance._use_cache(kwargs.get("cache_enabled")):
+            cache_key = self._cache_key(query)
+            if cache_key in self._pg_instance._query_cache:
+                cached_result = self._pg_instance._query_cache[cache_key]
+                if cached_result is not None:
+                    cached_result = list(cached_result)  # see execute_query
+                return (
+                    cached_result
+                    if kwargs.get("raw", False)
+                    else simplify_result_set(cached_result)
+                )
 
         self._init_watchdog()
 
@@ -3866,6 +3871,14 @@ class TimeoutQueryExecutor:
             self._timeout_watchdog.close()
             self._timeout_watchdog = None
 
+    def _cache_key(self, query: SqlQuery | str) -> str:
+        """Determines under which name `PostgresInterface.execute_query` would cache the query."""
+        if not isinstance(query, SqlQuery):
+            return str(query)
+        if query.hints and query.hints.preparatory_statements:
+            query = transform.drop_hints(query, preparatory_statements_only=True)
+        return self._pg_instance._hinting_backend.format_query(query)
+
     def _pg_fingerprint(self) -> dict:
         """Generate a pickable representation of the current Postgres connection."""
         return {
-- 
2.43.0


From 7fcb08a239fa2432d8d415530404a5be0a746804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:17 +0000
Subject: [PATCH 106/181] fix: LIMIT 0 and LIMIT ALL are parsed (C03)

---
 postbound/parser.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/postbound/parser.py b/postbound/parser.py
index ba756a0..5e3438c 100644
--- a/postbound/parser.py
+++ b/postbound/parser.py
@@ -1868,14 +1868,19 @@ def _pglast_parse_limit(
 
     if raw_limit is not None:
         # for LIMIT ALL there is no second ival, but instead an "isnull" member that is set to true
-        raw_limit = raw_limit["A_Const"]["ival"]
-        nrows: int | None = raw_limit["ival"] if "ival" in raw_limit else None
+        # for 0 the inner ival is omitted
+        raw_limit = raw_limit["A_Const"]
+        nrows: int | None = (
+            None if raw_limit.get("isnull") else raw_limit["ival"].get("ival", 0)
+        )
     else:
         nrows = None
     if raw_offset is not None:
         offset: int = raw_offset["A_Const"]["ival"].get("ival", 0)
     else:
         offset = None
+    if nrows is None and offset is None:
+        return None
 
     normalized_query = query_txt.lower()
     contains_standard_limit = (
-- 
2.43.0


From 3009f806d203fe4030bf84137a3b69fc4eaaa5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:17 +0000
Subject: [PATCH 107/181] fix: Postgres LIMIT clauses keep a limit of 0 (C11)

---
 postbound/postgres.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/postbound/postgres.py b/postbound/postgres.py
index a2b7926..654f564 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -2183,11 +2183,12 @@ class PostgresLimitClause(Limit):
         if self.fetch_direction != "first":
             return super().__str__()
 
-        if self.limit and self.offset:
+        has_limit, has_offset = self.limit is not None, self.offset is not None
+        if has_limit and has_offset:
             return f"LIMIT {self.limit} OFFSET {self.offset}"
-        elif self.limit:
+        elif has_limit:
             return f"LIMIT {self.limit}"
-        elif self.offset:
+        elif has_offset:
             return f"OFFSET {self.offset}"
         else:
             return ""
-- 
2.43.0


From 359716c647b450f1de54ba8d5d37f8fd1970d21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:17 +0000
Subject: [PATCH 108/181] fix: GEQO is also disabled for queries that just
 reach its threshold (C11)

---
 postbound/postgres.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/postgres.py b/postbound/postgres.py
index 654f564..2ca5d95 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -2224,7 +2224,7 @@ def _generate_pghintplan_hints(
     used_parallel: bool = False
 
     geqo_thresh: str = pg_instance.config["geqo_threshold"]
-    if len(query.tables()) > int(geqo_thresh):
+    if len(query.tables()) >= int(geqo_thresh):
         warnings.warn(
             "Temporarily disabling GEQO. pg_hint_plan only works with the DP optimizer.",
             category=HintWarning,
-- 
2.43.0


From b0e74ae887ed01bfdadbad0af4a1cb567c6db71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:17 +0000
Subject: [PATCH 109/181] fix: pg_hint_plan blocks contain a single well-formed
 parallel hint (C11)

---
 postbound/postgres.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/postbound/postgres.py b/postbound/postgres.py
index 2ca5d95..b191fce 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -2244,7 +2244,7 @@ def _generate_pghintplan_hints(
             if scan.parallel_workers > 1 and not used_parallel:
                 hints.append(f"Parallel({tab} {scan.parallel_workers} hard)")
                 used_parallel = True
-            elif used_parallel:
+            elif scan.parallel_workers > 1:
                 warnings.warn(
                     "Cannot set multiple parallel hints for Postgres. Ignoring additional hints.",
                     category=HintWarning,
@@ -2266,7 +2266,8 @@ def _generate_pghintplan_hints(
                     hints.append(
                         f"Parallel({tab.identifier()} {join.parallel_workers} hard)"
                     )
-            elif used_parallel:
+                used_parallel = True
+            elif join.parallel_workers > 1:
                 warnings.warn(
                     "Cannot set multiple parallel hints for Postgres. Ignoring additional hints.",
                     category=HintWarning,
@@ -2316,8 +2317,15 @@ def _generate_pghintplan_hints(
                 )
                 continue
 
-            intermediate = " ".join(tab.identifier() for tab in tabs)
-            hints.append(f"Parallel({intermediate} {workers} hard)")
+            if len(tabs) > 1:
+                warnings.warn(
+                    "Cannot directly set parallel workers on a join with pg_hint_plan. "
+                    "Setting on all base tables instead.",
+                    category=HintWarning,
+                    stacklevel=3,
+                )
+            for tab in tabs:
+                hints.append(f"Parallel({tab.identifier()} {workers} hard)")
             used_parallel = True
 
         for setting, val in plan_params.system_settings.items():
-- 
2.43.0


From 26bdf7ad8b32e22ab66795b920ccaa9049313186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:17 +0000
Subject: [PATCH 110/181] fix: pg_lab keeps the operator hint if its workers
 have to be ignored (C11)

---
 postbound/postgres.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/postbound/postgres.py b/postbound/postgres.py
index b191fce..905fc0e 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -2394,6 +2394,7 @@ def _generate_pglab_hints(
             op = PGLabOptimizerHints[scan.operator]
             table = scan.table.identifier()
 
+            hint = f"{op}({table})"
             if scan.parallel_workers > 1 and not used_parallel:
                 # TODO: check for off-by-one errors!!!
                 hint = f"{op}({table} (workers={scan.parallel_workers}))"
@@ -2404,14 +2405,13 @@ def _generate_pglab_hints(
                     category=HintWarning,
                     stacklevel=3,
                 )
-            else:
-                hint = f"{op}({table})"
             hints.append(hint)
 
         for join in phys_ops.join_operators.values():
             op = PGLabOptimizerHints[join.operator]
             intermediate = " ".join(tab.identifier() for tab in join.intermediate)
 
+            hint = f"{op}({intermediate})"
             if join.parallel_workers > 1 and not used_parallel:
                 hint = f"{op}({intermediate} (workers={join.parallel_workers}))"
                 used_parallel = True
@@ -2421,8 +2421,6 @@ def _generate_pglab_hints(
                     category=HintWarning,
                     stacklevel=3,
                 )
-            else:
-                hint = f"{op}({intermediate})"
             hints.append(hint)
 
         for tabs, intermediate_op in phys_ops.intermediate_operators.items():
-- 
2.43.0


From 729a7855edab5ef367807ccd7765bd3d18cb7f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:17 +0000
Subject: [PATCH 111/181] fix: pg_lab hinting reports unsupported intermediate
 operators instead of failing (C11)

---
 postbound/postgres.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/postbound/postgres.py b/postbound/postgres.py
index 905fc0e..cc09020 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -2424,7 +2424,14 @@ def _generate_pglab_hints(
             hints.append(hint)
 
         for tabs, intermediate_op in phys_ops.intermediate_operators.items():
-            op = PGLabOptimizerHints[intermediate_op]
+            op = PGLabOptimizerHints.get(intermediate_op)
+            if not op:
+                warnings.warn(
+                    f"Cannot enforce operator {intermediate_op} with pg_lab. Ignoring this hint",
+                    category=HintWarning,
+                    stacklevel=3,
+                )
+                continue
             intermediate = " ".join(tab.identifier() for tab in tabs)
             hints.append(f"{op}({intermediate})")
 
-- 
2.43.0


From e57d7ae219907f40aae6b50d7be540301c3da895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:17 +0000
Subject: [PATCH 112/181] fix: DuckDB system settings are valid SET statements
 (C11)

---
 postbound/duckdb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/duckdb.py b/postbound/duckdb.py
index 5577354..feaf740 100644
--- a/postbound/duckdb.py
+++ b/postbound/duckdb.py
@@ -906,7 +906,7 @@ class DuckDBHintService(HintService):
             else:
                 val_txt = str(val)
 
-            global_settings.append(f"{param} = {val_txt};")
+            global_settings.append(f"SET {param} = {val_txt};")
 
         return HintParts(global_settings, hints)
 
-- 
2.43.0


From ecb7497f469a5568ce663ca2325f983faa86f69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:40 +0000
Subject: [PATCH 113/181] fix: pg_lab plan hints attach parallel workers to the
 operators they belong to (C11)

---
 postbound/postgres.py | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/postbound/postgres.py b/postbound/postgres.py
index cc09020..52e1e9d 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -2504,8 +2504,10 @@ def _generate_pglab_plan(
 
     used_parallel = False
     in_upperrel = True
-    par_workers: Optional[int] = None
+    # workers of nodes that cannot be hinted (e.g. Gather) apply to the operator right below them
+    pending_workers: dict[int, int | None] = {}
     for node in _iter_plan_bfs(plan):
+        par_workers = pending_workers.get(id(node))
         if node.is_scan() or node.is_join():
             in_upperrel = False
 
@@ -2516,31 +2518,23 @@ def _generate_pglab_plan(
             hints.append(f"Result(workers={par_workers})")
             used_parallel = True
             par_workers = None
-        elif in_upperrel and par_workers and used_parallel:
+        elif par_workers and used_parallel:
             warnings.warn(
                 "Cannot set multiple parallel hints for Postgres. Ignoring additional hints.",
                 category=HintWarning,
                 stacklevel=3,
             )
+            par_workers = None
 
-        if node.operator is None:
-            continue
-        operator = PGLabOptimizerHints.get(node.operator)
+        operator = PGLabOptimizerHints.get(node.operator) if node.operator else None
         if not operator:
+            pending_workers |= {id(child): par_workers for child in node.children}
             continue
         intermediate = " ".join(tab.identifier() for tab in node.tables())
 
         if par_workers and not used_parallel:
             metadata = f" (workers={par_workers})"
-            par_workers = None
             used_parallel = True
-        elif par_workers and used_parallel:
-            metadata = ""
-            warnings.warn(
-                "Cannot set multiple parallel hints for Postgres. Ignoring additional hints.",
-                category=HintWarning,
-                stacklevel=3,
-            )
         else:
             metadata = ""
         hints.append(f"{operator}({intermediate}{metadata})")
-- 
2.43.0


From a819ddf339b9ce9780fddc9c9456f600d7eead2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:40 +0000
Subject: [PATCH 114/181] fix: DuckDB hinting reports decisions it cannot
 express (C11)

---
 postbound/duckdb.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/postbound/duckdb.py b/postbound/duckdb.py
index feaf740..c6e5afc 100644
--- a/postbound/duckdb.py
+++ b/postbound/duckdb.py
@@ -44,6 +44,7 @@ from .db import (
     DatabaseSchema,
     DatabaseStatistics,
     HintService,
+    HintWarning,
     Histogram,
     HistogramApproximation,
     OptimizerInterface,
@@ -859,6 +860,13 @@ class DuckDBHintService(HintService):
             intermediate_txt = self._intermediate_to_hint(intermediate)
             hints.append(f"{op_txt}({intermediate_txt})")
 
+        if any(assignment.parallel_workers > 1 for assignment in ops):
+            warnings.warn(
+                "DuckDB does not support parallel worker hints. Ignoring the workers of operators.",
+                category=HintWarning,
+                stacklevel=3,
+            )
+
         if ops.intermediate_operators:
             raise UnsupportedDatabaseFeatureError(
                 self._db,
@@ -899,6 +907,13 @@ class DuckDBHintService(HintService):
         if parameters.parallel_workers:
             raise UnsupportedDatabaseFeatureError(self._db, "parallel worker hints")
 
+        if parameters.execution_mode is not None:
+            warnings.warn(
+                "DuckDB does not support execution mode hints",
+                category=HintWarning,
+                stacklevel=3,
+            )
+
         global_settings: list[str] = []
         for param, val in parameters.system_settings.items():
             if isinstance(val, str):
-- 
2.43.0


From 1a3d9aa5b591175293fea85f5d4659a13a298b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:01 +0000
Subject: [PATCH 115/181] fix: pg_lab plan hints contain one cardinality per
 intermediate (C11)

---
 postbound/postgres.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/postbound/postgres.py b/postbound/postgres.py
index 52e1e9d..c2c6fa4 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -2539,8 +2539,9 @@ def _generate_pglab_plan(
             metadata = ""
         hints.append(f"{operator}({intermediate}{metadata})")
 
+        # auxiliary nodes compute the same intermediate as their input, they must not provide a competing cardinality
         card = node.actual_cardinality or node.estimated_cardinality
-        if card.is_valid():
+        if card.is_valid() and not node.is_auxiliary():
             hints.append(f"Card({intermediate} #{card})")
 
     hints = [f"  {line}" for line in hints]
-- 
2.43.0


From ee6b7c2e2f3a025ee9d38f656aa83e4afed1be69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:19 +0000
Subject: [PATCH 116/181] fix: pretty printing keeps a limit or offset of 0
 (C11)

---
 postbound/qal/_formatter.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/postbound/qal/_formatter.py b/postbound/qal/_formatter.py
index 80b7118..6dee44a 100644
--- a/postbound/qal/_formatter.py
+++ b/postbound/qal/_formatter.py
@@ -585,27 +585,29 @@ def _quick_format_limit(limit_clause: Limit, *, flavor: SqlDialect) -> list[str]
     list[str]
         The pretty-printed parts of the clause, indented as necessary.
     """
+    has_limit = limit_clause.limit is not None
+    has_offset = limit_clause.offset is not None
     match flavor:
         case "vanilla":
             fetch_direction = limit_clause.fetch_direction.upper()
-            if limit_clause.limit and limit_clause.offset:
+            if has_limit and has_offset:
                 return [
                     f"FETCH {fetch_direction} {limit_clause.limit} ROWS ONLY",
                     f"OFFSET {limit_clause.offset} ROWS",
                 ]
-            elif limit_clause.limit:
+            elif has_limit:
                 return [f"FETCH {fetch_direction} {limit_clause.limit} ROWS ONLY"]
-            elif limit_clause.offset:
+            elif has_offset:
                 return [f"OFFSET {limit_clause.offset} ROWS"]
             else:
                 return []
 
         case "postgres" if limit_clause.fetch_direction in {"first", "next"}:
-            if limit_clause.limit and limit_clause.offset:
+            if has_limit and has_offset:
                 return [f"LIMIT {limit_clause.limit}", f"OFFSET {limit_clause.offset}"]
-            elif limit_clause.limit:
+            elif has_limit:
                 return [f"LIMIT {limit_clause.limit}"]
-            elif limit_clause.offset:
+            elif has_offset:
                 return [f"OFFSET {limit_clause.offset}"]
             return []
 
-- 
2.43.0


From f3f999c9f90ea5e99bba2edf787473e14a38cef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:11 +0000
Subject: [PATCH 117/181] fix: comparisons with ANY/ALL subqueries can be
 parsed (C03)

---
 postbound/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postbound/parser.py b/postbound/parser.py
index 5e3438c..b74ea25 100644
--- a/postbound/parser.py
+++ b/postbound/parser.py
@@ -1131,11 +1131,11 @@ def _pglast_parse_expression(
                 return InPredicate.subquery(testexpr, subquery)
 
             if sublink_type == "ANY_SUBLINK":
-                operator = _PglastOperatorMap[expression["operName"]]
+                operator = _pglast_parse_operator(expression["operName"])
                 subquery_expression = QuantifierExpression.any(subquery)
                 return BinaryPredicate(operator, testexpr, subquery_expression)
             elif sublink_type == "ALL_SUBLINK":
-                operator = _PglastOperatorMap[expression["operName"]]
+                operator = _pglast_parse_operator(expression["operName"])
                 subquery_expression = QuantifierExpression.all(subquery)
                 return BinaryPredicate(operator, testexpr, subquery_expression)
             else:
-- 
2.43.0


From a46fe83767f3b5a874f1467045a8772f38a5cca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:11 +0000
Subject: [PATCH 118/181] fix: NOT BETWEEN can be parsed (C03)

---
 postbound/parser.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/postbound/parser.py b/postbound/parser.py
index b74ea25..df976df 100644
--- a/postbound/parser.py
+++ b/postbound/parser.py
@@ -903,7 +903,10 @@ def _pglast_parse_expression(
             )
             return BinaryPredicate(operator, left, right)
 
-        case "A_Expr" if pglast_data["A_Expr"]["kind"] == "AEXPR_BETWEEN":
+        case "A_Expr" if pglast_data["A_Expr"]["kind"] in [
+            "AEXPR_BETWEEN",
+            "AEXPR_NOT_BETWEEN",
+        ]:
             expression = pglast_data["A_Expr"]
             left = _pglast_parse_expression(
                 expression["lexpr"], namespace=namespace, query_txt=query_txt
@@ -917,7 +920,10 @@ def _pglast_parse_expression(
             upper = _pglast_parse_expression(
                 raw_interval[1], namespace=namespace, query_txt=query_txt
             )
-            return BetweenPredicate(left, (lower, upper))
+            predicate = BetweenPredicate(left, (lower, upper))
+            if expression["kind"] == "AEXPR_NOT_BETWEEN":
+                return CompoundPredicate.create_not(predicate)
+            return predicate
 
         case "A_Expr" if pglast_data["A_Expr"]["kind"] == "AEXPR_IN":
             expression = pglast_data["A_Expr"]
-- 
2.43.0


From be328cd0380d6c9c254053fcd850ae528aa54a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:11 +0000
Subject: [PATCH 119/181] fix: arithmetic expressions are rendered with the
 required brackets (C03)

---
 postbound/qal/_qal.py | 30 +++++++++++++-----------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 35a6d22..1a795bb 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -650,25 +650,15 @@ class MathExpression(SqlExpression):
 
     def _requires_brackets(self, child: SqlExpression) -> bool:
         """Checks, whether some expression must be wrapped in brackets to ensure correct evaluation order."""
+        if isinstance(child, AbstractPredicate):
+            return True
         if not isinstance(child, MathExpression):
             return False
-        if child.operator == self.operator:
-            return False
-        if (
-            self.operator == MathOperator.Concatenate
-            or child.operator == MathOperator.Concatenate
-        ):
-            return True
-
-        lazy_ops = {MathOperator.Add, MathOperator.Multiply, MathOperator.Modulo}
-        eager_ops = {MathOperator.Subtract, MathOperator.Divide}
-
-        strict_brackets = self.operator in eager_ops and child.operator in lazy_ops
-
-        # these brackets are not really required, but we still use them for better readability
-        pretty_brackets = self.operator in lazy_ops and child.operator in eager_ops
 
-        return strict_brackets or pretty_brackets
+        # all operators are left-associative. Therefore, only chains of the same operator in the first argument can be
+        # written without brackets. Some of the remaining brackets are not really required, but we still use them for better
+        # readability
+        return child is not self.first_arg or child.operator != self.operator
 
     __hash__ = SqlExpression.__hash__
 
@@ -683,7 +673,13 @@ class MathExpression(SqlExpression):
     def __str__(self) -> str:
         operator_str = self.operator.value
         if not self.second_arg:
-            return f"{operator_str}{self.first_arg}"
+            first_str = str(self.first_arg)
+            if (
+                isinstance(self.first_arg, (MathExpression, AbstractPredicate))
+                or first_str[:1] in "+-"
+            ):
+                first_str = f"({first_str})"
+            return f"{operator_str}{first_str}"
         if isinstance(self.second_arg, tuple):
             all_args = [self.first_arg] + list(self.second_arg)
             return operator_str.join(f"({arg})" for arg in all_args)
-- 
2.43.0


From e38c9133d059762b9cf7553bdea7d6d9a01da1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:11 +0000
Subject: [PATCH 120/181] fix: nested predicates are rendered with the required
 brackets (C03)

---
 postbound/qal/_qal.py | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 1a795bb..e30ac43 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -2029,6 +2029,13 @@ def _collect_column_expression_tables(expression: SqlExpression) -> set[TableRef
     }
 
 
+def _stringify_operand(expression: SqlExpression) -> str:
+    """Formats the operand of a predicate. Other predicates must be wrapped in brackets to ensure correct evaluation order."""
+    if isinstance(expression, AbstractPredicate):
+        return f"({expression})"
+    return str(expression)
+
+
 def _generate_join_pairs(
     first_columns: Iterable[ColumnReference], second_columns: Iterable[ColumnReference]
 ) -> set[tuple[ColumnReference, ColumnReference]]:
@@ -2608,7 +2615,9 @@ class BinaryPredicate(BasePredicate):
         )
 
     def __str__(self) -> str:
-        return f"{self.first_argument} {self.operation.value} {self.second_argument}"
+        first = _stringify_operand(self.first_argument)
+        second = _stringify_operand(self.second_argument)
+        return f"{first} {self.operation.value} {second}"
 
 
 class BetweenPredicate(BasePredicate):
@@ -2772,8 +2781,9 @@ class BetweenPredicate(BasePredicate):
         )
 
     def __str__(self) -> str:
-        interval_start, interval_end = self.interval
-        return f"{self.column} BETWEEN {interval_start} AND {interval_end}"
+        column = _stringify_operand(self.column)
+        interval_start, interval_end = map(_stringify_operand, self.interval)
+        return f"{column} BETWEEN {interval_start} AND {interval_end}"
 
 
 class InPredicate(BasePredicate):
@@ -2950,7 +2960,7 @@ class InPredicate(BasePredicate):
 
     def __str__(self) -> str:
         vals = self._stringify_values()
-        return f"{self.column} IN {vals}"
+        return f"{_stringify_operand(self.column)} IN {vals}"
 
 
 class UnaryPredicate(BasePredicate):
@@ -3336,9 +3346,14 @@ class CompoundPredicate(AbstractPredicate):
                 raise ValueError(f"Unknown operation: '{self.operation}'")
 
     def _stringify_not(self) -> str:
+        if isinstance(self.children, CompoundPredicate) and (
+            self.children.operation == CompoundOperator.And
+        ):
+            return f"NOT ({self.children})"
         if not isinstance(self.children, InPredicate):
             return f"NOT {self.children}"
-        return f"{self.children.column} NOT IN {self.children._stringify_values()}"
+        column = _stringify_operand(self.children.column)
+        return f"{column} NOT IN {self.children._stringify_values()}"
 
     __hash__ = AbstractPredicate.__hash__
 
@@ -3362,7 +3377,13 @@ class CompoundPredicate(AbstractPredicate):
             )
             return f"({components})"
         elif self.operation == CompoundOperator.And:
-            return " AND ".join(str(child) for child in self.iterchildren())
+            return " AND ".join(
+                f"({child})"
+                if isinstance(child, CompoundPredicate)
+                and child.operation == CompoundOperator.And
+                else str(child)
+                for child in self.iterchildren()
+            )
         else:
             raise ValueError(f"Unknown operation: '{self.operation}'")
 
-- 
2.43.0


From ac905a87a28d76548ac768aaf7bc74e0cc40e69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:32 +0000
Subject: [PATCH 121/181] fix: Postgres-style casts of negative constants apply
 to the signed value (C03)

---
 postbound/qal/_formatter.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/postbound/qal/_formatter.py b/postbound/qal/_formatter.py
index 6dee44a..7a45b57 100644
--- a/postbound/qal/_formatter.py
+++ b/postbound/qal/_formatter.py
@@ -1022,13 +1022,12 @@ class _PostgresCastExpression(CastExpression):
             type_str = self.target_type
         if self.array_type:
             type_str = f"{type_str}[]"
-        casted_str = (
-            str(self.casted_expression)
-            if isinstance(
-                self.casted_expression, (ColumnExpression, StaticValueExpression)
-            )
-            else f"({self.casted_expression})"
-        )
+        casted_str = str(self.casted_expression)
+        if not isinstance(
+            self.casted_expression, (ColumnExpression, StaticValueExpression)
+        ) or casted_str.startswith("-"):
+            # the cast operator binds tighter than everything else, including the sign of a constant
+            casted_str = f"({casted_str})"
         return f"{casted_str}::{type_str}"
 
 
-- 
2.43.0


From 49c2d804f9c82ce3849b8d63a344a043deb42d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:34 +0000
Subject: [PATCH 122/181] fix: nested joins on the right-hand side are rendered
 with brackets (C03)

---
 postbound/qal/_formatter.py |  6 +++++-
 postbound/qal/_qal.py       | 10 ++++++++--
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/postbound/qal/_formatter.py b/postbound/qal/_formatter.py
index 7a45b57..759d05c 100644
--- a/postbound/qal/_formatter.py
+++ b/postbound/qal/_formatter.py
@@ -418,7 +418,11 @@ def _quick_format_tablesource(
             elems: list[str] = []
             elems += _quick_format_tablesource(table_source.left, flavor=flavor)
             elems.append(f"{table_source.join_type}")
-            elems += _quick_format_tablesource(table_source.right, flavor=flavor)
+            right_elems = _quick_format_tablesource(table_source.right, flavor=flavor)
+            if isinstance(table_source.right, JoinTableSource):
+                # joins are left-associative, so joins on the right-hand side need brackets
+                right_elems = ["("] + right_elems + [")"]
+            elems += right_elems
             if table_source.join_condition:
                 elems[-1] += f" ON {table_source.join_condition}"
             elems = [((" " * DefaultIndent) + str(child)) for child in elems]
diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index e30ac43..3bf542a 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -6955,9 +6955,15 @@ class JoinTableSource(TableSource):
         return str(self)
 
     def __str__(self) -> str:
+        # joins are left-associative, so joins on the right-hand side need brackets
+        joined_table = (
+            f"({self.joined_table})"
+            if isinstance(self.joined_table, JoinTableSource)
+            else str(self.joined_table)
+        )
         if self.join_type in AutoJoins:
-            return f"{self.source} {self.join_type} {self.joined_table}"
-        return f"{self.source} {self.join_type} {self.joined_table} ON {self.join_condition}"
+            return f"{self.source} {self.join_type} {joined_table}"
+        return f"{self.source} {self.join_type} {joined_table} ON {self.join_condition}"
 
 
 TableType = TypeVar("TableType", bound=TableSource)
-- 
2.43.0


From b9df1724a8339ddb866ea1dea0df421abb7a8b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:53 +0000
Subject: [PATCH 123/181] fix: natural joins are parsed as natural joins rather
 than cross joins, USING is rejected (C03)

---
 postbound/parser.py   | 15 +++++++++++++--
 postbound/qal/_qal.py |  2 +-
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/postbound/parser.py b/postbound/parser.py
index df976df..aca1d49 100644
--- a/postbound/parser.py
+++ b/postbound/parser.py
@@ -1479,7 +1479,18 @@ def _pglast_parse_from_entry(
 
         case "JoinExpr":
             join_expr: dict = pglast_data["JoinExpr"]
+            is_natural: bool = join_expr.get("isNatural", False)
             match join_expr["jointype"]:
+                case "JOIN_INNER" if is_natural:
+                    join_type = JoinType.NaturalInnerJoin
+                case "JOIN_LEFT" if is_natural:
+                    join_type = JoinType.NaturalLeftJoin
+                case "JOIN_RIGHT" if is_natural:
+                    join_type = JoinType.NaturalRightJoin
+                case "JOIN_FULL" if is_natural:
+                    join_type = JoinType.NaturalOuterJoin
+                case _ if "usingClause" in join_expr:
+                    raise ParserError("JOIN ... USING is not supported: " + query_txt)
                 case "JOIN_INNER" if "quals" in join_expr:
                     join_type = JoinType.InnerJoin
                 case "JOIN_INNER" if "quals" not in join_expr:
@@ -1501,8 +1512,8 @@ def _pglast_parse_from_entry(
             right = _pglast_parse_from_entry(
                 join_expr["rarg"], namespace=namespace, query_txt=query_txt
             )
-            if join_type == JoinType.CrossJoin:
-                return JoinTableSource(left, right, join_type=JoinType.CrossJoin)
+            if "quals" not in join_expr:
+                return JoinTableSource(left, right, join_type=join_type)
 
             join_condition = _pglast_parse_predicate(
                 join_expr["quals"], namespace=namespace, query_txt=query_txt
diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 3bf542a..a191e36 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -6720,7 +6720,7 @@ class JoinType(enum.Enum):
     CrossJoin = "CROSS JOIN"
 
     NaturalInnerJoin = "NATURAL JOIN"
-    NaturalOuterJoin = "NATURAL OUTER JOIN"
+    NaturalOuterJoin = "NATURAL FULL OUTER JOIN"
     NaturalLeftJoin = "NATURAL LEFT JOIN"
     NaturalRightJoin = "NATURAL RIGHT JOIN"
 
-- 
2.43.0


From 763bbfff4962c1bfeb6844de13542a3c981b8c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:53 +0000
Subject: [PATCH 124/181] fix: INTERSECT ALL and EXCEPT ALL are rejected
 instead of being parsed without ALL (C03)

---
 postbound/parser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/postbound/parser.py b/postbound/parser.py
index aca1d49..9274388 100644
--- a/postbound/parser.py
+++ b/postbound/parser.py
@@ -1968,6 +1968,10 @@ def _pglast_parse_setop(
                 if pglast_data.get("all", False)
                 else SetOperator.Union
             )
+        case "SETOP_INTERSECT" | "SETOP_EXCEPT" if pglast_data.get("all", False):
+            raise ParserError(
+                "INTERSECT ALL and EXCEPT ALL are not supported: " + query_txt
+            )
         case "SETOP_INTERSECT":
             operator = SetOperator.Intersect
         case "SETOP_EXCEPT":
-- 
2.43.0


From 42bfed12f28d9ea8dc6e0ed71fbd07c0eb41f516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:53 +0000
Subject: [PATCH 125/181] fix: operands of set operations are rendered with the
 required brackets (C03)

---
 postbound/qal/_qal.py | 39 ++++++++++++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 9 deletions(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index a191e36..ef40edd 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -7826,8 +7826,8 @@ class UnionClause(BaseClause):
         )
 
     def __str__(self) -> str:
-        lhs_str = self._lhs.stringify(trailing_delimiter=False)
-        rhs_str = self._rhs.stringify(trailing_delimiter=True)
+        lhs_str = _stringify_set_operand(self._lhs)
+        rhs_str = _stringify_set_operand(self._rhs)
         union_str = "UNION ALL" if self._union_all else "UNION"
         return f"{lhs_str} {union_str} {rhs_str}"
 
@@ -7905,8 +7905,8 @@ class ExceptClause(BaseClause):
         )
 
     def __str__(self) -> str:
-        lhs_str = self._lhs.stringify(trailing_delimiter=False)
-        rhs_str = self._rhs.stringify(trailing_delimiter=True)
+        lhs_str = _stringify_set_operand(self._lhs)
+        rhs_str = _stringify_set_operand(self._rhs)
         return f"{lhs_str} EXCEPT {rhs_str}"
 
 
@@ -8000,8 +8000,8 @@ class IntersectClause(BaseClause):
         )
 
     def __str__(self) -> str:
-        lhs_str = self._lhs.stringify(trailing_delimiter=False)
-        rhs_str = self._rhs.stringify(trailing_delimiter=True)
+        lhs_str = _stringify_set_operand(self._lhs)
+        rhs_str = _stringify_set_operand(self._rhs)
         return f"{lhs_str} INTERSECT {rhs_str}"
 
 
@@ -8081,6 +8081,29 @@ class ClauseVisitor(abc.ABC, Generic[VisitorResult]):
         raise NotImplementedError
 
 
+def _stringify_set_operand(query: SelectStatement) -> str:
+    """Handler method to provide the string representation of one side of a set operation.
+
+    Plain *SELECT* queries are used as-is. All queries that contain set operations themselves and all queries with clauses that
+    could also belong to the set operation are put into brackets.
+
+    Parameters
+    ----------
+    query : SelectStatement
+        The left or right side of the set operation
+
+    Returns
+    -------
+    str
+        The string representation, without a trailing delimiter
+    """
+    needs_brackets = isinstance(query, SetQuery) or bool(
+        query.cte_clause or query.orderby_clause or query.limit_clause
+    )
+    query_str = query.stringify(trailing_delimiter=False)
+    return f"({query_str})" if needs_brackets else query_str
+
+
 def _stringify_clause(clause: BaseClause) -> str:
     """Handler method to provide a refined string for a specific given clause, to be used by the `SqlQuery` ``__str__`` method.
 
@@ -10054,9 +10077,7 @@ class SetQuery:
         """
         delim = ";" if trailing_delimiter else ""
         return (
-            "".join(
-                _stringify_clause(clause).rstrip("; ") for clause in self.clauses()
-            ).rstrip()
+            "".join(_stringify_clause(clause) for clause in self.clauses()).rstrip()
             + delim
         )
 
-- 
2.43.0


From 3994be5eefd0d3a74999b336da205937738f5819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:31 +0000
Subject: [PATCH 126/181] fix: multiple comma-separated joins can be parsed
 (C03)

---
 postbound/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/parser.py b/postbound/parser.py
index 9274388..8cc81d3 100644
--- a/postbound/parser.py
+++ b/postbound/parser.py
@@ -1675,7 +1675,7 @@ def _pglast_parse_from(
 
     if not contains_join and not contains_mixed:
         return ImplicitFromClause(table_sources)
-    if contains_join and not contains_mixed:
+    if contains_join and not contains_mixed and len(table_sources) == 1:
         return ExplicitFromClause(table_sources)
 
     return From(table_sources)
-- 
2.43.0


From 3d52994981af7ce9dfb1c41c864c6d4e0a219eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:31 +0000
Subject: [PATCH 127/181] fix: quantified subqueries are not bracketed twice
 (C03)

---
 postbound/qal/_qal.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index ef40edd..f01c260 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -1656,7 +1656,11 @@ class QuantifierExpression(SqlExpression):
         )
 
     def __str__(self) -> str:
-        return f"{self.quantifier.value} ({self.expression})"
+        expression_str = str(self.expression)
+        if not isinstance(self.expression, SubqueryExpression):
+            # subqueries supply their own brackets
+            expression_str = f"({expression_str})"
+        return f"{self.quantifier.value} {expression_str}"
 
 
 class SqlExpressionVisitor(abc.ABC, Generic[VisitorResult]):
-- 
2.43.0


From d326f8d29546d34ba2cac7c1ab0c56497cb17a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:35 +0000
Subject: [PATCH 128/181] fix: set queries can be used as quantified subqueries
 (C03)

---
 postbound/qal/_qal.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index f01c260..c9c52e4 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -1588,7 +1588,7 @@ class QuantifierExpression(SqlExpression):
         """Create an ANY expression."""
         expression = (
             SubqueryExpression(expression)
-            if isinstance(expression, SqlQuery)
+            if isinstance(expression, (SqlQuery, SetQuery))
             else expression
         )
         return QuantifierExpression(expression, quantifier=QuantifierOperator.Any)
@@ -1598,7 +1598,7 @@ class QuantifierExpression(SqlExpression):
         """Create an ALL expression."""
         expression = (
             SubqueryExpression(expression)
-            if isinstance(expression, SqlQuery)
+            if isinstance(expression, (SqlQuery, SetQuery))
             else expression
         )
         return QuantifierExpression(expression, quantifier=QuantifierOperator.All)
@@ -1874,7 +1874,7 @@ def as_expression(value: object) -> SqlExpression:
 
     if isinstance(value, ColumnReference):
         return ColumnExpression(value)
-    elif isinstance(value, SqlQuery):
+    elif isinstance(value, (SqlQuery, SetQuery)):
         return SubqueryExpression(value)
 
     if value == "*":
-- 
2.43.0


From ab1b1a2b8ab0b12b2d651a433102cb495c1d98b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:23 +0000
Subject: [PATCH 129/181] fix: window functions keep their star and DISTINCT
 arguments (C03)

---
 postbound/parser.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/postbound/parser.py b/postbound/parser.py
index 8cc81d3..c36649f 100644
--- a/postbound/parser.py
+++ b/postbound/parser.py
@@ -1045,11 +1045,18 @@ def _pglast_parse_expression(
                 elem["String"]["sval"] for elem in expression["funcname"]
             )
 
-            args = [
-                _pglast_parse_expression(arg, namespace=namespace, query_txt=query_txt)
-                for arg in expression.get("args", [])
-            ]
-            fn = FunctionExpression(funcname, args)
+            if expression.get("agg_star", False):
+                args = [StarExpression()]
+            else:
+                args = [
+                    _pglast_parse_expression(
+                        arg, namespace=namespace, query_txt=query_txt
+                    )
+                    for arg in expression.get("args", [])
+                ]
+            fn = FunctionExpression(
+                funcname, args, distinct=expression.get("agg_distinct", False)
+            )
 
             window_spec: dict = expression["over"]
 
-- 
2.43.0


From 1afe7756e6559bf0590a3c830adc688bca845c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:23 +0000
Subject: [PATCH 130/181] fix: unsupported SQL constructs are rejected by the
 parser instead of being dropped (C03)

---
 postbound/parser.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/postbound/parser.py b/postbound/parser.py
index c36649f..9076718 100644
--- a/postbound/parser.py
+++ b/postbound/parser.py
@@ -518,6 +518,10 @@ class QueryNamespace:
         self._column_cache.clear()
 
 
+_NonDefaultFrame = 1
+"""The flag that Postgres uses to mark window frames which are specified explicitly."""
+
+
 def _pglast_is_actual_colref(pglast_data: dict) -> bool:
     """Checks, whether a apparent column reference is actually a column reference and not a star expression in disguise.
 
@@ -1015,6 +1019,8 @@ def _pglast_parse_expression(
             funcname = ".".join(
                 elem["String"]["sval"] for elem in expression["funcname"]
             )
+            if "agg_order" in expression:
+                raise ParserError("Ordered aggregates are not supported: " + query_txt)
             distinct = expression.get("agg_distinct", False)
             if expression.get("agg_filter", False):
                 filter_expr = _pglast_parse_predicate(
@@ -1059,6 +1065,10 @@ def _pglast_parse_expression(
             )
 
             window_spec: dict = expression["over"]
+            if "name" in window_spec or "refname" in window_spec:
+                raise ParserError("Named windows are not supported: " + query_txt)
+            if window_spec.get("frameOptions", 0) & _NonDefaultFrame:
+                raise ParserError("Window frames are not supported: " + query_txt)
 
             if "partitionClause" in window_spec:
                 partition = [
@@ -1294,6 +1304,8 @@ def _pglast_parse_ctes(
                 columns=columns,
                 materialized=force_materialization,
             )
+        elif "aliascolnames" in current_cte:
+            raise ParserError("Column aliases are not supported for CTEs: " + query_txt)
         else:
             cte_query = _pglast_parse_query(
                 current_cte["ctequery"]["SelectStmt"],
@@ -1419,6 +1431,8 @@ def _pglast_parse_rangevar(rangevar: dict) -> TableReference:
         The parsed table reference.
     """
     name = rangevar["relname"]
+    if "colnames" in rangevar.get("alias", {}):
+        raise ParserError("Column aliases are not supported for table " + name)
     alias = rangevar["alias"]["aliasname"] if "alias" in rangevar else None
     schema = rangevar.get("schemaname", "")
     return TableReference(name, alias, schema=schema)
@@ -1543,6 +1557,11 @@ def _pglast_parse_from_entry(
             raw_subquery: dict = pglast_data["RangeSubselect"]
             is_lateral = raw_subquery.get("lateral", False)
 
+            if "colnames" in raw_subquery.get("alias", {}):
+                raise ParserError(
+                    "Column aliases are not supported for subqueries: " + query_txt
+                )
+
             if "alias" in raw_subquery:
                 alias: str = raw_subquery["alias"]["aliasname"]
             else:
@@ -1993,6 +2012,8 @@ def _pglast_parse_setop(
     else:
         order_clause = None
 
+    if pglast_data["limitOption"] == "LIMIT_OPTION_WITH_TIES":
+        raise ParserError("FETCH ... WITH TIES is not supported: " + query_txt)
     if pglast_data["limitOption"] == "LIMIT_OPTION_COUNT":
         limit_clause = _pglast_parse_limit(
             pglast_data, namespace=parent_namespace, query_txt=query_txt
@@ -2121,6 +2142,8 @@ def _pglast_parse_query(
         )
         clauses.append(order_clause)
 
+    if stmt["limitOption"] == "LIMIT_OPTION_WITH_TIES":
+        raise ParserError("FETCH ... WITH TIES is not supported: " + query_txt)
     if stmt["limitOption"] == "LIMIT_OPTION_COUNT":
         limit_clause = _pglast_parse_limit(
             stmt, namespace=namespace, query_txt=query_txt
-- 
2.43.0


From 815e05b9c7462599a88b3e741b21a4995507703e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:23 +0000
Subject: [PATCH 131/181] fix: pretty printing casts to array types keeps the
 array (C03)

---
 postbound/qal/_formatter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/qal/_formatter.py b/postbound/qal/_formatter.py
index 759d05c..a3a8eeb 100644
--- a/postbound/qal/_formatter.py
+++ b/postbound/qal/_formatter.py
@@ -715,7 +715,7 @@ def _expression_prettifier(
                 indentation=indentation,
             )
             return (
-                target(replaced_cast, typ, type_params=params)
+                target(replaced_cast, typ, type_params=params, array_type=array)
                 if flavor == "vanilla"
                 else _PostgresCastExpression(
                     replaced_cast, typ, type_params=params, array_type=array
-- 
2.43.0


From a336ce71db8e3a3ea2408265f87314fb72266700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:48 +0000
Subject: [PATCH 132/181] fix: DuckDB analyze_plan and parse_plan must accept
 both shapes of EXPLAIN output (C24)

---
 postbound/duckdb.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/postbound/duckdb.py b/postbound/duckdb.py
index c6e5afc..99dd52e 100644
--- a/postbound/duckdb.py
+++ b/postbound/duckdb.py
@@ -530,6 +530,9 @@ def parse_duckdb_plan(
     """
     if isinstance(raw_plan, str):
         raw_plan = json.loads(raw_plan)
+    if isinstance(raw_plan, list):
+        # plain EXPLAIN output is wrapped in a list, EXPLAIN ANALYZE output is not
+        raw_plan = raw_plan[0]
 
     node_type = raw_plan.get("name") or raw_plan.get("operator_name")
     if not node_type:
@@ -638,7 +641,7 @@ class DuckDBOptimizer(OptimizerInterface):
 
         raw_explain = result_set[1]
         parsed = json.loads(raw_explain)
-        return parse_duckdb_plan(parsed[0], query=query)
+        return parse_duckdb_plan(parsed, query=query)
 
     def parse_plan(self, plan: Any, *, query: Optional[SqlQuery] = None) -> QueryPlan:
         # Similar to the Postgres implementation of parse_plan(), we try to be gracefull
-- 
2.43.0


From 03e4e463ba4c05515f906d58860690f47ee45e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:43 +0000
Subject: [PATCH 133/181] fix: reading tables from JSON keeps their schema
 (C23)

---
 postbound/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/parser.py b/postbound/parser.py
index 9076718..6ff0da0 100644
--- a/postbound/parser.py
+++ b/postbound/parser.py
@@ -2452,7 +2452,7 @@ def load_table_json(json_data):
         json_data.get("full_name", ""),
         json_data.get("alias", ""),
         virtual=json_data.get("virtual", False),
-        schema=json_data.get("schemaname", None),
+        schema=json_data.get("schema", None),
     )
 
 
-- 
2.43.0


From 197241e616b5d68206b17d45287b0b0f41622203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:13 +0000
Subject: [PATCH 134/181] fix: expressions and predicates over virtual tables
 can be read from JSON (C23)

---
 postbound/parser.py | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/postbound/parser.py b/postbound/parser.py
index 6ff0da0..da06996 100644
--- a/postbound/parser.py
+++ b/postbound/parser.py
@@ -38,7 +38,7 @@ from typing import Literal, Optional, overload
 import pglast
 
 from . import util
-from ._core import ColumnReference, TableReference
+from ._core import ColumnReference, TableReference, quote
 from .db import DatabasePool, DatabaseSchema
 from .qal import (
     AbstractPredicate,
@@ -2485,6 +2485,27 @@ def load_column_json(json_data):
     )
 
 
+def _emulate_sources(tables: Iterable[TableReference]) -> tuple[str, str]:
+    """Provides the WITH clause (if necessary) and the FROM clause that introduce specific tables in an emulated query.
+
+    Virtual tables are introduced by dummy subqueries or CTEs to make sure that they remain virtual.
+    """
+    ctes: list[str] = []
+    sources: list[str] = []
+    for tab in tables:
+        if not tab.virtual:
+            sources.append(str(tab))
+        elif tab.full_name:
+            ctes.append(f"{quote(tab.full_name)} AS (SELECT 1)")
+            sources.append(str(tab))
+        else:
+            sources.append(f"(SELECT 1) AS {quote(tab.identifier())}")
+
+    with_clause = f"WITH {', '.join(ctes)} " if ctes else ""
+    from_clause = f" FROM {', '.join(sources)}" if sources else ""
+    return with_clause, from_clause
+
+
 @overload
 def load_expression_json(json_data: Literal[None] | Literal[""]) -> None: ...
 
@@ -2513,11 +2534,8 @@ def load_expression_json(json_data):
 
     tables = [load_table_json(table_data) for table_data in json_data.get("tables", [])]
     expression_str = json_data["expression"]
-    if not tables:
-        emulated_query = f"SELECT {expression_str}"
-    else:
-        from_clause_str = ", ".join(str(tab) for tab in tables)
-        emulated_query = f"SELECT {expression_str} FROM {from_clause_str}"
+    with_clause, from_clause = _emulate_sources(tables)
+    emulated_query = f"{with_clause}SELECT {expression_str}{from_clause}"
 
     parsed_query = parse_query(emulated_query)
     return parsed_query.select_clause.targets[0].expression
@@ -2559,9 +2577,9 @@ def load_predicate_json(json_data):
     tables = [load_table_json(table_data) for table_data in json_data.get("tables", [])]
     if not tables:
         raise KeyError("Predicate needs at least one table!")
-    from_clause_str = ", ".join(str(tab) for tab in tables)
     predicate_str = json_data["predicate"]
-    emulated_query = f"SELECT * FROM {from_clause_str} WHERE {predicate_str}"
+    with_clause, from_clause = _emulate_sources(tables)
+    emulated_query = f"{with_clause}SELECT *{from_clause} WHERE {predicate_str}"
     parsed_query = parse_query(emulated_query)
     if not parsed_query.where_clause:
         raise ParserError(f"No predicate found. Inferred query was '{parsed_query}'.")
-- 
2.43.0


From c754665f1e2f41a44fcbd76337d508097806a90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:13 +0000
Subject: [PATCH 135/181] fix: predicates that are used as expressions can be
 read from JSON (C23)

---
 postbound/parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/postbound/parser.py b/postbound/parser.py
index da06996..0142f50 100644
--- a/postbound/parser.py
+++ b/postbound/parser.py
@@ -2531,6 +2531,8 @@ def load_expression_json(json_data):
     if not json_data:
         return None
     json_data = json_data if isinstance(json_data, dict) else json.loads(json_data)
+    if "predicate" in json_data:
+        return load_predicate_json(json_data)
 
     tables = [load_table_json(table_data) for table_data in json_data.get("tables", [])]
     expression_str = json_data["expression"]
-- 
2.43.0


From 64bae40cc4a89bf0a39da4b6e479c857836ef69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:13 +0000
Subject: [PATCH 136/181] fix: operator assignments written as JSON keep join
 directions and parallel workers (C23)

---
 postbound/_hints.py       |  7 ++-----
 postbound/opt/_helpers.py | 14 ++++----------
 2 files changed, 6 insertions(+), 15 deletions(-)

diff --git a/postbound/_hints.py b/postbound/_hints.py
index 6c88ee6..4384083 100644
--- a/postbound/_hints.py
+++ b/postbound/_hints.py
@@ -500,12 +500,9 @@ class PhysicalOperatorAssignment:
     def __json__(self) -> jsondict:
         jsonized = {
             "global_settings": [],
-            "scan_operators": [
-                {"table": scan.table, "operator": scan.operator}
-                for scan in self.scan_operators.values()
-            ],
+            "scan_operators": list(self.scan_operators.values()),
             "join_operators": [
-                {"intermediate": join.join, "operator": join.operator}
+                {"intermediate": join.join, **join.__json__()}
                 for join in self.join_operators.values()
             ],
             "intermediate_operators": [
diff --git a/postbound/opt/_helpers.py b/postbound/opt/_helpers.py
index 61705a6..93f0edc 100644
--- a/postbound/opt/_helpers.py
+++ b/postbound/opt/_helpers.py
@@ -126,18 +126,12 @@ def read_operator_assignment_json(json_data: dict | str) -> PhysicalOperatorAssi
                 raise ValueError(f"Unknown operator kind: {hint['kind']}")
 
     for hint in json_data.get("scan_operators", []):
-        parsed_table = parser.load_table_json(hint["table"])
-        assignment.scan_operators[parsed_table] = ScanOperatorAssignment(
-            ScanOperator(hint["operator"]), parsed_table
-        )
+        scan = read_operator_json(hint)
+        assignment.scan_operators[scan.table] = scan
 
     for hint in json_data.get("join_operators", []):
-        parsed_tables = frozenset(
-            parser.load_table_json(tab) for tab in hint["intermediate"]
-        )
-        assignment.join_operators[parsed_tables] = JoinOperatorAssignment(
-            JoinOperator(hint["operator"]), parsed_tables
-        )
+        join = read_operator_json(hint)
+        assignment.join_operators[join.join] = join
 
     for hint in json_data.get("intermediate_operators", []):
         parsed_tables = frozenset(
-- 
2.43.0


From e9a1e6aca52ca969baf8c61b2189f418cc65fd00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:13 +0000
Subject: [PATCH 137/181] fix: plan parameters can be written as JSON and read
 back (C23)

---
 postbound/_hints.py       | 12 ++++++++++--
 postbound/opt/_helpers.py | 16 ++++++++--------
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/postbound/_hints.py b/postbound/_hints.py
index 4384083..458e1ad 100644
--- a/postbound/_hints.py
+++ b/postbound/_hints.py
@@ -867,8 +867,16 @@ class PlanParameterization:
 
     def __json__(self) -> jsondict:
         return {
-            "cardinality_hints": self.cardinalities,
-            "parallel_worker_hints": self.parallel_workers,
+            "cardinality_hints": [
+                {"intermediate": tables, "cardinality": cardinality}
+                for tables, cardinality in self.cardinalities.items()
+            ],
+            "parallel_worker_hints": [
+                {"intermediate": tables, "workers": workers}
+                for tables, workers in self.parallel_workers.items()
+            ],
+            "system_settings": self.system_settings,
+            "execution_mode": self.execution_mode,
         }
 
     def __repr__(self) -> str:
diff --git a/postbound/opt/_helpers.py b/postbound/opt/_helpers.py
index 93f0edc..3b4f581 100644
--- a/postbound/opt/_helpers.py
+++ b/postbound/opt/_helpers.py
@@ -159,14 +159,14 @@ def read_plan_params_json(json_data: dict | str) -> PlanParameterization:
     """
     json_data = json.loads(json_data) if isinstance(json_data, str) else json_data
     params = PlanParameterization()
-    params.cardinalities = {
-        frozenset(parser.load_table_json(tab)): card
-        for tab, card in json_data.get("cardinality_hints", {}).items()
-    }
-    params.parallel_workers = {
-        frozenset(parser.load_table_json(tab)): workers
-        for tab, workers in json_data.get("parallel_worker_hints", {}).items()
-    }
+    for hint in json_data.get("cardinality_hints", []):
+        tables = [parser.load_table_json(tab) for tab in hint["intermediate"]]
+        params.add_cardinality(tables, hint["cardinality"])
+    for hint in json_data.get("parallel_worker_hints", []):
+        tables = [parser.load_table_json(tab) for tab in hint["intermediate"]]
+        params.set_workers(tables, hint["workers"])
+    params.system_settings = dict(json_data.get("system_settings", {}))
+    params.execution_mode = json_data.get("execution_mode", None)
     return params
 
 
-- 
2.43.0


From cd3ff867575689c02f44b4ddd737623578d76b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:13 +0000
Subject: [PATCH 138/181] fix: sort keys, lookup keys and subplans of a query
 plan can be read from JSON (C23)

---
 postbound/opt/_helpers.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/postbound/opt/_helpers.py b/postbound/opt/_helpers.py
index 3b4f581..0358077 100644
--- a/postbound/opt/_helpers.py
+++ b/postbound/opt/_helpers.py
@@ -585,19 +585,24 @@ def read_query_plan_json(json_data: dict | str) -> QueryPlan:
             for col in sort_key_json.get("equivalence_class", [])
         ]
         ascending = sort_key_json["ascending"]
-        sort_keys.append(SortKey.of(sort_column, ascending))
+        sort_keys.append(
+            SortKey.for_equivalence_class(sort_column, ascending=ascending)
+        )
 
+    lookup_key = parser.load_expression_json(params_json.get("lookup_key"))
     index = params_json.get("index", "")
     additional_params = {
         key: value
         for key, value in params_json.items()
-        if key not in {"base_table", "filter_predicate", "sort_keys", "index"}
+        if key
+        not in {"base_table", "filter_predicate", "sort_keys", "lookup_key", "index"}
     }
 
     plan_params = PlanParams(
         base_table=base_table,
         filter_predicate=filter_predicate,
         sort_keys=sort_keys,
+        lookup_key=lookup_key,
         index=index,
         **additional_params,
     )
@@ -634,7 +639,7 @@ def read_query_plan_json(json_data: dict | str) -> QueryPlan:
 
     subplan_json: dict = json_data.get("subplan", {})
     if subplan_json:
-        subplan_root = parser.parse_query(subplan_json["root"])
+        subplan_root = read_query_plan_json(subplan_json["root"])
         subplan_target = subplan_json.get("target_name", "")
         subplan = Subplan(root=subplan_root, target_name=subplan_target)
     else:
-- 
2.43.0


From b06d8754070216b8872ab6d8247e7d2dd731d377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:13 +0000
Subject: [PATCH 139/181] fix: nested table sequences read from JSON keep
 schemas and virtual tables (C23)

---
 postbound/opt/_helpers.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/postbound/opt/_helpers.py b/postbound/opt/_helpers.py
index 0358077..1820b77 100644
--- a/postbound/opt/_helpers.py
+++ b/postbound/opt/_helpers.py
@@ -303,8 +303,7 @@ def parse_nested_table_sequence(sequence: list[dict | list]) -> NestedTableSeque
     if isinstance(sequence, list):
         return [parse_nested_table_sequence(item) for item in sequence]
     elif isinstance(sequence, dict):
-        table_name, alias = sequence["full_name"], sequence.get("alias", "")
-        return TableReference(table_name, alias)
+        return parser.load_table_json(sequence)
     else:
         raise TypeError(f"Unknown list element: {sequence}")
 
-- 
2.43.0


From cce18f48cd367a01e5b522d577945e2fa738943a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:13 +0000
Subject: [PATCH 140/181] fix: join trees read from JSON keep their type, and
 empty join trees can be read (C23)

---
 postbound/opt/_helpers.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/postbound/opt/_helpers.py b/postbound/opt/_helpers.py
index 1820b77..9a9ddcb 100644
--- a/postbound/opt/_helpers.py
+++ b/postbound/opt/_helpers.py
@@ -9,6 +9,7 @@ import networkx as nx
 
 from .. import parser
 from .._core import (
+    Cardinality,
     IntermediateOperator,
     JoinOperator,
     PhysicalOperator,
@@ -683,15 +684,21 @@ def read_jointree_json(json_data: dict | str) -> JoinTree:
     json_data = json.loads(json_data) if isinstance(json_data, str) else json_data
 
     annotation = json_data.get("annotation", None)
+    tree_type = JoinTree
+    if json_data.get("type") == "join_tree_logical":
+        tree_type = LogicalJoinTree
+        annotation = None if annotation is None else Cardinality(annotation)
 
     table_json = json_data.get("table", None)
     if table_json:
         base_table = parser.load_table_json(table_json)
-        return JoinTree.scan(base_table, annotation=annotation)
+        return tree_type.scan(base_table, annotation=annotation)
 
+    if not json_data["outer"] and not json_data["inner"]:
+        return tree_type.empty()
     outer_child = read_jointree_json(json_data["outer"])
     inner_child = read_jointree_json(json_data["inner"])
-    return JoinTree.join(outer_child, inner_child, annotation=annotation)
+    return tree_type.join(outer_child, inner_child, annotation=annotation)
 
 
 def explode_query_plan(
-- 
2.43.0


From 0eb21833037869aedcbb267c14289cc46e2c460b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:18 +0000
Subject: [PATCH 141/181] fix: the parser's schema cache must distinguish
 tables of different schemas (C04)

---
 postbound/parser.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/postbound/parser.py b/postbound/parser.py
index 0142f50..610b8d6 100644
--- a/postbound/parser.py
+++ b/postbound/parser.py
@@ -127,7 +127,7 @@ class SchemaCache:
 
     def __init__(self, schema: Optional[DatabaseSchema] = None) -> None:
         self._schema = schema
-        self._lookup_cache: dict[str, tuple[list[str], set[str]]] = {}
+        self._lookup_cache: dict[tuple[str, str], tuple[list[str], set[str]]] = {}
 
     def initialize_with(self, schema: Optional[DatabaseSchema]) -> None:
         """Sets the catalog if necessary"""
@@ -188,16 +188,22 @@ class SchemaCache:
         tuple[list[str], set[str]]
             The columns of the table in their defined order, as well as the same columns as a set.
         """
-        table = table.full_name if isinstance(table, TableReference) else table
-        cached_res = self._lookup_cache.get(table)
+        table = table if isinstance(table, TableReference) else TableReference(table)
+        cache_key = (table.schema, table.full_name)
+        cached_res = self._lookup_cache.get(cache_key)
         if cached_res:
             return cached_res
         if not self._schema:
             return [], set()
 
-        cols: list[str] = [col.name for col in self._schema.columns(table)]
+        lookup_key = (
+            TableReference(table.full_name, schema=table.schema)
+            if table.schema
+            else table.full_name
+        )
+        cols: list[str] = [col.name for col in self._schema.columns(lookup_key)]
         cols_set = set(cols)
-        self._lookup_cache[table] = cols, cols_set
+        self._lookup_cache[cache_key] = cols, cols_set
         return cols, cols_set
 
 
-- 
2.43.0


From 7f6cf4c44151349d145f19df22c33b2aff8b076b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:18 +0000
Subject: [PATCH 142/181] fix: column definitions of table functions are
 rejected by the parser instead of being dropped (C03)

---
 postbound/parser.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/postbound/parser.py b/postbound/parser.py
index 610b8d6..79d84b7 100644
--- a/postbound/parser.py
+++ b/postbound/parser.py
@@ -1593,6 +1593,17 @@ def _pglast_parse_from_entry(
             else:
                 alias = ""
 
+            if (
+                "colnames" in raw_function.get("alias", {})
+                or "coldeflist" in raw_function
+                or raw_function.get("ordinality", False)
+                or raw_function.get("is_rowsfrom", False)
+            ):
+                raise ParserError(
+                    "Column definitions, ordinality and ROWS FROM are not supported for functions: "
+                    + query_txt
+                )
+
             function_expr: dict = raw_function["functions"][0]["List"]["items"][0]
             parsed_function = _pglast_parse_expression(
                 function_expr, namespace=namespace, query_txt=query_txt
-- 
2.43.0


From e80c657ce1b2070d77ff510d4145cab6f8d4a9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:18 +0000
Subject: [PATCH 143/181] fix: columns are bound according to SQL's scoping
 rules (C04)

---
 postbound/parser.py | 477 ++++++++++++++++++++++++--------------------
 1 file changed, 262 insertions(+), 215 deletions(-)

diff --git a/postbound/parser.py b/postbound/parser.py
index 79d84b7..f0192da 100644
--- a/postbound/parser.py
+++ b/postbound/parser.py
@@ -29,9 +29,10 @@ References
 
 from __future__ import annotations
 
+import contextlib
 import json
 import warnings
-from collections.abc import Iterable
+from collections.abc import Generator, Iterable
 from pathlib import Path
 from typing import Literal, Optional, overload
 
@@ -140,31 +141,9 @@ class SchemaCache:
             return
         self._schema = schema
 
-    def lookup_column(
-        self, colname: str, candidate_tables: Iterable[TableReference]
-    ) -> Optional[TableReference]:
-        """Resolves the table that defines a specific column.
-
-        If no catalog is available, this method will always return *None*.
-
-        Returns
-        -------
-        Optional[TableReference]
-            The table that defines the column. If there are multiple tables that could define the column, an arbitrary one
-            is returned. If none of the candidates is the correct table, *None* is returned.
-        """
-        if not self._schema:
-            return None
-
-        for candidate in candidate_tables:
-            if candidate.virtual:
-                continue
-
-            _, table_columns = self._inflate_cache(candidate)
-            if colname in table_columns:
-                return candidate
-
-        return None
+    def available(self) -> bool:
+        """Checks, whether the columns of physical tables are known."""
+        return self._schema is not None
 
     def columns_of(self, table: str | TableReference) -> list[str]:
         """Provides the columns that belong to a specific table.
@@ -218,8 +197,9 @@ class QueryNamespace:
 
     - While parsing a query, the table sources (CTEs and FROM entries) should be handled first. Each source should be
       registered in the namespace using the `register_table` method.
-    - When a subquery or CTE is encoutered, the `open_nested` method has to be called to open a new local namespace and
-      track the virtual table correctly.
+    - When a subquery or CTE is encoutered, the `open_nested` method has to be called to open a new local namespace. Once the
+      subquery or CTE can be referenced by the remainder of the query, it has to be registered in the namespace using the
+      `register_subquery` or `register_cte` methods.
     - Once all tables are registered, the parser can handle the *SELECT* clause. Afterwards, `determine_output_shape` has to
       called to compute all columns that are part of the result relation of the current namespace. This method takes care
       of resolving *SELECT \\** operations as necessary and requires that all input sources have already been registered and
@@ -228,8 +208,9 @@ class QueryNamespace:
       correct table references based on the sources that are currently available in the namespace.
 
     Each namespace can be connected to a parent namespace, which in turn can provide additional CTEs, physical tables or
-    subqueries (if the current namespace is for a LATERAL subquery). This allows the current namespace to check whether some
-    column is actually provided by an outer scope if the namespace does not provide the column itself.
+    subqueries (if the current namespace is for a LATERAL subquery or a subquery outside of the *FROM* clause). This allows
+    the current namespace to check whether some column is actually provided by an outer scope if the namespace does not
+    provide the column itself.
     """
 
     _schema_cache: SchemaCache = SchemaCache()
@@ -246,25 +227,27 @@ class QueryNamespace:
         return QueryNamespace(top_level=top_level)
 
     def __init__(
-        self, *, parent: Optional[QueryNamespace] = None, top_level: bool = False
+        self,
+        *,
+        parent: Optional[QueryNamespace] = None,
+        top_level: bool = False,
+        correlated: bool = False,
     ) -> None:
         self._parent = parent
         self._top_level = top_level
 
-        self._subquery_children: dict[str, QueryNamespace] = {}
-        """Nested namespaces that are provided as part of subqueries. Entries map alias -> query."""
-
-        self._setop_children: list[QueryNamespace] = []
-        """Namespace of the queries that form a set operation in the current namespace."""
+        self._correlated = correlated
+        """Whether the *FROM* clause of the parent namespace can be accessed from within this namespace."""
 
-        self._current_ctx: list[TableReference] = []
-        """The tables that are currently in scope, no matter their origin (CTEs or FROM clause).
+        self._current_ctx: list[
+            tuple[Optional[TableReference], Optional[QueryNamespace]]
+        ] = []
+        """The tables that are currently in scope because they are part of the *FROM* clause.
 
-        For the purpose of this dictionary, it does not matter where a table comes from (physical table, CTE, subquery, ...).
-        The only thing that matters is that the table is part of the FROM clause. This is especially important to build the
-        correct output shape of the namespace/relation if the SELECT clause contains * expressions.
+        Each table is accompanied by the namespace that computes it, unless it is a physical table. Subqueries without a name
+        are represented by their namespace only.
 
-        Therefore, there might be tables that are contained in the `_cte_sources`, but not here (if the CTE is only used to
+        There might be tables that are contained in the `_cte_sources`, but not here (if the CTE is only used to
         build other CTEs, but not part of the FROM clause itself).
 
         Notice that tables that are defined in an enclosing scope (e.g. outer query in a sequence of nested CTEs) are not
@@ -272,20 +255,14 @@ class QueryNamespace:
         through the API on the parent namespace.
 
         The ordering is important to resolve output columns correctly to the first match as Postgres does.
-
-        An optimized container to check whether a table is part of the current context is available via `_table_sources`
         """
 
+        self._ctx_start = 0
+        """The first table of the current context that is visible at the moment. See `join_scope`."""
+
         self._cte_sources: dict[str, QueryNamespace] = {}
         """Namespaces that are induced by CTEs. Entries map alias -> CTE."""
 
-        self._table_sources: dict[str, TableReference] = {}
-        """The tables that are part of the FROM clause of the query. Entries map alias -> table.
-
-        Tables can be contained in this dictionary multiple times: once for each relevant identifier. If a table has both an
-        alias as well as a full name, both keys will be present.
-        """
-
         self._output_shape: list[str] = []
         """The column names that are part of the result set produced by the queries in this namespace.
 
@@ -295,15 +272,15 @@ class QueryNamespace:
         columns (which arguably they are, just not for our purposes).
         """
 
-        self._produced_columns: set[str] = set()
-        """Column names that are produced by the SELECT clause of this namespace.
+        self._complete_shape = True
+        """Whether the output shape contains all columns. Otherwise, there are star expressions on unknown tables."""
 
-        This includes all aliases that are defined in this select clause. These columns cannot be bound to any table in the
-        current context, but have to be bound to the aliased table for subqueries, etc.
-        """
+        self._output_tables: dict[str, TableReference] = {}
+        """The tables that provide the columns of the output shape.
 
-        self._column_cache: dict[str, TableReference] = {}
-        """A cache to resolve common columns in the current context more quickly."""
+        Columns that are computed by the *SELECT* clause or that are renamed there do not belong to any table in the current
+        context. They have to be bound to the aliased table for subqueries, etc.
+        """
 
     def determine_output_shape(
         self, select_clause: Optional[Select | Iterable[ColumnReference | str]]
@@ -316,11 +293,7 @@ class QueryNamespace:
         ensure that star expressions can be resolved correctly.
         """
         self._output_shape = []
-        if self._setop_children:
-            # We use Postgre's rules here: the output relation of a set operation contains exactly those columns that are
-            # contained in the LHS relation
-            self._output_shape = list(self._setop_children[0]._output_shape)
-            return
+        self._output_tables = {}
 
         assert select_clause is not None, "SELECT clause expected for non-setop query"
         for projection in select_clause:
@@ -332,37 +305,26 @@ class QueryNamespace:
                     else projection
                 )
                 self._output_shape.append(colname)
-                self._produced_columns.add(colname)
                 continue
 
             # Must be BaseProjection of a SELECT clause
             if projection.target_name:
                 # If we have an alias on the projection, we need to use this alias to reference to the column in the future
                 self._output_shape.append(projection.target_name)
-                self._produced_columns.add(projection.target_name)
                 continue
 
             match projection.expression:
                 case ColumnExpression(col):
-                    self._output_shape.append(col.name)
+                    self._add_output_columns([col.name], col.table)
 
                 case StarExpression(from_table):
-                    ctx = {from_table} if from_table else self._current_ctx
-                    for table in ctx:
-                        if not table.virtual:
-                            self._output_shape.extend(
-                                self._schema_cache.columns_of(table)
-                            )
-                            continue
-
-                        if table.alias:
-                            defining_nsp = self._lookup_namespace(table.alias)
-                        if not defining_nsp and table.full_name:
-                            # if we try to look up an aliased CTE, we need to use the full name instead
-                            defining_nsp = self._lookup_namespace(table.full_name)
-                        if not defining_nsp:
-                            raise ParserError(f"No namespace found for table '{table}'")
-                        self._output_shape.extend(defining_nsp._output_shape)
+                    for table, nsp in (
+                        [self._find_table(from_table.identifier())]
+                        if from_table
+                        else self._current_ctx
+                    ):
+                        self._add_output_columns(self._columns_of(table, nsp), table)
+                        self._complete_shape &= self._knows_columns(table, nsp)
 
                 case _ if self._top_level:
                     pass
@@ -378,18 +340,34 @@ class QueryNamespace:
                         stacklevel=2,
                     )
 
+    def determine_setop_shape(self, left_input: QueryNamespace) -> None:
+        """Determines the columns that form the result relation of a set operation.
+
+        We use Postgre's rules here: the output relation of a set operation contains exactly those columns that are contained in
+        the LHS relation. None of these columns belongs to a table anymore.
+        """
+        self._output_shape = list(left_input._output_shape)
+        self._complete_shape = left_input._complete_shape
+        self._output_tables = {}
+
     def register_table(self, table: TableReference) -> None:
         """Adds a "physical" table to the current namespace.
 
-        In truth, the table does not need to be physical, it can also be a CTE that was defined in an outer namespace and
-        is scanned here. "Physical" in this context means that the current namespace does not define the table itself.
+        In truth, the table does not need to be physical, it can also be a CTE that was defined in this or in an outer namespace
+        and is scanned here. "Physical" in this context means that the *FROM* clause does not define the table itself.
         """
-        self._invalidate_column_cache()
-        self._current_ctx.append(table)
-        if table.alias:
-            self._table_sources[table.alias] = table
-        if table.full_name:
-            self._table_sources[table.full_name] = table
+        cte_name = table.full_name or table.alias
+        nsp = self.lookup_cte(cte_name) if table.virtual else None
+        self._current_ctx.append((table, nsp))
+
+    def register_subquery(self, alias: str, nsp: Optional[QueryNamespace]) -> None:
+        """Adds a table that is defined in the *FROM* clause, i.e. a subquery, *VALUES* list or function, to the namespace."""
+        table = TableReference.create_virtual(alias) if alias else None
+        self._current_ctx.append((table, nsp))
+
+    def register_cte(self, alias: str, nsp: QueryNamespace) -> None:
+        """Adds a CTE to the current namespace."""
+        self._cte_sources[alias] = nsp
 
     def provides_column(self, name: str) -> bool:
         """Checks, whether the current namespace has a specific column in its output relation."""
@@ -403,125 +381,152 @@ class QueryNamespace:
 
         If no table is found , *None* is returned.
         """
-        if key in self._produced_columns:
-            # This is a column that we just "created" in our select clause. It cannot (yet) belong to any table.
+        for table, nsp in self._current_ctx[self._ctx_start :]:
+            if key in self._columns_of(table, nsp):
+                return table
+
+        if not all(
+            self._knows_columns(table, nsp)
+            for table, nsp in self._current_ctx[self._ctx_start :]
+        ):
+            # the column could belong to one of these tables, so we cannot conclude that it is from an outer query
             return None
 
-        cached_table = self._column_cache.get(key)
-        if cached_table:
-            return cached_table
-
-        matching_table: Optional[TableReference] = None
-        for table in self._current_ctx:
-            # later tables overwrite unqualified columns of earlier tables
-            physical_table = (
-                self._schema_cache.lookup_column(key, [table])
-                if not table.virtual
-                else None
-            )
-            if physical_table:
-                matching_table = table
-                break
-
-            subquery_nsp = self._subquery_children.get(table.identifier())
-            if subquery_nsp and subquery_nsp.provides_column(key):
-                matching_table = table
-                break
-
-            cte_nsp = self._cte_sources.get(table.identifier())
-            if cte_nsp and cte_nsp.provides_column(key):
-                matching_table = table
-                break
-
-            parent_nsp = self._lookup_namespace(table.identifier())
-            if parent_nsp and parent_nsp.provides_column(key):
-                matching_table = table
-                break
-
-        if not matching_table:
-            return None
+        outer_nsp = self._outer_namespace()
+        return outer_nsp.lookup_column(key) if outer_nsp else None
 
-        self._column_cache[key] = matching_table
-        return matching_table
+    def lookup_output_column(
+        self, key: str, *, prefer_inputs: bool = False
+    ) -> Optional[TableReference]:
+        """Searches for the table that provides a column in clauses that can also refer to the columns of the result relation.
+
+        If the column is computed by the *SELECT* clause it does not belong to any table and *None* is returned.
+
+        Parameters
+        ----------
+        key : str
+            The name of the column
+        prefer_inputs : bool, optional
+            Whether columns from the *FROM* clause take precedence over columns of the result relation. According to the SQL
+            standard, this is the case in the *GROUP BY* clause, but not in the *ORDER BY* clause.
+        """
+        local_input = prefer_inputs and any(
+            key in self._columns_of(table, nsp) for table, nsp in self._current_ctx
+        )
+        if local_input:
+            return self.lookup_column(key)
+        if self.provides_column(key) or not self._complete_shape:
+            return self._output_tables.get(key)
+        return self.lookup_column(key)
 
     def resolve_table(self, key: str) -> Optional[TableReference]:
         """Searches for the table that is referenced by a specific key.
 
-        The table can be either provided by this namespace (as a physical table in the *FROM* clause, or defined through a
-        subquery/CTE), or by an outer namspace.
+        The table can be either part of the *FROM* clause of this namespace (as a physical table, a CTE or a subquery), or be
+        provided by an outer namspace.
         """
-        sourced_table = self._table_sources.get(key)
-        if sourced_table:
-            return sourced_table
-
-        if key in self._cte_sources:
+        table, _ = self._find_table(key)
+        if not table and self.lookup_cte(key):
+            # be lenient and also accept references to CTEs that are missing from the FROM clause
             return TableReference.create_virtual(key)
+        return table
 
-        return self._parent.resolve_table(key) if self._parent else None
+    def lookup_cte(self, name: str) -> Optional[QueryNamespace]:
+        """Searches for the namespace of a specific CTE. The CTE can be defined in this namespace, or in any outer namespace."""
+        cte_nsp = self._cte_sources.get(name)
+        if cte_nsp:
+            return cte_nsp
+        return self._parent.lookup_cte(name) if self._parent else None
 
     def open_nested(
         self,
         *,
-        alias: str = "",
         source: Literal["cte", "subquery", "setop", "values", "temporary"],
+        lateral: bool = False,
     ) -> QueryNamespace:
         """Creates a new local namespace for a nested query.
 
-        Depending on the type of nested query, the namespace will be registered in different ways and used for different
-        purposes (see parameters below).
-
         Parameters
         ----------
-        alias : str, optional
-            The name of the namespace. This is only relevant for CTEs and subqueries in the FROM clause.
         source : Literal["cte", "subquery", "setop", "values", "temporary"]
             The type of nested query. This value is used to determine the use of the subquery namespace as follows:
 
             - "cte": The namespace is a CTE that is part of the query.
             - "subquery": The namespace is a subquery in the FROM clause.
-            - "setop": The namespace is part of a set operation. No alias is required, but the namespace might be used to
-              determine the output shape of the current namespace
+            - "setop": The namespace is part of a set operation.
             - "values": The namespace is a temporary table that is part of a VALUES clause.
             - "temporary": The namespace is a temporary table that is part of a subquery which is not used in the FROM clause,
-              e.g. as a filter condition.
+              e.g. as a filter condition. Such subqueries can access the tables of the current namespace.
+        lateral : bool, optional
+            Whether a subquery in the FROM clause can access the tables that are already part of the current namespace.
 
         """
-        if source != "temporary":
-            self._invalidate_column_cache()
-
-        child = QueryNamespace(parent=self)
-
-        match source:
-            case "cte":
-                self._cte_sources[alias] = child
-            case "subquery" | "values":
-                table = TableReference.create_virtual(alias)
-                self._subquery_children[alias] = child
-                self._current_ctx.append(table)
-                self._table_sources[alias] = table
-            case "setop":
-                self._setop_children.append(child)
-            case _:
-                # ignore other sources
-                pass
-
-        return child
-
-    def _lookup_namespace(self, table_key: str) -> Optional[QueryNamespace]:
-        """Searches for the (parent) namespace that provides a specific table."""
-        cte_nsp = self._cte_sources.get(table_key)
-        if cte_nsp:
-            return cte_nsp
-
-        subquery_nsp = self._subquery_children.get(table_key)
-        if subquery_nsp:
-            return subquery_nsp
+        correlated = lateral or source in ("temporary", "setop")
+        return QueryNamespace(parent=self, correlated=correlated)
 
-        return self._parent._lookup_namespace(table_key) if self._parent else None
+    @contextlib.contextmanager
+    def join_scope(self, start: int) -> Generator[None, None, None]:
+        """Restricts the visible tables to those of an explicit join while its join condition is being parsed.
 
-    def _invalidate_column_cache(self) -> None:
-        """Clears all currently cached columns in case there is fear of a change in the column bindings."""
-        self._column_cache.clear()
+        Parameters
+        ----------
+        start : int
+            The number of tables that were part of the context when the first input of the join was encountered.
+        """
+        previous, self._ctx_start = self._ctx_start, start
+        try:
+            yield
+        finally:
+            self._ctx_start = previous
+
+    def n_tables(self) -> int:
+        """Provides the number of tables that are currently part of the *FROM* clause."""
+        return len(self._current_ctx)
+
+    def _add_output_columns(
+        self, columns: Iterable[str], table: Optional[TableReference]
+    ) -> None:
+        """Extends the output shape by columns that are provided by a table of the *FROM* clause."""
+        for col in columns:
+            if table and col not in self._output_shape:
+                self._output_tables[col] = table
+            self._output_shape.append(col)
+
+    def _columns_of(
+        self, table: Optional[TableReference], nsp: Optional[QueryNamespace]
+    ) -> list[str]:
+        """Provides the columns of a table in the *FROM* clause, as far as they are known."""
+        if nsp is not None:
+            return nsp._output_shape
+        if table is None or table.virtual:
+            return []
+        return self._schema_cache.columns_of(table)
+
+    def _knows_columns(
+        self, table: Optional[TableReference], nsp: Optional[QueryNamespace]
+    ) -> bool:
+        """Checks, whether `_columns_of` provides all columns of a table in the *FROM* clause."""
+        if nsp is not None:
+            return nsp._complete_shape
+        if table is None or table.virtual:
+            return False
+        return self._schema_cache.available()
+
+    def _find_table(
+        self, key: str
+    ) -> tuple[Optional[TableReference], Optional[QueryNamespace]]:
+        """Searches for a table of the *FROM* clause in this namespace and in all outer namespaces."""
+        for table, nsp in self._current_ctx[self._ctx_start :]:
+            if table and table.identifier() == key:
+                return table, nsp
+        outer_nsp = self._outer_namespace()
+        return outer_nsp._find_table(key) if outer_nsp else (None, None)
+
+    def _outer_namespace(self) -> Optional[QueryNamespace]:
+        """Provides the next namespace whose *FROM* clause can be accessed from within this namespace."""
+        if not self._parent or self._correlated:
+            return self._parent
+        return self._parent._outer_namespace()
 
 
 _NonDefaultFrame = 1
@@ -646,7 +651,10 @@ def _pglast_parse_star(
 
     if len(fields) == 2:
         tab = fields[0]["String"]["sval"]
-        return StarExpression(from_table=namespace.resolve_table(tab))
+        from_table = namespace.resolve_table(tab)
+        if not from_table:
+            raise ParserError("Table not found: " + tab)
+        return StarExpression(from_table=from_table)
 
     raise ParserError("Unknown star reference format: " + str(pglast_data))
 
@@ -1224,6 +1232,11 @@ def _pglast_parse_expression(
             raise ParserError("Unknown expression type: " + str(pglast_data))
 
 
+def _values_columns(values: ValuesList, colnames: list[str]) -> list[str]:
+    """Determines the names of all columns of a *VALUES* list, including the default names of unnamed columns."""
+    return colnames + [f"column{i + 1}" for i in range(len(colnames), len(values[0]))]
+
+
 def _pglast_parse_values_cte(
     pglast_data: dict, *, namespace: QueryNamespace, query_txt: str
 ) -> tuple[ValuesList, list[str]]:
@@ -1257,9 +1270,7 @@ def _pglast_parse_values_cte(
     for raw_colname in pglast_data.get("aliascolnames", []):
         colnames.append(raw_colname["String"]["sval"])
 
-    if colnames:
-        namespace.determine_output_shape(colnames)
-
+    namespace.determine_output_shape(_values_columns(values, colnames))
     return values, colnames
 
 
@@ -1283,6 +1294,7 @@ def _pglast_parse_ctes(
     CommonTableExpression
         The parsed CTEs.
     """
+    recursive = json_data.get("recursive", False)
     parsed_ctes: list[WithQuery] = []
     for pglast_data in json_data["ctes"]:
         current_cte: dict = pglast_data["CommonTableExpr"]
@@ -1298,7 +1310,10 @@ def _pglast_parse_ctes(
                 force_materialization = False
 
         query_data = current_cte["ctequery"]["SelectStmt"]
-        child_nsp = parent_namespace.open_nested(alias=target_name, source="cte")
+        child_nsp = parent_namespace.open_nested(source="cte")
+        if recursive:
+            # only recursive CTEs can reference themselves
+            parent_namespace.register_cte(target_name, child_nsp)
         if "targetList" not in query_data and query_data["op"] == "SETOP_NONE":
             # CTE is a VALUES query
             values, columns = _pglast_parse_values_cte(
@@ -1323,8 +1338,8 @@ def _pglast_parse_ctes(
             )
 
         parsed_ctes.append(parsed_cte)
+        parent_namespace.register_cte(target_name, child_nsp)
 
-    recursive = json_data.get("recursive", False)
     return CommonTableExpression(parsed_ctes, recursive=recursive)
 
 
@@ -1488,18 +1503,15 @@ def _pglast_parse_from_entry(
         case "RangeVar":
             table = _pglast_parse_rangevar(pglast_data["RangeVar"])
 
-            # If we specified a virtual table in a CTE, we will reference it later in some FROM clause. In this case,
-            # we should not create a new table reference, but rather use the existing one.
-            # But, if we alias the virtual table, we still need a new reference
-            similar_table = namespace.resolve_table(table.full_name)
-            if similar_table and similar_table.virtual and not table.alias:
+            # If we specified a virtual table in a CTE, we will reference it later in some FROM clause. Such a table is only
+            # known by its alias. But, if we alias the virtual table, we also need to know the CTE that it refers to.
+            is_cte = not table.schema and namespace.lookup_cte(table.full_name)
+            if is_cte and not table.alias:
                 # a simple reference to the CTE
-                namespace.register_table(similar_table)
-                return DirectTableSource(similar_table)
-            if similar_table and similar_table.virtual and table.alias:
+                table = TableReference.create_virtual(table.full_name)
+            elif is_cte:
                 # an aliased reference to the CTE
                 table = table.make_virtual()
-                # TODO: should we also update the mapping of the full_name here?
 
             namespace.register_table(table)
             return DirectTableSource(table)
@@ -1533,6 +1545,7 @@ def _pglast_parse_from_entry(
                 case _:
                     raise ParserError("Unknown join type: " + join_expr["jointype"])
 
+            first_table = namespace.n_tables()
             left = _pglast_parse_from_entry(
                 join_expr["larg"], namespace=namespace, query_txt=query_txt
             )
@@ -1542,9 +1555,10 @@ def _pglast_parse_from_entry(
             if "quals" not in join_expr:
                 return JoinTableSource(left, right, join_type=join_type)
 
-            join_condition = _pglast_parse_predicate(
-                join_expr["quals"], namespace=namespace, query_txt=query_txt
-            )
+            with namespace.join_scope(first_table):
+                join_condition = _pglast_parse_predicate(
+                    join_expr["quals"], namespace=namespace, query_txt=query_txt
+                )
 
             # we do not need to store new tables in available_tables here, since this is already handled by the recursion.
             return JoinTableSource(
@@ -1573,12 +1587,13 @@ def _pglast_parse_from_entry(
             else:
                 alias = ""
 
-            child_nsp = namespace.open_nested(alias=alias, source="subquery")
+            child_nsp = namespace.open_nested(source="subquery", lateral=is_lateral)
             subquery = _pglast_parse_query(
                 raw_subquery["subquery"]["SelectStmt"],
                 namespace=child_nsp,
                 query_txt=query_txt,
             )
+            namespace.register_subquery(alias, child_nsp)
 
             subquery_source = SubqueryTableSource(
                 subquery, target_name=alias, lateral=is_lateral
@@ -1608,6 +1623,7 @@ def _pglast_parse_from_entry(
             parsed_function = _pglast_parse_expression(
                 function_expr, namespace=namespace, query_txt=query_txt
             )
+            namespace.register_subquery(alias, None)
             return FunctionTableSource(parsed_function, alias=alias)
 
         case _:
@@ -1639,7 +1655,7 @@ def _pglast_parse_values(
 
     raw_alias: dict = pglast_data.get("alias", {})
     alias = raw_alias.get("aliasname", "")
-    child_nsp = parent_namespace.open_nested(alias=alias, source="values")
+    child_nsp = parent_namespace.open_nested(source="values")
     raw_values: list[dict] = pglast_data["subquery"]["SelectStmt"]["valuesLists"]
 
     values: ValuesList = []
@@ -1651,18 +1667,12 @@ def _pglast_parse_values(
         ]
         values.append(tuple(parsed_items))
 
-    if not alias:
-        return ValuesTableSource(values, alias=alias, columns=[])
-
-    if "colnames" not in raw_alias:
-        return ValuesTableSource(values, alias=alias, columns=[])
-
     colnames = []
-    for raw_colname in raw_alias["colnames"]:
+    for raw_colname in raw_alias.get("colnames", []):
         colnames.append(raw_colname["String"]["sval"])
-    table_source = ValuesTableSource(values, alias=alias, columns=colnames)
-    child_nsp.determine_output_shape(table_source.cols)
-    return table_source
+    child_nsp.determine_output_shape(_values_columns(values, colnames))
+    parent_namespace.register_subquery(alias, child_nsp)
+    return ValuesTableSource(values, alias=alias, columns=colnames)
 
 
 def _pglast_parse_from(
@@ -1781,6 +1791,43 @@ def _pglast_parse_where(
     return Where(predicate)
 
 
+def _pglast_parse_output_expression(
+    pglast_data: dict,
+    *,
+    namespace: QueryNamespace,
+    query_txt: str,
+    prefer_inputs: bool = False,
+) -> SqlExpression:
+    """Handler method to parse expressions of clauses that can also refer to the columns of the *SELECT* clause by name.
+
+    Parameters
+    ----------
+    pglast_data : dict
+        JSON encoding of the expression
+    namespace : QueryNamespace
+        The tables and columns that are available in the current query. Its output shape must already be known.
+    query_txt : str
+        The raw query text that was passed to the parser. This is used to extract information from the query that the PG
+        parser ignores, such as hint blocks.
+    prefer_inputs : bool, optional
+        Whether columns from the *FROM* clause take precedence over columns of the *SELECT* clause.
+
+    Returns
+    -------
+    SqlExpression
+        The parsed expression.
+    """
+    fields: list[dict] = pglast_data.get("ColumnRef", {}).get("fields", [])
+    if len(fields) != 1 or "String" not in fields[0]:
+        return _pglast_parse_expression(
+            pglast_data, namespace=namespace, query_txt=query_txt
+        )
+
+    colname: str = fields[0]["String"]["sval"]
+    owning_table = namespace.lookup_output_column(colname, prefer_inputs=prefer_inputs)
+    return ColumnExpression(ColumnReference(colname, owning_table))
+
+
 def _pglast_parse_groupby(
     groupby_clause: list[dict], *, namespace: QueryNamespace, query_txt: str
 ) -> GroupBy:
@@ -1806,8 +1853,8 @@ def _pglast_parse_groupby(
     for item in groupby_clause:
         if "GroupingSet" in item:
             raise NotImplementedError("Grouping sets are not yet supported")
-        group_expression = _pglast_parse_expression(
-            item, namespace=namespace, query_txt=query_txt
+        group_expression = _pglast_parse_output_expression(
+            item, namespace=namespace, query_txt=query_txt, prefer_inputs=True
         )
         groupings.append(group_expression)
 
@@ -1864,7 +1911,7 @@ def _pglast_parse_orderby(
 
     for item in order_clause:
         expression = item["SortBy"]
-        sort_key = _pglast_parse_expression(
+        sort_key = _pglast_parse_output_expression(
             expression["node"], namespace=namespace, query_txt=query_txt
         )
 
@@ -1993,11 +2040,12 @@ def _pglast_parse_setop(
     else:
         with_clause = None
 
+    left_namespace = parent_namespace.open_nested(source="setop")
     left_query = _pglast_parse_query(
-        pglast_data["larg"],
-        namespace=parent_namespace.open_nested(source="setop"),
-        query_txt=query_txt,
+        pglast_data["larg"], namespace=left_namespace, query_txt=query_txt
     )
+    # recursive CTEs can already reference these columns in the right query
+    parent_namespace.determine_setop_shape(left_namespace)
     right_query = _pglast_parse_query(
         pglast_data["rarg"],
         namespace=parent_namespace.open_nested(source="setop"),
@@ -2038,7 +2086,6 @@ def _pglast_parse_setop(
     else:
         limit_clause = None
 
-    parent_namespace.determine_output_shape(None)
     return SetQuery(
         left_query,
         right_query,
-- 
2.43.0


From e307f32dc4b3387d78918f3b5af20deba4ae761a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:13 +0000
Subject: [PATCH 144/181] fix: VALUES CTEs with named columns must be able to
 report their columns (C06)

---
 postbound/qal/_qal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index c9c52e4..5dad842 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -5587,7 +5587,7 @@ class ValuesWithQuery(WithQuery):
     def columns(self) -> set[ColumnReference]:
         if not self._columns:
             return set()
-        return {ColumnReference(col, self.target_table) for col in self._columns}
+        return set(self._columns)
 
     def output_columns(self) -> Sequence[ColumnExpression]:
         """Provides the columns that form the result relation of this CTE.
@@ -5607,7 +5607,7 @@ class ValuesWithQuery(WithQuery):
         return util.flatten(row for row in self._values)
 
     def itercolumns(self) -> list[ColumnReference]:
-        return [ColumnReference(col, self.target_table) for col in self._columns]
+        return list(self._columns)
 
     def __eq__(self, other: object) -> bool:
         return (
-- 
2.43.0


From 95115416c60135c4226c92fed80ff8fb42d6b72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:13 +0000
Subject: [PATCH 145/181] fix: columns of set queries can be renamed (C06)

---
 postbound/transform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postbound/transform.py b/postbound/transform.py
index 98d31c7..e8cfd47 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -1357,7 +1357,6 @@ def rename_columns_in_query[T: SelectStatement](
         was added later on.
     """
     renamed_cte = rename_columns_in_clause(query.cte_clause, available_renamings)
-    renamed_having = rename_columns_in_clause(query.having_clause, available_renamings)
     renamed_orderby = rename_columns_in_clause(
         query.orderby_clause, available_renamings
     )
@@ -1368,7 +1367,7 @@ def rename_columns_in_query[T: SelectStatement](
         return SetQuery(
             renamed_left,
             renamed_right,
-            query.set_operation,
+            set_operation=query.set_operation,
             cte_clause=renamed_cte,
             orderby_clause=renamed_orderby,
             limit_clause=query.limit_clause,
@@ -1382,6 +1381,7 @@ def rename_columns_in_query[T: SelectStatement](
     renamed_groupby = rename_columns_in_clause(
         query.groupby_clause, available_renamings
     )
+    renamed_having = rename_columns_in_clause(query.having_clause, available_renamings)
 
     if isinstance(query, ImplicitSqlQuery):
         return ImplicitSqlQuery(
-- 
2.43.0


From 38c99f6f4fe3418c368968b042b18ac93848f18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:13 +0000
Subject: [PATCH 146/181] fix: column renaming covers all parts of math, array,
 aggregate and CASE expressions (C06)

---
 postbound/transform.py | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/postbound/transform.py b/postbound/transform.py
index e8cfd47..8331122 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -1487,9 +1487,15 @@ def rename_columns_in_expression(
         renamed_first_arg = rename_columns_in_expression(
             expression.first_arg, available_renamings
         )
-        renamed_second_arg = rename_columns_in_expression(
-            expression.second_arg, available_renamings
-        )
+        if isinstance(expression.second_arg, tuple):
+            renamed_second_arg = [
+                rename_columns_in_expression(arg, available_renamings)
+                for arg in expression.second_arg
+            ]
+        else:
+            renamed_second_arg = rename_columns_in_expression(
+                expression.second_arg, available_renamings
+            )
         return MathExpression(
             expression.operator, renamed_first_arg, renamed_second_arg
         )
@@ -1516,17 +1522,23 @@ def rename_columns_in_expression(
         )
         return ArrayAccessExpression(
             renamed_array,
-            index=renamed_idx,
-            lower_index=renamed_lower,
-            upper_index=renamed_upper,
+            idx=renamed_idx,
+            lower_idx=renamed_lower,
+            upper_idx=renamed_upper,
         )
     elif isinstance(expression, FunctionExpression):
         renamed_arguments = [
             rename_columns_in_expression(arg, available_renamings)
             for arg in expression.arguments
         ]
+        renamed_filter = rename_columns_in_predicate(
+            expression.filter_where, available_renamings
+        )
         return FunctionExpression(
-            expression.function, renamed_arguments, distinct=expression.distinct
+            expression.function,
+            renamed_arguments,
+            distinct=expression.distinct,
+            filter_where=renamed_filter,
         )
     elif isinstance(expression, SubqueryExpression):
         return SubqueryExpression(
@@ -1561,7 +1573,7 @@ def rename_columns_in_expression(
     elif isinstance(expression, CaseExpression):
         renamed_cases = [
             (
-                rename_columns_in_predicate(condition, available_renamings),
+                rename_columns_in_expression(condition, available_renamings),
                 rename_columns_in_expression(result, available_renamings),
             )
             for condition, result in expression.cases
-- 
2.43.0


From e0e84bb4990705ae2e90e3b325e0eb5326750ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:13 +0000
Subject: [PATCH 147/181] fix: renaming columns keeps all VALUES lists and
 applies all renamings at once (C06)

---
 postbound/transform.py | 93 +++++++++++++++++++-----------------------
 1 file changed, 43 insertions(+), 50 deletions(-)

diff --git a/postbound/transform.py b/postbound/transform.py
index 8331122..3f67d8d 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -1763,45 +1763,50 @@ def _rename_columns_in_table_source(
             )
 
         case ValuesTableSource():
-            if not any(
-                col.belongs_to(table_source.table) for col in available_renamings
-            ):
-                return table_source
-
-            for current_col, target_col in available_renamings.items():
-                if not current_col.belongs_to(table_source.table):
-                    continue
-                if current_col.table != target_col.table:
-                    raise ValueError(
-                        "Cannot rename columns in a VALUES table source to a different table"
-                    )
-
-                # if we found a column that should be renamed, we need to replace the whole column specification
-                # this process might be repeated multiple times, if multiple appropriate renamings exist
-                current_col_spec = table_source.cols
-                new_col_spec = [
-                    (col if col.name != current_col.name else target_col.name)
-                    for col in current_col_spec
-                ]
-                table_source = ValuesTableSource(
-                    table_source.rows,
-                    alias=table_source.table.identifier(),
-                    columns=new_col_spec,
+            renamed_rows = [
+                tuple(
+                    rename_columns_in_expression(val, available_renamings)
+                    for val in row
                 )
-            return table_source
+                for row in table_source.rows
+            ]
+            return ValuesTableSource(
+                renamed_rows,
+                alias=table_source.table,
+                columns=_rename_value_columns(table_source.cols, available_renamings),
+            )
 
         case FunctionTableSource():
             renamed_function = rename_columns_in_expression(
                 table_source.function, available_renamings
             )
             return FunctionTableSource(
-                renamed_function, alias=table_source.target_table
+                renamed_function, alias=table_source.target_table or ""
             )
 
         case _:
             raise TypeError("Unknown table source type: " + str(table_source))
 
 
+def _rename_value_columns(
+    columns: Sequence[ColumnReference],
+    available_renamings: dict[ColumnReference, ColumnReference],
+) -> list[ColumnReference]:
+    """Handler method to rename the column specification of a *VALUES* list.
+
+    All renamings are applied at the same time. They must keep the columns in the same table.
+    """
+    renamed_columns: list[ColumnReference] = []
+    for current_col in columns:
+        target_col = available_renamings.get(current_col, current_col)
+        if current_col.table != target_col.table:
+            raise ValueError(
+                "Cannot rename columns in a VALUES table source to a different table"
+            )
+        renamed_columns.append(target_col)
+    return renamed_columns
+
+
 def rename_columns_in_clause(
     clause: Optional[ClauseType],
     available_renamings: dict[ColumnReference, ColumnReference],
@@ -1844,33 +1849,21 @@ def rename_columns_in_clause(
                 )
                 continue
 
-            if not any(col.belongs_to(cte.target_table) for col in available_renamings):
-                continue
-
-            renamed_cte = cte
-            for current_col, target_col in available_renamings.items():
-                if not current_col.belongs_to(cte.target_table):
-                    continue
-                if current_col.table != target_col.table:
-                    raise ValueError(
-                        "Cannot rename columns in a VALUES table source to a different table"
-                    )
-
-                # if we found a column that should be renamed, we need to replace the whole column specification
-                # this process might be repeated multiple times, if multiple appropriate renamings exist
-                current_col_spec = cte.cols
-                new_col_spec = [
-                    (col if col.name != current_col.name else target_col.name)
-                    for col in current_col_spec
-                ]
-                renamed_cte = ValuesWithQuery(
-                    cte.rows,
+            renamed_rows = [
+                tuple(
+                    rename_columns_in_expression(val, available_renamings)
+                    for val in row
+                )
+                for row in cte.rows
+            ]
+            renamed_ctes.append(
+                ValuesWithQuery(
+                    renamed_rows,
                     target_name=cte.target_table,
-                    columns=new_col_spec,
+                    columns=_rename_value_columns(cte.cols, available_renamings),
                     materialized=cte.materialized,
                 )
-
-            renamed_ctes.append(renamed_cte)
+            )
 
         return CommonTableExpression(renamed_ctes, recursive=clause.recursive)
     if isinstance(clause, Select):
-- 
2.43.0


From 03f887e2ae01a1856f20698112a5a4c55ed3d097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:14 +0000
Subject: [PATCH 148/181] fix: rewrites of expressions and tables also cover
 DISTINCT ON (C06)

---
 postbound/transform.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/postbound/transform.py b/postbound/transform.py
index 3f67d8d..77bc0d8 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -1159,7 +1159,10 @@ def _replace_expressions_in_clause(
             BaseProjection(replacement(proj.expression), proj.target_name)
             for proj in clause.targets
         ]
-        return Select(replaced_targets, distinct=clause.distinct_specifier())
+        distinct = clause.distinct_specifier()
+        if not isinstance(distinct, bool):
+            distinct = [replacement(expr) for expr in distinct]
+        return Select(replaced_targets, distinct=distinct)
     elif isinstance(clause, ImplicitFromClause):
         return clause
     elif isinstance(clause, ExplicitFromClause):
@@ -1874,7 +1877,13 @@ def rename_columns_in_clause(
             )
             for proj in clause.targets
         ]
-        return Select(renamed_targets, distinct=clause.distinct_specifier())
+        distinct = clause.distinct_specifier()
+        if not isinstance(distinct, bool):
+            distinct = [
+                rename_columns_in_expression(expr, available_renamings)
+                for expr in distinct
+            ]
+        return Select(renamed_targets, distinct=distinct)
     elif isinstance(clause, ImplicitFromClause):
         return clause
     elif isinstance(clause, ExplicitFromClause):
@@ -1986,7 +1995,10 @@ class _TableReferenceRenamer(
             renamed_expression = proj.expression.accept_visitor(self)
             projections.append(BaseProjection(renamed_expression, proj.target_name))
 
-        return Select(projections, distinct=clause.distinct_specifier())
+        distinct = clause.distinct_specifier()
+        if not isinstance(distinct, bool):
+            distinct = [expr.accept_visitor(self) for expr in distinct]
+        return Select(projections, distinct=distinct)
 
     def visit_from_clause(self, clause: From, *args, **kwargs) -> From:
         used_identifieres = set(tab.identifier() for tab in clause.tables())
-- 
2.43.0


From d9869af610cb72ac60dc15022ba8614afdf8553f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:18 +0000
Subject: [PATCH 149/181] fix: table renaming covers set operations, VALUES
 lists, table functions and all expressions (C06)

---
 postbound/transform.py | 63 ++++++++++++++++++++++++++++--------------
 1 file changed, 42 insertions(+), 21 deletions(-)

diff --git a/postbound/transform.py b/postbound/transform.py
index 77bc0d8..d50472f 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -1978,10 +1978,19 @@ class _TableReferenceRenamer(
         ctes: list[WithQuery] = []
 
         for cte in clause.queries:
-            nested_renamings = cte.query.accept_visitor(self)
-            nested_query = build_query(nested_renamings.values())
             target_table = self._rename_table(cte.target_table)
+            if isinstance(cte, ValuesWithQuery):
+                ctes.append(
+                    ValuesWithQuery(
+                        self._rename_rows(cte.rows),
+                        target_name=target_table,
+                        columns=[self._rename_column(col) for col in cte.cols],
+                        materialized=cte.materialized,
+                    )
+                )
+                continue
 
+            nested_query = self._rename_query(cte.query)
             ctes.append(
                 WithQuery(nested_query, target_table, materialized=cte.materialized)
             )
@@ -2069,28 +2078,28 @@ class _TableReferenceRenamer(
                 )
             )
 
-        return renamed_orderings
+        return OrderBy(renamed_orderings)
 
     def visit_limit_clause(self, clause: Limit, *args, **kwargs) -> Limit:
         return clause
 
     def visit_union_clause(self, clause: UnionClause, *args, **kwargs) -> UnionClause:
-        renamed_lhs = clause.left_query.accept_visitor(self)
-        renamed_rhs = clause.right_query.accept_visitor(self)
+        renamed_lhs = self._rename_query(clause.left_query)
+        renamed_rhs = self._rename_query(clause.right_query)
         return UnionClause(renamed_lhs, renamed_rhs, union_all=clause.union_all)
 
     def visit_except_clause(
         self, clause: ExceptClause, *args, **kwargs
     ) -> ExceptClause:
-        renamed_lhs = clause.left_query.accept_visitor(self)
-        renamed_rhs = clause.right_query.accept_visitor(self)
+        renamed_lhs = self._rename_query(clause.left_query)
+        renamed_rhs = self._rename_query(clause.right_query)
         return ExceptClause(renamed_lhs, renamed_rhs)
 
     def visit_intersect_clause(
         self, clause: IntersectClause, *args, **kwargs
     ) -> IntersectClause:
-        renamed_lhs = clause.left_query.accept_visitor(self)
-        renamed_rhs = clause.right_query.accept_visitor(self)
+        renamed_lhs = self._rename_query(clause.left_query)
+        renamed_rhs = self._rename_query(clause.right_query)
         return IntersectClause(renamed_lhs, renamed_rhs)
 
     def visit_binary_predicate(
@@ -2207,9 +2216,7 @@ class _TableReferenceRenamer(
     def visit_subquery_expr(
         self, expr: SubqueryExpression, *args, **kwargs
     ) -> SubqueryExpression:
-        subquery_comps = expr.query.accept_visitor(self)
-        renamed_subquery = build_query(subquery_comps.values())
-        return SubqueryExpression(renamed_subquery)
+        return SubqueryExpression(self._rename_query(expr.query))
 
     def visit_star_expr(self, expr: StarExpression, *args, **kwargs) -> StarExpression:
         renamed_table = self._rename_table(expr.from_table) if expr.from_table else None
@@ -2258,7 +2265,7 @@ class _TableReferenceRenamer(
         self, expr: QuantifierExpression, *args, **kwargs
     ) -> QuantifierExpression:
         renamed_child = expr.expression.accept_visitor(self)
-        return QuantifierExpression(expr.quantifier, quantifier=renamed_child)
+        return QuantifierExpression(renamed_child, quantifier=expr.quantifier)
 
     def visit_array_expr(
         self, expr: ArrayExpression, *args, **kwargs
@@ -2270,7 +2277,7 @@ class _TableReferenceRenamer(
         self, expr: ArrayAccessExpression, *args, **kwargs
     ) -> ArrayAccessExpression:
         renamed_array = expr.array.accept_visitor(self)
-        renamed_idx = expr.lower_index.accept_visitor(self) if expr.index else None
+        renamed_idx = expr.index.accept_visitor(self) if expr.index else None
         renamed_lower = (
             expr.lower_index.accept_visitor(self) if expr.lower_index else None
         )
@@ -2280,8 +2287,8 @@ class _TableReferenceRenamer(
         return ArrayAccessExpression(
             renamed_array,
             idx=renamed_idx,
-            lower_index=renamed_lower,
-            upper_index=renamed_upper,
+            lower_idx=renamed_lower,
+            upper_idx=renamed_upper,
         )
 
     def visit_predicate_expr(
@@ -2289,6 +2296,17 @@ class _TableReferenceRenamer(
     ) -> AbstractPredicate:
         return expr.accept_visitor(self)
 
+    def _rename_query[T: SelectStatement](self, query: T) -> T:
+        """Helper method to rename all tables in a nested query."""
+        renamed_clauses = query.accept_visitor(self)
+        return build_query(renamed_clauses.values())
+
+    def _rename_rows(
+        self, rows: Iterable[Iterable[SqlExpression]]
+    ) -> list[tuple[SqlExpression, ...]]:
+        """Helper method to rename all tables in a *VALUES* list."""
+        return [tuple(val.accept_visitor(self) for val in row) for row in rows]
+
     def _rename_table_source[T: TableSource](self, source: T) -> T:
         """Helper method to traverse and rename (the contents of) an arbitrary *FROM* item."""
         match source:
@@ -2297,8 +2315,7 @@ class _TableReferenceRenamer(
                 return DirectTableSource(renamed_table)
 
             case SubqueryTableSource(subquery, target_name, lateral):
-                nested_renamings = subquery.accept_visitor(self)
-                nested_query = build_query(nested_renamings.values())
+                nested_query = self._rename_query(subquery)
                 target_table = self._rename_table(target_name)
                 return SubqueryTableSource(nested_query, target_table, lateral=lateral)
 
@@ -2317,11 +2334,15 @@ class _TableReferenceRenamer(
 
             case ValuesTableSource(rows, alias, columns):
                 renamed_alias = self._rename_table(alias)
-                return ValuesTableSource(rows, alias=renamed_alias, columns=columns)
+                return ValuesTableSource(
+                    self._rename_rows(rows),
+                    alias=renamed_alias,
+                    columns=[self._rename_column(col) for col in columns],
+                )
 
-            case FunctionTableSource(function, alias):
+            case FunctionTableSource(function):
                 renamed_function = function.accept_visitor(self)
-                renamed_alias = self._rename_table(alias) if alias else ""
+                renamed_alias = self._rename_table(source.target_name)
                 return FunctionTableSource(renamed_function, alias=renamed_alias)
 
             case _:
-- 
2.43.0


From 71f3468dd91dd6f077650c9ca5427268366a440d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:18 +0000
Subject: [PATCH 150/181] fix: several tables can be renamed at once, including
 swaps, chains and merges (C06)

---
 postbound/transform.py | 61 ++++++++++++------------------------------
 1 file changed, 17 insertions(+), 44 deletions(-)

diff --git a/postbound/transform.py b/postbound/transform.py
index d50472f..8621d2f 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -1960,8 +1960,11 @@ class _TableReferenceRenamer(
     def __init__(
         self,
         renamings: dict[TableReference, TableReference],
+        *,
+        prefix_column_names: bool = False,
     ) -> None:
         self._renamings = renamings
+        self._prefix_column_names = prefix_column_names
         self._renaming_targets = set(
             tab.identifier() for tab in self._renamings.values()
         )
@@ -2015,20 +2018,8 @@ class _TableReferenceRenamer(
         match clause:
             case ImplicitFromClause(tables):
                 renamed_tables = [self._rename_table_source(src) for src in tables]
-                if not intersect:
-                    return ImplicitFromClause(renamed_tables)
-
-                separate_tables = used_identifieres - intersect
-                final_tables: list[DirectTableSource] = []
-                for tab in renamed_tables:
-                    if tab.identifier() in separate_tables:
-                        final_tables.append(tab)
-                        continue
-                    if tab.identifier() not in intersect:
-                        continue
-                    final_tables.append(tab)
-                    intersect.remove(tab.identifier())
-                return ImplicitFromClause(final_tables)
+                # tables that have been merged should only appear once
+                return ImplicitFromClause(list(dict.fromkeys(renamed_tables)))
 
             case ExplicitFromClause(join):
                 if intersect:
@@ -2374,7 +2365,12 @@ class _TableReferenceRenamer(
             return column
 
         target_table = self._renamings.get(column.table)
-        return column.bind_to(target_table) if target_table else column
+        if not target_table:
+            return column
+        if self._prefix_column_names:
+            column_name = f"{column.table.identifier()}_{column.name}"
+            return ColumnReference(column_name, target_table)
+        return column.bind_to(target_table)
 
 
 @overload
@@ -2433,23 +2429,10 @@ def rename_table[T: SelectStatement](
     else:
         renamings = from_table
 
-    tabs_to_rename = set(tab for tab in renamings.keys())
-
-    # Despite the convenient _TableReferenceRenamer, we still need to do a little bit of manual gathering/traversal to support
-    # column prefixes.
-    necessary_renamings: dict[ColumnReference, ColumnReference] = {}
-    for column in filter(lambda c: c.table in tabs_to_rename, source_query.columns()):
-        new_column_name = (
-            f"{column.table.identifier()}_{column.name}"
-            if prefix_column_names
-            else column.name
-        )
-        necessary_renamings[column] = ColumnReference(new_column_name, target_table)
-
-    renamed_cols = rename_columns_in_query(source_query, necessary_renamings)
-
-    tab_renamer = _TableReferenceRenamer(renamings)
-    renamed_clauses = renamed_cols.accept_visitor(tab_renamer)
+    tab_renamer = _TableReferenceRenamer(
+        renamings, prefix_column_names=prefix_column_names
+    )
+    renamed_clauses = source_query.accept_visitor(tab_renamer)
 
     return build_query(renamed_clauses.values())
 
@@ -2471,15 +2454,5 @@ def merge_tables[T: SelectStatement](
     >>> pb.transform.merge_tables(stats["q-10"], [posts, comments], target=mat_view)
     """
 
-    # The issue of merging tables is a bit more complicated than just calling rename_tables()
-    # because we also need to update the FROM clause to not contain any duplicate entries after
-    # the fact. Therefore, we perform the required steps manually here.
-
-    tables = set(tables)
-    cols_to_rename: dict[ColumnReference, ColumnReference] = {
-        col: col.bind_to(target) for col in query.columns() if col.table in tables
-    }
-    merged = rename_columns_in_query(query, cols_to_rename)
-    for tab in tables:
-        merged = rename_table(merged, from_table=tab, target_table=target)
-    return merged
+    # renaming also makes sure that the FROM clause does not contain any duplicate entries after the fact
+    return rename_table(query, {tab: target for tab in tables})
-- 
2.43.0


From 0b8cc2688b61fd2517eb905785b628f58af0be46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:18 +0000
Subject: [PATCH 151/181] fix: adding or dropping a FROM clause matches all
 kinds of FROM clauses (C06)

---
 postbound/transform.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/postbound/transform.py b/postbound/transform.py
index 8621d2f..e5b0120 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -830,6 +830,12 @@ def remove_predicate(
         return CompoundPredicate(predicate.operation, updated_children)
 
 
+def _base_clause_type(clause: BaseClause | typing.Type) -> typing.Type:
+    """Provides the general type of a clause, i.e. all different kinds of *FROM* clauses are just a `From`."""
+    clause_type = clause if isinstance(clause, type) else type(clause)
+    return From if issubclass(clause_type, From) else clause_type
+
+
 def add_clause(
     query: SelectQueryType, clauses_to_add: BaseClause | Iterable[BaseClause]
 ) -> SelectQueryType:
@@ -852,9 +858,11 @@ def add_clause(
         the `clauses_to_add`.
     """
     clauses_to_add = util.enlist(clauses_to_add)
-    new_clause_types = {type(clause) for clause in clauses_to_add}
+    new_clause_types = {_base_clause_type(clause) for clause in clauses_to_add}
     remaining_clauses = [
-        clause for clause in query.clauses() if type(clause) not in new_clause_types
+        clause
+        for clause in query.clauses()
+        if _base_clause_type(clause) not in new_clause_types
     ]
     return build_query(remaining_clauses + list(clauses_to_add))
 
@@ -903,12 +911,11 @@ def drop_clause[T: SelectStatement](query: T, clauses_to_drop: ClauseDescription
         drop_clause(query, query.limit_clause)
     """
     clauses_to_drop = set(util.enlist(clauses_to_drop))
-    clauses_to_drop = {
-        drop if isinstance(drop, typing.Type) else type(drop)
-        for drop in clauses_to_drop
-    }
+    clauses_to_drop = {_base_clause_type(drop) for drop in clauses_to_drop}
     remaining_clauses = [
-        clause for clause in query.clauses() if type(clause) not in clauses_to_drop
+        clause
+        for clause in query.clauses()
+        if _base_clause_type(clause) not in clauses_to_drop
     ]
     return build_query(remaining_clauses)
 
-- 
2.43.0


From 3e207923535978c5668eb0f3845fb8a4c632c1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:37 +0000
Subject: [PATCH 152/181] fix: flattening conjunctions keeps the order of
 predicates and does not split repeated disjunctions (C06)

---
 postbound/transform.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/postbound/transform.py b/postbound/transform.py
index e5b0120..f0e0fef 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -149,24 +149,25 @@ def flatten_and_predicate(predicate: AbstractPredicate) -> AbstractPredicate:
     if not_operation or or_operation:
         return predicate
 
-    flattened_children = set()
+    # use a dict instead of a set to retain the order of the predicates
+    flattened_children: dict[AbstractPredicate, None] = {}
     for child in predicate.children:
         if (
             isinstance(child, CompoundPredicate)
             and child.operation == CompoundOperator.And
         ):
             flattened_child = flatten_and_predicate(child)
-            if isinstance(flattened_child, CompoundPredicate):
-                flattened_children |= set(flattened_child.children)
+            if (
+                isinstance(flattened_child, CompoundPredicate)
+                and flattened_child.operation == CompoundOperator.And
+            ):
+                flattened_children |= dict.fromkeys(flattened_child.children)
             else:
-                flattened_children.add(flattened_child)
+                flattened_children[flattened_child] = None
         else:
-            flattened_children.add(child)
-
-    if len(flattened_children) == 1:
-        return util.simplify(flattened_children)
+            flattened_children[child] = None
 
-    return CompoundPredicate.create_and(flattened_children)
+    return CompoundPredicate.create_and(list(flattened_children))
 
 
 def explicit_to_implicit(source_query: ExplicitSqlQuery) -> ImplicitSqlQuery:
-- 
2.43.0


From 07e2694b3a9b1955a1fe8eaa1e50b464671cab8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:28 +0000
Subject: [PATCH 153/181] fix: implicit versions of explicit queries keep the
 order of tables, hints and joins without conditions (C06)

---
 postbound/transform.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/postbound/transform.py b/postbound/transform.py
index f0e0fef..22a794f 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -195,7 +195,7 @@ def explicit_to_implicit(source_query: ExplicitSqlQuery) -> ImplicitSqlQuery:
     join_working_set: list[TableSource] = list(source_query.from_clause.items)
 
     while join_working_set:
-        current_table_source = join_working_set.pop()
+        current_table_source = join_working_set.pop(0)
 
         match current_table_source:
             case DirectTableSource():
@@ -207,9 +207,10 @@ def explicit_to_implicit(source_query: ExplicitSqlQuery) -> ImplicitSqlQuery:
             case JoinTableSource() if (
                 current_table_source.join_type == JoinType.InnerJoin
             ):
-                join_working_set.append(current_table_source.left)
-                join_working_set.append(current_table_source.right)
-                additional_predicates.append(current_table_source.join_condition)
+                join_working_set.insert(0, current_table_source.right)
+                join_working_set.insert(0, current_table_source.left)
+                if current_table_source.join_condition:
+                    additional_predicates.append(current_table_source.join_condition)
             case _:
                 raise ValueError(
                     "Unsupported table source type: " + str(type(current_table_source))
@@ -217,15 +218,17 @@ def explicit_to_implicit(source_query: ExplicitSqlQuery) -> ImplicitSqlQuery:
 
     final_from_clause = ImplicitFromClause.create_for(complete_from_tables)
 
+    all_predicates = list(additional_predicates)
     if source_query.where_clause:
-        final_predicate = CompoundPredicate.create_and(
-            [source_query.where_clause.predicate] + additional_predicates
+        all_predicates.insert(0, source_query.where_clause.predicate)
+
+    if all_predicates:
+        final_predicate = flatten_and_predicate(
+            CompoundPredicate.create_and(all_predicates)
         )
+        final_where_clause = Where(final_predicate)
     else:
-        final_predicate = CompoundPredicate.create_and(additional_predicates)
-
-    final_predicate = flatten_and_predicate(final_predicate)
-    final_where_clause = Where(final_predicate)
+        final_where_clause = None
 
     return ImplicitSqlQuery(
         select_clause=source_query.select_clause,
@@ -236,6 +239,8 @@ def explicit_to_implicit(source_query: ExplicitSqlQuery) -> ImplicitSqlQuery:
         orderby_clause=source_query.orderby_clause,
         limit_clause=source_query.limit_clause,
         cte_clause=source_query.cte_clause,
+        hints=source_query.hints,
+        explain_clause=source_query.explain,
     )
 
 
-- 
2.43.0


From 4251e923cc30057f40d1094dd0d52cd8342439a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:28 +0000
Subject: [PATCH 154/181] fix: query fragments keep the order of tables and all
 fitting projections, and support negations (C06)

---
 postbound/transform.py | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/postbound/transform.py b/postbound/transform.py
index 22a794f..79e0e39 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -284,7 +284,7 @@ def _get_predicate_fragment(
     compound_predicate: CompoundPredicate = predicate
     child_fragments = [
         _get_predicate_fragment(child, referenced_tables)
-        for child in compound_predicate.children
+        for child in util.enlist(compound_predicate.children)
     ]
     child_fragments = [fragment for fragment in child_fragments if fragment]
     if not child_fragments:
@@ -393,10 +393,14 @@ def extract_query_fragment(
         orderby_clause = None
 
     if isinstance(source_query, SetQuery):
-        left_query = extract_query_fragment(source_query.left_query, referenced_tables)
+        left_query = extract_query_fragment(
+            source_query.left_query, referenced_tables, projection=projection
+        )
         right_query = extract_query_fragment(
-            source_query.right_query, referenced_tables
+            source_query.right_query, referenced_tables, projection=projection
         )
+        if not left_query or not right_query:
+            return None
         return SetQuery(
             left_query,
             right_query,
@@ -412,17 +416,21 @@ def extract_query_fragment(
         case "keep":
             select_fragment = []
             for target in source_query.select_clause:
-                if target.tables() == referenced_tables or not target.columns():
+                if target.tables().issubset(referenced_tables):
                     select_fragment.append(target)
 
+            distinct = source_query.select_clause.distinct_specifier()
+            if not isinstance(distinct, bool):
+                distinct = [
+                    expr
+                    for expr in distinct
+                    if expr.tables().issubset(referenced_tables)
+                ]
+
             if select_fragment:
-                select_clause = Select(
-                    select_fragment, distinct=source_query.select_clause.is_distinct()
-                )
+                select_clause = Select(select_fragment, distinct=distinct)
             else:
-                select_clause = Select.star(
-                    distinct=source_query.select_clause.is_distinct()
-                )
+                select_clause = Select.star(distinct=distinct)
 
         case "star" | "*":
             select_clause = Select.star()
@@ -437,7 +445,7 @@ def extract_query_fragment(
         from_clause = ImplicitFromClause(
             [
                 DirectTableSource(tab)
-                for tab in source_query.tables()
+                for tab in source_query.from_clause.itertables()
                 if tab in referenced_tables
             ]
         )
-- 
2.43.0


From e3bf24fc14de6c4af5cfa498e76a035fe2c3fd11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:28 +0000
Subject: [PATCH 155/181] fix: expanding equivalence classes keeps all other
 predicates and ignores joins in disjunctions (C06)

---
 postbound/transform.py | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/postbound/transform.py b/postbound/transform.py
index 79e0e39..f4abea5 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -170,6 +170,16 @@ def flatten_and_predicate(predicate: AbstractPredicate) -> AbstractPredicate:
     return CompoundPredicate.create_and(list(flattened_children))
 
 
+def _conjunctions(predicate: AbstractPredicate) -> list[AbstractPredicate]:
+    """Provides all predicates that are part of the top-level conjunction of a specific predicate."""
+    flattened = flatten_and_predicate(predicate)
+    match flattened:
+        case CompoundPredicate(CompoundOperator.And, children):
+            return list(children)
+        case _:
+            return [flattened]
+
+
 def explicit_to_implicit(source_query: ExplicitSqlQuery) -> ImplicitSqlQuery:
     """Transforms a query with an explicit ``FROM`` clause to a query with an implicit ``FROM`` clause.
 
@@ -672,12 +682,21 @@ def add_ec_predicates(query: ImplicitSqlQuery) -> ImplicitSqlQuery:
     """
     if not query.where_clause:
         return query
-    predicates = query.predicates()
 
-    ec_classes = determine_join_equivalence_classes(predicates.joins())
-    ec_predicates = generate_predicates_for_equivalence_classes(ec_classes)
+    # only the conjunctions are guaranteed to hold for all tuples, joins in disjunctions or negations do not imply anything
+    all_predicates = _conjunctions(query.where_clause.predicate)
+
+    ec_classes = determine_join_equivalence_classes(
+        pred for pred in all_predicates if isinstance(pred, BinaryPredicate)
+    )
+    for predicate in generate_predicates_for_equivalence_classes(ec_classes):
+        mirrored = BinaryPredicate(
+            predicate.operation, predicate.second_argument, predicate.first_argument
+        )
+        if predicate in all_predicates or mirrored in all_predicates:
+            continue
+        all_predicates.append(predicate)
 
-    all_predicates = list(ec_predicates) + list(predicates.filters())
     updated_where_clause = Where(CompoundPredicate.create_and(all_predicates))
 
     return replace_clause(query, updated_where_clause)
-- 
2.43.0


From 5004a9292f106983f5373f8c92be5b3e10e96b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:28 +0000
Subject: [PATCH 156/181] fix: moving tables into a subquery moves exactly the
 conjunctions over these tables (C06)

---
 postbound/transform.py | 45 ++++++++++++++++++++++++------------------
 1 file changed, 26 insertions(+), 19 deletions(-)

diff --git a/postbound/transform.py b/postbound/transform.py
index f4abea5..b6381f2 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -592,7 +592,6 @@ def move_into_subquery(
     if len(tables) < 2:
         raise ValueError("At least two tables required")
 
-    predicates = query.predicates()
     all_referenced_columns = util.set_union(
         clause.columns() for clause in query.clauses() if not isinstance(clause, From)
     )
@@ -614,17 +613,25 @@ def move_into_subquery(
     }
 
     subquery_predicates: list[AbstractPredicate] = []
-    for table in tables:
-        filter_predicate = predicates.filters_for(table)
-        if not filter_predicate:
-            continue
-        subquery_predicates.append(filter_predicate)
-    join_predicates = predicates.joins_between(tables, tables)
-    if join_predicates:
-        subquery_predicates.append(join_predicates)
+    remaining_predicates: list[AbstractPredicate] = []
+    if query.where_clause:
+        for predicate in _conjunctions(query.where_clause.predicate):
+            pred_tables = predicate.tables()
+            if pred_tables and pred_tables <= tables:
+                subquery_predicates.append(predicate)
+            else:
+                remaining_predicates.append(predicate)
 
-    subquery_select = Select.create_for(columns_from_subquery_tables)
-    subquery_from = ImplicitFromClause.create_for(tables)
+    subquery_select = (
+        Select.create_for(columns_from_subquery_tables)
+        if columns_from_subquery_tables
+        else Select.star()
+    )
+    subquery_from = From(
+        [src for src in query.from_clause.items if src.tables() <= tables]
+    )
+    if all(isinstance(src, DirectTableSource) for src in subquery_from.items):
+        subquery_from = ImplicitFromClause(subquery_from.items)
     subquery_where = (
         Where(CompoundPredicate.create_and(subquery_predicates))
         if subquery_predicates
@@ -637,19 +644,19 @@ def move_into_subquery(
     updated_from_sources = [
         table_source
         for table_source in query.from_clause.items
-        if not table_source.tables() < tables
+        if not table_source.tables() <= tables
     ]
-    update_from_clause = ImplicitFromClause.create_for(
-        updated_from_sources + [subquery_table_source]
+    update_from_clause = From(updated_from_sources + [subquery_table_source])
+    updated_where_clause = (
+        Where(CompoundPredicate.create_and(remaining_predicates))
+        if remaining_predicates
+        else None
     )
-    updated_predicate = query.where_clause.predicate if query.where_clause else None
-    for predicate in subquery_predicates:
-        updated_predicate = remove_predicate(updated_predicate, predicate)
-    updated_where_clause = Where(updated_predicate) if updated_predicate else None
 
     updated_query = drop_clause(query, [From, Where])
     updated_query = add_clause(
-        updated_query, [update_from_clause, updated_where_clause]
+        updated_query,
+        [clause for clause in (update_from_clause, updated_where_clause) if clause],
     )
 
     updated_other_clauses: list[BaseClause] = []
-- 
2.43.0


From 3942a4d041521626a2def39c8fca469e8d017ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:38 +0000
Subject: [PATCH 157/181] fix: the SELECT clause also reports the columns and
 tables of DISTINCT ON (C06)

---
 postbound/qal/_qal.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 5dad842..8a4cab1 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -6081,16 +6081,16 @@ class Select(BaseClause):
         return [target for target in self.targets if target.is_star()]
 
     def columns(self) -> set[ColumnReference]:
-        return util.set_union(target.columns() for target in self.targets)
+        return util.set_union(expr.columns() for expr in self.iterexpressions())
 
     def itercolumns(self) -> Iterable[ColumnReference]:
-        return util.flatten(target.itercolumns() for target in self.targets)
+        return util.flatten(expr.itercolumns() for expr in self.iterexpressions())
 
     def tables(self) -> set[TableReference]:
-        return util.set_union(target.tables() for target in self.targets)
+        return util.set_union(expr.tables() for expr in self.iterexpressions())
 
     def iterexpressions(self) -> Iterable[SqlExpression]:
-        return [target.expression for target in self.targets]
+        return [target.expression for target in self.targets] + list(self.distinct_on)
 
     def output_names(self) -> dict[str, ColumnReference]:
         """Output names map the alias of each column to the actual column.
-- 
2.43.0


From 69c6087adfd4a198cc696658d191d467d5280397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:49 +0000
Subject: [PATCH 158/181] fix: copying algebra trees keeps links, hashes and
 shared nodes consistent (C22)

Mutations started at the leaves and followed the upward links, so that nodes
of outdated trees were visited and links of the original tree were rebuilt.
Hash values were computed before those of the children, and the provided
columns of relations could neither be mutated nor told apart.
---
 postbound/relalg.py | 240 ++++++++++++++++----------------------------
 1 file changed, 89 insertions(+), 151 deletions(-)

diff --git a/postbound/relalg.py b/postbound/relalg.py
index eda6b5a..d9fb176 100644
--- a/postbound/relalg.py
+++ b/postbound/relalg.py
@@ -162,7 +162,7 @@ class RelNode(abc.ABC):
         children = self.children()
         if not children:
             return self
-        return children[0] if len(children) == 1 else None
+        return children[0].leaf() if len(children) == 1 else None
 
     @abc.abstractmethod
     def children(self) -> Sequence[RelNode]:
@@ -327,8 +327,8 @@ class RelNode(abc.ABC):
         for child in self.children():
             if child._parent is None:
                 child._parent = self
-                continue
-            child._sideways_pass.add(self)
+            elif child._parent is not self:
+                child._sideways_pass.add(self)
 
         if not recursive:
             return
@@ -391,9 +391,9 @@ class RelNode(abc.ABC):
 
     def _rehash(self) -> None:
         """Re-calculates the hash value of the current node and all its children."""
-        self._hash_val = hash((self._node_type, self._recalc_hash_val()))
         for child in self.children():
             child._rehash()
+        self._hash_val = hash((self._node_type, self._recalc_hash_val()))
 
     def _assert_correct_update_child_count(self, children: Sequence[RelNode]) -> None:
         """Ensures that the correct number of child nodes is supplied for updating the current node.
@@ -1030,18 +1030,20 @@ class Relation(RelNode):
         parent_node: Optional[RelNode] = None,
     ) -> None:
         self._table = table
-        self._provided_cols = frozenset(
+        self._provided_columns = self._normalize_columns(provided_columns)
+        self._subquery_input = subquery_input
+        super().__init__(parent_node)
+
+    @staticmethod
+    def _normalize_columns(
+        columns: Iterable[ColumnReference | ColumnExpression],
+    ) -> frozenset[ColumnExpression]:
+        """Wraps all plain columns in expressions."""
+        return frozenset(
             col if isinstance(col, ColumnExpression) else ColumnExpression(col)
-            for col in provided_columns
+            for col in columns
         )
 
-        self._subquery_input = subquery_input if subquery_input is not None else None
-        if self._subquery_input is not None:
-            # We need to set the parent node explicitly here in order to prevent infinite recursion
-            self._subquery_input._parent = self
-
-        super().__init__(parent_node)
-
     @property
     def table(self) -> TableReference:
         """Get the table that is represented by this relation.
@@ -1074,7 +1076,7 @@ class Relation(RelNode):
         return super().tables() | {self._table}
 
     def provided_expressions(self) -> frozenset[SqlExpression]:
-        return super().provided_expressions() | self._provided_cols
+        return super().provided_expressions() | self._provided_columns
 
     def accept_visitor(self, visitor: RelNodeVisitor[VisitorResult]) -> VisitorResult:
         return visitor.visit_base_relation(self)
@@ -1109,6 +1111,11 @@ class Relation(RelNode):
         --------
         RelNode.mutate : for safety considerations and calling conventions
         """
+        provided_columns = (
+            self._normalize_columns(provided_columns)
+            if provided_columns is not None
+            else None
+        )
         params = {
             param: val
             for param, val in locals().items()
@@ -1122,12 +1129,17 @@ class Relation(RelNode):
             self._subquery_input = children[0]
 
     def _recalc_hash_val(self) -> int:
-        return hash((self._table, self._subquery_input))
+        return hash((self._table, self._provided_columns, self._subquery_input))
 
     __hash__ = RelNode.__hash__
 
     def __eq__(self, other: object) -> bool:
-        return isinstance(other, type(self)) and self._table == other._table
+        return (
+            isinstance(other, type(self))
+            and self._table == other._table
+            and self._provided_columns == other._provided_columns
+            and self._subquery_input == other._subquery_input
+        )
 
     def __repr__(self) -> str:
         return self._table.identifier()
@@ -1349,6 +1361,7 @@ class Projection(RelNode):
         --------
         RelNode.mutate : for safety considerations and calling conventions
         """
+        targets = tuple(targets) if targets is not None else None
         params = {
             param: val
             for param, val in locals().items()
@@ -1490,6 +1503,8 @@ class Grouping(RelNode):
         --------
         RelNode.mutate : for safety considerations and calling conventions
         """
+        group_columns = tuple(group_columns) if group_columns is not None else None
+        aggregates = util.frozendict(aggregates) if aggregates is not None else None
         params = {
             param: val
             for param, val in locals().items()
@@ -1623,6 +1638,7 @@ class Rename(RelNode):
         --------
         RelNode.mutate : for safety considerations and calling conventions
         """
+        mapping = util.frozendict(mapping) if mapping is not None else None
         params = {
             param: val
             for param, val in locals().items()
@@ -1683,14 +1699,19 @@ class Sort(RelNode):
         parent_node: Optional[RelNode] = None,
     ) -> None:
         self._input_node = input_node
-        self._sorting = tuple(
-            [
-                sort_item if isinstance(sort_item, tuple) else (sort_item, "asc")
-                for sort_item in sorting
-            ]
-        )
+        self._sorting = self._normalize_sorting(sorting)
         super().__init__(parent_node)
 
+    @staticmethod
+    def _normalize_sorting(
+        sorting: Sequence[tuple[SqlExpression, SortDirection] | SqlExpression],
+    ) -> tuple[tuple[SqlExpression, SortDirection], ...]:
+        """Adds the default sort direction to all items that do not specify a direction themselves."""
+        return tuple(
+            sort_item if isinstance(sort_item, tuple) else (sort_item, "asc")
+            for sort_item in sorting
+        )
+
     @property
     def input_node(self) -> RelNode:
         """Get the operator providing the tuples to sort.
@@ -1751,6 +1772,7 @@ class Sort(RelNode):
         --------
         RelNode.mutate : for safety considerations and calling conventions
         """
+        sorting = self._normalize_sorting(sorting) if sorting is not None else None
         params = {
             param: val
             for param, val in locals().items()
@@ -1806,7 +1828,17 @@ class Map(RelNode):
         parent_node: Optional[RelNode] = None,
     ) -> None:
         self._input_node = input_node
-        self._mapping = util.frozendict(
+        self._mapping = self._normalize_mapping(mapping)
+        super().__init__(parent_node)
+
+    @staticmethod
+    def _normalize_mapping(
+        mapping: dict[
+            frozenset[SqlExpression | ColumnReference], frozenset[SqlExpression]
+        ],
+    ) -> util.frozendict[frozenset[SqlExpression], frozenset[SqlExpression]]:
+        """Makes sure that the arguments of a mapping are always expressions."""
+        return util.frozendict(
             {
                 ColumnExpression(expression)
                 if isinstance(expression, ColumnReference)
@@ -1814,7 +1846,6 @@ class Map(RelNode):
                 for expression, target in mapping.items()
             }
         )
-        super().__init__(parent_node)
 
     @property
     def input_node(self) -> RelNode:
@@ -1883,6 +1914,7 @@ class Map(RelNode):
         --------
         RelNode.mutate : for safety considerations and calling conventions
         """
+        mapping = self._normalize_mapping(mapping) if mapping is not None else None
         params = {
             param: val
             for param, val in locals().items()
@@ -2521,28 +2553,6 @@ class RelNodeVisitor(abc.ABC, typing.Generic[VisitorResult]):
         raise NotImplementedError
 
 
-def _collect_leaf_nodes(root: RelNode) -> set[Relation]:
-    """Provides all leaf nodes of a relational algebra tree.
-
-    For relation nodes with subquery input, only the leaf nodes of the subquery are returned.
-
-    Parameters
-    ----------
-    root : RelNode
-        The root node of the tree
-
-    Returns
-    -------
-    set[Relation]
-        The leaf nodes
-    """
-    if isinstance(root, Relation) and not root.subquery_input:
-        nodes = {root}
-    else:
-        nodes = util.set_union(_collect_leaf_nodes(child) for child in root.children())
-    return nodes
-
-
 @dataclasses.dataclass
 class _RelTreeUpdateSet:
     """Holds the root node of the updated tree and the node that asked for the tree update in the first place."""
@@ -2566,7 +2576,6 @@ class _RelNodeUpdateManager:
         self._root = root
         self._initiator = initiator
         self._updated_nodes: dict[RelNode, RelNode] = {}
-        self._node_working_set: list[RelNode] = list(_collect_leaf_nodes(root))
 
     def make_relalg_copy(self, **kwargs) -> _RelTreeUpdateSet:
         """Creates a copy of the relational algebra tree and applies modifications to it.
@@ -2582,47 +2591,45 @@ class _RelNodeUpdateManager:
             The updated relalg tree.
         """
         as_root: bool = kwargs.get("as_root", False)
-        updated_root: RelNode = None
-        updated_initiator: RelNode = None
-
-        while self._node_working_set:
-            current_node = self._node_working_set.pop(0)
-            self._update_node_working_set(current_node)
-
-            already_updated = current_node in self._updated_nodes
-            pending_child_update = any(
-                child not in self._updated_nodes for child in current_node.children()
-            )
-            if already_updated or pending_child_update:
-                continue
+        updated_root = self._copy_node(
+            self._initiator if as_root else self._root, **kwargs
+        )
+        updated_initiator = self._updated_nodes[self._initiator]
 
-            updated_node = current_node.clone()
-            updated_node._update_child_nodes(
-                [self._updated_nodes[child] for child in current_node.children()]
-            )
-            updated_node._clear_parent_links()
+        # the hash values must be up-to-date before any of the nodes can become part of a sideways pass
+        updated_root._rehash()
+        updated_root._rebuild_linkage()
 
-            if current_node == self._initiator:
-                self._perform_node_update(updated_node, **kwargs)
-                updated_initiator = updated_node
-                if as_root:
-                    updated_root = updated_node
-                    break
+        return _RelTreeUpdateSet(updated_root, updated_initiator)
 
-            self._updated_nodes[current_node] = updated_node
+    def _copy_node(self, node: RelNode, **kwargs) -> RelNode:
+        """Copies the subtree induced by a node. The initiator of the tree mutation is modified along the way.
 
-            if not as_root and current_node == self._root:
-                updated_root = updated_node
+        Parameters
+        ----------
+        node : RelNode
+            The *original* version of the node
+        **kwargs
+            The arguments to apply to the initiator
 
-        assert updated_initiator is not None
-        assert updated_root is not None
+        Returns
+        -------
+        RelNode
+            The updated node
+        """
+        if node in self._updated_nodes:
+            return self._updated_nodes[node]
 
-        updated_root._rebuild_linkage()
-        updated_root._rehash()
-        self._root._rebuild_linkage()
-        self._root._rehash()
+        updated_node = node.clone()
+        updated_node._update_child_nodes(
+            [self._copy_node(child, **kwargs) for child in node.children()]
+        )
+        updated_node._clear_parent_links()
+        if node == self._initiator:
+            self._perform_node_update(updated_node, **kwargs)
 
-        return _RelTreeUpdateSet(updated_root, updated_initiator)
+        self._updated_nodes[node] = updated_node
+        return updated_node
 
     def _perform_node_update(self, node: RelNode, **kwargs) -> None:
         """Updates the initiator of a tree mutation with node-specific arguments.
@@ -2643,78 +2650,9 @@ class _RelNodeUpdateManager:
                 continue
 
             if isinstance(value, RelNode):
-                value = self._merge_new_child(value)
+                value = self._copy_node(value)
             setattr(node, actual_attr_name, value)
 
-    def _merge_new_child(self, child_node: RelNode) -> RelNode:
-        """Merges a new child node into the tree update process.
-
-        This ensures that all child nodes of the new node correctly reference their updated counterparts.
-
-        Parameters
-        ----------
-        child_node : RelNode
-            The new child node to merge. Must be the *original* version of the child node.
-
-        Returns
-        -------
-        RelNode
-            The updated child node
-        """
-        internal_node_working_set: list[RelNode] = list(_collect_leaf_nodes(child_node))
-        updated_child: RelNode = None
-
-        while internal_node_working_set:
-            current_node = internal_node_working_set.pop(0)
-            already_updated = current_node in self._updated_nodes
-            if already_updated and current_node == child_node:
-                updated_child = self._updated_nodes[current_node]
-                break
-            if already_updated:
-                self._update_node_working_set(
-                    current_node, working_set=internal_node_working_set
-                )
-                continue
-            if any(
-                child not in self._updated_nodes for child in current_node.children()
-            ):
-                continue
-
-            updated_node = current_node.clone()
-            updated_node._update_child_nodes(
-                [self._updated_nodes[child] for child in current_node.children()]
-            )
-            updated_node._clear_parent_links()
-
-            self._updated_nodes[current_node] = updated_node
-            if current_node == child_node:
-                updated_child = updated_node
-                break
-
-            self._update_node_working_set(
-                current_node, working_set=internal_node_working_set
-            )
-
-        assert updated_child is not None
-        return updated_child
-
-    def _update_node_working_set(
-        self, node: RelNode, *, working_set: Optional[list[RelNode]] = None
-    ) -> None:
-        """Utility method to quickly include all relevant parent nodes into a node working set.
-
-        Parameters
-        ----------
-        node : RelNode
-            The node whose upwards links should be added to the working set
-        working_set : Optional[list[RelNode]], optional
-            The working set to update. If *None*, the internal working set of the update manager is used.
-        """
-        working_set = self._node_working_set if working_set is None else working_set
-        if node.parent_node:
-            working_set.append(node.parent_node)
-        working_set.extend(node.sideways_pass)
-
 
 def _is_aggregation(expression: SqlExpression) -> bool:
     """Utility to check whether an arbitrary SQL expression is an aggregation function.
-- 
2.43.0


From 5bd9aa82e779aa2ce9037b50b3024b3286778232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:08 +0000
Subject: [PATCH 159/181] fix: algebra trees of queries compute the result of
 the query (C22)

- operators only announce expressions that they really provide
- the evaluation phase of a predicate considers the tables that its subqueries
  depend on, nested conjunctions are split completely
- CTEs are scanned once per reference, operands of set queries and subqueries
  are parsed on their own but see the tables of all outer queries
- HAVING, DISTINCT, grouping by expressions and default sort directions are
  translated, disjunctions with subqueries do not produce duplicates
---
 postbound/relalg.py | 608 +++++++++++++++-----------------------------
 1 file changed, 200 insertions(+), 408 deletions(-)

diff --git a/postbound/relalg.py b/postbound/relalg.py
index d9fb176..7650dbc 100644
--- a/postbound/relalg.py
+++ b/postbound/relalg.py
@@ -724,9 +724,14 @@ class Union(RelNode):
     def children(self) -> Sequence[RelNode]:
         return [self._left_input, self._right_input]
 
-    def accept_visitor(self, visitor: RelNodeVisitor[VisitorResult]) -> VisitorResult:
-        return visitor.visit_union(visitor)
+    def provided_expressions(self) -> frozenset[SqlExpression]:
+        return (
+            self._left_input.provided_expressions()
+            & self._right_input.provided_expressions()
+        )
 
+    def accept_visitor(self, visitor: RelNodeVisitor[VisitorResult]) -> VisitorResult:
+        return visitor.visit_union(self)
     def mutate(
         self,
         *,
@@ -835,9 +840,14 @@ class Intersection(RelNode):
     def children(self) -> Sequence[RelNode]:
         return [self._left_input, self._right_input]
 
-    def accept_visitor(self, visitor: RelNodeVisitor[VisitorResult]) -> VisitorResult:
-        return visitor.visit_intersection(visitor)
+    def provided_expressions(self) -> frozenset[SqlExpression]:
+        return (
+            self._left_input.provided_expressions()
+            & self._right_input.provided_expressions()
+        )
 
+    def accept_visitor(self, visitor: RelNodeVisitor[VisitorResult]) -> VisitorResult:
+        return visitor.visit_intersection(self)
     def mutate(
         self,
         *,
@@ -947,9 +957,11 @@ class Difference(RelNode):
     def children(self) -> Sequence[RelNode]:
         return [self._left_input, self._right_input]
 
-    def accept_visitor(self, visitor: RelNodeVisitor[VisitorResult]) -> VisitorResult:
-        return visitor.visit_difference(visitor)
+    def provided_expressions(self) -> frozenset[SqlExpression]:
+        return self._left_input.provided_expressions()
 
+    def accept_visitor(self, visitor: RelNodeVisitor[VisitorResult]) -> VisitorResult:
+        return visitor.visit_difference(self)
     def mutate(
         self,
         *,
@@ -1076,8 +1088,7 @@ class Relation(RelNode):
         return super().tables() | {self._table}
 
     def provided_expressions(self) -> frozenset[SqlExpression]:
-        return super().provided_expressions() | self._provided_columns
-
+        return self._provided_columns
     def accept_visitor(self, visitor: RelNodeVisitor[VisitorResult]) -> VisitorResult:
         return visitor.visit_base_relation(self)
 
@@ -1330,9 +1341,11 @@ class Projection(RelNode):
     def children(self) -> Sequence[RelNode]:
         return [self._input_node]
 
+    def provided_expressions(self) -> frozenset[SqlExpression]:
+        return frozenset(self._targets)
+
     def accept_visitor(self, visitor: RelNodeVisitor[VisitorResult]) -> VisitorResult:
         return visitor.visit_projection(self)
-
     def mutate(
         self,
         *,
@@ -2125,9 +2138,11 @@ class SemiJoin(RelNode):
     def children(self) -> Sequence[RelNode]:
         return [self._input_node, self._subquery_node]
 
+    def provided_expressions(self) -> frozenset[SqlExpression]:
+        return self._input_node.provided_expressions()
+
     def accept_visitor(self, visitor: RelNodeVisitor[VisitorResult]) -> VisitorResult:
         return visitor.visit_semijoin(self)
-
     def mutate(
         self,
         *,
@@ -2283,9 +2298,11 @@ class AntiJoin(RelNode):
     def children(self) -> Sequence[RelNode]:
         return [self._input_node, self._subquery_node]
 
+    def provided_expressions(self) -> frozenset[SqlExpression]:
+        return self._input_node.provided_expressions()
+
     def accept_visitor(self, visitor: RelNodeVisitor[VisitorResult]) -> VisitorResult:
         return visitor.visit_antijoin(self)
-
     def mutate(
         self,
         *,
@@ -2409,8 +2426,7 @@ class SubqueryScan(RelNode):
         return [self._input_node]
 
     def provided_expressions(self) -> frozenset[SqlExpression]:
-        return {SubqueryExpression(self._subquery)} | super().provided_expressions()
-
+        return super().provided_expressions() | {SubqueryExpression(self._subquery)}
     def accept_visitor(self, visitor: RelNodeVisitor[VisitorResult]) -> VisitorResult:
         return visitor.visit_subquery(self)
 
@@ -2881,8 +2897,8 @@ class _SubqueryDetector(
                 expression.accept_visitor(self)
                 for expression in predicate.iterexpressions()
             ],
+            _SubquerySet.empty(),
         )
-
     def _traverse_nested_expressions(self, expression: SqlExpression) -> _SubquerySet:
         """Handler to collect subqueries from SQL expressions."""
         return functools.reduce(
@@ -2891,207 +2907,49 @@ class _SubqueryDetector(
                 nested_expression.accept_visitor(self)
                 for nested_expression in expression.iterchildren()
             ],
+            _SubquerySet.empty(),
         )
+def _required_tables(
+    element: AbstractPredicate | SqlExpression,
+) -> frozenset[TableReference]:
+    """Determines all tables that have to be available to evaluate a predicate or an expression.
 
-
-class _BaseTableLookup(
-    SqlExpressionVisitor[Optional[TableReference]], PredicateVisitor[TableReference]
-):
-    """Handler to determine the base table in an arbitrarily deep predicate or expression hierarchy.
-
-    This service is designed to traverse filter predicates or expressions operating on a single base table and provides exactly
-    this table. As a special case, it also traverses dependent subqueries. In this case, the base table is the outer table.
-
-    The lookup may be started directly by calling the instantiated service with a predicate or an expression as argument.
-
-    Notes
-    -----
-    In cases where multiple applicable base tables are detected, a ``ValueError`` is raised. Therefore, using the lookup on a
-    predicate is always guaranteed to provide a table (or raise an error) since all predicates operate on tables. On the other
-    hand, checking an arbitrary SQL expression may or may not contain a base table (e.g. *CAST(42 AS float)*). Hence, an
-    optional is returned for expressions.
+    For subqueries, these are just the tables of the outer queries that the subquery depends on. The tables of the subquery
+    itself are processed along with the subquery.
     """
+    subqueries = element.accept_visitor(_SubqueryDetector()).subqueries
+    subquery_tables = util.set_union(subquery.tables() for subquery in subqueries)
+    outer_tables = util.set_union(subquery.unbound_tables() for subquery in subqueries)
+    return frozenset((element.tables() - subquery_tables) | outer_tables)
 
-    def visit_and_predicate(
-        self, predicate: CompoundPredicate, components: Sequence[AbstractPredicate]
-    ) -> TableReference:
-        base_tables = {child_pred.accept_visitor(self) for child_pred in components}
-        return self._fetch_valid_base_tables(base_tables)
-
-    def visit_or_predicate(
-        self, predicate: CompoundPredicate, components: Sequence[AbstractPredicate]
-    ) -> TableReference:
-        base_tables = {child_pred.accept_visitor(self) for child_pred in components}
-        return self._fetch_valid_base_tables(base_tables)
-
-    def visit_not_predicate(
-        self, predicate: CompoundPredicate, child_predicate: AbstractPredicate
-    ) -> TableReference:
-        return child_predicate.accept_visitor(self)
-
-    def visit_binary_predicate(self, predicate: BinaryPredicate) -> bool:
-        base_tables = (
-            predicate.first_argument.accept_visitor(self),
-            predicate.second_argument.accept_visitor(self),
-        )
-        return self._fetch_valid_base_tables(set(base_tables))
-
-    def visit_between_predicate(self, predicate: BetweenPredicate) -> bool:
-        base_tables = (
-            predicate.column.accept_visitor(self),
-            predicate.interval_start.accept_visitor(self),
-            predicate.interval_end.accept_visitor(self),
-        )
-        return self._fetch_valid_base_tables(set(base_tables))
-
-    def visit_in_predicate(self, predicate: InPredicate) -> bool:
-        base_tables = {predicate.column.accept_visitor(self)}
-        base_tables |= {val.accept_visitor(self) for val in predicate.values}
-        return self._fetch_valid_base_tables(base_tables)
-
-    def visit_unary_predicate(self, predicate: UnaryPredicate) -> bool:
-        return predicate.column.accept_visitor(self)
 
-    def visit_static_value_expr(
-        self, expression: StaticValueExpression
-    ) -> Optional[TableReference]:
-        return None
-
-    def visit_column_expr(
-        self, expression: ColumnExpression
-    ) -> Optional[TableReference]:
-        return expression.column.table
-
-    def visit_cast_expr(self, expression: CastExpression) -> Optional[TableReference]:
-        return expression.casted_expression.accept_visitor(self)
-
-    def visit_function_expr(
-        self, expression: FunctionExpression
-    ) -> Optional[TableReference]:
-        referenced_tables = {
-            argument.accept_visitor(self) for argument in expression.arguments
-        }
-        return self._fetch_valid_base_tables(referenced_tables, accept_empty=True)
-
-    def visit_math_expr(self, expression: MathExpression) -> bool:
-        base_tables = {
-            child.accept_visitor(self) for child in expression.iterchildren()
-        }
-        return self._fetch_valid_base_tables(base_tables)
-
-    def visit_star_expr(self, expression: StarExpression) -> Optional[TableReference]:
-        return expression.from_table
-
-    def visit_subquery_expr(
-        self, expression: SubqueryExpression
-    ) -> Optional[TableReference]:
-        subquery = expression.query
-        if not subquery.is_dependent():
-            return None
-        dependent_tables = subquery.unbound_tables()
-        return self._fetch_valid_base_tables(dependent_tables, accept_empty=True)
-
-    def visit_window_expr(
-        self, expression: WindowExpression
-    ) -> Optional[TableReference]:
-        # base tables can only appear in predicates and window functions are limited to SELECT statements
-        return None
-
-    def visit_case_expr(self, expression: CaseExpression) -> Optional[TableReference]:
-        referenced_tables = {
-            child.accept_visitor(self) for child in expression.iterchildren()
-        }
-        return self._fetch_valid_base_tables(referenced_tables, accept_empty=True)
-
-    def visit_quantifier_expr(
-        self, expr: QuantifierExpression
-    ) -> Optional[TableReference]:
-        return expr.expression.accept_visitor(self)
-
-    def visit_array_expr(self, expression: ArrayExpression) -> Optional[TableReference]:
-        referenced_tables = {
-            element.accept_visitor(self) for element in expression.elements
-        }
-        return self._fetch_valid_base_tables(referenced_tables, accept_empty=True)
-
-    def visit_predicate_expr(self, expression: AbstractPredicate) -> TableReference:
-        return expression.accept_visitor(self)
-
-    def _fetch_valid_base_tables(
-        self, base_tables: set[TableReference | None], *, accept_empty: bool = False
-    ) -> Optional[TableReference]:
-        """Handler to extract the actual base table from a set of candidate tables.
-
-        Parameters
-        ----------
-        base_tables : set[TableReference  |  None]
-            The candidate tables. Usually, this should be a set containing exactly one base table and potentially an
-            additional *None* value. In all other situations an error is raised (see below)
-        accept_empty : bool, optional
-            Whether an empty set of actual candidate tables (i.e. excluding *None* values) is an acceptable argument. If that
-            is the case, *None* is returned in such a situation. Empty candidate sets raise an error by default.
-
-        Returns
-        -------
-        Optional[TableReference]
-            The base table
-
-        Raises
-        ------
-        ValueError
-            If the candidate tables either contain more than one actual table instance, or if empty candidate sets are not
-            accepted and the set does not contain any *non-None* enties.
-        """
-        if None in base_tables:
-            base_tables.remove(None)
-        if len(base_tables) != 1 or (accept_empty and not base_tables):
-            raise ValueError(
-                f"Expected exactly one base predicate but found {base_tables}"
-            )
-        return util.simplify(base_tables) if base_tables else None
-
-    def __call__(self, elem: AbstractPredicate | SqlExpression) -> TableReference:
-        if isinstance(elem, AbstractPredicate) and elem.is_join():
-            raise ValueError(f"Cannot determine base table for join predicate '{elem}'")
-        tables = elem.tables()
-        if len(tables) == 1:
-            return util.simplify(tables)
-        base_table = elem.accept_visitor(self)
-        if base_table is None:
-            raise ValueError(f"No base table found in '{elem}'")
-        return base_table
-
-
-def _collect_all_expressions(
-    expression: SqlExpression, *, traverse_aggregations: bool = False
-) -> frozenset[SqlExpression]:
-    """Provides all expressions in a specific expression tree, including the root expression.
+def _collect_missing_expressions(
+    expressions: Iterable[SqlExpression],
+    provided_expressions: Iterable[SqlExpression],
+) -> set[SqlExpression]:
+    """Determines all expressions that still have to be computed in order to evaluate some target expressions.
 
     Parameters
     ----------
-    expression : SqlExpression
-        The root expression
-    traverse_aggregations : bool, optional
-        Whether expressions nested in aggregation functions should be included. Disabled by default.
+    expressions : Iterable[SqlExpression]
+        The target expressions
+    provided_expressions : Iterable[SqlExpression]
+        The expressions that have already been computed. Their child expressions are not required anymore.
 
     Returns
     -------
-    frozenset[SqlExpression]
-        The expression as well as all child expressions, including deeply nested children.
+    set[SqlExpression]
+        The missing targets as well as all of their missing child expressions, including deeply nested children.
     """
-    if (
-        not traverse_aggregations
-        and isinstance(expression, FunctionExpression)
-        and expression.is_aggregate()
-    ):
-        return frozenset({expression})
-    child_expressions = util.set_union(
-        _collect_all_expressions(child_expr) for child_expr in expression.iterchildren()
-    )
-    all_expressions = frozenset({expression} | child_expressions)
-    return frozenset(
-        {expression for expression in all_expressions if _needs_mapping(expression)}
-    )
+    missing_expressions: set[SqlExpression] = set()
+    for expression in expressions:
+        if not _needs_mapping(expression) or expression in provided_expressions:
+            continue
+        missing_expressions.add(expression)
+        missing_expressions |= _collect_missing_expressions(
+            expression.iterchildren(), provided_expressions
+        )
+    return missing_expressions
 
 
 def _determine_expression_phase(expression: SqlExpression) -> EvaluationPhase:
@@ -3111,20 +2969,22 @@ def _determine_expression_phase(expression: SqlExpression) -> EvaluationPhase:
         ):
             own_phase = (
                 EvaluationPhase.Join
-                if len(expression.tables()) > 1
+                if len(_required_tables(expression)) > 1
                 else EvaluationPhase.BaseTable
             )
-            child_phase = max(
+            child_phases = [
                 _determine_expression_phase(child_expr)
                 for child_expr in expression.iterchildren()
-            )
-            return max(own_phase, child_phase)
+            ]
+            return max([own_phase, *child_phases])
         case SubqueryExpression():
             return (
                 EvaluationPhase.BaseTable
                 if len(expression.query.unbound_tables()) < 2
                 else EvaluationPhase.PostJoin
             )
+        case AbstractPredicate():
+            return _determine_predicate_phase(expression)
         case StarExpression() | StaticValueExpression():
             # TODO: should we rather raise an error in this case?
             return EvaluationPhase.BaseTable
@@ -3142,36 +3002,28 @@ def _determine_predicate_phase(predicate: AbstractPredicate) -> EvaluationPhase:
     --------
     _determine_expression_phase
     """
-    nested_subqueries = predicate.accept_visitor(_SubqueryDetector())
-    subquery_tables = len(
-        util.set_union(
-            subquery.bound_tables() for subquery in nested_subqueries.subqueries
-        )
-    )
-    n_tables = len(predicate.tables()) - subquery_tables
-    if n_tables == 1:
-        # It could actually be that the number of tables is negative. E.g. HAVING count(*) < (SELECT min(r_a) FROM R)
-        # Therefore, we only check for exactly 1 table
-        return EvaluationPhase.BaseTable
-    if subquery_tables:
-        # If there are subqueries and multiple base tables present, we encoutered a predicate like
-        # R.a = (SELECT min(S.b) FROM S WHERE S.b = T.c) with a dependent subquery on T. By default, such predicates should be
-        # executed after the join phase.
-        return EvaluationPhase.PostJoin
-
     expression_phase = max(
-        _determine_expression_phase(expression)
-        for expression in predicate.iterexpressions()
-        if type(expression) not in {StarExpression, StaticValueExpression}
+        (
+            _determine_expression_phase(expression)
+            for expression in predicate.iterexpressions()
+        ),
+        default=EvaluationPhase.BaseTable,
     )
-    if expression_phase > EvaluationPhase.Join:
+    if expression_phase == EvaluationPhase.PostAggregation:
         return expression_phase
 
-    return (
-        EvaluationPhase.Join
-        if isinstance(predicate, BinaryPredicate)
-        else EvaluationPhase.PostJoin
+    if len(_required_tables(predicate)) == 1:
+        return EvaluationPhase.BaseTable
+
+    # We can only join if each side of the predicate belongs to one specific table. Everything else has to wait until the join
+    # phase is done. In particular, this is the case for predicates such as R.a = (SELECT min(S.b) FROM S WHERE S.b = T.c) with
+    # a dependent subquery on T
+    can_join = (
+        isinstance(predicate, BinaryPredicate)
+        and not predicate.accept_visitor(_SubqueryDetector())
+        and all(len(arg.tables()) == 1 for arg in predicate.iterexpressions())
     )
+    return EvaluationPhase.Join if can_join else EvaluationPhase.PostJoin
 
 
 def _filter_eval_phase(
@@ -3203,26 +3055,22 @@ def _filter_eval_phase(
     --------
     _determine_predicate_phase
     """
-    eval_phase = _determine_predicate_phase(predicate)
-    if eval_phase < expected_eval_phase:
-        return None
-
     if (
         isinstance(predicate, CompoundPredicate)
         and predicate.operation == CompoundOperator.And
     ):
         child_predicates = [
-            child
+            matching_part
             for child in predicate.children
-            if _determine_predicate_phase(child) == expected_eval_phase
+            if (matching_part := _filter_eval_phase(child, expected_eval_phase))
+            is not None
         ]
         return (
             CompoundPredicate.create_and(child_predicates) if child_predicates else None
         )
 
+    eval_phase = _determine_predicate_phase(predicate)
     return predicate if eval_phase == expected_eval_phase else None
-
-
 class _ImplicitRelalgParser:
     """Parser to generate a `RelNode` tree from `SqlQuery` instances.
 
@@ -3233,6 +3081,8 @@ class _ImplicitRelalgParser:
     provided_base_tables : Optional[dict[TableReference, RelNode]], optional
         When parsing subqueries, these are the tables that are provided by the outer query and their corresponding relational
         algebra fragments.
+    provided_ctes : Optional[dict[str, RelNode]], optional
+        The algebra fragments of all CTEs that are visible to the query because they have been defined by the outer query.
 
     Notes
     -----
@@ -3275,9 +3125,13 @@ class _ImplicitRelalgParser:
         query: ImplicitSqlQuery,
         *,
         provided_base_tables: Optional[dict[TableReference, RelNode]] = None,
+        provided_ctes: Optional[dict[str, RelNode]] = None,
     ) -> None:
         self._query = query
         self._base_table_fragments: dict[TableReference, RelNode] = {}
+        self._cte_fragments: dict[str, RelNode] = (
+            dict(provided_ctes) if provided_ctes else {}
+        )
         self._required_columns: dict[TableReference, set[ColumnReference]] = (
             collections.defaultdict(set)
         )
@@ -3285,12 +3139,10 @@ class _ImplicitRelalgParser:
             provided_base_tables if provided_base_tables else {}
         )
 
-        if query:
-            query_cols = self._query.columns()
-            util.collections.foreach(
-                query_cols, lambda col: self._required_columns[col.table].add(col)
-            )
-
+        query_cols = self._query.columns()
+        util.collections.foreach(
+            query_cols, lambda col: self._required_columns[col.table].add(col)
+        )
     def generate_relnode(self) -> RelNode:
         """Produces a relational algebra tree for the current query.
 
@@ -3299,16 +3151,15 @@ class _ImplicitRelalgParser:
         RelNode
             Root node of the algebraic expression
         """
-        if isinstance(self._query, SetQuery):
-            return self._parse_set_query(self._query)
-
-        # TODO: robustness: query without FROM clause
-
         if self._query.cte_clause:
             for cte in self._query.cte_clause.queries:
                 cte_root = self._add_subquery(cte.query)
-                self._add_table(cte.target_table, input_node=cte_root)
+                self._cte_fragments[cte.target_table.identifier()] = cte_root
+
+        if isinstance(self._query, SetQuery):
+            return self._parse_set_query(self._query)
 
+        # TODO: robustness: query without FROM clause
         # we add the WHERE clause before all explicit JOIN statements to make sure filters are already present and we can
         # stitch together the correct fragments in OUTER JOINs
         # Once the explicit JOINs have been processed, we continue with all remaining implicit joins
@@ -3334,12 +3185,9 @@ class _ImplicitRelalgParser:
 
         final_fragment = self._add_aggregation(final_fragment)
         if self._query.having_clause:
-            final_fragment = self._add_predicate(
-                self._query.having_clause.condition,
-                input_node=final_fragment,
-                eval_phase=EvaluationPhase.PostAggregation,
+            final_fragment = self._convert_predicate(
+                self._query.having_clause.condition, input_node=final_fragment
             )
-
         if self._query.orderby_clause:
             final_fragment = self._add_ordering(
                 self._query.orderby_clause.expressions, input_node=final_fragment
@@ -3348,13 +3196,6 @@ class _ImplicitRelalgParser:
         final_fragment = self._add_final_projection(final_fragment)
         return final_fragment
 
-    def _update_query(self, query: SelectStatement) -> None:
-        self._query = query
-        query_cols = self._query.columns()
-        util.collections.foreach(
-            query_cols, lambda col: self._required_columns[col.table].add(col)
-        )
-
     def _parse_set_query(self, query: SetQuery) -> RelNode:
         """Handler method to translate a set query into a relational algebra fragment.
 
@@ -3373,18 +3214,8 @@ class _ImplicitRelalgParser:
         ValueError
             _description_
         """
-        parser = _ImplicitRelalgParser(None)
-
-        if query.cte_clause:
-            for cte in query.cte_clause.queries:
-                parser._update_query(cte.query)
-                parser.generate_relnode()  # we don't care about the result, we just want to add the CTE to the base tables
-
-        parser._update_query(query.left_query)
-        left_relalg = parser.generate_relnode()
-        parser._update_query(query.right_query)
-        right_relalg = parser.generate_relnode()
-
+        left_relalg = self._create_subparser(query.left_query).generate_relnode()
+        right_relalg = self._create_subparser(query.right_query).generate_relnode()
         match query.set_operation:
             case SetOperator.Union:
                 final_fragment = Union(left_relalg, right_relalg)
@@ -3393,8 +3224,10 @@ class _ImplicitRelalgParser:
                 final_fragment = Union(left_relalg, right_relalg)
             case SetOperator.Intersect:
                 final_fragment = Intersection(left_relalg, right_relalg)
+                final_fragment = DuplicateElimination(final_fragment)
             case SetOperator.Except:
                 final_fragment = Difference(left_relalg, right_relalg)
+                final_fragment = DuplicateElimination(final_fragment)
             case _:
                 raise ValueError(f"Unknown set operation: '{query.set_operation}'")
 
@@ -3443,14 +3276,16 @@ class _ImplicitRelalgParser:
         """
         match table_source:
             case DirectTableSource():
-                if table_source.table.virtual:
-                    # Virtual tables in direct table sources are only created through references to CTEs. However, these CTEs
-                    # have already been included in the base table fragments.
-                    return self._base_table_fragments[table_source.table]
-                return self._add_table(table_source.table)
+                table = table_source.table
+                if table.virtual:
+                    # Virtual tables in direct table sources are only created through references to CTEs
+                    cte_root = self._cte_fragments[
+                        table.full_name or table.identifier()
+                    ]
+                    return self._add_table(table, input_node=cte_root)
+                return self._add_table(table)
             case SubqueryTableSource():
                 subquery_root = self._add_subquery(table_source.query)
-                self._base_table_fragments[table_source.target_table] = subquery_root
                 return self._add_table(
                     table_source.target_table, input_node=subquery_root
                 )
@@ -3483,10 +3318,7 @@ class _ImplicitRelalgParser:
                 self._query.where_clause.predicate, eval_phase=EvaluationPhase.Join
             )
 
-        head_nodes = set(self._base_table_fragments.values())
-        if len(head_nodes) == 1:
-            return util.simplify(head_nodes)
-
+        head_nodes = dict.fromkeys(self._base_table_fragments.values())
         current_head, *remaining_nodes = head_nodes
         for remaining_node in remaining_nodes:
             current_head = CrossProduct(current_head, remaining_node)
@@ -3520,26 +3352,23 @@ class _ImplicitRelalgParser:
                 having_expr.accept_visitor(aggregation_collector)
                 for having_expr in self._query.having_clause.iterexpressions()
             )
+        if self._query.orderby_clause:
+            aggregation_functions |= util.set_union(
+                order_expr.accept_visitor(aggregation_collector)
+                for order_expr in self._query.orderby_clause.iterexpressions()
+            )
         if not self._query.groupby_clause and not aggregation_functions:
             return input_node
 
-        aggregation_arguments: set[SqlExpression] = set()
-        for agg_func in aggregation_functions:
-            aggregation_arguments |= util.set_union(
-                _collect_all_expressions(arg, traverse_aggregations=True)
-                for arg in agg_func.arguments
-            )
-        missing_expressions = aggregation_arguments - input_node.provided_expressions()
-        if missing_expressions:
-            input_node = Map(
-                input_node, _generate_expression_mapping_dict(missing_expressions)
-            )
-
         group_cols = (
             self._query.groupby_clause.group_columns
             if self._query.groupby_clause
             else []
         )
+        aggregation_arguments: list[SqlExpression] = list(group_cols)
+        for agg_func in aggregation_functions:
+            aggregation_arguments.extend(agg_func.arguments)
+        input_node = self._add_missing_expressions(aggregation_arguments, input_node)
         aggregates: dict[frozenset[SqlExpression], set[FunctionExpression]] = (
             collections.defaultdict(set)
         )
@@ -3570,23 +3399,17 @@ class _ImplicitRelalgParser:
         RelNode
             The algebra tree, potentially expanded by some final nodes.
         """
-        # TODO: Sorting, Duplicate elimination, limit
+        # TODO: limit
         if self._query.select_clause.is_star():
-            return input_node
-        required_expressions = util.set_union(
-            _collect_all_expressions(target.expression)
-            for target in self._query.select_clause.targets
-        )
-        missing_expressions = required_expressions - input_node.provided_expressions()
-        final_node = (
-            Map(input_node, _generate_expression_mapping_dict(missing_expressions))
-            if missing_expressions
-            else input_node
-        )
-        return Projection(
-            final_node,
-            [target.expression for target in self._query.select_clause.targets],
-        )
+            final_node = input_node
+        else:
+            targets = [target.expression for target in self._query.select_clause.targets]
+            final_node = self._add_missing_expressions(targets, input_node)
+            final_node = Projection(final_node, targets)
+
+        if self._query.select_clause.is_distinct():
+            final_node = DuplicateElimination(final_node)
+        return final_node
 
     def _add_ordering(
         self, ordering: Sequence[OrderByExpression], *, input_node: RelNode
@@ -3598,8 +3421,7 @@ class _ImplicitRelalgParser:
             final_fragment = self._add_expression(
                 order.column, input_node=final_fragment
             )
-            sorting.append((order.column, "asc" if order.ascending else "desc"))
-
+            sorting.append((order.column, "desc" if order.ascending is False else "asc"))
         final_fragment = Sort(final_fragment, sorting)
         return final_fragment
 
@@ -3643,7 +3465,7 @@ class _ImplicitRelalgParser:
                     predicate
                 ).items():
                     base_table_fragment = self._convert_predicate(
-                        base_pred, input_node=self._base_table_fragments[base_table]
+                        base_pred, input_node=self._resolve(base_table)
                     )
                     self._base_table_fragments[base_table] = base_table_fragment
                 return base_table_fragment
@@ -3829,25 +3651,39 @@ class _ImplicitRelalgParser:
                     else:
                         regular_predicates.append(child_pred)
                 if regular_predicates:
-                    simplified_composite = CompoundPredicate.create(
-                        predicate.operation, regular_predicates
+                    simplified_composite = (
+                        CompoundPredicate.create(
+                            predicate.operation, regular_predicates
+                        )
+                        if len(regular_predicates) > 1
+                        else regular_predicates[0]
                     )
                     final_fragment = self._ensure_predicate_applicability(
                         simplified_composite, final_fragment
                     )
                     final_fragment = Selection(final_fragment, simplified_composite)
-                for subquery_pred in subquery_predicates:
-                    if predicate.operation == CompoundOperator.And:
+                if predicate.operation == CompoundOperator.And:
+                    for subquery_pred in subquery_predicates:
                         final_fragment = self._convert_predicate(
                             subquery_pred, input_node=final_fragment
                         )
-                        continue
+                    return final_fragment
+
+                found_match = bool(regular_predicates)
+                for subquery_pred in subquery_predicates:
                     subquery_branch = self._convert_predicate(
                         subquery_pred, input_node=input_node
                     )
-                    final_fragment = Union(final_fragment, subquery_branch)
+                    # each branch only contributes the tuples that did not satisfy any of the former predicates
+                    final_fragment = (
+                        Union(
+                            final_fragment, Difference(subquery_branch, final_fragment)
+                        )
+                        if found_match
+                        else subquery_branch
+                    )
+                    found_match = True
                 return final_fragment
-
             case CompoundOperator.Not:
                 if not predicate.children.accept_visitor(contains_subqueries):
                     final_fragment = self._ensure_predicate_applicability(
@@ -3887,17 +3723,7 @@ class _ImplicitRelalgParser:
         }
         if len(table_fragments) == 1:
             input_node = util.simplify(table_fragments)
-            provided_expressions = self._collect_provided_expressions(input_node)
-            required_expressions = util.set_union(
-                _collect_all_expressions(e) for e in predicate.iterexpressions()
-            )
-            missing_expressions = required_expressions - provided_expressions
-            if missing_expressions:
-                final_fragment = Map(
-                    input_node, _generate_expression_mapping_dict(missing_expressions)
-                )
-            else:
-                final_fragment = input_node
+            final_fragment = self._ensure_predicate_applicability(predicate, input_node)
             return Selection(final_fragment, predicate)
         if len(table_fragments) != 2:
             raise ValueError(
@@ -3905,9 +3731,6 @@ class _ImplicitRelalgParser:
                 f"'{predicate}', but found {table_fragments}"
             )
 
-        required_expressions = util.set_union(
-            _collect_all_expressions(e) for e in predicate.iterexpressions()
-        )
         if isinstance(predicate, BinaryPredicate):
             first_input, second_input = table_fragments
             first_arg, second_arg = predicate.first_argument, predicate.second_argument
@@ -3924,31 +3747,6 @@ class _ImplicitRelalgParser:
 
             left_input = self._add_expression(first_arg, input_node=left_input)
             right_input = self._add_expression(second_arg, input_node=right_input)
-
-            provided_expressions = self._collect_provided_expressions(
-                left_input, right_input
-            )
-            missing_expressions = required_expressions - provided_expressions
-            left_mappings: list[SqlExpression] = []
-            right_mappings: list[SqlExpression] = []
-            for missing_expr in missing_expressions:
-                if missing_expr.tables() <= left_input.tables():
-                    left_mappings.append(missing_expr)
-                elif missing_expr.tables() <= right_input.tables():
-                    right_mappings.append(missing_expr)
-                else:
-                    raise ValueError(
-                        "Cannot calculate expression on left or right input: "
-                        f"'{missing_expr}' for predicate '{predicate}'"
-                    )
-            if left_mappings:
-                left_input = Map(
-                    left_input, _generate_expression_mapping_dict(left_mappings)
-                )
-            if right_mappings:
-                right_input = Map(
-                    right_input, _generate_expression_mapping_dict(right_mappings)
-                )
             return ThetaJoin(left_input, right_input, predicate)
 
         if not isinstance(predicate, CompoundPredicate):
@@ -4025,7 +3823,10 @@ class _ImplicitRelalgParser:
         RelNode
             The expanded algebra fragment
         """
-        if expression in input_node.provided_expressions():
+        subquery_filter = (
+            isinstance(expression, SubqueryExpression) and subquery_target != "scalar"
+        )
+        if not subquery_filter and expression in input_node.provided_expressions():
             return input_node
 
         match expression:
@@ -4044,6 +3845,8 @@ class _ImplicitRelalgParser:
                         return CrossProduct(input_node, subquery_root)
                     case "in" if not expression.query.is_scalar():
                         unwrapped_scan = subquery_root.input_node
+                        if isinstance(unwrapped_scan, DuplicateElimination):
+                            unwrapped_scan = unwrapped_scan.input_node
                         assert (
                             isinstance(unwrapped_scan, Projection)
                             and len(unwrapped_scan.columns) == 1
@@ -4053,26 +3856,32 @@ class _ImplicitRelalgParser:
                         )
                         return SemiJoin(input_node, subquery_root, in_predicate)
             case CastExpression() | FunctionExpression() | MathExpression():
-                return self._ensure_expression_applicability(expression, input_node)
+                return self._add_missing_expressions([expression], input_node)
             case WindowExpression() | CaseExpression():
-                return self._ensure_expression_applicability(expression, input_node)
+                return self._add_missing_expressions([expression], input_node)
             case _:
                 raise ValueError(f"Did not expect expression '{expression}'")
 
     def _add_subquery(self, subquery: SqlQuery) -> SubqueryScan:
         """Generates the appropriate algebra fragment to include a subquery in the current algebra tree."""
-        subquery_parser = _ImplicitRelalgParser(
-            subquery, provided_base_tables=self._base_table_fragments
-        )
+        subquery_parser = self._create_subparser(subquery)
         subquery_root = subquery_parser.generate_relnode()
-        self._required_columns = util.dicts.merge(
-            subquery_parser._required_columns, self._required_columns
-        )
+        for table, columns in subquery_parser._required_columns.items():
+            self._required_columns[table] |= columns
         # We do not include the subquery base tables in our _base_table_fragments since the subquery base tables are already
         # processed completely and this would contradict the interpretation of the _base_table_fragments in
         # _generate_initial_join_order()
         return SubqueryScan(subquery_root, subquery)
 
+    def _create_subparser(self, subquery: SqlQuery) -> _ImplicitRelalgParser:
+        """Generates a new parser for a nested query. The parser has access to the tables of all outer queries."""
+        return _ImplicitRelalgParser(
+            subquery,
+            provided_base_tables=self._provided_base_tables
+            | self._base_table_fragments,
+            provided_ctes=self._cte_fragments,
+        )
+
     def _split_filter_predicate(
         self, pred: AbstractPredicate
     ) -> dict[TableReference, AbstractPredicate]:
@@ -4089,21 +3898,18 @@ class _ImplicitRelalgParser:
         The behavior of this method is undefined if the supplied predicate is not a filter predicate that can be evaluated
         during the base table evaluation phase.
         """
-        if not pred.is_filter():
-            raise ValueError(f"Not a filter predicate: '{pred}'")
-
-        if not isinstance(pred, CompoundPredicate):
-            return {_BaseTableLookup()(pred): pred}
-        if pred.operation != CompoundOperator.And:
-            return {_BaseTableLookup()(pred): pred}
-
-        raw_predicate_components: dict[TableReference, set[AbstractPredicate]] = (
-            collections.defaultdict(set)
+        if (
+            not isinstance(pred, CompoundPredicate)
+            or pred.operation != CompoundOperator.And
+        ):
+            return {util.simplify(_required_tables(pred)): pred}
+        raw_predicate_components: dict[TableReference, list[AbstractPredicate]] = (
+            collections.defaultdict(list)
         )
         for child_pred in pred.children:
             child_split = self._split_filter_predicate(child_pred)
             for tab, pred in child_split.items():
-                raw_predicate_components[tab].add(pred)
+                raw_predicate_components[tab].append(pred)
         return {
             base_table: CompoundPredicate.create_and(predicates)
             for base_table, predicates in raw_predicate_components.items()
@@ -4117,15 +3923,14 @@ class _ImplicitRelalgParser:
         For conjunctive predicates, these are the actual components of the conjunction, all other predicates are returned
         as-is.
         """
-        if not predicate.is_join():
-            raise ValueError(f"Not a join predicate: '{predicate}'")
         if (
             isinstance(predicate, CompoundPredicate)
             and predicate.operation == CompoundOperator.And
         ):
-            return set(predicate.children)
+            return util.set_union(
+                self._split_join_predicate(child) for child in predicate.children
+            )
         return {predicate}
-
     def _ensure_predicate_applicability(
         self, predicate: AbstractPredicate, input_node: RelNode
     ) -> RelNode:
@@ -4146,29 +3951,19 @@ class _ImplicitRelalgParser:
         RelNode
             An algebra fragment
         """
-        provided_expressions = self._collect_provided_expressions(input_node)
-        required_expressions = util.set_union(
-            _collect_all_expressions(expression)
-            for expression in predicate.iterexpressions()
-        )
-        missing_expressions = required_expressions - provided_expressions
-        if missing_expressions:
-            return Map(
-                input_node, _generate_expression_mapping_dict(missing_expressions)
-            )
-        return input_node
+        return self._add_missing_expressions(predicate.iterexpressions(), input_node)
 
-    def _ensure_expression_applicability(
-        self, expression: SqlExpression, input_node: RelNode
+    def _add_missing_expressions(
+        self, expressions: Iterable[SqlExpression], input_node: RelNode
     ) -> RelNode:
-        """Computes all required mappings that have to be execute before an expression can be evaluated.
+        """Computes all required mappings to provide a set of expressions.
 
         This is pretty much the equivalent to `_ensure_predicate_applicability` but for expressions.
 
         Parameters
         ----------
-        expression : SqlExpression
-            The expression to evaluate
+        expressions : Iterable[SqlExpression]
+            The expressions to provide
         input_node : RelNode
             An operator providing the expressions that are already available.
 
@@ -4177,12 +3972,9 @@ class _ImplicitRelalgParser:
         RelNode
             An algebra fragment
         """
-        provided_expressions = self._collect_provided_expressions(input_node)
-        required_expressions = util.set_union(
-            _collect_all_expressions(child_expr)
-            for child_expr in expression.iterchildren()
+        missing_expressions = _collect_missing_expressions(
+            expressions, self._collect_provided_expressions(input_node)
         )
-        missing_expressions = required_expressions - provided_expressions
         if missing_expressions:
             return Map(
                 input_node, _generate_expression_mapping_dict(missing_expressions)
-- 
2.43.0


From 3a7493b0f50e74b88a483a321a9a7c98d6830ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:27 +0000
Subject: [PATCH 160/181] fix: scalar subqueries can be part of mapped
 expressions (C22)

---
 postbound/relalg.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/postbound/relalg.py b/postbound/relalg.py
index 7650dbc..2a56676 100644
--- a/postbound/relalg.py
+++ b/postbound/relalg.py
@@ -3975,6 +3975,14 @@ class _ImplicitRelalgParser:
         missing_expressions = _collect_missing_expressions(
             expressions, self._collect_provided_expressions(input_node)
         )
+        subqueries = [
+            expression
+            for expression in missing_expressions
+            if isinstance(expression, SubqueryExpression)
+        ]
+        for subquery in subqueries:
+            input_node = self._add_expression(subquery, input_node=input_node)
+        missing_expressions -= set(subqueries)
         if missing_expressions:
             return Map(
                 input_node, _generate_expression_mapping_dict(missing_expressions)
-- 
2.43.0


From 7058d56ba68e7b9039603518eae4ed8cb5a804b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:21 +0000
Subject: [PATCH 161/181] fix: filters on outer tables are kept when these
 tables are joined already (C22)

---
 postbound/relalg.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/postbound/relalg.py b/postbound/relalg.py
index 2a56676..c023cb2 100644
--- a/postbound/relalg.py
+++ b/postbound/relalg.py
@@ -3467,12 +3467,15 @@ class _ImplicitRelalgParser:
                     base_table_fragment = self._convert_predicate(
                         base_pred, input_node=self._resolve(base_table)
                     )
-                    self._base_table_fragments[base_table] = base_table_fragment
+                    # usually this is just the base table. But if the base table belongs to an outer query, its fragment might
+                    # already be joined with other outer tables
+                    for table in base_table_fragment.tables(ignore_subqueries=True):
+                        self._base_table_fragments[table] = base_table_fragment
                 return base_table_fragment
             case EvaluationPhase.Join:
                 for join_predicate in self._split_join_predicate(predicate):
                     join_node = self._convert_join_predicate(join_predicate)
-                    for outer_table in join_node.tables():
+                    for outer_table in join_node.tables(ignore_subqueries=True):
                         self._base_table_fragments[outer_table] = join_node
                 return join_node
             case EvaluationPhase.PostJoin | EvaluationPhase.PostAggregation:
-- 
2.43.0


From 4e2f86cabd6ca6c54a6852c7e99067a3102cf552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:03 +0000
Subject: [PATCH 162/181] fix: compound primary keys are no primary key columns
 (C25)

is_primary_key reported the members of compound keys contrary to its
documentation, and primary_key_column raised an error that broke as_graph() and
key-based access for the entire schema.
---
 postbound/db/_db.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/postbound/db/_db.py b/postbound/db/_db.py
index 0073294..9fc9f69 100644
--- a/postbound/db/_db.py
+++ b/postbound/db/_db.py
@@ -1048,21 +1048,21 @@ class DatabaseSchema(abc.ABC, Mapping[TableReference, TableInfo]):
                     AND tc.table_name = ccu.table_name
                     AND tc.constraint_catalog = ccu.constraint_catalog
             WHERE tc.table_name = {self._prep_placeholder}
-                AND ccu.column_name = {self._prep_placeholder}
                 AND tc.constraint_type = 'PRIMARY KEY'
                 AND tc.table_catalog = current_database()
                 AND tc.table_schema = {schema_placeholder};
             """)
 
-        params = [table.full_name, column.name]
+        params = [table.full_name]
         if table.schema:
             params.append(table.schema)
 
         cur = self._db.cursor()
         cur.execute(query_template, params)
-        result_set = cur.fetchone()
+        result_set = cur.fetchall()
 
-        return result_set is not None
+        # a column that is only part of a compound key is not the primary key
+        return len(result_set) == 1 and result_set[0][0] == column.name
 
     def primary_key_column(
         self, table: TableReference | str
@@ -1077,7 +1077,7 @@ class DatabaseSchema(abc.ABC, Mapping[TableReference, TableInfo]):
         Returns
         -------
         Optional[BoundColumnReference]
-            The primary key if it exists, or *None* otherwise.
+            The primary key if it exists, or *None* otherwise. Compound primary keys are treated as *None*, too.
 
         Notes
         -----
@@ -1111,12 +1111,9 @@ class DatabaseSchema(abc.ABC, Mapping[TableReference, TableInfo]):
         cur.execute(query_template, params)
         result_set = cur.fetchall()
 
-        if not result_set:
+        if len(result_set) != 1:
+            # there either is no primary key, or it is a compound key
             return None
-        elif len(result_set) > 1:
-            raise ValueError(
-                f"Table {table} has multiple primary key columns: {result_set}"
-            )
         col = result_set[0][0]
         return BoundColumnReference(col, table)
 
-- 
2.43.0


From 690b400eb1964f0a0c0d818edc158c2de80fdb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:03 +0000
Subject: [PATCH 163/181] fix: is_view respects the schema of the table (C25)

---
 postbound/db/_db.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/postbound/db/_db.py b/postbound/db/_db.py
index 9fc9f69..de8eef8 100644
--- a/postbound/db/_db.py
+++ b/postbound/db/_db.py
@@ -942,8 +942,11 @@ class DatabaseSchema(abc.ABC, Mapping[TableReference, TableInfo]):
         """
         if isinstance(table, TableReference) and table.virtual:
             raise VirtualTableError(table)
-        table = table if isinstance(table, str) else table.full_name
+        table = table if isinstance(table, TableReference) else TableReference(table)
         db_name = self._db.database_name()
+        schema_placeholder = (
+            self._prep_placeholder if table.schema else "current_schema()"
+        )
 
         query_template = textwrap.dedent(f"""
             SELECT table_type
@@ -951,9 +954,13 @@ class DatabaseSchema(abc.ABC, Mapping[TableReference, TableInfo]):
             WHERE table_catalog = {self._prep_placeholder}
                 AND table_name = {self._prep_placeholder}
                 AND table_catalog = current_database()
+                AND table_schema = {schema_placeholder}
             """)
+        params = [db_name, table.full_name]
+        if table.schema:
+            params.append(table.schema)
         cur = self._db.cursor()
-        cur.execute(query_template, (db_name, table))
+        cur.execute(query_template, params)
         result_set = cur.fetchall()
 
         assert result_set is not None
-- 
2.43.0


From d730b48bc4d09fc971dbc1399c36b66376f4a1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:03 +0000
Subject: [PATCH 164/181] fix: lookup_column matches columns by their name
 (C25)

Strings and unbound columns were compared to bound columns and never matched.
---
 postbound/db/_db.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postbound/db/_db.py b/postbound/db/_db.py
index de8eef8..087d636 100644
--- a/postbound/db/_db.py
+++ b/postbound/db/_db.py
@@ -1003,9 +1003,9 @@ class DatabaseSchema(abc.ABC, Mapping[TableReference, TableInfo]):
         **Hint for implementors:** the default implementation of this method (transitively) relies on the
         *information_schema.columns* view.
         """
+        name = column.name if isinstance(column, ColumnReference) else column
         for candidate in candidate_tables:
-            candidate_cols = self.columns(candidate)
-            if column in candidate_cols:
+            if any(candidate_col.name == name for candidate_col in self.columns(candidate)):
                 return candidate
 
         if expect_match:
-- 
2.43.0


From ef784e5bf7aefea50b3f1b6ab2decb0254418945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:03 +0000
Subject: [PATCH 165/181] fix: foreign_keys_on reads table and column of the
 referenced column (C25)

The default implementation used the schema as table and the table as column.
---
 postbound/db/_db.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/postbound/db/_db.py b/postbound/db/_db.py
index 087d636..99c5f6b 100644
--- a/postbound/db/_db.py
+++ b/postbound/db/_db.py
@@ -1274,9 +1274,12 @@ class DatabaseSchema(abc.ABC, Mapping[TableReference, TableInfo]):
         result_set = cur.fetchall()
         assert result_set is not None
 
+        # References into the schema of the column's table are expressed the same way as the table itself
         return {
-            BoundColumnReference(row[1], TableReference(row[0], schema=table.schema))
-            for row in result_set
+            BoundColumnReference(
+                column_name, TableReference(table_name, schema=table.schema)
+            )
+            for _, table_name, column_name in result_set
         }
 
     def has_index(self, column: ColumnReference) -> bool:
-- 
2.43.0


From 5fb1276a091c4e5099472b3e48f2e3135e287bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:03 +0000
Subject: [PATCH 166/181] fix: key-based access to the schema finds columns and
 reports unknown keys (C25)

Strings of the form table.column were split in the wrong order, and unknown
tables and columns raised errors other than KeyError, which also broke the
membership test.
---
 postbound/db/_db.py | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/postbound/db/_db.py b/postbound/db/_db.py
index 99c5f6b..b4ea833 100644
--- a/postbound/db/_db.py
+++ b/postbound/db/_db.py
@@ -1596,6 +1596,8 @@ class DatabaseSchema(abc.ABC, Mapping[TableReference, TableInfo]):
     def __getitem__(self, key):
         match key:
             case ColumnReference():
+                if not key.is_bound() or key not in self.columns(key.table):
+                    raise KeyError(f"Column '{key}' not found in database schema")
                 return ColumnInfo(
                     column=key,
                     table=key.table,
@@ -1605,8 +1607,11 @@ class DatabaseSchema(abc.ABC, Mapping[TableReference, TableInfo]):
                     primary_key=self.is_primary_key(key),
                 )
             case TableReference():
+                columns = self.columns(key)
+                if not columns:
+                    raise KeyError(f"Table '{key}' not found in database schema")
                 schema_graph = self.as_graph()
-                col_infos = [self[col] for col in self.columns(key)]
+                col_infos = [self[col] for col in columns]
                 outgoing_fks = set_union(
                     edge[2] for edge in schema_graph.out_edges(key, data="foreign_keys")
                 )
@@ -1621,18 +1626,19 @@ class DatabaseSchema(abc.ABC, Mapping[TableReference, TableInfo]):
                     incoming_foreign_keys=incoming_fks,
                 )
             case str():
-                try:
-                    ref = TableReference(key)
-                    return self[ref]
-                except KeyError:
-                    pass
+                table = TableReference(key)
+                if table in self.tables():
+                    return self[table]
 
-                try:
-                    col, tab = key.split(".", 1)
-                    ref = ColumnReference(col, TableReference(tab))
-                    return self[ref]
-                except KeyError:
+                tab, _, col = key.partition(".")
+                if not tab or not col:
                     raise KeyError(f"Key '{key}' not found in database schema")
+                table = TableReference(tab)
+                column = BoundColumnReference(col, table)
+                if table in self.tables() and column in self.columns(table):
+                    return self[column]
+
+                raise KeyError(f"Key '{key}' not found in database schema")
             case _:
                 raise KeyError(
                     f"Unsupported key type: {type(key).__name__}. "
-- 
2.43.0


From 6f760f9a7cf477b61bbecae0440f675d345d6cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:03 +0000
Subject: [PATCH 167/181] fix: has_secondary_index considers UNIQUE constraints
 on DuckDB (C25)

DuckDB enforces them with an index, which indexes_on reports already.
---
 postbound/duckdb.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/postbound/duckdb.py b/postbound/duckdb.py
index 99dd52e..91e096b 100644
--- a/postbound/duckdb.py
+++ b/postbound/duckdb.py
@@ -281,11 +281,20 @@ class DuckDBSchema(DatabaseSchema):
                 AND ltrim(rtrim(ddbi.expressions, ']'), '[') = ?
                 AND ddbi.database_name = current_database()
                 AND ddbi.schema_name = {schema_placeholder}
+            UNION
+            SELECT ddbc.constraint_name
+            FROM duckdb_constraints() ddbc
+            WHERE ddbc.table_name = ?
+                AND ddbc.constraint_column_names = array_value(?)
+                AND ddbc.constraint_type = 'UNIQUE'
+                AND ddbc.database_name = current_database()
+                AND ddbc.schema_name = {schema_placeholder}
             """)
 
         params = [column.table.full_name, column.name]
         if column.table.schema:
             params.append(column.table.schema)
+        params = params + params
 
         cur = self._db.cursor()
         cur.execute(query_template, parameters=params)
-- 
2.43.0


From a714b7c0938ac277706051a4305fb4c1bcfe633a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:27 +0000
Subject: [PATCH 168/181] fix: indexes on columns with quoted names are found
 on DuckDB (C25)

---
 postbound/duckdb.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/postbound/duckdb.py b/postbound/duckdb.py
index 91e096b..0f3bcb4 100644
--- a/postbound/duckdb.py
+++ b/postbound/duckdb.py
@@ -278,7 +278,7 @@ class DuckDBSchema(DatabaseSchema):
             SELECT ddbi.index_name
             FROM duckdb_indexes() ddbi
             WHERE ddbi.table_name = ?
-                AND ltrim(rtrim(ddbi.expressions, ']'), '[') = ?
+                AND ddbi.expressions IN ('[' || ? || ']', '[''"' || ? || '"'']')
                 AND ddbi.database_name = current_database()
                 AND ddbi.schema_name = {schema_placeholder}
             UNION
@@ -291,10 +291,13 @@ class DuckDBSchema(DatabaseSchema):
                 AND ddbc.schema_name = {schema_placeholder}
             """)
 
-        params = [column.table.full_name, column.name]
+        # DuckDB quotes the names of indexed columns if necessary
+        params = [column.table.full_name, column.name, column.name]
+        if column.table.schema:
+            params.append(column.table.schema)
+        params.extend([column.table.full_name, column.name])
         if column.table.schema:
             params.append(column.table.schema)
-        params = params + params
 
         cur = self._db.cursor()
         cur.execute(query_template, parameters=params)
@@ -318,7 +321,7 @@ class DuckDBSchema(DatabaseSchema):
             SELECT ddbi.index_name
             FROM duckdb_indexes() ddbi
             WHERE ddbi.table_name = ?
-                AND ltrim(rtrim(ddbi.expressions, ']'), '[') = ?
+                AND ddbi.expressions IN ('[' || ? || ']', '[''"' || ? || '"'']')
                 AND ddbi.database_name = current_database()
                 AND ddbi.schema_name = {schema_placeholder}
             UNION
@@ -339,7 +342,8 @@ class DuckDBSchema(DatabaseSchema):
         # Due to the UNION query, we need to repeat the placeholders. While the implementation is definitely not elegant,
         # this solution is arguably better than relying on named parameters which might or might not be supported by the
         # target database.
-        params = [column.table.full_name, column.name]
+        # DuckDB quotes the names of indexed columns if necessary
+        params = [column.table.full_name, column.name, column.name]
         if column.table.schema:
             params.append(column.table.schema)
         params.extend([column.table.full_name, column.name])
-- 
2.43.0


From 056e99b836a53d68cd8dc303d5fe260be244761a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:16 +0000
Subject: [PATCH 169/181] fix: PreciseCardinalities only caches if its cache is
 enabled (C26)

Stale cardinalities were returned after a data shift although caching is
disabled by default.
---
 postbound/opt/_cardinalities.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/postbound/opt/_cardinalities.py b/postbound/opt/_cardinalities.py
index 39075ab..f0508b8 100644
--- a/postbound/opt/_cardinalities.py
+++ b/postbound/opt/_cardinalities.py
@@ -66,10 +66,11 @@ class PreciseCardinalities(CardinalityEstimator):
         intermediate = util.enlist(intermediate)
         subquery = transform.extract_query_fragment(query, intermediate)
         subquery = transform.as_count_star_query(subquery)
-        if subquery in self._cardinality_cache:
+        if self.cache_enabled and subquery in self._cardinality_cache:
             return self._cardinality_cache[subquery]
         cardinality = Cardinality(self.database.execute_query(subquery))
-        self._cardinality_cache[subquery] = cardinality
+        if self.cache_enabled:
+            self._cardinality_cache[subquery] = cardinality
         return cardinality
 
     def reset_cache(self) -> None:
-- 
2.43.0


From 42179a6b758433b5c90f76bd80562dbd121ebdeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:16 +0000
Subject: [PATCH 170/181] fix: PreComputedCardinalities raises an error for
 missing cardinalities (C26)

An unknown cardinality was returned, even though an error is documented and
requested by error_on_missing_card.
---
 postbound/opt/_cardinalities.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/postbound/opt/_cardinalities.py b/postbound/opt/_cardinalities.py
index f0508b8..c855fd0 100644
--- a/postbound/opt/_cardinalities.py
+++ b/postbound/opt/_cardinalities.py
@@ -202,12 +202,12 @@ class PreComputedCardinalities(CardinalityEstimator):
                 f"{n_samples} samples found for join {tables_debug} in query {label}. Expected 1."
             )
 
-        fallback_value = self._attempt_fallback_estimate(n_samples, query, tables)
-        if fallback_value is None and self._error_on_missing_card:
+        can_fall_back = self._default_card is not None or self._live_db is not None
+        if not can_fall_back and self._error_on_missing_card:
             raise ValueError(
                 f"No matching sample found for join {tables_debug} in query {label}"
             )
-        return fallback_value
+        return self._attempt_fallback_estimate(n_samples, query, tables)
 
     def describe(self) -> dict:
         return {
-- 
2.43.0


From 7e0d1ae6fde0d62e8b18b57fb74afa592a1fff9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:16 +0000
Subject: [PATCH 171/181] fix: saved fallback cardinalities are found again
 (C26)

The tables of all existing samples were written in a format that cannot be read
back, and saved results were not found again by the estimator that saved them.
---
 postbound/opt/_cardinalities.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/postbound/opt/_cardinalities.py b/postbound/opt/_cardinalities.py
index c855fd0..74909d1 100644
--- a/postbound/opt/_cardinalities.py
+++ b/postbound/opt/_cardinalities.py
@@ -286,7 +286,7 @@ class PreComputedCardinalities(CardinalityEstimator):
         """
         result_row = {}
         result_row[self._label_col] = [self._workload.label_of(query)]
-        result_row[self._tables_col] = [util.to_json(tables)]
+        result_row[self._tables_col] = [set(tables)]
 
         if "query" in self._true_card_df.columns:
             result_row["query"] = [str(query)]
@@ -301,7 +301,11 @@ class PreComputedCardinalities(CardinalityEstimator):
         self._true_card_df = pd.concat(
             [self._true_card_df, result_df], ignore_index=True
         )
-        self._true_card_df.to_csv(self._lookup_df_path, index=False)
+
+        # the tables are stored as JSON in the file, but are already parsed in our data frame
+        json_df = self._true_card_df.copy()
+        json_df[self._tables_col] = json_df[self._tables_col].map(util.to_json)
+        json_df.to_csv(self._lookup_df_path, index=False)
 
 
 class CardinalityDistortion(CardinalityEstimator):
-- 
2.43.0


From cc6cde40d4e5e9d6a5a1de9ff14caef6ae35c4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:52 +0000
Subject: [PATCH 172/181] fix: the operators that TONIC learned are the ones it
 recommends (C27)

---
 postbound/opt/tonic.py | 61 +++++++++++++++++++++++++++++-------------
 1 file changed, 42 insertions(+), 19 deletions(-)

diff --git a/postbound/opt/tonic.py b/postbound/opt/tonic.py
index 8fb2e86..b433b4f 100644
--- a/postbound/opt/tonic.py
+++ b/postbound/opt/tonic.py
@@ -88,6 +88,22 @@ def _right_query_plan_child(node: QueryPlan) -> QueryPlan:
     return node.inner_child
 
 
+def _join_depth(node: QueryPlan | JoinTree) -> int:
+    """Counts the joins on the deepest path of a query plan or a join tree. All other nodes do not matter for the QEP-S."""
+    child_depth = max((_join_depth(child) for child in node.children), default=0)
+    return child_depth + 1 if node.is_join() else child_depth
+
+
+def _is_bushy_join(node: QueryPlan | JoinTree) -> bool:
+    """Checks, whether a join combines two intermediates that are both the result of a join."""
+    return _join_depth(node.outer_child) > 0 and _join_depth(node.inner_child) > 0
+
+
+def _swap_base_tables(first: TableReference, second: TableReference) -> bool:
+    """Checks, whether the second table comes first in the QEP-S. Just as for the identifiers, aliases do not matter."""
+    return (second.drop_alias(), second) < (first.drop_alias(), first)
+
+
 def _iterate_query_plan(current_node: QueryPlan) -> Sequence[QueryPlan]:
     """Provides all joins along the deepest join path in the query plan.
 
@@ -112,7 +128,7 @@ def _iterate_query_plan(current_node: QueryPlan) -> Sequence[QueryPlan]:
     )
     left_child, right_child = (
         (right_child, left_child)
-        if right_child.plan_depth() < left_child.plan_depth()
+        if _join_depth(right_child) < _join_depth(left_child)
         else (left_child, right_child)
     )
     return list(_iterate_query_plan(right_child)) + [current_node]
@@ -137,7 +153,7 @@ def _iterate_join_tree(current_node: JoinTree) -> Sequence[JoinTree]:
     left_child, right_child = current_node.outer_child, current_node.inner_child
     left_child, right_child = (
         (right_child, left_child)
-        if right_child.plan_depth() < left_child.plan_depth()
+        if _join_depth(right_child) < _join_depth(left_child)
         else (left_child, right_child)
     )
     return list(_iterate_join_tree(right_child)) + [current_node]
@@ -455,21 +471,17 @@ class QEPsNode:
             return
 
         next_join, *remaining_joins = join_order
-        recommendation = self.current_recommendation()
-        if recommendation:
-            current_assignment.set_join_operator(
-                JoinOperatorAssignment(recommendation, self.tables())
-            )
 
-        if next_join.is_bushy():
+        if _is_bushy_join(next_join):
             subquery_child = (
                 next_join.outer_child
-                if next_join.outer_child.plan_depth()
-                >= next_join.inner_child.plan_depth()
+                if _join_depth(next_join.outer_child)
+                <= _join_depth(next_join.inner_child)
                 else next_join.inner_child
             )
             qeps_subquery_id = QepsIdentifier(subquery_child.tables())
             qeps_subquery_node = self.child_nodes[qeps_subquery_id]
+            qeps_subquery_node._assign_operator(next_join, current_assignment)
             qeps_subquery_node.subquery_root.recommend_operators(
                 query, _iterate_join_tree(subquery_child), current_assignment
             )
@@ -485,7 +497,7 @@ class QEPsNode:
             )
             first_table, second_table = (
                 (second_table, first_table)
-                if second_table < first_table
+                if _swap_base_tables(first_table, second_table)
                 else (first_table, second_table)
             )
 
@@ -503,13 +515,24 @@ class QEPsNode:
             next_table = (
                 next_join.inner_child.base_table
                 if next_join.inner_child.is_scan()
-                else next_join.inner_child.outer_child.base_table
+                else next_join.outer_child.base_table
             )
 
         qeps_child_id = self._make_identifier(query, next_table)
         qeps_child_node = self.child_nodes[qeps_child_id]
+        qeps_child_node._assign_operator(next_join, current_assignment)
         qeps_child_node.recommend_operators(query, remaining_joins, current_assignment)
 
+    def _assign_operator(
+        self, join: JoinTree, current_assignment: PhysicalOperatorAssignment
+    ) -> None:
+        """Stores the operator with the minimum cost for a join, if there is enough information."""
+        recommendation = self.current_recommendation()
+        if recommendation:
+            current_assignment.set_join_operator(
+                JoinOperatorAssignment(recommendation, join.tables())
+            )
+
     def integrate_costs(
         self,
         query: qal.SqlQuery,
@@ -551,20 +574,18 @@ class QEPsNode:
             return
 
         next_node, *remaining_nodes = query_plan
-        if not next_node.is_join:
-            self.integrate_costs(query, remaining_nodes)
-
         first_child, second_child = (
             _left_query_plan_child(next_node),
             _right_query_plan_child(next_node),
         )
-        if next_node.is_bushy():
+        if _is_bushy_join(next_node):
             first_child, second_child = (
                 (second_child, first_child)
-                if second_child.plan_depth() < first_child.plan_depth()
+                if _join_depth(second_child) < _join_depth(first_child)
                 else (first_child, second_child)
             )
-            qeps_subquery_id = QepsIdentifier(first_child.tables())
+            subquery_tables = jointree_from_plan(first_child).tables()
+            qeps_subquery_id = QepsIdentifier(subquery_tables)
             qeps_subquery_node = self.child_nodes[qeps_subquery_id]
             qeps_subquery_node.update_costs(
                 next_node.operator, next_node.estimated_cost
@@ -577,7 +598,9 @@ class QEPsNode:
         elif next_node.is_base_join():
             first_child, second_child = (
                 (second_child, first_child)
-                if second_child.fetch_base_table() < first_child.fetch_base_table()
+                if _swap_base_tables(
+                    first_child.fetch_base_table(), second_child.fetch_base_table()
+                )
                 else (first_child, second_child)
             )
             if not _skip_first_table:
-- 
2.43.0


From f4edee9a14b00ef1daecdd19e78d15bb68e3ac59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:52 +0000
Subject: [PATCH 173/181] fix: TONIC detects the joins without cost information
 (C27)

---
 postbound/opt/tonic.py | 57 ++++++++++++++++++------------------------
 1 file changed, 25 insertions(+), 32 deletions(-)

diff --git a/postbound/opt/tonic.py b/postbound/opt/tonic.py
index b433b4f..ab8136a 100644
--- a/postbound/opt/tonic.py
+++ b/postbound/opt/tonic.py
@@ -191,24 +191,6 @@ def _normalize_filter_predicate(
     return transform.rename_columns_in_predicate(filter_predicate, renamed_columns)
 
 
-def _tables_in_qeps_path(
-    qeps_path: Sequence[QepsIdentifier],
-) -> frozenset[TableReference]:
-    """Extracts all tables along a QEP-S path
-
-    Parameters
-    ----------
-    qeps_path : Sequence[QepsIdentifier]
-        The path to analyze
-
-    Returns
-    -------
-    frozenset[TableReference]
-        All tables in the path
-    """
-    return util.set_union(identifier.tables() for identifier in qeps_path)
-
-
 class QepsIdentifier:
     """Models the identifiers of QEP-S nodes.
 
@@ -655,26 +637,19 @@ class QEPsNode:
         if not join_order:
             return
 
-        if not self.is_root_node() and not self._parent.is_root_node():
-            own_unknown_ops = frozenset(
-                [
-                    operator
-                    for operator in allowed_operators
-                    if operator not in self.operator_costs
-                ]
-            )
-            unknown_ops[_tables_in_qeps_path(self.path())] = own_unknown_ops
-
         next_join, *remaining_joins = join_order
-        if next_join.is_bushy():
+        if _is_bushy_join(next_join):
             subquery_child = (
                 next_join.outer_child
-                if next_join.outer_child.plan_depth()
-                >= next_join.inner_child.plan_depth()
+                if _join_depth(next_join.outer_child)
+                <= _join_depth(next_join.inner_child)
                 else next_join.inner_child
             )
             qeps_subquery_id = QepsIdentifier(subquery_child.tables())
             qeps_subquery_node = self.child_nodes[qeps_subquery_id]
+            qeps_subquery_node._collect_unknown_operators(
+                next_join, allowed_operators, unknown_ops
+            )
             qeps_subquery_node.subquery_root.detect_unknown_costs(
                 query,
                 _iterate_join_tree(subquery_child),
@@ -693,7 +668,7 @@ class QEPsNode:
             )
             first_table, second_table = (
                 (second_table, first_table)
-                if second_table < first_table
+                if _swap_base_tables(first_table, second_table)
                 else (first_table, second_table)
             )
 
@@ -720,10 +695,28 @@ class QEPsNode:
 
         qeps_child_id = self._make_identifier(query, next_table)
         qeps_child_node = self.child_nodes[qeps_child_id]
+        qeps_child_node._collect_unknown_operators(
+            next_join, allowed_operators, unknown_ops
+        )
         qeps_child_node.detect_unknown_costs(
             query, remaining_joins, allowed_operators, unknown_ops
         )
 
+    def _collect_unknown_operators(
+        self,
+        join: JoinTree,
+        allowed_operators: frozenset[JoinOperator],
+        unknown_ops: dict[frozenset[TableReference], frozenset[JoinOperator]],
+    ) -> None:
+        """Stores the operators without cost information for a join, if there are any."""
+        own_unknown_ops = frozenset(
+            operator
+            for operator in allowed_operators
+            if operator not in self.operator_costs
+        )
+        if own_unknown_ops:
+            unknown_ops[frozenset(join.tables())] = own_unknown_ops
+
     def current_recommendation(self) -> Optional[JoinOperator]:
         """Provides the operator with the minimum cost.
 
-- 
2.43.0


From e48abe1a1985009548b0c0ff9bf58e4850e01ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:52 +0000
Subject: [PATCH 174/181] fix: a saved TONIC model can be loaded and trained
 further (C27)

---
 postbound/opt/tonic.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/postbound/opt/tonic.py b/postbound/opt/tonic.py
index ab8136a..3731ac9 100644
--- a/postbound/opt/tonic.py
+++ b/postbound/opt/tonic.py
@@ -1058,7 +1058,7 @@ def _load_qeps_id_from_json(json_data: dict) -> QepsIdentifier:
     tables = [
         parser.load_table_json(json_table) for json_table in json_data.get("tables", [])
     ]
-    filter_pred = parser.load_predicate_json(json_data.get("filter_predicate"), {})
+    filter_pred = parser.load_predicate_json(json_data.get("filter_predicate"))
     return QepsIdentifier(tables, filter_pred)
 
 
@@ -1104,20 +1104,18 @@ def _load_qeps_from_json(
     }
     subquery = (
         _load_qeps_from_json(json_data["subquery"], None, None, filter_aware, gamma)
-        if "subquery" in json_data
+        if json_data.get("subquery")
         else None
     )
-    children: dict[QepsIdentifier, QEPsNode] = {}
     for child_json in json_data.get("children", []):
         child_id = _load_qeps_id_from_json(child_json["identifier"])
         child_node = _load_qeps_from_json(
-            json_data["node"], child_id, node, filter_aware, gamma
+            child_json["node"], child_id, node, filter_aware, gamma
         )
-        children[child_id] = child_node
+        node.child_nodes[child_id] = child_node
 
-    node.operator_costs = cost_info
+    node.operator_costs.update(cost_info)
     node._subquery_root = subquery
-    node.child_nodes = children
     return node
 
 
-- 
2.43.0


From ff05d30d9987bd755c82567f1ac516e286390ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:52 +0000
Subject: [PATCH 175/181] fix: TONIC explores all operator combinations by
 default (C27)

---
 postbound/opt/tonic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/postbound/opt/tonic.py b/postbound/opt/tonic.py
index 3731ac9..4d27228 100644
--- a/postbound/opt/tonic.py
+++ b/postbound/opt/tonic.py
@@ -1462,7 +1462,8 @@ class TonicOperatorSelection(PhysicalOperatorSelection):
             _sample_cost_estimates(
                 query, join_order, unknown_costs, max_combinations, self._db
             )
-            if total_unknown_combinations > max_combinations
+            if max_combinations is not None
+            and total_unknown_combinations > max_combinations
             else _generate_all_cost_estimates(
                 query, join_order, unknown_costs, self._db
             )
-- 
2.43.0


From 2f51f2e0f3aa5f9947f9aab15811324513cfa536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:06 +0000
Subject: [PATCH 176/181] fix: TONIC explores the costs of a join order (C27)

---
 postbound/opt/tonic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/opt/tonic.py b/postbound/opt/tonic.py
index 4d27228..c75e8f5 100644
--- a/postbound/opt/tonic.py
+++ b/postbound/opt/tonic.py
@@ -1451,7 +1451,7 @@ class TonicOperatorSelection(PhysicalOperatorSelection):
         allowed_operators = frozenset(allowed_operators & supported_operators)
 
         unknown_costs = {
-            intermediate.tables(): allowed_operators
+            frozenset(intermediate.tables()): allowed_operators
             for intermediate in join_order.iterjoins()
         }
         total_unknown_combinations = math.prod(
-- 
2.43.0


From ad50c8528576169b87c1a6e3fb7ebd5ff1c5be3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:12 +0000
Subject: [PATCH 177/181] fix: UES optimizes queries with tables that are not
 joined at all (C28)

---
 postbound/opt/ues.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/postbound/opt/ues.py b/postbound/opt/ues.py
index 226c343..172e5af 100644
--- a/postbound/opt/ues.py
+++ b/postbound/opt/ues.py
@@ -1056,7 +1056,13 @@ class UESJoinOrderOptimizer(JoinOrderOptimization):
             # cross-product query is reduced to multiple independent optimization passes
             optimized_components: list[LogicalJoinTree] = []
             for component in join_graph.join_components():
-                # FIXME: join components might consist of single tables!
+                if len(component) == 1:
+                    (table,) = component
+                    table_card = self.stats_container.base_table_estimates[table]
+                    optimized_components.append(
+                        LogicalJoinTree.scan(table, annotation=table_card)
+                    )
+                    continue
                 optimized_component = self._clone().optimize_join_order(component.query)
                 if not optimized_component:
                     raise JoinOrderOptimizationError(component.query)
@@ -1294,7 +1300,11 @@ class UESJoinOrderOptimizer(JoinOrderOptimization):
         small_card = self.stats_container.base_table_estimates[small_table]
 
         join_predicate = query.predicates().joins_between(large_table, small_table)
-        join_bound = self.join_estimation.estimate_for(join_predicate, join_graph)
+        join_bound = (
+            self.join_estimation.estimate_for(join_predicate, join_graph)
+            if join_predicate
+            else large_card * small_card
+        )
 
         join_tree = LogicalJoinTree.scan(large_table, annotation=large_card)
         join_tree = join_tree.join_with(
-- 
2.43.0


From d5fe2f6179328ac5875d451eefed7cf34f72f4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:12 +0000
Subject: [PATCH 178/181] fix: UES combines the partitions of a cross product
 smallest first (C28)

---
 postbound/opt/ues.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/postbound/opt/ues.py b/postbound/opt/ues.py
index 172e5af..eb77225 100644
--- a/postbound/opt/ues.py
+++ b/postbound/opt/ues.py
@@ -1069,7 +1069,7 @@ class UESJoinOrderOptimizer(JoinOrderOptimization):
                 optimized_components.append(optimized_component)
 
             # insert cross-products such that the smaller partitions are joined first
-            sorted(optimized_components, key=operator.attrgetter("annotation"))
+            optimized_components.sort(key=operator.attrgetter("annotation"))
             final_join_tree, *remaining_joins = optimized_components
             for remaining_join in remaining_joins:
                 output_cardinality = (
@@ -1499,7 +1499,9 @@ class UESJoinOrderOptimizer(JoinOrderOptimization):
             join_estimation=copy.copy(self.join_estimation),
             subquery_policy=copy.copy(self.subquery_policy),
             stats_container=copy.copy(self.stats_container),
+            pull_eager_pk_tables=self._pull_eager_pk_tables,
             database=self.database,
+            verbose=self._logging_enabled,
         )
 
     def _log_information(self, info: str) -> None:
-- 
2.43.0


From a1bfb75e50c5c71ed4a7778df04498adb308342e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:12 +0000
Subject: [PATCH 179/181] fix: UES joins the tables behind a chain of primary
 keys (C28)

---
 postbound/opt/ues.py | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/postbound/opt/ues.py b/postbound/opt/ues.py
index eb77225..ac175d0 100644
--- a/postbound/opt/ues.py
+++ b/postbound/opt/ues.py
@@ -1135,7 +1135,27 @@ class UESJoinOrderOptimizer(JoinOrderOptimization):
         self._log_information("Using default UES optimizer")
         join_tree = LogicalJoinTree.empty()
 
-        while join_graph.contains_free_n_m_joins():
+        while join_graph.contains_free_tables():
+            if not join_graph.contains_free_n_m_joins():
+                # the remaining tables are reached via further pk/fk joins, e.g. behind a chain of primary key tables
+                bounds = {
+                    join_path: self.join_estimation.estimate_for(
+                        join_path.join_condition, join_graph
+                    )
+                    for join_path in join_graph.available_join_paths()
+                }
+                if not bounds:
+                    break
+                next_join = util.argmin(bounds)
+                join_tree = self._apply_pk_fk_join(
+                    query,
+                    next_join,
+                    join_bound=bounds[next_join],
+                    join_graph=join_graph,
+                    current_join_tree=join_tree,
+                )
+                continue
+
             # Update the current upper bounds
             lowest_bound = np.inf
             lowest_bound_table = None
-- 
2.43.0


From ccbeb55d5aa846e93af1431bd2a8b0407766ba9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:49 +0000
Subject: [PATCH 180/181] fix: breadth-first traversal provides each node just
 once (C07)

---
 postbound/util/nx.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/postbound/util/nx.py b/postbound/util/nx.py
index 53aa19a..785220c 100644
--- a/postbound/util/nx.py
+++ b/postbound/util/nx.py
@@ -174,6 +174,8 @@ def nx_bfs_tree(
     visited_nodes = {start_node}
     while shell_nodes:
         current_node, current_edge = shell_nodes.pop()
+        if current_node in visited_nodes:
+            continue  # already found via another parent
         if condition(current_node, current_edge):
             # nodes that fail the condition might still be reachable via a different (matching) edge
             visited_nodes.add(current_node)
-- 
2.43.0


From 76b6af3df385cbe74e85fd3236354602d994cb14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:29 +0000
Subject: [PATCH 181/181] fix: the UES bound of an n:m join is not rounded down
 (C28)

---
 postbound/opt/ues.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/postbound/opt/ues.py b/postbound/opt/ues.py
index ac175d0..6cd264d 100644
--- a/postbound/opt/ues.py
+++ b/postbound/opt/ues.py
@@ -772,8 +772,9 @@ class UESBoundEstimator(JoinEstimator):
         ):
             return 0
 
-        first_distinct_vals = first_bound / first_freq
-        second_distinct_vals = second_bound / second_freq
+        # cardinalities are whole numbers, but rounding the distinct values could produce a bound that is too low
+        first_distinct_vals = float(first_bound) / first_freq
+        second_distinct_vals = float(second_bound) / second_freq
 
         n_m_bound = (
             min(first_distinct_vals, second_distinct_vals) * first_freq * second_freq
-- 
2.43.0

