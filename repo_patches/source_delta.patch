From 2b917e39a83141c7998e1b8e1fa78e351f919cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:35 +0000
Subject: [PATCH 01/73] fix: split edge strings whose first element is an edge

Without outer parenthesis, '(a b) c' lost its first and last characters, so
star() and pattern2edges() raised on any permutation starting with an edge.
---
 gb/hypergraph/edge.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/gb/hypergraph/edge.py b/gb/hypergraph/edge.py
index 5edb25d..1852a0b 100644
--- a/gb/hypergraph/edge.py
+++ b/gb/hypergraph/edge.py
@@ -47,6 +47,21 @@ def close_pars(s):
     return -pos - 1
 
 
+def has_outer_pars(s):
+    """Check if the whole string is enclosed in one pair of parenthesis."""
+    if s[0] != '(':
+        return False
+    depth = 0
+    for pos in range(len(s)):
+        if s[pos] == '(':
+            depth += 1
+        elif s[pos] == ')':
+            depth -= 1
+            if depth == 0:
+                return pos == len(s) - 1
+    return False
+
+
 def token_type(token):
     """Determine the type of a string token: STRING, INTEGER or DOUBLE."""
 
@@ -94,7 +109,7 @@ def split_edge_str(edge_str):
     with or without outer parenthesis."""
 
     edge_inner_str = edge_str
-    if edge_str[0] == '(':
+    if has_outer_pars(edge_str):
         edge_inner_str = edge_str[1:-1]
     stoks = edge_inner_str.split()
 
-- 
2.43.0


From 43b9a365409f39352976cf2d932a0030dac965fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:03 +0000
Subject: [PATCH 02/73] fix: keep balanced parenthesis inside symbols

Only leading and trailing parenthesis of a token were counted, so an edge with
a symbol such as http://en.wikipedia.org/wiki/Mercury_(planet) lost elements
when it was parsed back.
---
 gb/hypergraph/edge.py | 18 +-----------------
 1 file changed, 1 insertion(+), 17 deletions(-)

diff --git a/gb/hypergraph/edge.py b/gb/hypergraph/edge.py
index 1852a0b..d67a39e 100644
--- a/gb/hypergraph/edge.py
+++ b/gb/hypergraph/edge.py
@@ -31,22 +31,6 @@ class TokenType(object):
     STRING = 2
 
 
-def open_pars(s):
-    """Number of consecutive open parenthesis at the beginning of the string."""
-    pos = 0
-    while s[pos] == '(':
-        pos += 1
-    return pos
-
-
-def close_pars(s):
-    """Number of consecutive close parenthesis at the end of the string."""
-    pos = -1
-    while s[pos] == ')':
-        pos -= 1
-    return -pos - 1
-
-
 def has_outer_pars(s):
     """Check if the whole string is enclosed in one pair of parenthesis."""
     if s[0] != '(':
@@ -118,7 +102,7 @@ def split_edge_str(edge_str):
     depth = 0
     while len(stoks) > 0:
         tok = stoks[0]
-        depth = depth + open_pars(tok) - close_pars(tok)
+        depth = depth + tok.count('(') - tok.count(')')
         bottom = depth == 0
         if curtok is None:
             curtok = tok
-- 
2.43.0


From dd4611c48bb70f0c06486e9f1bdd32960fc9f21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:28 +0000
Subject: [PATCH 03/73] fix: read '-' and '.' as symbols, not as numbers

A token without digits was typed as a number, so parsing any edge with a '-',
'.' or '-.' symbol raised ValueError.
---
 gb/hypergraph/edge.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gb/hypergraph/edge.py b/gb/hypergraph/edge.py
index d67a39e..27e733b 100644
--- a/gb/hypergraph/edge.py
+++ b/gb/hypergraph/edge.py
@@ -51,6 +51,7 @@ def token_type(token):
 
     s = token
     pos = 0
+    digits = False
     point = False
 
     while len(s) > 0:
@@ -65,10 +66,14 @@ def token_type(token):
                 point = True
         elif c < '0' or c > '9':
             return TokenType.STRING
+        else:
+            digits = True
         s = s[1:]
         pos += 1
 
-    if point:
+    if not digits:
+        return TokenType.STRING
+    elif point:
         return TokenType.DOUBLE
     else:
         return TokenType.INTEGER
-- 
2.43.0


From 5d23d482c78a9c85cdfad47acdebcce4b9a4e379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:28 +0000
Subject: [PATCH 04/73] fix: read back floats written in exponent notation

str(1e20) is '1e+20', which was parsed as a symbol: edges with such values did
not match themselves (exists() was False right after add(), and adding again
counted degrees twice).
---
 gb/hypergraph/edge.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gb/hypergraph/edge.py b/gb/hypergraph/edge.py
index 27e733b..3c3fc4e 100644
--- a/gb/hypergraph/edge.py
+++ b/gb/hypergraph/edge.py
@@ -64,6 +64,11 @@ def token_type(token):
                 return TokenType.STRING
             else:
                 point = True
+        elif c == 'e':
+            # exponent, always signed in the string representation of a double
+            if digits and s[1:2] in ('+', '-') and s[2:].isdigit() and s[2:].isascii():
+                return TokenType.DOUBLE
+            return TokenType.STRING
         elif c < '0' or c > '9':
             return TokenType.STRING
         else:
-- 
2.43.0


From edb4d08978a93e3d740f499332f1c0af2e7ac7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:28 +0000
Subject: [PATCH 05/73] fix: accept patterns made only of wildcards

pattern2edges((None, None)) raised IndexError instead of returning all the
edges of that length.
---
 gb/hypergraph/sql.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/gb/hypergraph/sql.py b/gb/hypergraph/sql.py
index 612f387..23bafdd 100644
--- a/gb/hypergraph/sql.py
+++ b/gb/hypergraph/sql.py
@@ -193,10 +193,13 @@ class SQL(Backend):
         """Return all the edges that match a pattern.
         A pattern is a collection of entity ids and wildcards (None)."""
         nodes = [node for node in pattern if node is not None]
-        start_str = ed.nodes2str(nodes)
-        end_str = str_plus_1(start_str)
         cur = self.open_cursor()
-        cur.execute('SELECT id FROM perms WHERE id>=%s AND id<%s' % (self.ph, self.ph), (start_str, end_str))
+        if len(nodes) > 0:
+            start_str = ed.nodes2str(nodes)
+            end_str = str_plus_1(start_str)
+            cur.execute('SELECT id FROM perms WHERE id>=%s AND id<%s' % (self.ph, self.ph), (start_str, end_str))
+        else:
+            cur.execute('SELECT id FROM perms')
         edges = cur2edges(cur)
         self.close_cursor(cur, local=True, commit=False)
         return set([edge for edge in edges if edge_matches_pattern(edge, pattern)])
-- 
2.43.0


From 0b95dc15b5c7260804de681024562ebc2c79b64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:53 +0000
Subject: [PATCH 06/73] fix: let degree() and timestamp() be called in a batch

They closed the cursor that the batch shares, so the next operation of the
batch raised ProgrammingError.
---
 gb/hypergraph/sql.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gb/hypergraph/sql.py b/gb/hypergraph/sql.py
index 23bafdd..986fdb1 100644
--- a/gb/hypergraph/sql.py
+++ b/gb/hypergraph/sql.py
@@ -301,7 +301,7 @@ class SQL(Backend):
         cur.execute('SELECT degree FROM vertices WHERE id=%s' % (self.ph,), (vert_str,))
         for row in cur:
             deg = row[0]
-            cur.close()
+            self.close_cursor(cur, local=True, commit=False)
             return deg
         self.close_cursor(cur, local=True, commit=False)
         return 0
@@ -313,7 +313,7 @@ class SQL(Backend):
         cur.execute('SELECT timestamp FROM vertices WHERE id=%s' % (self.ph,), (vert_str,))
         for row in cur:
             ts = row[0]
-            cur.close()
+            self.close_cursor(cur, local=True, commit=False)
             return ts
         self.close_cursor(cur, local=True, commit=False)
         return -1
-- 
2.43.0


From 1c29ea387daa670531ffe4e7d4029da132e73d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:53 +0000
Subject: [PATCH 07/73] fix: match pattern elements by their string
 representation

An entity is identified by its string representation everywhere else. Elements
given as lists never matched the stored tuples, so an edge with such an element
did not exist right after being added, and adding it again counted its degrees
twice; 7 matched a stored 7.0.
---
 gb/hypergraph/sql.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gb/hypergraph/sql.py b/gb/hypergraph/sql.py
index 986fdb1..be444a5 100644
--- a/gb/hypergraph/sql.py
+++ b/gb/hypergraph/sql.py
@@ -89,7 +89,7 @@ def edge_matches_pattern(edge, pattern):
     if n != len(pattern):
         return False
     for i in range(n):
-        if (pattern[i] is not None) and (pattern[i] != edge[i]):
+        if (pattern[i] is not None) and (ed.edge2str(pattern[i]) != ed.edge2str(edge[i])):
             return False
     return True
 
-- 
2.43.0


From 65be0b1cd4304771465fff0158ca70aa452af006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:33 +0000
Subject: [PATCH 08/73] fix: nested and failing batches

Adding multiple edges from inside a batch closed the cursor of that batch, so
the batch ended in AttributeError without being committed. An exception in a
batch left the connection in batch mode for good: what had been done was
neither committed nor undone, and nothing that followed was ever committed.
---
 gb/hypergraph/sql.py | 35 +++++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/gb/hypergraph/sql.py b/gb/hypergraph/sql.py
index be444a5..beca1ac 100644
--- a/gb/hypergraph/sql.py
+++ b/gb/hypergraph/sql.py
@@ -21,6 +21,7 @@
 
 import math
 import itertools
+from contextlib import contextmanager
 import gb.hypergraph.edge as ed
 from gb.hypergraph.backend import Backend
 
@@ -130,6 +131,26 @@ class SQL(Backend):
             self.cur.close()
             self.cur = None
 
+    @contextmanager
+    def transaction(self):
+        """Everything done inside of this context is committed at its end,
+        or rolled back if there is an exception. Joins the current transaction
+        when there is one already."""
+        if self.cur is not None:
+            yield
+            return
+
+        cur = self.open_cursor(local=False)
+        done = False
+        try:
+            yield
+            self.conn.commit()
+            done = True
+        finally:
+            if not done:
+                self.conn.rollback()
+            self.close_cursor(cur, local=False)
+
     def update_or_insert(self, table, row, vid):
         """Updates columns or inserts a new row in the vertices table"""
         cur = self.open_cursor()
@@ -239,10 +260,9 @@ class SQL(Backend):
         """Adds one or multiple edges to the hypergraph if it does not exist yet.
         Adding multiple edges at the same time might be faster."""
         if isinstance(edges[0], (list, tuple)):
-            cur = self.open_cursor(local=False)
-            for edge in edges:
-                self.add_raw(edge, timestamp)
-            self.close_cursor(cur, local=False, commit=True)
+            with self.transaction():
+                for edge in edges:
+                    self.add_raw(edge, timestamp)
         else:
             self.add_raw(edges, timestamp)
         return edges
@@ -320,10 +340,9 @@ class SQL(Backend):
 
     def batch_exec(self, funs):
         """Auxiliary function to implement ops.batch_exec in SQL environments."""
-        cur = self.open_cursor(local=False)
-        for f in funs:
-            f(self)
-        self.close_cursor(cur, local=False, commit=True)
+        with self.transaction():
+            for f in funs:
+                f(self)
 
     def f_all(self, f):
         """Returns a lazy sequence resulting from applying f to every
-- 
2.43.0


From fe8ec0de05c0a764a1387b516928c3c49d4462ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:08 +0000
Subject: [PATCH 09/73] fix: add and remove edges in one transaction

Each statement was committed on its own, so a crash in the middle of add() or
remove() left degrees that do not match the edges and partially indexed edges,
which a second add() or remove() did not repair. Removing from inside a batch
also committed the unfinished batch.
---
 gb/hypergraph/sql.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/gb/hypergraph/sql.py b/gb/hypergraph/sql.py
index beca1ac..fb7b857 100644
--- a/gb/hypergraph/sql.py
+++ b/gb/hypergraph/sql.py
@@ -183,10 +183,9 @@ class SQL(Backend):
 
     def remove_edge_permutation(self, perm):
         eid = ed.edge2str(perm)
-        cur = self.conn.cursor()
+        cur = self.open_cursor()
         cur.execute('DELETE FROM perms WHERE id=%s' % (self.ph,), (eid,))
-        self.conn.commit()
-        cur.close()
+        self.close_cursor(cur, local=True, commit=True)
 
     def remove_edge_permutations(self, edge):
         """Removes all permutations of the given edge."""
@@ -264,7 +263,8 @@ class SQL(Backend):
                 for edge in edges:
                     self.add_raw(edge, timestamp)
         else:
-            self.add_raw(edges, timestamp)
+            with self.transaction():
+                self.add_raw(edges, timestamp)
         return edges
 
     def remove_raw(self, edge):
@@ -279,11 +279,12 @@ class SQL(Backend):
         """Removes one or multiple edges from the hypergraph
         Removing multiple edges at the same time might be faster."""
         if isinstance(edges[0], (list, tuple)):
-            # TODO: use transaction?
-            for edge in edges:
-                self.remove_raw(edge)
+            with self.transaction():
+                for edge in edges:
+                    self.remove_raw(edge)
         else:
-            self.remove_raw(edges)
+            with self.transaction():
+                self.remove_raw(edges)
 
     def star(self, center):
         """Return all the edges that contain a given entity.
-- 
2.43.0


From c2b0a4caa461eebcd7eebae20d3dd459b8562161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:08 +0000
Subject: [PATCH 10/73] fix: keep the degree of edges that are vertices of
 other edges

Adding an edge that was already part of another edge reset its degree to zero,
and removing it deleted its vertex, so degrees depended on the order of
operations and could become negative.
---
 gb/hypergraph/sql.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/gb/hypergraph/sql.py b/gb/hypergraph/sql.py
index fb7b857..0b856b7 100644
--- a/gb/hypergraph/sql.py
+++ b/gb/hypergraph/sql.py
@@ -251,7 +251,8 @@ class SQL(Backend):
                 vert_str = ed.edge2str(vert)
                 if not self.inc_degree(vert_str):
                     self.add_str(vert_str, 1, timestamp)
-            self.add_str(ed.edge2str(edge), 0, timestamp)
+            # the edge may already be a vertex of other edges
+            self.add_str(ed.edge2str(edge), self.degree(edge), timestamp)
             self.write_edge_permutations(edge)
         return edge
 
@@ -273,7 +274,12 @@ class SQL(Backend):
             for vert in edge:
                 self.dec_degree(ed.edge2str(vert))
             self.remove_edge_permutations(edge)
-            self.remove_str(ed.edge2str(edge))
+            degree = self.degree(edge)
+            if degree > 0:
+                # still a vertex of other edges
+                self.add_str(ed.edge2str(edge), degree, -1)
+            else:
+                self.remove_str(ed.edge2str(edge))
 
     def remove(self, edges):
         """Removes one or multiple edges from the hypergraph
-- 
2.43.0


From e5918c8816c7dcf7e0643a6a2afb41137794599c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:32 +0000
Subject: [PATCH 11/73] fix: count matched rows instead of changed rows on
 MySQL

update_or_insert() inserts when no row was updated. MySQL does not count rows
whose values stay the same, so it tried to insert a vertex that already exists
and raised IntegrityError.
---
 gb/hypergraph/mysql.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gb/hypergraph/mysql.py b/gb/hypergraph/mysql.py
index a670737..4f9bdac 100644
--- a/gb/hypergraph/mysql.py
+++ b/gb/hypergraph/mysql.py
@@ -18,6 +18,7 @@
 
 import MySQLdb
 import _mysql_exceptions
+from MySQLdb.constants import CLIENT
 from gb.hypergraph.sql import SQL
 
 
@@ -38,7 +39,8 @@ class MySQL(SQL):
         user = params['user']
         password = params['password']
         dbname = params['db']
-        conn = MySQLdb.connect(host=host, user=user, passwd=password, db=dbname)
+        conn = MySQLdb.connect(host=host, user=user, passwd=password, db=dbname,
+                               client_flag=CLIENT.FOUND_ROWS)
         conn.autocommit(True)
         SQL.__init__(self, conn, '%s')
 
-- 
2.43.0


From 8b41dbcb31e17295a165b1e748f1c15d97aa72e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:32 +0000
Subject: [PATCH 12/73] fix: iterate f_all() with its own cursor

Inside a batch it shared the cursor of the batch, so any operation during the
iteration silently dropped the remaining vertices.
---
 gb/hypergraph/sql.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gb/hypergraph/sql.py b/gb/hypergraph/sql.py
index 0b856b7..b537ad9 100644
--- a/gb/hypergraph/sql.py
+++ b/gb/hypergraph/sql.py
@@ -355,9 +355,10 @@ class SQL(Backend):
         """Returns a lazy sequence resulting from applying f to every
            vertex map (including non-atomic) in the hypergraph.
            A vertex map contains the keys vertex and degree."""
-        cur = self.open_cursor()
+        # not the cursor of the current transaction, other operations may happen during the iteration
+        cur = self.conn.cursor()
         cur.execute('SELECT id, degree FROM vertices')
         for row in cur:
             vmap = {'vertex': ed.str2edge(row[0]), 'degree': row[1]}
             yield f(vmap)
-        self.close_cursor(cur, local=True, commit=False)
+        cur.close()
-- 
2.43.0


From 8fd35fe935e57d32d8811022c879035ca910aabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:03 +0000
Subject: [PATCH 13/73] fix: flush buffered edges with their own timestamps, or
 none at all

BatchHyperGraph ignored the timestamps given to add(), using for the whole
buffer the one of the call that filled it or of flush(). Flushing an empty
buffer, e.g. at the end of a WordNet import that had just been flushed,
raised IndexError.
---
 gb/hypergraph/batch_hypergraph.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/gb/hypergraph/batch_hypergraph.py b/gb/hypergraph/batch_hypergraph.py
index dd8b305..ac8f363 100644
--- a/gb/hypergraph/batch_hypergraph.py
+++ b/gb/hypergraph/batch_hypergraph.py
@@ -19,6 +19,7 @@
 #   along with GraphBrain.  If not, see <http://www.gnu.org/licenses/>.
 
 
+import itertools
 import gb.hypergraph.hypergraph as hypergraph
 
 
@@ -33,18 +34,24 @@ class BatchHyperGraph(hypergraph.HyperGraph):
         self.buffer_max = buffer_max
 
     def flush(self, timestamp=-1):
-        self.backend.add(self.buffer, timestamp)
+        """Writes the buffered edges. The given timestamp is for the edges that
+        were added without one."""
+        runs = itertools.groupby(self.buffer, key=lambda item: item[1])
+        for edges_timestamp, items in runs:
+            if edges_timestamp == -1:
+                edges_timestamp = timestamp
+            self.backend.add([edge for edge, _ in items], edges_timestamp)
         self.buffer = []
 
     def add(self, edges, timestamp=-1):
         """Adds one or multiple edges to the hypergraph if it does not exist yet.
                 Adding multiple edges at the same time might be faster."""
         if isinstance(edges[0], (list, tuple)):
-            self.buffer += edges
+            self.buffer += [(edge, timestamp) for edge in edges]
         else:
-            self.buffer.append(edges)
+            self.buffer.append((edges, timestamp))
 
         if len(self.buffer) > self.buffer_max:
-            self.flush(timestamp)
+            self.flush()
 
         return edges
-- 
2.43.0


From fbee9613d8ccd778bb748501aaa85da543e8ba83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:03 +0000
Subject: [PATCH 14/73] fix: evaluate the functions of a batch in the null
 backend

batch_exec() is documented to evaluate all the functions.
---
 gb/hypergraph/null.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gb/hypergraph/null.py b/gb/hypergraph/null.py
index a566a02..685a834 100644
--- a/gb/hypergraph/null.py
+++ b/gb/hypergraph/null.py
@@ -73,7 +73,8 @@ class Null(Backend):
         The functions are passed hg as a parameters and are evaluated
         as a batch.
         Evaluating function as a batch might be faster."""
-        pass
+        for f in funs:
+            f(self)
 
     def f_all(self, f):
         """Returns a lazy sequence resulting from applying f to every
-- 
2.43.0


From 9645787b4b68883f4cee91159e616e5f352481d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:03 +0000
Subject: [PATCH 15/73] fix: pass the hypergraph to the functions of a batch

They were given the storage backend, which has no add_belief(), sources(),
remove_by_pattern()...
---
 gb/hypergraph/hypergraph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gb/hypergraph/hypergraph.py b/gb/hypergraph/hypergraph.py
index 92588c6..7528c6a 100644
--- a/gb/hypergraph/hypergraph.py
+++ b/gb/hypergraph/hypergraph.py
@@ -86,7 +86,8 @@ class HyperGraph(object):
         The functions are passed hg as a parameters and are evaluated
         as a batch.
         Evaluating function as a batch might be faster."""
-        self.backend.batch_exec(funs)
+        # functions are given this hypergraph instead of its backend
+        self.backend.batch_exec([lambda _, fun=fun: fun(self) for fun in funs])
 
     def f_all(self, f):
         """Returns a lazy sequence resulting from applying f to every
-- 
2.43.0


From 729ef427f95db1a37c08f1003f797afeefb4d11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:03 +0000
Subject: [PATCH 16/73] fix: make ego() work

It raised TypeError for any depth above zero: star() is a set and can not be
sliced, and sets can not contain sets. It now returns the edges around the
center, as its only caller and the Clojure version expect.
---
 gb/hypergraph/hypergraph.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/gb/hypergraph/hypergraph.py b/gb/hypergraph/hypergraph.py
index 7528c6a..3779f44 100644
--- a/gb/hypergraph/hypergraph.py
+++ b/gb/hypergraph/hypergraph.py
@@ -103,13 +103,14 @@ class HyperGraph(object):
 
     # TODO: this can be optimized
     def ego(self, center, depth):
-        if depth > 0:
-            edges = self.star(center)
-            edges = edges[1:]
-            ids = [item for sublist in edges for item in sublist]
-            ids = set(ids)
-            next_edges = [self.ego(vid, depth - 1) for vid in ids]
-            return ids.union(next_edges)
+        """Set of edges within a distance from a center. Edges are connected
+        by the entities they relate, not by their relationship (first element)."""
+        if depth <= 0:
+            return set()
+        edges = set(self.star(center))
+        ids = set([item for edge in edges for item in edge[1:]])
+        next_edges = [self.ego(vid, depth - 1) for vid in ids]
+        return edges.union(*next_edges)
 
     def add_belief(self, source, edges, timestamp=-1):
         """A belif is a fact with a source. The fact is created as a normal edge
-- 
2.43.0


From 4dbbd7ff3e7d8452bbb76139604d083db2c15bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:54 +0000
Subject: [PATCH 17/73] fix: make intersect() work

It raised KeyError (looking up the built-in id() in the neighbourhoods) and
TypeError (adding lists to a set of walks), and KeyError again for a seed
without edges.
---
 gb/hypergraph/queries.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gb/hypergraph/queries.py b/gb/hypergraph/queries.py
index de75daf..255eb2e 100644
--- a/gb/hypergraph/queries.py
+++ b/gb/hypergraph/queries.py
@@ -38,7 +38,7 @@ def vemap_assoc_id_edge(vemap, vid, edge):
     if vid not in vemap:
         vemap[vid] = {'edges': [], 'neighbours': set()}
     vemap[vid]['edges'].append(edge)
-    vemap[vid]['neighbours'] = add_neighbours(vemap[id]['neighbours'], edge)
+    vemap[vid]['neighbours'] = add_neighbours(vemap[vid]['neighbours'], edge)
     return vemap
 
 
@@ -74,8 +74,8 @@ def walks(vemap, nodes, walk, all_walks):
             valid = False
 
     if valid:
-        all_walks.add(walk)
-    else:
+        all_walks.add(tuple(walk))
+    elif walk[-1] in vemap:
         neighbours = vemap[walk[-1]]['neighbours']
         next_steps = [node for node in neighbours if node not in walk]
         if len(next_steps) > 0:
-- 
2.43.0


From ccd42997e07bec29c5074c4ec8c0ba5103e1e284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:54 +0000
Subject: [PATCH 18/73] fix: replace any white space in str2symbol()

Tabs, line breaks and no-break spaces were kept, but separate the elements of
an edge when it is read back.
---
 gb/hypergraph/symbol.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gb/hypergraph/symbol.py b/gb/hypergraph/symbol.py
index 24df140..850effd 100644
--- a/gb/hypergraph/symbol.py
+++ b/gb/hypergraph/symbol.py
@@ -19,6 +19,7 @@
 #   along with GraphBrain.  If not, see <http://www.gnu.org/licenses/>.
 
 
+import re
 import string
 import random
 import numpy as np
@@ -110,7 +111,7 @@ def str2symbol(s):
     """Converts a string into a valid symbol"""
     sym = s.lower()
     sym = sym.replace("/", "_")
-    sym = sym.replace(" ", "_")
+    sym = re.sub(r"\s", "_", sym)
     sym = sym.replace("(", "_")
     sym = sym.replace(")", "_")
     return sym
-- 
2.43.0


From 4de7177d44c408e49cca57ce27aeb082adacd662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:54 +0000
Subject: [PATCH 19/73] fix: set the parent of tokens to a token

It was set to the parser itself.
---
 gb/nlp/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gb/nlp/parser.py b/gb/nlp/parser.py
index b506333..cce30e9 100644
--- a/gb/nlp/parser.py
+++ b/gb/nlp/parser.py
@@ -45,9 +45,9 @@ class Parser:
             token.left_children = [self.__spacy2token(t) for t in stoken.lefts]
             token.right_children = [self.__spacy2token(t) for t in stoken.rights]
             for t in token.left_children:
-                t.parent = self
+                t.parent = token
             for t in token.right_children:
-                t.parent = self
+                t.parent = token
             token.entity_type = stoken.ent_type_
             self.token_table[stoken] = token
 
-- 
2.43.0


From 7cda1c3f7c2f913cbd9951496ed020795df6d426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:54 +0000
Subject: [PATCH 20/73] fix: give the MySQL backend the parameters it reads

The command line interface passed dbuser and dbpass, but the backend reads
host, user and password, so --backend mysql always raised KeyError.
---
 gb/gbrain.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/gb/gbrain.py b/gb/gbrain.py
index 9a9771f..9727c5a 100644
--- a/gb/gbrain.py
+++ b/gb/gbrain.py
@@ -29,15 +29,17 @@ from gb.tools.shell import Shell
 @click.group()
 @click.option('--backend', help='Hypergraph Backend (sqlite, mysql, null).', default='sqlite')
 @click.option('--db', help='Database name.', default='gb.db')
+@click.option('--dbhost', help='Database host.', default='localhost')
 @click.option('--dbuser', help='Database user.', default='gb')
 @click.option('--dbpass', help='Database password.', default='gb')
 @click.pass_context
-def cli(ctx, backend, db, dbuser, dbpass):
+def cli(ctx, backend, db, dbhost, dbuser, dbpass):
     ctx.obj = {
         'backend': backend,
         'db': db,
-        'dbuser': dbuser,
-        'dbpass': dbpass
+        'host': dbhost,
+        'user': dbuser,
+        'password': dbpass
     }
 
 
-- 
2.43.0


From d27072515233564a507a7495b27bbc1d396cc6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:57 +0000
Subject: [PATCH 21/73] fix: use transactions in MySQL

With autocommit on, each statement was committed on its own, so that a batch
or an addition that failed was left half way.
---
 gb/hypergraph/mysql.py |  4 ++++
 gb/hypergraph/sql.py   | 14 ++++++++++----
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/gb/hypergraph/mysql.py b/gb/hypergraph/mysql.py
index 4f9bdac..b021a38 100644
--- a/gb/hypergraph/mysql.py
+++ b/gb/hypergraph/mysql.py
@@ -44,6 +44,10 @@ class MySQL(SQL):
         conn.autocommit(True)
         SQL.__init__(self, conn, '%s')
 
+    def begin(self):
+        # statements are committed one by one otherwise
+        self.conn.begin()
+
     def create_tables(self):
         """Created the tables necessary to store the hypergraph."""
         cur = self.conn.cursor()
diff --git a/gb/hypergraph/sql.py b/gb/hypergraph/sql.py
index b537ad9..e4e4213 100644
--- a/gb/hypergraph/sql.py
+++ b/gb/hypergraph/sql.py
@@ -131,6 +131,10 @@ class SQL(Backend):
             self.cur.close()
             self.cur = None
 
+    def begin(self):
+        """Starts a transaction, where the connection does not do it by itself."""
+        pass
+
     @contextmanager
     def transaction(self):
         """Everything done inside of this context is committed at its end,
@@ -143,6 +147,7 @@ class SQL(Backend):
         cur = self.open_cursor(local=False)
         done = False
         try:
+            self.begin()
             yield
             self.conn.commit()
             done = True
@@ -316,10 +321,11 @@ class SQL(Backend):
 
     def destroy(self):
         """Erase the hypergraph."""
-        cur = self.open_cursor()
-        cur.execute('DELETE FROM vertices')
-        cur.execute('DELETE FROM perms')
-        self.close_cursor(cur, local=True, commit=True)
+        with self.transaction():
+            cur = self.open_cursor()
+            cur.execute('DELETE FROM vertices')
+            cur.execute('DELETE FROM perms')
+            self.close_cursor(cur, local=True, commit=True)
 
     def degree(self, vertex):
         """Returns the degree of a vertex."""
-- 
2.43.0


From a86ea951dfbb08eac922c0f0bc27c91c38b07c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:29 +0000
Subject: [PATCH 22/73] fix: show all the tokens of a sentence tree

Two tokens with the same label under the same parent were shown as one.
---
 gb/nlp/sentence.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/gb/nlp/sentence.py b/gb/nlp/sentence.py
index 0c4a1ee..56f36c5 100644
--- a/gb/nlp/sentence.py
+++ b/gb/nlp/sentence.py
@@ -23,8 +23,20 @@ from asciitree import LeftAligned
 from collections import OrderedDict
 
 
+class NodeLabel(str):
+    """Label of a node. Labels of different nodes are different keys, even if their texts are the same."""
+
+    def __eq__(self, other):
+        return self is other if isinstance(other, NodeLabel) else str.__eq__(self, other)
+
+    def __ne__(self, other):
+        return not self == other
+
+    __hash__ = str.__hash__
+
+
 def node_label(token, prefix):
-    return '[%s]%s' % (prefix, token)
+    return NodeLabel('[%s]%s' % (prefix, token))
 
 
 def token2label_tree(token, prefix='*'):
-- 
2.43.0


From 8b70e1903a292fe647d99af99848000c9face6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:40 +0000
Subject: [PATCH 23/73] fix: keep the order of the words of compounds

Words at the left of the head of a compound were added in reverse order, so that
Alan Mathison Turing became mathison_alan_turing.
---
 gb/knowledge/semantic_tree.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gb/knowledge/semantic_tree.py b/gb/knowledge/semantic_tree.py
index 05f9d53..a365a15 100644
--- a/gb/knowledge/semantic_tree.py
+++ b/gb/knowledge/semantic_tree.py
@@ -302,7 +302,8 @@ class Node(Element):
             if pos == Position.RIGHT:
                 self.get_child(0).children_ids.append(elem_id)
             else:
-                self.get_child(0).children_ids.insert(0, elem_id)
+                # after the elements that are already at the left of the last one
+                self.get_child(0).children_ids.insert(-1, elem_id)
         else:
             raise IndexError('Requesting root on an empty Node')
         return self
-- 
2.43.0


From 8f7e06025158ccde1e379361d2ecef6cbf744dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:19 +0000
Subject: [PATCH 24/73] fix: do not change relationships that candidates share

Merging two relationships at the center marked their parts as compounds, also in
the other candidates and in the tree that is kept if the candidate is not.
---
 gb/knowledge/stages/delta.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gb/knowledge/stages/delta.py b/gb/knowledge/stages/delta.py
index 1b31252..76c6ed6 100644
--- a/gb/knowledge/stages/delta.py
+++ b/gb/knowledge/stages/delta.py
@@ -154,7 +154,9 @@ class DeltaStage(object):
                             rel_right_a = rel_right.children_ids[0]
                             rel_right_b = rel_right.children_ids[1:]
 
-                        center_rel_node = self.tree.create_node([rel_left_b, rel_right_a])
+                        # cloned, because making a compound changes the parts
+                        center_rel_node = self.tree.create_node([self.tree.clone_id(rel_left_b),
+                                                                 self.tree.clone_id(rel_right_a)])
                         center_rel_node.compound = True
 
                         rel_ids = rel_left_a + [center_rel_node.id] + rel_right_b
-- 
2.43.0


From a8bb445906ddcab859c307db3a3396dd90bb8c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:50 +0000
Subject: [PATCH 25/73] fix: make symbols of words with slashes or parentheses

A word as and/or became a symbol with the root 'and', and one as :( became a
symbol that can not be read back.
---
 gb/knowledge/stages/epsilon.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gb/knowledge/stages/epsilon.py b/gb/knowledge/stages/epsilon.py
index 75a3933..9cad09d 100644
--- a/gb/knowledge/stages/epsilon.py
+++ b/gb/knowledge/stages/epsilon.py
@@ -28,7 +28,7 @@ class EpsilonStage(object):
         self.tree = tree
 
     def leaf_to_hyperedges(self, leaf):
-        main_edge = sym.build((leaf.token.word, leaf.namespace))
+        main_edge = sym.build((sym.str2symbol(leaf.token.word), leaf.namespace))
         return {'main_edge': main_edge}
 
     def node_to_hyperedges(self, node):
@@ -47,7 +47,7 @@ class EpsilonStage(object):
     def compound_node_to_hyperedges(self, node):
         leafs = self.compound_entity_to_leafs(node)
         words = [leaf.token.word for leaf in leafs]
-        symbol = sym.build(('_'.join(words), '?'))
+        symbol = sym.build((sym.str2symbol('_'.join(words)), '?'))
         return {'main_edge': symbol}
 
     def build_hyperedges(self, entity):
-- 
2.43.0


From 95e7a7a95d9b7cc48ae5210c4475212ce6ea8ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:34 +0000
Subject: [PATCH 26/73] fix: remove_by_pattern removes all of the edges or none

---
 gb/hypergraph/hypergraph.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/gb/hypergraph/hypergraph.py b/gb/hypergraph/hypergraph.py
index 3779f44..361c101 100644
--- a/gb/hypergraph/hypergraph.py
+++ b/gb/hypergraph/hypergraph.py
@@ -98,8 +98,7 @@ class HyperGraph(object):
     def remove_by_pattern(self, pattern):
         """Removes from the hypergraph all edges that match the pattern."""
         edges = self.pattern2edges(pattern)
-        for edge in edges:
-            self.remove(edge)
+        self.batch_exec([lambda hg, edge=edge: hg.remove(edge) for edge in edges])
 
     # TODO: this can be optimized
     def ego(self, center, depth):
-- 
2.43.0


From 86593e0cd7ce48c6fd12d95f24510021642c6c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:34 +0000
Subject: [PATCH 27/73] fix: removing a belief removes the link and the fact,
 or none

---
 gb/hypergraph/hypergraph.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/gb/hypergraph/hypergraph.py b/gb/hypergraph/hypergraph.py
index 361c101..49237f0 100644
--- a/gb/hypergraph/hypergraph.py
+++ b/gb/hypergraph/hypergraph.py
@@ -137,6 +137,10 @@ class HyperGraph(object):
         """A belif is a fact with a source. The link from the source to the fact
            is removed. If no more sources support the fact, then the fact is also
            removed."""
-        self.remove((const.source, edge, source))
-        if len(self.sources(edge)) == 0:
-            self.remove(edge)
+        def remove(hg):
+            hg.remove((const.source, edge, source))
+            if len(hg.sources(edge)) == 0:
+                hg.remove(edge)
+
+        # both or none
+        self.batch_exec([remove])
-- 
2.43.0


From 4ec124352af73012ce5c3a8501999142cf050eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:50 +0000
Subject: [PATCH 28/73] fix: edges that wait in the buffer do not change with
 the lists that they were given as

---
 gb/hypergraph/batch_hypergraph.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gb/hypergraph/batch_hypergraph.py b/gb/hypergraph/batch_hypergraph.py
index ac8f363..24f26bf 100644
--- a/gb/hypergraph/batch_hypergraph.py
+++ b/gb/hypergraph/batch_hypergraph.py
@@ -19,6 +19,7 @@
 #   along with GraphBrain.  If not, see <http://www.gnu.org/licenses/>.
 
 
+import copy
 import itertools
 import gb.hypergraph.hypergraph as hypergraph
 
@@ -47,9 +48,9 @@ class BatchHyperGraph(hypergraph.HyperGraph):
         """Adds one or multiple edges to the hypergraph if it does not exist yet.
                 Adding multiple edges at the same time might be faster."""
         if isinstance(edges[0], (list, tuple)):
-            self.buffer += [(edge, timestamp) for edge in edges]
+            self.buffer += [(copy.deepcopy(edge), timestamp) for edge in edges]
         else:
-            self.buffer.append((edges, timestamp))
+            self.buffer.append((copy.deepcopy(edges), timestamp))
 
         if len(self.buffer) > self.buffer_max:
             self.flush()
-- 
2.43.0


From 5c3b7be377bb829ccd293c3cc14257a14561a548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:50 +0000
Subject: [PATCH 29/73] fix: flush writes the whole buffer or nothing of it

---
 gb/hypergraph/batch_hypergraph.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/gb/hypergraph/batch_hypergraph.py b/gb/hypergraph/batch_hypergraph.py
index 24f26bf..4524f71 100644
--- a/gb/hypergraph/batch_hypergraph.py
+++ b/gb/hypergraph/batch_hypergraph.py
@@ -37,11 +37,15 @@ class BatchHyperGraph(hypergraph.HyperGraph):
     def flush(self, timestamp=-1):
         """Writes the buffered edges. The given timestamp is for the edges that
         were added without one."""
-        runs = itertools.groupby(self.buffer, key=lambda item: item[1])
-        for edges_timestamp, items in runs:
-            if edges_timestamp == -1:
-                edges_timestamp = timestamp
-            self.backend.add([edge for edge, _ in items], edges_timestamp)
+        def write(backend):
+            runs = itertools.groupby(self.buffer, key=lambda item: item[1])
+            for edges_timestamp, items in runs:
+                if edges_timestamp == -1:
+                    edges_timestamp = timestamp
+                backend.add([edge for edge, _ in items], edges_timestamp)
+
+        # all or none, so that it can be tried again
+        self.backend.batch_exec([write])
         self.buffer = []
 
     def add(self, edges, timestamp=-1):
-- 
2.43.0


From 068d5479026efabdd6d06c1519d4e71891c51485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:57 +0000
Subject: [PATCH 30/73] fix: remove_by_pattern removes edges that have another
 one as their first element

---
 gb/hypergraph/hypergraph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gb/hypergraph/hypergraph.py b/gb/hypergraph/hypergraph.py
index 49237f0..385dab9 100644
--- a/gb/hypergraph/hypergraph.py
+++ b/gb/hypergraph/hypergraph.py
@@ -98,7 +98,8 @@ class HyperGraph(object):
     def remove_by_pattern(self, pattern):
         """Removes from the hypergraph all edges that match the pattern."""
         edges = self.pattern2edges(pattern)
-        self.batch_exec([lambda hg, edge=edge: hg.remove(edge) for edge in edges])
+        # in a list, because an edge may have another one as its first element
+        self.batch_exec([lambda hg, edge=edge: hg.remove([edge]) for edge in edges])
 
     # TODO: this can be optimized
     def ego(self, center, depth):
-- 
2.43.0


From 2b86350f53a2e5c6dffa322f04965df33e757c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:57 +0000
Subject: [PATCH 31/73] fix: remove_belief removes facts that have another edge
 as their first element

---
 gb/hypergraph/hypergraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gb/hypergraph/hypergraph.py b/gb/hypergraph/hypergraph.py
index 385dab9..d6c4039 100644
--- a/gb/hypergraph/hypergraph.py
+++ b/gb/hypergraph/hypergraph.py
@@ -141,7 +141,7 @@ class HyperGraph(object):
         def remove(hg):
             hg.remove((const.source, edge, source))
             if len(hg.sources(edge)) == 0:
-                hg.remove(edge)
+                hg.remove([edge])
 
         # both or none
         self.batch_exec([remove])
-- 
2.43.0


From cac61a100f83cd196a4ccf5ee79409b55b4c3606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:27 +0000
Subject: [PATCH 32/73] fix: what a call reads before its first write does not
 change until it is committed

---
 gb/hypergraph/sqlite.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gb/hypergraph/sqlite.py b/gb/hypergraph/sqlite.py
index fd65ee1..016f960 100644
--- a/gb/hypergraph/sqlite.py
+++ b/gb/hypergraph/sqlite.py
@@ -37,6 +37,11 @@ class SQLite(SQL):
         file_path = params['db']
         SQL.__init__(self, sqlite3.connect(file_path))
 
+    def begin(self):
+        # transactions start with the first write otherwise, and what was read
+        # before it may have been changed by others
+        self.conn.execute('BEGIN IMMEDIATE')
+
     def create_tables(self):
         """Created the tables necessary to store the hypergraph."""
         cur = self.conn.cursor()
-- 
2.43.0


From 85c598d15cb713a1d840e9b0db319695093bbdbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:48 +0000
Subject: [PATCH 33/73] fix: remove_by_pattern removes the edges that match
 when they are removed

---
 gb/hypergraph/hypergraph.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/gb/hypergraph/hypergraph.py b/gb/hypergraph/hypergraph.py
index d6c4039..c46df83 100644
--- a/gb/hypergraph/hypergraph.py
+++ b/gb/hypergraph/hypergraph.py
@@ -97,9 +97,12 @@ class HyperGraph(object):
 
     def remove_by_pattern(self, pattern):
         """Removes from the hypergraph all edges that match the pattern."""
-        edges = self.pattern2edges(pattern)
-        # in a list, because an edge may have another one as its first element
-        self.batch_exec([lambda hg, edge=edge: hg.remove([edge]) for edge in edges])
+        def remove(hg):
+            for edge in hg.pattern2edges(pattern):
+                # in a list, because an edge may have another one as its first element
+                hg.remove([edge])
+
+        self.batch_exec([remove])
 
     # TODO: this can be optimized
     def ego(self, center, depth):
-- 
2.43.0


From 1449df6c1adb03aed966558659403ba3baeeae4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:29 +0000
Subject: [PATCH 34/73] fix: errors while the tables of a SQLite store are
 created reach the caller

---
 gb/hypergraph/sqlite.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gb/hypergraph/sqlite.py b/gb/hypergraph/sqlite.py
index 016f960..5da45a1 100644
--- a/gb/hypergraph/sqlite.py
+++ b/gb/hypergraph/sqlite.py
@@ -26,8 +26,10 @@ from gb.hypergraph.sql import SQL
 def exec_or_ignore(cur, query):
     try:
         cur.execute(query)
-    except sqlite3.OperationalError:
-        pass
+    except sqlite3.OperationalError as exc:
+        # only what is already there can be ignored
+        if not any(text in str(exc) for text in ('already exists', 'duplicate column name')):
+            raise
 
 
 class SQLite(SQL):
-- 
2.43.0


From aab3c0768a8e42fe6a6c042e6c0aab20954140b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:29 +0000
Subject: [PATCH 35/73] fix: errors while the tables of a MySQL store are
 created reach the caller

---
 gb/hypergraph/mysql.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/gb/hypergraph/mysql.py b/gb/hypergraph/mysql.py
index b021a38..0f62776 100644
--- a/gb/hypergraph/mysql.py
+++ b/gb/hypergraph/mysql.py
@@ -18,17 +18,17 @@
 
 import MySQLdb
 import _mysql_exceptions
-from MySQLdb.constants import CLIENT
+from MySQLdb.constants import CLIENT, ER
 from gb.hypergraph.sql import SQL
 
 
 def exec_or_ignore(cur, query):
     try:
         cur.execute(query)
-    except _mysql_exceptions.OperationalError:
-        pass
-    except _mysql_exceptions.ProgrammingError:
-        pass
+    except (_mysql_exceptions.OperationalError, _mysql_exceptions.ProgrammingError) as exc:
+        # only what is already there can be ignored
+        if exc.args[0] not in (ER.TABLE_EXISTS_ERROR, ER.DUP_FIELDNAME):
+            raise
 
 
 class MySQL(SQL):
-- 
2.43.0


From 3d3200616a312fa66f1d0bf539eaa7a62090bf8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:04 +0000
Subject: [PATCH 36/73] fix: text before a heading or a list item does not get
 its labels

---
 src/main/java/de/l3s/boilerpipe/sax/CommonTagActions.java | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main/java/de/l3s/boilerpipe/sax/CommonTagActions.java b/src/main/java/de/l3s/boilerpipe/sax/CommonTagActions.java
index 7b9c410..9ca8935 100644
--- a/src/main/java/de/l3s/boilerpipe/sax/CommonTagActions.java
+++ b/src/main/java/de/l3s/boilerpipe/sax/CommonTagActions.java
@@ -341,6 +341,8 @@ public abstract class CommonTagActions {
         public boolean start(BoilerpipeHTMLContentHandler instance,
                 final String localName, final String qName,
                 final Attributes atts) {
+            // the text before this tag does not get its labels
+            instance.flushBlock();
             instance.addLabelAction(action);
             return true;
         }
-- 
2.43.0


From ae1996f2716bc4a8e96f478b0403b3c64251c3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:04 +0000
Subject: [PATCH 37/73] fix: the first block of a page has its own depth and
 elements, not those of the title

---
 .../de/l3s/boilerpipe/sax/BoilerpipeHTMLContentHandler.java     | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main/java/de/l3s/boilerpipe/sax/BoilerpipeHTMLContentHandler.java b/src/main/java/de/l3s/boilerpipe/sax/BoilerpipeHTMLContentHandler.java
index f8cd767..e9d83e1 100644
--- a/src/main/java/de/l3s/boilerpipe/sax/BoilerpipeHTMLContentHandler.java
+++ b/src/main/java/de/l3s/boilerpipe/sax/BoilerpipeHTMLContentHandler.java
@@ -304,6 +304,8 @@ public class BoilerpipeHTMLContentHandler implements ContentHandler {
 			}
 			textBuffer.setLength(0);
 			tokenBuffer.setLength(0);
+			currentContainedTextElements.clear();
+			blockTagLevel = -1;
 			return;
 		}
 
-- 
2.43.0


From 072b123270b4656127c24f2412769cb842600700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:04 +0000
Subject: [PATCH 38/73] fix: the labels of the first block are added to the
 second one

---
 .../filters/heuristics/AddPrecedingLabelsFilter.java          | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/main/java/de/l3s/boilerpipe/filters/heuristics/AddPrecedingLabelsFilter.java b/src/main/java/de/l3s/boilerpipe/filters/heuristics/AddPrecedingLabelsFilter.java
index 3ade281..5c97fcf 100644
--- a/src/main/java/de/l3s/boilerpipe/filters/heuristics/AddPrecedingLabelsFilter.java
+++ b/src/main/java/de/l3s/boilerpipe/filters/heuristics/AddPrecedingLabelsFilter.java
@@ -56,15 +56,11 @@ public final class AddPrecedingLabelsFilter implements BoilerpipeFilter {
         }
 
         boolean changes = false;
-        int remaining = textBlocks.size();
 
         TextBlock blockBelow = null;
         TextBlock block;
         for (ListIterator<TextBlock> it = textBlocks.listIterator(textBlocks.size()); it
                 .hasPrevious();) {
-        	if(--remaining <= 0) {
-        		break;
-        	}
         	if(blockBelow == null) {
         		blockBelow = it.previous();
         		continue;
-- 
2.43.0


From 303d5a792dea046c6615216f1a0bf9099ded9e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:04 +0000
Subject: [PATCH 39/73] fix: fusing content blocks does not move or drop blocks
 in later passes

---
 .../de/l3s/boilerpipe/filters/heuristics/ContentFusion.java    | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/main/java/de/l3s/boilerpipe/filters/heuristics/ContentFusion.java b/src/main/java/de/l3s/boilerpipe/filters/heuristics/ContentFusion.java
index e44fc0c..8cbcfeb 100644
--- a/src/main/java/de/l3s/boilerpipe/filters/heuristics/ContentFusion.java
+++ b/src/main/java/de/l3s/boilerpipe/filters/heuristics/ContentFusion.java
@@ -44,11 +44,10 @@ public final class ContentFusion implements BoilerpipeFilter {
 			return false;
 		}
 
-		TextBlock prevBlock = textBlocks.get(0);
-
 		boolean changes = false;
 		do {
 			changes = false;
+			TextBlock prevBlock = textBlocks.get(0);
 			for (ListIterator<TextBlock> it = textBlocks.listIterator(1); it
 					.hasNext();) {
 				TextBlock block = it.next();
-- 
2.43.0


From e552bb5476673285fd23869c6e640141fe7bcf9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:04 +0000
Subject: [PATCH 40/73] fix: extracting text with $ or \ in it does not fail or
 change it

---
 src/main/java/de/l3s/boilerpipe/sax/HTMLHighlighter.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/java/de/l3s/boilerpipe/sax/HTMLHighlighter.java b/src/main/java/de/l3s/boilerpipe/sax/HTMLHighlighter.java
index aca4a8f..2e61cfa 100644
--- a/src/main/java/de/l3s/boilerpipe/sax/HTMLHighlighter.java
+++ b/src/main/java/de/l3s/boilerpipe/sax/HTMLHighlighter.java
@@ -128,7 +128,7 @@ public final class HTMLHighlighter {
 				m = PAT_SUPER_TAG.matcher(html);
 				if (m.find()) {
 					repeat = true;
-					html = m.replaceAll(m.group(1));
+					html = m.replaceAll(Matcher.quoteReplacement(m.group(1)));
 				}
 			}
 		}
-- 
2.43.0


From da2fc37484b2d7d8d8836436fee3f01769bdb52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:04 +0000
Subject: [PATCH 41/73] fix: extracting several elements does not drop the tags
 of the first and the last one

---
 .../l3s/boilerpipe/sax/HTMLHighlighter.java   | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/main/java/de/l3s/boilerpipe/sax/HTMLHighlighter.java b/src/main/java/de/l3s/boilerpipe/sax/HTMLHighlighter.java
index 2e61cfa..66425aa 100644
--- a/src/main/java/de/l3s/boilerpipe/sax/HTMLHighlighter.java
+++ b/src/main/java/de/l3s/boilerpipe/sax/HTMLHighlighter.java
@@ -126,7 +126,7 @@ public final class HTMLHighlighter {
 				}
 
 				m = PAT_SUPER_TAG.matcher(html);
-				if (m.find()) {
+				if (m.find() && isOneElement(html)) {
 					repeat = true;
 					html = m.replaceAll(Matcher.quoteReplacement(m.group(1)));
 				}
@@ -140,6 +140,23 @@ public final class HTMLHighlighter {
 			.compile("<[^/][^>]*></[^>]*>");
 	private static final Pattern PAT_SUPER_TAG = Pattern
 			.compile("^<[^>]*>(<.*?>)</[^>]*>$");
+	private static final Pattern PAT_TAG = Pattern.compile("<(/?)[^>]*>");
+
+	/**
+	 * Returns true if the last tag is the end of the element that the first
+	 * tag starts.
+	 */
+	private static boolean isOneElement(final String html) {
+		final Matcher m = PAT_TAG.matcher(html);
+		int depth = 0;
+		while (m.find()) {
+			depth += m.group(1).length() == 0 ? 1 : -1;
+			if (depth == 0) {
+				return html.indexOf('<', m.end()) == -1;
+			}
+		}
+		return false;
+	}
 
 	/**
 	 * Fetches the given {@link URL} using {@link HTMLFetcher} and processes the
-- 
2.43.0


From f099a57a8d8de73bba2a10302e37087fc5b6c3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:04 +0000
Subject: [PATCH 42/73] fix: words with _ in them are tagged as a whole

---
 src/main/java/org/graphbrain/eco/POSTagger.java | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/java/org/graphbrain/eco/POSTagger.java b/src/main/java/org/graphbrain/eco/POSTagger.java
index 6784de0..372a522 100644
--- a/src/main/java/org/graphbrain/eco/POSTagger.java
+++ b/src/main/java/org/graphbrain/eco/POSTagger.java
@@ -54,8 +54,8 @@ public class POSTagger {
 
         int i = 0;
         for (String wordTag : wordTagPairs) {
-            String[] tt = wordTag.split("_");
-            Word word = new Word(tt[0], tt[1], "");
+            int sep = wordTag.lastIndexOf('_');
+            Word word = new Word(wordTag.substring(0, sep), wordTag.substring(sep + 1), "");
             annotated[i] = word;
             i++;
         }
-- 
2.43.0


From 9b89927b43866770b26831d305aa27fdd1ec065c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:56 +0000
Subject: [PATCH 43/73] fix: permutations that begin with an edge could not be
 read back (Clojure)

---
 src/main/clojure/graphbrain/hg/sql.clj | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/clojure/graphbrain/hg/sql.clj b/src/main/clojure/graphbrain/hg/sql.clj
index 8b4e296..8fbf49a 100644
--- a/src/main/clojure/graphbrain/hg/sql.clj
+++ b/src/main/clojure/graphbrain/hg/sql.clj
@@ -100,7 +100,7 @@
          edges #{}]
     (if (empty? results) edges
         (let [res (:id (first results))
-              tokens (ed/split-edge-str res)
+              tokens (ed/split-edge-str (str "(" res ")"))
               nper (Integer. (last tokens))
               tokens (drop-last tokens)
               tokens (unpermutate tokens nper)
-- 
2.43.0


From b7f59abe8d6352ebd4b9dac4c479d69a1cfe20ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:56 +0000
Subject: [PATCH 44/73] fix: edges with repeated elements were read back with
 others in their place (Clojure)

---
 src/main/clojure/graphbrain/hg/sql.clj | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/main/clojure/graphbrain/hg/sql.clj b/src/main/clojure/graphbrain/hg/sql.clj
index 8fbf49a..99af657 100644
--- a/src/main/clojure/graphbrain/hg/sql.clj
+++ b/src/main/clojure/graphbrain/hg/sql.clj
@@ -45,12 +45,13 @@
 (defn- do-with-edge-permutations!
   "Applies the function f to all permutations of the given edge."
   [edge f]
-  (let [nperms (combo/count-permutations edge)
+  (let [indices (range (count edge))
+        nperms (combo/count-permutations indices)
         perms (map
                #(str
                  (clojure.string/join " "
-                                      (map ed/edge->str
-                                           (combo/nth-permutation edge %)))
+                                      (map (fn [i] (ed/edge->str (nth edge i)))
+                                           (combo/nth-permutation indices %)))
                  " " %)
                (range nperms))]
     (doseq [perm-str perms] (f perm-str))))
-- 
2.43.0


From 2657a1f93e96d495195a45a2fbed8624a15696ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:56 +0000
Subject: [PATCH 45/73] fix: patterns matched edges with more or fewer elements
 (Clojure)

---
 src/main/clojure/graphbrain/hg/sql.clj | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/main/clojure/graphbrain/hg/sql.clj b/src/main/clojure/graphbrain/hg/sql.clj
index 99af657..38f6f29 100644
--- a/src/main/clojure/graphbrain/hg/sql.clj
+++ b/src/main/clojure/graphbrain/hg/sql.clj
@@ -120,8 +120,9 @@
 (defn edge-matches-pattern?
   "Check if an edge matches a pattern."
   [edge pattern]
-  (every? identity
-          (map #(or (nil? %2) (= %1 %2)) edge pattern)))
+  (and (= (count edge) (count pattern))
+       (every? identity
+               (map #(or (nil? %2) (= %1 %2)) edge pattern))))
 
 (defn- str->perms
   "Query database for all the edge permutations that contain a given entity,
-- 
2.43.0


From 68ecf3dbc552d27d683a33a897ec82136f05a061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:56 +0000
Subject: [PATCH 46/73] fix: a pattern of wildcards only raised an exception
 (Clojure)

---
 src/main/clojure/graphbrain/hg/sql.clj | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/main/clojure/graphbrain/hg/sql.clj b/src/main/clojure/graphbrain/hg/sql.clj
index 38f6f29..cefcfcf 100644
--- a/src/main/clojure/graphbrain/hg/sql.clj
+++ b/src/main/clojure/graphbrain/hg/sql.clj
@@ -139,10 +139,12 @@
    A pattern is a collection of entity ids and wildcards (nil)."
   [conn pattern]
   (let [nodes (filter #(not (nil? %)) pattern)
-        start-str (ed/nodes->str nodes)
-        end-str (str+1 start-str)
-        rs (jdbc/query conn ["SELECT id FROM perms WHERE id>=? AND id<?"
-                             start-str end-str])
+        rs (if (empty? nodes)
+             (jdbc/query conn ["SELECT id FROM perms"])
+             (let [start-str (ed/nodes->str nodes)
+                   end-str (str+1 start-str)]
+               (jdbc/query conn ["SELECT id FROM perms WHERE id>=? AND id<?"
+                                 start-str end-str])))
         edges (results->edges rs)]
     (filter #(edge-matches-pattern? % pattern) edges)))
 
-- 
2.43.0


From 851ca3dbbbc2c0fa8ac795230a3cee2a869f6041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:56 +0000
Subject: [PATCH 47/73] fix: adding or removing an edge that is an element of
 another one lost its degree (Clojure)

---
 src/main/clojure/graphbrain/hg/sql.clj | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/main/clojure/graphbrain/hg/sql.clj b/src/main/clojure/graphbrain/hg/sql.clj
index cefcfcf..8a4d82b 100644
--- a/src/main/clojure/graphbrain/hg/sql.clj
+++ b/src/main/clojure/graphbrain/hg/sql.clj
@@ -182,7 +182,8 @@
         (let [result (inc-degree! conn (ed/edge->str vert))]
           (if (zero? (first result))
             (add-str! conn (ed/edge->str vert) 1 timestamp))))
-      (add-str! conn (ed/edge->str edge) 0 timestamp)
+      ;; the edge may already be a vertex of other edges
+      (add-str! conn (ed/edge->str edge) (degree conn edge) timestamp)
       (write-edge-permutations! conn edge)))
   edge)
 
@@ -211,7 +212,11 @@
         (doseq [vert edge]
           (dec-degree! conn (ed/edge->str vert)))
         (remove-edge-permutations! conn edge)
-        (remove-str! conn (ed/edge->str edge))))))
+        (let [deg (degree conn edge)]
+          (if (> deg 0)
+            ;; still a vertex of other edges
+            (add-str! conn (ed/edge->str edge) deg -1)
+            (remove-str! conn (ed/edge->str edge))))))))
 
 (defn remove!
   "Removes one or multiple edges from the hypergraph.
-- 
2.43.0


From fa129c515310275a5da518701b6cfe5ef348bbd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:56 +0000
Subject: [PATCH 48/73] fix: - and . were read as numbers, and large and small
 numbers as symbols (Clojure)

---
 src/main/clojure/graphbrain/hg/edge.clj | 17 +++--------------
 1 file changed, 3 insertions(+), 14 deletions(-)

diff --git a/src/main/clojure/graphbrain/hg/edge.clj b/src/main/clojure/graphbrain/hg/edge.clj
index dadba6a..280bc7f 100644
--- a/src/main/clojure/graphbrain/hg/edge.clj
+++ b/src/main/clojure/graphbrain/hg/edge.clj
@@ -44,20 +44,9 @@
 (defn- token-type
   "Determine the type of a string token: string, integer or double."
   [token]
-  (loop [s token
-         pos 0
-         point false]
-    (if (empty? s)
-      (if point :double :integer)
-      (let [c (first s)]
-        (cond (= c \-) (if (> pos 0)
-                         :string
-                         (recur (rest s) (inc pos) point))
-              (= c \.) (if point
-                         :string
-                         (recur (rest s) (inc pos) true))
-              (or (< (int c) (int \0)) (> (int c) (int \9))) :string
-              :default (recur (rest s) (inc pos) point))))))
+  (cond (re-matches #"-?[0-9]+" token) :integer
+        (re-matches #"-?([0-9]+\.[0-9]*|\.[0-9]+)(E-?[0-9]+)?" token) :double
+        :else :string))
 
 (defn- parsed-token
   "Transform a string token into a value of the correct type."
-- 
2.43.0


From 4fa10d22ac7a0075ee69b92d7b765c9898fc595c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:56 +0000
Subject: [PATCH 49/73] fix: integers that do not fit in 32 bits could not be
 read (Clojure)

---
 src/main/clojure/graphbrain/hg/edge.clj | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/clojure/graphbrain/hg/edge.clj b/src/main/clojure/graphbrain/hg/edge.clj
index 280bc7f..f2e9772 100644
--- a/src/main/clojure/graphbrain/hg/edge.clj
+++ b/src/main/clojure/graphbrain/hg/edge.clj
@@ -55,7 +55,7 @@
     (str->edge token)
     (case (token-type token)
       :string token
-      :integer (Integer. token)
+      :integer (Long. token)
       :double (Double. token))))
 
 (defn split-edge-str
-- 
2.43.0


From f1754e572283ee1c598a854d3ffbd520240a133d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:28 +0000
Subject: [PATCH 50/73] fix: edges with symbols that have parentheses could not
 be read (Clojure)

---
 src/main/clojure/graphbrain/hg/edge.clj | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/main/clojure/graphbrain/hg/edge.clj b/src/main/clojure/graphbrain/hg/edge.clj
index f2e9772..90e03ab 100644
--- a/src/main/clojure/graphbrain/hg/edge.clj
+++ b/src/main/clojure/graphbrain/hg/edge.clj
@@ -22,22 +22,14 @@
   (:require [graphbrain.hg.symbol :as sym]))
 
 (defn- open-pars
-  "Number of consecutive open parenthesis at the beginning of the string."
+  "Number of open parenthesis in the string."
   [str]
-  (loop [s str
-         n 0]
-    (if (not= \( (first s))
-      n
-      (recur (rest s) (inc n)))))
+  (count (filter #(= \( %) str)))
 
 (defn- close-pars
-  "Number of consecutive close parenthesis at the end of the string."
+  "Number of close parenthesis in the string."
   [str]
-  (loop [s str
-         n 0]
-    (if (not= \) (last s))
-      n
-      (recur (drop-last s) (inc n)))))
+  (count (filter #(= \) %) str)))
 
 (declare str->edge)
 
-- 
2.43.0


From d1ae6237f0730a06e9fb1ce43ce0abe0f3f13b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:11 +0000
Subject: [PATCH 51/73] fix: remove-by-pattern! removed the edge at the start
 of an edge (Clojure)

---
 src/main/clojure/graphbrain/hg/ops.clj | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/clojure/graphbrain/hg/ops.clj b/src/main/clojure/graphbrain/hg/ops.clj
index 0aa6696..c9a879d 100644
--- a/src/main/clojure/graphbrain/hg/ops.clj
+++ b/src/main/clojure/graphbrain/hg/ops.clj
@@ -75,7 +75,8 @@
   "Removes from the hypergraph all edges that match the pattern."
   [hg pattern]
   (doseq [edge (pattern->edges hg pattern)]
-    (remove! hg edge)))
+    ;; as a collection, because the first element of the edge may be an edge
+    (remove! hg [edge])))
 
 ;; TODO: this can be optimized
 (defn ego
-- 
2.43.0


From 204a15e82f5dbbc3bb850e73a3fe3a00ca7be9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:08 +0000
Subject: [PATCH 52/73] fix: removing a belief that starts with an edge removed
 that edge and not the belief (Clojure)

---
 src/main/clojure/graphbrain/hg/beliefs.clj | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/clojure/graphbrain/hg/beliefs.clj b/src/main/clojure/graphbrain/hg/beliefs.clj
index 6d8cfbc..63cd670 100644
--- a/src/main/clojure/graphbrain/hg/beliefs.clj
+++ b/src/main/clojure/graphbrain/hg/beliefs.clj
@@ -51,4 +51,4 @@
   [hg source edge]
   (ops/remove! hg [const/source edge source])
   (if (empty? (sources hg edge))
-    (ops/remove! hg edge)))
+    (ops/remove! hg [edge])))
-- 
2.43.0


From 17a10456c641077517d6475bf29b494f65003f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:12 +0000
Subject: [PATCH 53/73] fix: intersect took walks through edges apart into
 their elements (Clojure)

---
 src/main/clojure/graphbrain/hg/queries.clj | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/main/clojure/graphbrain/hg/queries.clj b/src/main/clojure/graphbrain/hg/queries.clj
index 6e0f462..05930e9 100644
--- a/src/main/clojure/graphbrain/hg/queries.clj
+++ b/src/main/clojure/graphbrain/hg/queries.clj
@@ -113,9 +113,8 @@
         walks (walks vemap seeds [(first seeds)] #{})
         wmap (walks->wmap walks)
         walks (filter #(valid-walk? wmap seeds %) walks)
-        interverts (into #{}
-                         (flatten
-                          (into [] walks)))
+        ;; vertices may be edges
+        interverts (into #{} (mapcat identity walks))
         edges (vals vemap)
         edges (mapcat identity (map :edges edges))
         edges (filter #(interedge % interverts) edges)]
-- 
2.43.0


From 7fe808fcfed06e2bc6de956b82d8b20dcd9126ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:12 +0000
Subject: [PATCH 54/73] fix: an arc from a node to itself was lost at its start
 (Clojure)

---
 src/main/clojure/graphbrain/graphs/graphtools.clj | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/main/clojure/graphbrain/graphs/graphtools.clj b/src/main/clojure/graphbrain/graphs/graphtools.clj
index 74dfb5c..d0b4ae5 100644
--- a/src/main/clojure/graphbrain/graphs/graphtools.clj
+++ b/src/main/clojure/graphbrain/graphs/graphtools.clj
@@ -45,10 +45,11 @@
   (let [orig (first pair)
         targ (second pair)
         orig-node (graph orig)
-        targ-node (graph targ)
         orig-out (node-out-arcs orig-node)
-        targ-in (node-in-arcs targ-node)
         g (assoc graph orig (assoc orig-node :out (add-to-arc-map orig-out targ)))
+        ;; after the change of orig, because they may be the same node
+        targ-node (g targ)
+        targ-in (node-in-arcs targ-node)
         g (assoc g targ (assoc targ-node :in (add-to-arc-map targ-in orig)))]
     g))
 
-- 
2.43.0


From 489007fba94a1207621a1bd6721482fb6eb8b551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:55 +0000
Subject: [PATCH 55/73] fix: the page of a vertex with an edge of two elements
 raised an exception (Clojure)

---
 src/main/clojure/graphbrain/web/snodes.clj | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/clojure/graphbrain/web/snodes.clj b/src/main/clojure/graphbrain/web/snodes.clj
index d565220..37bfa27 100644
--- a/src/main/clojure/graphbrain/web/snodes.clj
+++ b/src/main/clojure/graphbrain/web/snodes.clj
@@ -32,7 +32,8 @@
 
 (defn- edge->visual
   [edge root-id]
-  (let [c (count edge)]
+  ;; an edge with one participant only has no other to show
+  (if (> (count edge) 2)
     {:edge-type (first edge)
      :id1 (nth edge 1)
      :id2 (nth edge 2)
-- 
2.43.0


From 4684b157c3696a71fe3c0f108a49513ce12ed7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:55 +0000
Subject: [PATCH 56/73] fix: the page of a vertex failed if a relation is an
 edge (Clojure)

---
 src/main/clojure/graphbrain/web/snodes.clj | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/clojure/graphbrain/web/snodes.clj b/src/main/clojure/graphbrain/web/snodes.clj
index 37bfa27..344df9a 100644
--- a/src/main/clojure/graphbrain/web/snodes.clj
+++ b/src/main/clojure/graphbrain/web/snodes.clj
@@ -26,7 +26,7 @@
 
 (defn- snode-id
   [rel-pos]
-  (str (-> (first rel-pos)
+  (str (-> (ed/edge->str (first rel-pos))
            (clojure.string/replace #"\W" "_"))
        "_" (second rel-pos)))
 
-- 
2.43.0


From fb967f5629354c93699b75974f9458cd3841cbb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:55 +0000
Subject: [PATCH 57/73] fix: edges were missing from pages when the ids of
 their frames were the same (Clojure)

---
 src/main/clojure/graphbrain/web/snodes.clj | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/clojure/graphbrain/web/snodes.clj b/src/main/clojure/graphbrain/web/snodes.clj
index 344df9a..7b600c5 100644
--- a/src/main/clojure/graphbrain/web/snodes.clj
+++ b/src/main/clojure/graphbrain/web/snodes.clj
@@ -107,7 +107,8 @@
       snode-map
       (let [en (first enm)
             rp (first en)
-            snid (snode-id rp)]
+            ;; different relations may have the same id
+            snid (str (snode-id rp) "_" count)]
         (recur (rest enm) (inc count)
                (assoc snode-map
                  snid
-- 
2.43.0


From 9e3ac8912dabbba1f1d6097b742999616f7374c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:55 +0000
Subject: [PATCH 58/73] fix: the intersect page always failed (Clojure)

---
 .../clojure/graphbrain/web/handlers/intersect.clj | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/src/main/clojure/graphbrain/web/handlers/intersect.clj b/src/main/clojure/graphbrain/web/handlers/intersect.clj
index 6714f52..e42fd36 100644
--- a/src/main/clojure/graphbrain/web/handlers/intersect.clj
+++ b/src/main/clojure/graphbrain/web/handlers/intersect.clj
@@ -33,26 +33,19 @@
 (defn- inters-data
   [hg ids]
   (let [edges (q/intersect hg ids)
-        verts (into #{}
-               (flatten
-                (map rest edges)))
-        verts (map #(vv/sym->visual hg %) verts)
+        verts (into #{} (mapcat rest edges))
+        verts (map vv/sym->visual verts)
         links (mapcat identity
                       (map edge->links edges))]
     {:vertices verts
      :links links
      :seeds ids}))
 
-(defn- data->str
-  [data]
-  (clojure.string/replace (pr-str data)
-                          "'" ""))
-
 (defn- js
   [hg ids]
   (str "var ptype='intersect';"
-       "var data='" (enc/encode
-                     (inters-data hg ids))
+       "var data='" (enc/encode (pr-str
+                                 (inters-data hg ids)))
        "';"))
 
 (defn handle
-- 
2.43.0


From ee107d0aaca45af70ee160f217c7a84f18b11887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:55 +0000
Subject: [PATCH 59/73] fix: quotes, \ and < in the data of pages broke their
 scripts (Clojure)

---
 src/main/clojure/graphbrain/web/encoder.clj | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/main/clojure/graphbrain/web/encoder.clj b/src/main/clojure/graphbrain/web/encoder.clj
index 62005a0..30e0500 100644
--- a/src/main/clojure/graphbrain/web/encoder.clj
+++ b/src/main/clojure/graphbrain/web/encoder.clj
@@ -21,7 +21,10 @@
 (ns graphbrain.web.encoder)
 
 (defn encode
+  "Encodes a string, to be inside of a string literal in a script."
   [str]
-  (clojure.string/replace
-   (clojure.string/replace str "#" "##")
-   "'" "#1"))
+  (-> str
+      (clojure.string/replace "#" "##")
+      (clojure.string/replace "'" "#1")
+      (clojure.string/replace "\\" "\\\\")
+      (clojure.string/replace "<" "\\x3c")))
-- 
2.43.0


From 624a7a3a7740d6a2c6f804e695807ae9d5f36e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:55 +0000
Subject: [PATCH 60/73] fix: symbols and edges were put in pages as HTML
 (Clojure)

---
 src/main/clojure/graphbrain/web/handlers/raw.clj   | 5 +++--
 src/main/clojure/graphbrain/web/views/nodepage.clj | 6 +++---
 src/main/clojure/graphbrain/web/views/page.clj     | 2 +-
 3 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/main/clojure/graphbrain/web/handlers/raw.clj b/src/main/clojure/graphbrain/web/handlers/raw.clj
index 8fcc4cd..f538abd 100644
--- a/src/main/clojure/graphbrain/web/handlers/raw.clj
+++ b/src/main/clojure/graphbrain/web/handlers/raw.clj
@@ -20,6 +20,7 @@
 
 (ns graphbrain.web.handlers.raw
   (:use [clojure.string :only [join]]
+        [hiccup.core :only [h]]
         (graphbrain.web.views page raw))
   (:require [graphbrain.hg.ops :as ops]
             [graphbrain.hg.edge :as ed]
@@ -31,9 +32,9 @@
 
 (defn- raw-html
   [request hg vertex-id]
-  (str "<h2>Vertex: " vertex-id "</h2><br/><br/>"
+  (str "<h2>Vertex: " (h vertex-id) "</h2><br/><br/>"
        (let [edges (ops/star hg vertex-id)]
-         (join (map #(str (ed/edge->str %) "<br />") edges)))))
+         (join (map #(str (h (ed/edge->str %)) "<br />") edges)))))
 
 (defn handle
   [request hg]
diff --git a/src/main/clojure/graphbrain/web/views/nodepage.clj b/src/main/clojure/graphbrain/web/views/nodepage.clj
index 4cc8b05..ec8c3bd 100644
--- a/src/main/clojure/graphbrain/web/views/nodepage.clj
+++ b/src/main/clojure/graphbrain/web/views/nodepage.clj
@@ -25,7 +25,7 @@
 (defn- subid->link
   [id]
   [:a {:href (str "/x/" id)}
-   id])
+   (h id)])
 
 (defn view
   [title desc]
@@ -33,10 +33,10 @@
    [:div {:id "nodepage"}
     [:div {:id "nodepage-title"}
      [:div {:class "np-title"}
-      title]
+      (h title)]
      [:div {:class "np-desc"}
       (if (string? desc)
-        desc
+        (h desc)
         (interpose ", "
                    (map subid->link desc)))]]
     [:div {:id "frames"}]]))
diff --git a/src/main/clojure/graphbrain/web/views/page.clj b/src/main/clojure/graphbrain/web/views/page.clj
index c89e72b..0c41c62 100644
--- a/src/main/clojure/graphbrain/web/views/page.clj
+++ b/src/main/clojure/graphbrain/web/views/page.clj
@@ -44,7 +44,7 @@
           [:meta {:viewport "width=device-width, initial-scale=1.0"}]
           [:meta {:description ""}]
           [:meta {:author ""}]
-          [:title (str title " - Graphbrain")]
+          [:title (h (str title " - Graphbrain"))]
           (css+js dev)]
          [:body
           (body-fun)
-- 
2.43.0


From 08581d05f208dde24b6c369c28c2c2fbe77f6674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:30 +0000
Subject: [PATCH 61/73] fix: Eco rules that make edges with a fixed relation
 failed (Clojure)

---
 src/main/clojure/graphbrain/eco/ecofuns.clj | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/clojure/graphbrain/eco/ecofuns.clj b/src/main/clojure/graphbrain/eco/ecofuns.clj
index f3c54ff..1bf2c4d 100644
--- a/src/main/clojure/graphbrain/eco/ecofuns.clj
+++ b/src/main/clojure/graphbrain/eco/ecofuns.clj
@@ -147,7 +147,8 @@
 
 (defn edge
   [& parts]
-  (let [lparts (map #(if (and (coll? %) (not (map? %))) % [%]) parts)]
+  (let [parts (map #(if (string? %) (id->vertex %) %) parts)
+        lparts (map #(if (and (coll? %) (not (map? %))) % [%]) parts)]
     (map #(hash-map :vertex %) (apply combs/cartesian-product lparts))))
 
 (defn edges
-- 
2.43.0


From 74d9976a08b9a5f7210adc6a1b9aabba76c35a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:30 +0000
Subject: [PATCH 62/73] fix: the chat rule with a colon always failed (Clojure)

---
 src/main/clojure/graphbrain/eco/parsers/chat.clj | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/clojure/graphbrain/eco/parsers/chat.clj b/src/main/clojure/graphbrain/eco/parsers/chat.clj
index 7059829..4a9ad6b 100644
--- a/src/main/clojure/graphbrain/eco/parsers/chat.clj
+++ b/src/main/clojure/graphbrain/eco/parsers/chat.clj
@@ -41,9 +41,9 @@
           y ???
           collon ":"
           z ???]
-         (let [r (str (words->id v)
+         (let [r (str (words->id v :word)
                       "_"
-                      (words->id y)
+                      (words->id y :word)
                       "/eco")
                owner (! x)
                class (! y)
-- 
2.43.0


From 7e8f9f69f0a6de7e3ce823aae0bd6018f2ac1c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:30 +0000
Subject: [PATCH 63/73] fix: the chat rules of "with a" and of a verb with
 "and" made edges that are not vertices (Clojure)

---
 src/main/clojure/graphbrain/eco/parsers/chat.clj | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/main/clojure/graphbrain/eco/parsers/chat.clj b/src/main/clojure/graphbrain/eco/parsers/chat.clj
index 4a9ad6b..f5613cf 100644
--- a/src/main/clojure/graphbrain/eco/parsers/chat.clj
+++ b/src/main/clojure/graphbrain/eco/parsers/chat.clj
@@ -69,7 +69,7 @@
          (let [x (! a)
                y (! b)
                z (! (concat b verb c))
-               k ["has/eco" y x]]
+               k (edge "has/eco" y x)]
            (edge "list/eco" k z)))
 
 (pattern :normal chat
@@ -97,8 +97,8 @@
 (pattern :normal chat
          "something verb something and something"
          [a ?, verb verb, b ?, xand5 "and", c ?]
-         (let [x (concat a verb b)
-               y (concat a verb c)]
+         (let [x (! (concat a verb b))
+               y (! (concat a verb c))]
            (edge "list/eco" x y)))
 
 (pattern :normal chat
-- 
2.43.0


From dcd5b66a001c116c0aab0cb1c03a5911e6416504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:13 +0000
Subject: [PATCH 64/73] fix: the header rule of a verb with "and" made edges
 that are not vertices (Clojure)

---
 src/main/clojure/graphbrain/eco/parsers/header.clj | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/clojure/graphbrain/eco/parsers/header.clj b/src/main/clojure/graphbrain/eco/parsers/header.clj
index b5f3a29..db9f47e 100644
--- a/src/main/clojure/graphbrain/eco/parsers/header.clj
+++ b/src/main/clojure/graphbrain/eco/parsers/header.clj
@@ -34,8 +34,8 @@
 (pattern :normal header
          "something verb something and something"
          [a ?, verb verb, b ?, xand5 "and", c ?]
-         (let [x (concat a verb b)
-               y (concat a verb c)]
+         (let [x (! (concat a verb b))
+               y (! (concat a verb c))]
            (edge (id->vertex "list/eco") x y)))
 
 (pattern :normal header
-- 
2.43.0


From e7bf168563e5523d278e791ab3dc9e05ccd7801f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:24 +0000
Subject: [PATCH 65/73] fix: headers without a definition were stored as edges
 without elements (Clojure)

---
 src/main/clojure/graphbrain/kr/wikipedia.clj | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/main/clojure/graphbrain/kr/wikipedia.clj b/src/main/clojure/graphbrain/kr/wikipedia.clj
index fd9f662..1a2f39b 100644
--- a/src/main/clojure/graphbrain/kr/wikipedia.clj
+++ b/src/main/clojure/graphbrain/kr/wikipedia.clj
@@ -210,7 +210,10 @@
                         parts (participants definition)
                         parts (filter #(not (nil? %)) parts)
                         facts* (map #(vector "related/2" symbol %) parts)
-                        facts* (conj facts* ["definition/1" symbol definition])]
+                        ;; headers that are links or not parsed have none
+                        facts* (if definition
+                                 (conj facts* ["definition/1" symbol definition])
+                                 facts*)]
                     (recur (rest headers*)
                            (into [] (clojure.set/union facts facts*))))))]
     #_(println facts)
-- 
2.43.0


From f7b914fb00b25976289ab495508853a8f147a5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:13 +0000
Subject: [PATCH 66/73] fix: links inside of a page were stored as edges
 without an element (Clojure)

---
 src/main/clojure/graphbrain/kr/wikipedia.clj | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/clojure/graphbrain/kr/wikipedia.clj b/src/main/clojure/graphbrain/kr/wikipedia.clj
index 1a2f39b..6832b62 100644
--- a/src/main/clojure/graphbrain/kr/wikipedia.clj
+++ b/src/main/clojure/graphbrain/kr/wikipedia.clj
@@ -161,7 +161,8 @@
 
 (defn revision->beliefs
   [title rev key]
-  (filter #(% 2)
+  ;; links inside of a page have no target
+  (filter peek
           (map
            #(apply vector
                    (flatten
-- 
2.43.0


From 00f419fa4eb41b86b00b2bcae604fd97f65b11bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:45 +0000
Subject: [PATCH 67/73] fix: the WordNet import wrote facts of the previous
 one, and an empty edge if no facts remained (Clojure)

---
 src/main/clojure/graphbrain/kr/wordnet.clj | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/main/clojure/graphbrain/kr/wordnet.clj b/src/main/clojure/graphbrain/kr/wordnet.clj
index 1984f3d..2cdcdc1 100644
--- a/src/main/clojure/graphbrain/kr/wordnet.clj
+++ b/src/main/clojure/graphbrain/kr/wordnet.clj
@@ -161,6 +161,10 @@
 (defn import!
   [hg]
   (let [dictionary (Dictionary/getDefaultResourceInstance)]
+    ;; what an import that failed may have left is not of this one
+    (reset! facts '())
     (process! hg dictionary)
     ;; add remaining facts
-    (beliefs/add! hg const/wordnet @facts)))
+    (if (not (empty? @facts))
+      (beliefs/add! hg const/wordnet @facts))
+    (reset! facts '())))
-- 
2.43.0


From 957ff5bb2a829bf7ecbe3c8160ebde0ab80750b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:25 +0000
Subject: [PATCH 68/73] fix: the words of sentences were put in the eco page as
 HTML (Clojure)

---
 src/main/clojure/graphbrain/web/views/eco.clj | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/main/clojure/graphbrain/web/views/eco.clj b/src/main/clojure/graphbrain/web/views/eco.clj
index 666736f..a05856f 100644
--- a/src/main/clojure/graphbrain/web/views/eco.clj
+++ b/src/main/clojure/graphbrain/web/views/eco.clj
@@ -27,11 +27,11 @@
   [words]
   (interpose " "
              (map #(vector :span {:class "eco-word"}
-                           (:word %)
+                           (h (:word %))
                            "/"
-                           [:span {:class "eco-pos"} (:pos %)]
+                           [:span {:class "eco-pos"} (h (:pos %))]
                            "/"
-                           [:span {:class "eco-lemma"} (:lemma %)]) words)))
+                           [:span {:class "eco-lemma"} (h (:lemma %))]) words)))
 
 (defn trace
   [rs]
@@ -40,11 +40,11 @@
                 " "
                 [:span {:class "eco-rule"} (:desc (:rule %))]
                 " "
-                [:span {:class "eco-vertex"} (ed/edge->str (:vert %))]
+                [:span {:class "eco-vertex"} (h (ed/edge->str (:vert %)))]
                 [:div {:class "eco-trace-box"}
                  (let [v (:vertex %)]
                    (if (coll? v)
-                     (trace v) (ed/edge->str v)))])
+                     (trace v) (h (ed/edge->str v))))])
        (sort-by #(if (:weight %)
                    (:weight %) 0) > rs)))
 
@@ -53,8 +53,8 @@
   (html
    [:div {:id "eco-results"}
     [:div {:class "eco-section"} (sentence (:words report))]
-    [:div {:class "eco-section"} (:res report)]
-    [:div {:class "eco-section"} (:edge report)]
+    [:div {:class "eco-section"} (h (:res report))]
+    [:div {:class "eco-section"} (h (:edge report))]
     [:div {:class "eco-section"} (trace (:vws report))]]))
 
 (defn page
-- 
2.43.0


From 9d1f6217e99975b189933fe36b64ab89c7d174fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:25 +0000
Subject: [PATCH 69/73] fix: facts of many edges were answered with the page
 that they came from (Clojure)

---
 src/main/clojure/graphbrain/web/handlers/input.clj | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/clojure/graphbrain/web/handlers/input.clj b/src/main/clojure/graphbrain/web/handlers/input.clj
index da76e2e..01a1ce2 100644
--- a/src/main/clojure/graphbrain/web/handlers/input.clj
+++ b/src/main/clojure/graphbrain/web/handlers/input.clj
@@ -32,7 +32,7 @@
   [root edge]
   (if (coll? edge)
     (if (= (first edge) "edges/1")
-      (goto-id root (first edge))
+      (goto-id root (second edge))
       (second edge))
     root))
 
-- 
2.43.0


From 1efe806abe00ee0f26889ea01357644544add5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:55 +0000
Subject: [PATCH 70/73] fix: words with the same pagerank as another one were
 lost (Clojure)

---
 src/main/clojure/graphbrain/graphs/pagerank.clj | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/main/clojure/graphbrain/graphs/pagerank.clj b/src/main/clojure/graphbrain/graphs/pagerank.clj
index 6f00772..42698a5 100644
--- a/src/main/clojure/graphbrain/graphs/pagerank.clj
+++ b/src/main/clojure/graphbrain/graphs/pagerank.clj
@@ -52,9 +52,14 @@
 
 (defn sorted-by-pr
   [graph]
-  (into
-   (sorted-map-by (fn [key1 key2]
-                    (compare (:pr (graph key2)) (:pr (graph key1))))) graph))
+  ;; nodes are told apart by their position, as many may have the same pagerank
+  (let [position (zipmap (map first (sort-by #(- (:pr (second %))) graph))
+                         (range))]
+    (into
+     (sorted-map-by (fn [key1 key2]
+                      (compare (position key1) (position key2)))) graph)))
+
+
 (defn- pr-node-error
   [node]
   (let [nodev (second node)]
-- 
2.43.0


From 15411e2cac7356ef67ead7009fdbb2231ea7cbce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:55 +0000
Subject: [PATCH 71/73] fix: the pagerank of an empty graph failed, and so did
 pages with few words (Clojure)

---
 src/main/clojure/graphbrain/graphs/pagerank.clj | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/clojure/graphbrain/graphs/pagerank.clj b/src/main/clojure/graphbrain/graphs/pagerank.clj
index 42698a5..d6834e7 100644
--- a/src/main/clojure/graphbrain/graphs/pagerank.clj
+++ b/src/main/clojure/graphbrain/graphs/pagerank.clj
@@ -67,7 +67,7 @@
 
 (defn- pr-error
   [graph]
-  (reduce max (map pr-node-error graph)))
+  (reduce max 0 (map pr-node-error graph)))
 
 (defn compute-pr
   [graph damp]
-- 
2.43.0


From 881cc6115261b2bc10aea195fa8945392a308133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:55 +0000
Subject: [PATCH 72/73] fix: topics of many words were never known ones, or
 were not symbols (Clojure)

---
 src/main/clojure/graphbrain/kr/pagereader.clj | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/clojure/graphbrain/kr/pagereader.clj b/src/main/clojure/graphbrain/kr/pagereader.clj
index 371d22c..948853e 100644
--- a/src/main/clojure/graphbrain/kr/pagereader.clj
+++ b/src/main/clojure/graphbrain/kr/pagereader.clj
@@ -55,7 +55,7 @@
                              text)
                             (rest comps))))]
         (assoc ng-ent-map ngram
-               (eg/guess hg ngram-str text)))))
+               (eg/guess hg (sym/str->symbol ngram-str) text)))))
 
 (defn ngrams-graph->entities
   [hg ngrams-graph text]
-- 
2.43.0


From 05addcb1484aadb1e50dfee48d85cbfeaf508ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:48 +0000
Subject: [PATCH 73/73] fix: pages with a link or a strong part that is empty
 could not be read (Clojure)

---
 src/main/clojure/graphbrain/kr/htmltools.clj | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/clojure/graphbrain/kr/htmltools.clj b/src/main/clojure/graphbrain/kr/htmltools.clj
index 1f60bbe..b78f674 100644
--- a/src/main/clojure/graphbrain/kr/htmltools.clj
+++ b/src/main/clojure/graphbrain/kr/htmltools.clj
@@ -29,8 +29,8 @@
 (defn- deep-text
   "Extract the text from a html node"
   [node]
-  (let [cn  (. node childNode 0)]
-    (. cn text)))
+  ;; of all that is in it, which may be nothing
+  (. node text))
 
 (defn- non-white-count
   "Count number of non-whitespace characters in a string"
-- 
2.43.0

