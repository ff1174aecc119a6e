From 47372d82032a9174ca47c51d76a1629c8eae1a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:08 +0000
Subject: [PATCH 01/10] fix: pair transverse shear stiffnesses with the right
 planes

composites stores Laminate.E as [[G44, G45], [G45, G55]] with 44 = yz and
55 = xz.  The three K0s methods applied E[0, 0] (yz) to the xz shear
strain and E[1, 1] (xz) to the yz one, so any plate with unequal
transverse shear moduli was stiffened along the wrong axes.
---
 meshless/espim/plate2d_add_k0s_cell_based.py              | 4 ++--
 meshless/espim/plate2d_add_k0s_cell_based_no_smoothing.py | 4 ++--
 meshless/espim/plate2d_add_k0s_edge_based.py              | 8 ++++----
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/meshless/espim/plate2d_add_k0s_cell_based.py b/meshless/espim/plate2d_add_k0s_cell_based.py
index a325762..ac3cef4 100644
--- a/meshless/espim/plate2d_add_k0s_cell_based.py
+++ b/meshless/espim/plate2d_add_k0s_cell_based.py
@@ -73,9 +73,9 @@ def add_k0s(k0, mesh, prop_from_node, alpha, maxl_from_area, silent=True):
             k23 = tria.prop.scf_k23
             E = tria.prop.E
             h = tria.prop.h
-        E44 = k23 * E[0, 0]
+        E44 = k13 * E[1, 1]
         E45 = 0 # min(k13, k23) * E[0, 1]
-        E55 = k13 * E[1, 1]
+        E55 = k23 * E[0, 0]
 
         if maxl_from_area:
             maxl = Ac**0.5
diff --git a/meshless/espim/plate2d_add_k0s_cell_based_no_smoothing.py b/meshless/espim/plate2d_add_k0s_cell_based_no_smoothing.py
index 8b13e2e..0b18347 100644
--- a/meshless/espim/plate2d_add_k0s_cell_based_no_smoothing.py
+++ b/meshless/espim/plate2d_add_k0s_cell_based_no_smoothing.py
@@ -41,9 +41,9 @@ def add_k0s(k0, mesh, prop_from_node, alpha, maxl_from_area, silent=True):
             E = tria.prop.E
             h = tria.prop.h
 
-        E44 = k23 * E[0, 0]
+        E44 = k13 * E[1, 1]
         E45 = 0 # min(k13, k23) * E[0, 1]
-        E55 = k13 * E[1, 1]
+        E55 = k23 * E[0, 0]
 
         if maxl_from_area:
             maxl = Ac**0.5
diff --git a/meshless/espim/plate2d_add_k0s_edge_based.py b/meshless/espim/plate2d_add_k0s_edge_based.py
index 778daa8..54a1f3e 100644
--- a/meshless/espim/plate2d_add_k0s_edge_based.py
+++ b/meshless/espim/plate2d_add_k0s_edge_based.py
@@ -42,9 +42,9 @@ def boundary_edge(k0, edge, n1, n2, prop_from_node, alpha, maxl_from_area):
         E = tria1.prop.E
         h = tria1.prop.h
 
-    E44 = k23 * E[0, 0]
+    E44 = k13 * E[1, 1]
     E45 = 0 # min(k13, k23) * E[0, 1]
-    E55 = k13 * E[1, 1]
+    E55 = k23 * E[0, 0]
 
     if maxl_from_area:
         maxl = Ac**0.5
@@ -193,9 +193,9 @@ def interior_edge(k0, edge, n1, n2, prop_from_node, alpha, maxl_from_area):
         E = (Ac1*prop1.E + Ac2*prop2.E)/Ac
         h = (Ac1*prop1.h + Ac2*prop2.h)/Ac
 
-    E44 = k13 * E[0, 0]
+    E44 = k13 * E[1, 1]
     E45 = min(k13, k23) * E[0, 1]
-    E55 = k23 * E[1, 1]
+    E55 = k23 * E[0, 0]
 
     if maxl_from_area:
         maxl = Ac**0.5
-- 
2.43.0


From c7aacdd241814bc3fcf5576d9b30fad1c57e4676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:15 +0000
Subject: [PATCH 02/10] fix: pow2mul keeps the value of any expression

Powers were found with a regular expression that ignored parentheses,
function calls, names that end alike, nested powers and exponents that are
not integers: sin(x)**2 became sin((x)*(x)), (a + b**2)**3 and pow(x, n)
raised ValueError, a**2.5 became (a*a).5.
---
 meshless/dev/sympytools.py | 95 +++++++++++++++++++++++++++++---------
 1 file changed, 73 insertions(+), 22 deletions(-)

diff --git a/meshless/dev/sympytools.py b/meshless/dev/sympytools.py
index a94f224..cd30eb1 100644
--- a/meshless/dev/sympytools.py
+++ b/meshless/dev/sympytools.py
@@ -21,32 +21,83 @@ def pow2mul(instr):
         The output string
 
     """
-    old_new = []
-    outstr = instr
-    search = r'\w+\*\*\s*\d+|\([^\(\)]+\)\*\*\d+'
-    for p in re.findall(search, instr):
-        var, exp = p.replace(' ', '').split('**')
-        new = '(' + '*'.join([var]*int(exp)) + ')'
-        old_new.append([p, new])
-    # putting longer patterns first to avoid wrong
-    # substitutions
-    old_new = sorted(old_new, key=lambda x: len(x[0]))[::-1]
-    for old, new in old_new:
-        outstr = outstr.replace(old, new)
-
-    old_new = []
-    for p in re.findall(r'pow\(\s*[^,]+\s*,\s*[^,\)]+\s*\)', instr):
-        var, exp = p.split('pow')[1].split(',')
-        var = var.strip()[1:] # removing left parentheses
-        exp = exp.strip()[:-1] # removing right parentheses
-        new = '(' + '*'.join(['(' + var.replace(' ', '') + ')']*int(exp)) + ')'
-        old_new.append([p, new])
-    for old, new in old_new:
-        outstr = outstr.replace(old, new)
+    # pow(base, n)
+    outstr = ''
+    pos = 0
+    for p in re.finditer(r'(?<![\w.])pow\s*\(', instr):
+        if p.start() < pos: # already expanded, inside another pow()
+            continue
+        args, end = _split_args(instr, p.end() - 1)
+        if len(args) == 2 and re.match(r'\s*0*[1-9]\d*\s*$', args[1]):
+            var = '(' + pow2mul(args[0]).replace(' ', '') + ')'
+            new = '(' + '*'.join([var]*int(args[1])) + ')'
+            outstr += instr[pos:p.start()] + new
+            pos = end
+    outstr += instr[pos:]
+
+    # base**n, from left to right such that a base is already expanded
+    pos = outstr.find('**')
+    while pos >= 0:
+        exp = re.match(r'\*\*\s*(0*[1-9]\d*)(?![\w.]|\s*\*\*)', outstr[pos:])
+        start = _base_start(outstr, pos)
+        if exp is not None and start is not None:
+            var = outstr[start:pos].replace(' ', '')
+            new = '(' + '*'.join([var]*int(exp.group(1))) + ')'
+            outstr = outstr[:start] + new + outstr[pos+exp.end():]
+            pos = start + len(new)
+        else:
+            pos += 2
+        pos = outstr.find('**', pos)
 
     return outstr
 
 
+def _split_args(s, start):
+    """Split the arguments of the call with a left parenthesis at ``s[start]``
+
+    Returns a list with the arguments and the position right after the call
+
+    """
+    args = ['']
+    level = 0
+    for i in range(start, len(s)):
+        if s[i] in ')]':
+            level -= 1
+            if level == 0:
+                return args, i + 1
+        if level == 1 and s[i] == ',':
+            args.append('')
+        elif level > 0:
+            args[-1] += s[i]
+        if s[i] in '([':
+            level += 1
+    return [], start
+
+
+def _base_start(s, end):
+    """Position where the base of a power ending at ``s[end]`` starts
+
+    The base can be a name, a number, an indexed name, a function call or an
+    expression within parentheses.
+
+    """
+    end = len(s[:end].rstrip())
+    level = 0
+    while end > 0 and s[end-1] in ')]':
+        for i in range(end-1, -1, -1):
+            level += (s[i] in ')]') - (s[i] in '([')
+            if level == 0:
+                break
+        if level != 0:
+            return None
+        end = i
+        if end == 0 or not (s[end-1].isalnum() or s[end-1] in '_.)]'):
+            return end
+    name = re.search(r'(?<![\w.])([^\W\d][\w.]*|(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?)$',
+                     s[:end])
+    return None if name is None else name.start()
+
+
 def mprint_as_sparse(m, mname, sufix=None, subs=None, header=None,
         print_file=True, collect_for=None, pow_by_mul=True,
         is_symmetric=False, dofpernode=None):
-- 
2.43.0


From d501f3738a02d1c2f0a6cd3062fd7ef5e2c4b04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:15 +0000
Subject: [PATCH 03/10] fix: mprint_as_sparse selects the upper triangle by the
 matrix indices

With dofpernode the indices were compared after being reduced to the
position within the node, so terms below the diagonal were printed and
terms above it dropped.
---
 meshless/dev/sympytools.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/meshless/dev/sympytools.py b/meshless/dev/sympytools.py
index cd30eb1..f17de1e 100644
--- a/meshless/dev/sympytools.py
+++ b/meshless/dev/sympytools.py
@@ -142,15 +142,14 @@ def mprint_as_sparse(m, mname, sufix=None, subs=None, header=None,
 
     num = 0
     for (i, j), v in np.ndenumerate(m):
+        if is_symmetric and i > j:
+            continue
         if dofpernode:
             nindi = (i // dofpernode) + 1
             nindj = (j // dofpernode) + 1
             i = i % dofpernode
             j = j % dofpernode
         if v:
-            if is_symmetric and i > j:
-                continue
-
             if subs:
                 v = v.subs(subs)
             num += 1
-- 
2.43.0


From b92f96d720cccfccf5f474d1b64ef10980b4f3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:15 +0000
Subject: [PATCH 04/10] fix: mprint_as_array expands powers without touching
 other names

The plain text replacement of a**2 also hit the end of ba**2, and powers of
functions or parentheses were mangled; pow2mul does it properly.
---
 meshless/dev/sympytools.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/meshless/dev/sympytools.py b/meshless/dev/sympytools.py
index f17de1e..79dbdfa 100644
--- a/meshless/dev/sympytools.py
+++ b/meshless/dev/sympytools.py
@@ -350,10 +350,7 @@ def mprint_as_array(m, mname, sufix=None, use_cse=False, header=None,
                     ls.append('    {expr}'.format(expr=k*expr))
             else:
                 if pow_by_mul:
-                    v = str(v)
-                    for p in re.findall(r'\w+\*\*\d+', v):
-                        var, exp = p.split('**')
-                        v = v.replace(p, '(' + '*'.join([var]*int(exp)) + ')')
+                    v = pow2mul(str(v))
                 ls.append('{0}[pos+{1}] {2} {3}'.format(mname, i, op, v))
     string = '\n'.join(ls)
     if print_file:
-- 
2.43.0


From 81215a6b20d45f52fbd304f171c223496048f020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:15 +0000
Subject: [PATCH 05/10] fix: mprint_as_array with use_cse keeps the input
 matrix

The reduced expressions were written into the caller's matrix.
---
 meshless/dev/sympytools.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/meshless/dev/sympytools.py b/meshless/dev/sympytools.py
index 79dbdfa..ea3e0ca 100644
--- a/meshless/dev/sympytools.py
+++ b/meshless/dev/sympytools.py
@@ -314,6 +314,7 @@ def mprint_as_array(m, mname, sufix=None, use_cse=False, header=None,
     ls = []
     if use_cse:
         subs, m_list = sympy.cse(m)
+        m = m.copy()
         for i, v in enumerate(m_list):
             m[i] = v
     if sufix is None:
-- 
2.43.0


From 06583c86a2619a350b5efd93a2f32b7d9736a2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:52 +0000
Subject: [PATCH 06/10] fix: read_mesh brings nodes of local coordinate systems
 to the global one

A GRID with a CP kept its local coordinates in node.xyz while the centroids
of the elements were computed in the global system, so the smoothing domains
mixed both.
---
 meshless/espim/read_mesh.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/meshless/espim/read_mesh.py b/meshless/espim/read_mesh.py
index 7a25e04..bc5ab29 100644
--- a/meshless/espim/read_mesh.py
+++ b/meshless/espim/read_mesh.py
@@ -24,6 +24,13 @@ def read_mesh(filepath, silent=True):
     """
     msg('Reading mesh...', silent=silent)
     mesh = read_bdf(filepath, debug=False)
+    # bringing the nodes given in local systems to the global system
+    positions = [node.get_position() for node in mesh.nodes.values()]
+    for node, xyz in zip(mesh.nodes.values(), positions):
+        if node.Cp() != 0:
+            node.xyz = xyz
+            node.cp = 0
+            node.cp_ref = mesh.coords[0]
     for node in mesh.nodes.values():
         node.trias = set()
         node.edges = set()
-- 
2.43.0


From a1363d9c30c46c4129745916313d90bb54dcbb87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:57 +0000
Subject: [PATCH 07/10] fix: expand powers of calls written with a space before
 the parenthesis

pow2mul turned 'f (x)**2' into 'f ((x)*(x))'.
---
 meshless/dev/sympytools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/meshless/dev/sympytools.py b/meshless/dev/sympytools.py
index ea3e0ca..d7b309c 100644
--- a/meshless/dev/sympytools.py
+++ b/meshless/dev/sympytools.py
@@ -90,9 +90,9 @@ def _base_start(s, end):
                 break
         if level != 0:
             return None
-        end = i
+        end = len(s[:i].rstrip())
         if end == 0 or not (s[end-1].isalnum() or s[end-1] in '_.)]'):
-            return end
+            return i
     name = re.search(r'(?<![\w.])([^\W\d][\w.]*|(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?)$',
                      s[:end])
     return None if name is None else name.start()
-- 
2.43.0


From 8562690a3969f85a2e9d31dd77c17953c1f9e383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:57 +0000
Subject: [PATCH 08/10] fix: use the requested operator also for collected
 terms

mprint_as_array printed '+=' for collected terms, whatever op was given.
---
 meshless/dev/sympytools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshless/dev/sympytools.py b/meshless/dev/sympytools.py
index d7b309c..5cf7cbc 100644
--- a/meshless/dev/sympytools.py
+++ b/meshless/dev/sympytools.py
@@ -345,7 +345,7 @@ def mprint_as_array(m, mname, sufix=None, use_cse=False, header=None,
         if v:
             if collect_for is not None:
                 v = collect(v, collect_for, evaluate=False)
-                ls.append('{0}[pos+{1}] +='.format(mname, i))
+                ls.append('{0}[pos+{1}] {2}'.format(mname, i, op))
                 for k, expr in v.items():
                     ls.append('#   collected for {k}'.format(k=k))
                     ls.append('    {expr}'.format(expr=k*expr))
-- 
2.43.0


From 8c9dccb0d5537007085bc84b660d7d036601b268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:52 +0000
Subject: [PATCH 09/10] fix: read_delaunay gives every mesh its own node
 coordinates

---
 meshless/espim/read_mesh.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/meshless/espim/read_mesh.py b/meshless/espim/read_mesh.py
index bc5ab29..efd0909 100644
--- a/meshless/espim/read_mesh.py
+++ b/meshless/espim/read_mesh.py
@@ -102,7 +102,8 @@ def read_delaunay(points, tri, silent=True):
         if len(pt) == 2:
             pt = np.array([pt[0], pt[1], 0.])
         nid += 1
-        node = GRID(nid, cp=0, cd=0, xyz=pt)
+        # own copy, moving the node must not change the given points
+        node = GRID(nid, cp=0, cd=0, xyz=np.array(pt, dtype=np.float64))
         node.trias = set()
         node.edges = set()
         node.index = set()
-- 
2.43.0


From 526311077a36f5de898599ed044ea3c43e7dc1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:52 +0000
Subject: [PATCH 10/10] fix: pow2mul keeps conditional and boolean expressions
 apart from calls

---
 meshless/dev/sympytools.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/meshless/dev/sympytools.py b/meshless/dev/sympytools.py
index 5cf7cbc..0e69852 100644
--- a/meshless/dev/sympytools.py
+++ b/meshless/dev/sympytools.py
@@ -1,4 +1,5 @@
 import re
+from keyword import iskeyword
 
 import numpy as np
 import sympy
@@ -29,7 +30,7 @@ def pow2mul(instr):
             continue
         args, end = _split_args(instr, p.end() - 1)
         if len(args) == 2 and re.match(r'\s*0*[1-9]\d*\s*$', args[1]):
-            var = '(' + pow2mul(args[0]).replace(' ', '') + ')'
+            var = '(' + _strip_spaces(pow2mul(args[0])) + ')'
             new = '(' + '*'.join([var]*int(args[1])) + ')'
             outstr += instr[pos:p.start()] + new
             pos = end
@@ -41,7 +42,7 @@ def pow2mul(instr):
         exp = re.match(r'\*\*\s*(0*[1-9]\d*)(?![\w.]|\s*\*\*)', outstr[pos:])
         start = _base_start(outstr, pos)
         if exp is not None and start is not None:
-            var = outstr[start:pos].replace(' ', '')
+            var = _strip_spaces(outstr[start:pos])
             new = '(' + '*'.join([var]*int(exp.group(1))) + ')'
             outstr = outstr[:start] + new + outstr[pos+exp.end():]
             pos = start + len(new)
@@ -52,6 +53,13 @@ def pow2mul(instr):
     return outstr
 
 
+def _strip_spaces(s):
+    """Remove all spaces, except between words, as in ``a if b else c``
+
+    """
+    return re.sub(r'(?<![\w.]) | (?![\w.])', '', re.sub(' +', ' ', s))
+
+
 def _split_args(s, start):
     """Split the arguments of the call with a left parenthesis at ``s[start]``
 
@@ -91,7 +99,9 @@ def _base_start(s, end):
         if level != 0:
             return None
         end = len(s[:i].rstrip())
-        if end == 0 or not (s[end-1].isalnum() or s[end-1] in '_.)]'):
+        if end == 0 or iskeyword(re.search(r'\w*$', s[:end]).group()):
+            return i
+        if not (s[end-1].isalnum() or s[end-1] in '_.)]'):
             return i
     name = re.search(r'(?<![\w.])([^\W\d][\w.]*|(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?)$',
                      s[:end])
-- 
2.43.0

