From 8a482ebbfb98f20a638237195ad72ad345e2c9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:26 +0000
Subject: [PATCH 01/11] fix: pair gxz with k13*Gxz and gyz with k23*Gyz in the
 transverse shear stiffness

---
 meshless/espim/plate2d_add_k0s_cell_based.py           |  5 +++--
 .../espim/plate2d_add_k0s_cell_based_no_smoothing.py   |  5 +++--
 meshless/espim/plate2d_add_k0s_edge_based.py           | 10 ++++++----
 3 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/meshless/espim/plate2d_add_k0s_cell_based.py b/meshless/espim/plate2d_add_k0s_cell_based.py
index a325762..b4eccbe 100644
--- a/meshless/espim/plate2d_add_k0s_cell_based.py
+++ b/meshless/espim/plate2d_add_k0s_cell_based.py
@@ -73,9 +73,10 @@ def add_k0s(k0, mesh, prop_from_node, alpha, maxl_from_area, silent=True):
             k23 = tria.prop.scf_k23
             E = tria.prop.E
             h = tria.prop.h
-        E44 = k23 * E[0, 0]
+        # the strains are ordered gxz, gyz; prop.E is ordered yz, xz
+        E44 = k13 * E[1, 1]
         E45 = 0 # min(k13, k23) * E[0, 1]
-        E55 = k13 * E[1, 1]
+        E55 = k23 * E[0, 0]
 
         if maxl_from_area:
             maxl = Ac**0.5
diff --git a/meshless/espim/plate2d_add_k0s_cell_based_no_smoothing.py b/meshless/espim/plate2d_add_k0s_cell_based_no_smoothing.py
index 8b13e2e..14c872b 100644
--- a/meshless/espim/plate2d_add_k0s_cell_based_no_smoothing.py
+++ b/meshless/espim/plate2d_add_k0s_cell_based_no_smoothing.py
@@ -41,9 +41,10 @@ def add_k0s(k0, mesh, prop_from_node, alpha, maxl_from_area, silent=True):
             E = tria.prop.E
             h = tria.prop.h
 
-        E44 = k23 * E[0, 0]
+        # the strains are ordered gxz, gyz; prop.E is ordered yz, xz
+        E44 = k13 * E[1, 1]
         E45 = 0 # min(k13, k23) * E[0, 1]
-        E55 = k13 * E[1, 1]
+        E55 = k23 * E[0, 0]
 
         if maxl_from_area:
             maxl = Ac**0.5
diff --git a/meshless/espim/plate2d_add_k0s_edge_based.py b/meshless/espim/plate2d_add_k0s_edge_based.py
index 778daa8..0fe938f 100644
--- a/meshless/espim/plate2d_add_k0s_edge_based.py
+++ b/meshless/espim/plate2d_add_k0s_edge_based.py
@@ -42,9 +42,10 @@ def boundary_edge(k0, edge, n1, n2, prop_from_node, alpha, maxl_from_area):
         E = tria1.prop.E
         h = tria1.prop.h
 
-    E44 = k23 * E[0, 0]
+    # the strains are ordered gxz, gyz; prop.E is ordered yz, xz
+    E44 = k13 * E[1, 1]
     E45 = 0 # min(k13, k23) * E[0, 1]
-    E55 = k13 * E[1, 1]
+    E55 = k23 * E[0, 0]
 
     if maxl_from_area:
         maxl = Ac**0.5
@@ -193,9 +194,10 @@ def interior_edge(k0, edge, n1, n2, prop_from_node, alpha, maxl_from_area):
         E = (Ac1*prop1.E + Ac2*prop2.E)/Ac
         h = (Ac1*prop1.h + Ac2*prop2.h)/Ac
 
-    E44 = k13 * E[0, 0]
+    # the strains are ordered gxz, gyz; prop.E is ordered yz, xz
+    E44 = k13 * E[1, 1]
     E45 = min(k13, k23) * E[0, 1]
-    E55 = k23 * E[1, 1]
+    E55 = k23 * E[0, 0]
 
     if maxl_from_area:
         maxl = Ac**0.5
-- 
2.43.0


From d5e5059ef218a6ea1e0d4add2900e1970953c3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:57 +0000
Subject: [PATCH 02/11] fix: pow2mul must not change the value of the
 expression

---
 meshless/dev/sympytools.py | 81 ++++++++++++++++++++++++++++----------
 1 file changed, 60 insertions(+), 21 deletions(-)

diff --git a/meshless/dev/sympytools.py b/meshless/dev/sympytools.py
index a94f224..8dc9fb7 100644
--- a/meshless/dev/sympytools.py
+++ b/meshless/dev/sympytools.py
@@ -5,6 +5,31 @@ import sympy
 from sympy import collect
 
 
+def _remove_spaces(expr):
+    return re.sub(r'\s+(?!\w)|(?<!\w)\s+', '', expr)
+
+
+def _find_base(expr):
+    """Find where a base that can be repeated starts, at the end of ``expr``
+
+    Returns None if the expression does not end with a name, an integer, or a
+    pair of parentheses that is not a function call
+
+    """
+    if expr.endswith(')'):
+        depth = 0
+        for start in range(len(expr)-1, -1, -1):
+            depth += (expr[start] == ')') - (expr[start] == '(')
+            if depth == 0:
+                break
+        if depth == 0 and not re.search(r'[\w)\]]\s*$', expr[:start]):
+            return start
+    else:
+        match = re.search(r'(?<![\w.])([^\W\d]\w*|(?<![eE][+-])[0-9]+)$', expr)
+        if match:
+            return match.start()
+
+
 def pow2mul(instr):
     """Expand power to multiplications
 
@@ -21,28 +46,42 @@ def pow2mul(instr):
         The output string
 
     """
-    old_new = []
     outstr = instr
-    search = r'\w+\*\*\s*\d+|\([^\(\)]+\)\*\*\d+'
-    for p in re.findall(search, instr):
-        var, exp = p.replace(' ', '').split('**')
-        new = '(' + '*'.join([var]*int(exp)) + ')'
-        old_new.append([p, new])
-    # putting longer patterns first to avoid wrong
-    # substitutions
-    old_new = sorted(old_new, key=lambda x: len(x[0]))[::-1]
-    for old, new in old_new:
-        outstr = outstr.replace(old, new)
-
-    old_new = []
-    for p in re.findall(r'pow\(\s*[^,]+\s*,\s*[^,\)]+\s*\)', instr):
-        var, exp = p.split('pow')[1].split(',')
-        var = var.strip()[1:] # removing left parentheses
-        exp = exp.strip()[:-1] # removing right parentheses
-        new = '(' + '*'.join(['(' + var.replace(' ', '') + ')']*int(exp)) + ')'
-        old_new.append([p, new])
-    for old, new in old_new:
-        outstr = outstr.replace(old, new)
+
+    # pow(var, exp), starting from the last calls, i.e. from the inner ones
+    for match in reversed(list(re.finditer(r'(?<![\w.])pow\s*\(', instr))):
+        start, end = match.span()
+        args = ['']
+        depth = 1
+        for end in range(end, len(outstr)):
+            char = outstr[end]
+            depth += (char in '([{') - (char in ')]}')
+            if depth == 0:
+                break
+            if depth == 1 and char == ',':
+                args.append('')
+            else:
+                args[-1] += char
+        if depth == 0 and len(args) == 2 and re.match(r'\s*0*[1-9][0-9]*\s*$', args[1]):
+            var = '(' + _remove_spaces(args[0]) + ')'
+            new = '(' + '*'.join([var]*int(args[1])) + ')'
+            outstr = outstr[:start] + new + outstr[end+1:]
+
+    # var**exp, the exponent must be a whole positive integer
+    instr = outstr
+    outstr = ''
+    pos = 0
+    for match in re.finditer(r'\s*\*\*\s*(0*[1-9][0-9]*)(?![\w.])(?!\s*\*\*)', instr):
+        outstr += instr[pos:match.start()]
+        pos = match.end()
+        start = _find_base(outstr)
+        if start is None:
+            outstr += match.group(0)
+        else:
+            var = _remove_spaces(outstr[start:])
+            new = '(' + '*'.join([var]*int(match.group(1))) + ')'
+            outstr = outstr[:start] + new
+    outstr += instr[pos:]
 
     return outstr
 
-- 
2.43.0


From 6eac73a57e245ab89f3e2a8fc17f3a321a62d2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:04 +0000
Subject: [PATCH 03/11] fix: mprint_as_array must expand powers of whole names
 only

---
 meshless/dev/sympytools.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/meshless/dev/sympytools.py b/meshless/dev/sympytools.py
index 8dc9fb7..7ff8893 100644
--- a/meshless/dev/sympytools.py
+++ b/meshless/dev/sympytools.py
@@ -339,10 +339,7 @@ def mprint_as_array(m, mname, sufix=None, use_cse=False, header=None,
                     ls.append('    {expr}'.format(expr=k*expr))
             else:
                 if pow_by_mul:
-                    v = str(v)
-                    for p in re.findall(r'\w+\*\*\d+', v):
-                        var, exp = p.split('**')
-                        v = v.replace(p, '(' + '*'.join([var]*int(exp)) + ')')
+                    v = pow2mul(str(v))
                 ls.append('{0}[pos+{1}] {2} {3}'.format(mname, i, op, v))
     string = '\n'.join(ls)
     if print_file:
-- 
2.43.0


From b308008349094f86fbbb9a416df0103144330034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:11 +0000
Subject: [PATCH 04/11] fix: mprint_as_array must not modify the given matrix
 with use_cse

---
 meshless/dev/sympytools.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/meshless/dev/sympytools.py b/meshless/dev/sympytools.py
index 7ff8893..8adb3d8 100644
--- a/meshless/dev/sympytools.py
+++ b/meshless/dev/sympytools.py
@@ -303,8 +303,7 @@ def mprint_as_array(m, mname, sufix=None, use_cse=False, header=None,
     ls = []
     if use_cse:
         subs, m_list = sympy.cse(m)
-        for i, v in enumerate(m_list):
-            m[i] = v
+        m = m_list[0]
     if sufix is None:
         namesufix = '{0}'.format(mname)
     else:
-- 
2.43.0


From 173ae502b186d4479318c171534b21ccad46f01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:18 +0000
Subject: [PATCH 05/11] fix: mprint_as_sparse must take the upper triangle of
 the whole matrix

---
 meshless/dev/sympytools.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/meshless/dev/sympytools.py b/meshless/dev/sympytools.py
index 8adb3d8..a5b5880 100644
--- a/meshless/dev/sympytools.py
+++ b/meshless/dev/sympytools.py
@@ -130,15 +130,14 @@ def mprint_as_sparse(m, mname, sufix=None, subs=None, header=None,
 
     num = 0
     for (i, j), v in np.ndenumerate(m):
+        if is_symmetric and i > j:
+            continue
         if dofpernode:
             nindi = (i // dofpernode) + 1
             nindj = (j // dofpernode) + 1
             i = i % dofpernode
             j = j % dofpernode
         if v:
-            if is_symmetric and i > j:
-                continue
-
             if subs:
                 v = v.subs(subs)
             num += 1
-- 
2.43.0


From 618dee047b20a7cadfc6b0e7e4f088b1086a6cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:54 +0000
Subject: [PATCH 06/11] fix: read_mesh must place GRIDs given in a local
 coordinate system

---
 meshless/espim/read_mesh.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/meshless/espim/read_mesh.py b/meshless/espim/read_mesh.py
index 7a25e04..62a0a63 100644
--- a/meshless/espim/read_mesh.py
+++ b/meshless/espim/read_mesh.py
@@ -25,6 +25,9 @@ def read_mesh(filepath, silent=True):
     msg('Reading mesh...', silent=silent)
     mesh = read_bdf(filepath, debug=False)
     for node in mesh.nodes.values():
+        if node.Cp() != 0:
+            # everywhere node.xyz are coordinates in the basic system
+            node.set_position(mesh, node.get_position(), cid=0)
         node.trias = set()
         node.edges = set()
         node.index = set()
-- 
2.43.0


From d06adce8cca9fe8657772eb7d326b97ad845b425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:00 +0000
Subject: [PATCH 07/11] fix: read_delaunay must copy the given coordinates

---
 meshless/espim/read_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshless/espim/read_mesh.py b/meshless/espim/read_mesh.py
index 62a0a63..203e1f1 100644
--- a/meshless/espim/read_mesh.py
+++ b/meshless/espim/read_mesh.py
@@ -98,7 +98,7 @@ def read_delaunay(points, tri, silent=True):
         if len(pt) == 2:
             pt = np.array([pt[0], pt[1], 0.])
         nid += 1
-        node = GRID(nid, cp=0, cd=0, xyz=pt)
+        node = GRID(nid, cp=0, cd=0, xyz=np.array(pt, dtype=float))
         node.trias = set()
         node.edges = set()
         node.index = set()
-- 
2.43.0


From 41ef1f1a9b0c86577186ec8260089a1a850603a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:05 +0000
Subject: [PATCH 08/11] fix: worked examples paired the transverse shear
 strains with the wrong moduli

---
 .../plate/FSDT/transverse_shear_cell_based/espim_example.py  | 5 +++--
 .../espim_example.py                                         | 5 +++--
 .../plate/FSDT/transverse_shear_edge_based/espim_example.py  | 5 +++--
 theory/sfem/sfem_tria3_example.py                            | 5 +++--
 4 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/theory/espim/2D/plate/FSDT/transverse_shear_cell_based/espim_example.py b/theory/espim/2D/plate/FSDT/transverse_shear_cell_based/espim_example.py
index 51b8b42..b899249 100644
--- a/theory/espim/2D/plate/FSDT/transverse_shear_cell_based/espim_example.py
+++ b/theory/espim/2D/plate/FSDT/transverse_shear_cell_based/espim_example.py
@@ -814,9 +814,10 @@ for tria in trias:
     k = 5/6 #TODO!!!
 
     E = k * tria.prop.E
-    E44 = E[0, 0]
+    # the strains are ordered gxz, gyz; E is ordered yz, xz
+    E44 = E[1, 1]
     E45 = E[0, 1]
-    E55 = E[1, 1]
+    E55 = E[0, 0]
 
     i1 = n1.index
     i2 = n2.index
diff --git a/theory/espim/2D/plate/FSDT/transverse_shear_cell_based_no_smoothing/espim_example.py b/theory/espim/2D/plate/FSDT/transverse_shear_cell_based_no_smoothing/espim_example.py
index 8134406..bc67585 100644
--- a/theory/espim/2D/plate/FSDT/transverse_shear_cell_based_no_smoothing/espim_example.py
+++ b/theory/espim/2D/plate/FSDT/transverse_shear_cell_based_no_smoothing/espim_example.py
@@ -759,9 +759,10 @@ for tria in trias:
     k = 5/6 #TODO!!!
 
     E = k * tria.prop.E
-    E44 = E[0, 0]
+    # the strains are ordered gxz, gyz; E is ordered yz, xz
+    E44 = E[1, 1]
     E45 = E[0, 1]
-    E55 = E[1, 1]
+    E55 = E[0, 0]
 
     i1 = n1.index
     i2 = n2.index
diff --git a/theory/espim/2D/plate/FSDT/transverse_shear_edge_based/espim_example.py b/theory/espim/2D/plate/FSDT/transverse_shear_edge_based/espim_example.py
index f8e3ae3..ec8f128 100644
--- a/theory/espim/2D/plate/FSDT/transverse_shear_edge_based/espim_example.py
+++ b/theory/espim/2D/plate/FSDT/transverse_shear_edge_based/espim_example.py
@@ -797,9 +797,10 @@ for edge in edges:
     k = 5/6 #TODO!!!
 
     E = k * tria1.prop.E
-    E44 = E[0, 0]
+    # the strains are ordered gxz, gyz; E is ordered yz, xz
+    E44 = E[1, 1]
     E45 = E[0, 1]
-    E55 = E[1, 1]
+    E55 = E[0, 0]
 
     i1 = n1.index
     i2 = n2.index
diff --git a/theory/sfem/sfem_tria3_example.py b/theory/sfem/sfem_tria3_example.py
index 1780207..e2b54f6 100644
--- a/theory/sfem/sfem_tria3_example.py
+++ b/theory/sfem/sfem_tria3_example.py
@@ -249,9 +249,10 @@ for tria in trias:
     k = 5/6 #TODO!!!
 
     E = k * tria.prop.E
-    E44 = E[0, 0]
+    # the strains are ordered gxz, gyz; E is ordered yz, xz
+    E44 = E[1, 1]
     E45 = E[0, 1]
-    E55 = E[1, 1]
+    E55 = E[0, 0]
 
 
     n1, n2, n3 = tria.nodes
-- 
2.43.0


From 3cd13a27d78c01883fe3fdc0304586791267c00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:05 +0000
Subject: [PATCH 09/11] fix: edge-based worked example counted a unit area at
 boundary edges

---
 .../2D/plate/FSDT/transverse_shear_edge_based/espim_example.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/theory/espim/2D/plate/FSDT/transverse_shear_edge_based/espim_example.py b/theory/espim/2D/plate/FSDT/transverse_shear_edge_based/espim_example.py
index ec8f128..77141fd 100644
--- a/theory/espim/2D/plate/FSDT/transverse_shear_edge_based/espim_example.py
+++ b/theory/espim/2D/plate/FSDT/transverse_shear_edge_based/espim_example.py
@@ -788,7 +788,8 @@ for edge in edges:
         b2 = 0
         c2 = 0
         d2 = 0
-        Ac2 = 1
+        # no second sub-triangle; vanishing area, the expressions below divide by it
+        Ac2 = 1.e-300
         i4 = i1
 
     #TODO interpolate nodal properties when used
-- 
2.43.0


From 04d146eac9b9eb267c9d350ec7ffc82a1a70ca5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:26 +0000
Subject: [PATCH 10/11] fix: SFEM derivation put phiy bending terms of kyy in
 kxx

The bending matrices of the first, second and third sub-triangle had the
d phiy/dy terms of node 2 (and of the averaged middle node) in the row of
kxx.  The lines of k0 in the example are regenerated with the script.
---
 theory/sfem/sfem_tria3_example.py | 126 +++++++++++++++---------------
 theory/sfem/stiffmatrices.py      |  12 +--
 2 files changed, 69 insertions(+), 69 deletions(-)

diff --git a/theory/sfem/sfem_tria3_example.py b/theory/sfem/sfem_tria3_example.py
index e2b54f6..2fba1b5 100644
--- a/theory/sfem/sfem_tria3_example.py
+++ b/theory/sfem/sfem_tria3_example.py
@@ -308,27 +308,27 @@ for tria in trias:
     k0[i1*dof+0, i1*dof+0] += Ac*((A11*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + A16*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + (A16*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + A66*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)
     k0[i1*dof+0, i1*dof+1] += Ac*((A12*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + A26*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + (A16*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + A66*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)
     k0[i1*dof+0, i1*dof+3] += Ac*((B11*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + B16*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + (B16*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + B66*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)
-    k0[i1*dof+0, i1*dof+4] += Ac*(-0.166666666666667*d2*(B11*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + B16*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)/Ac + (B12*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + B26*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + d2/2 + d3/2)/Ac + (B16*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + B66*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)
+    k0[i1*dof+0, i1*dof+4] += Ac*((B12*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + B26*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + (B16*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + B66*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)
     k0[i1*dof+0, i2*dof+0] += Ac*((A11*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + A16*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + (A16*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + A66*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)
     k0[i1*dof+0, i2*dof+1] += Ac*((A12*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + A26*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + (A16*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + A66*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)
     k0[i1*dof+0, i2*dof+3] += Ac*((B11*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + B16*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + (B16*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + B66*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)
-    k0[i1*dof+0, i2*dof+4] += Ac*((B11*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + B16*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(-d1/2 - 0.166666666666667*d2 - d3/2)/Ac + (B12*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + B26*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + (B16*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + B66*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)
+    k0[i1*dof+0, i2*dof+4] += Ac*((B12*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + B26*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + (B16*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + B66*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)
     k0[i1*dof+0, i3*dof+0] += Ac*((A11*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + A16*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + (A16*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + A66*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)
     k0[i1*dof+0, i3*dof+1] += Ac*((A12*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + A26*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + (A16*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + A66*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)
     k0[i1*dof+0, i3*dof+3] += Ac*((B11*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + B16*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + (B16*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + B66*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)
-    k0[i1*dof+0, i3*dof+4] += Ac*(-0.166666666666667*d2*(B11*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + B16*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)/Ac + (B12*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + B26*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + (B16*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + B66*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)
+    k0[i1*dof+0, i3*dof+4] += Ac*((B12*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + B26*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + (B16*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + B66*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)
     k0[i1*dof+1, i1*dof+0] += Ac*((A12*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + A16*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + (A26*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + A66*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)
     k0[i1*dof+1, i1*dof+1] += Ac*((A22*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + A26*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + (A26*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + A66*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)
     k0[i1*dof+1, i1*dof+3] += Ac*((B12*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + B16*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + (B26*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + B66*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)
-    k0[i1*dof+1, i1*dof+4] += Ac*(-0.166666666666667*d2*(B12*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + B16*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)/Ac + (B22*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + B26*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + d2/2 + d3/2)/Ac + (B26*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + B66*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)
+    k0[i1*dof+1, i1*dof+4] += Ac*((B22*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + B26*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + (B26*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + B66*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)
     k0[i1*dof+1, i2*dof+0] += Ac*((A12*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + A16*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + (A26*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + A66*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)
     k0[i1*dof+1, i2*dof+1] += Ac*((A22*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + A26*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + (A26*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + A66*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)
     k0[i1*dof+1, i2*dof+3] += Ac*((B12*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + B16*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + (B26*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + B66*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)
-    k0[i1*dof+1, i2*dof+4] += Ac*((B12*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + B16*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(-d1/2 - 0.166666666666667*d2 - d3/2)/Ac + (B22*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + B26*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + (B26*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + B66*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)
+    k0[i1*dof+1, i2*dof+4] += Ac*((B22*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + B26*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + (B26*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + B66*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)
     k0[i1*dof+1, i3*dof+0] += Ac*((A12*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + A16*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + (A26*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + A66*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)
     k0[i1*dof+1, i3*dof+1] += Ac*((A22*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + A26*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + (A26*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + A66*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)
     k0[i1*dof+1, i3*dof+3] += Ac*((B12*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + B16*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + (B26*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + B66*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)
-    k0[i1*dof+1, i3*dof+4] += Ac*(-0.166666666666667*d2*(B12*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + B16*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)/Ac + (B22*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + B26*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + (B26*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + B66*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)
+    k0[i1*dof+1, i3*dof+4] += Ac*((B22*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + B26*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + (B26*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + B66*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)
     k0[i1*dof+2, i1*dof+2] += Ac*((E44*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + E45*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + (E45*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + E55*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)
     k0[i1*dof+2, i1*dof+3] += Ac*((-0.0833333333333333*a2*d2 + 0.0833333333333333*a3*d3)*(E45*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + E55*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)/Ac + (E44*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + E45*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a2*c2 - 0.0833333333333333*b3*d3)/Ac)
     k0[i1*dof+2, i1*dof+4] += Ac*((0.0833333333333333*b2*c2 - 0.0833333333333333*b3*c3)*(E44*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + E45*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)/Ac + (E45*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + E55*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)
@@ -342,56 +342,56 @@ for tria in trias:
     k0[i1*dof+3, i1*dof+1] += Ac*((B12*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + B26*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + (B16*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + B66*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)
     k0[i1*dof+3, i1*dof+2] += Ac*((E44*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a2*c2 - 0.0833333333333333*b3*d3)/Ac + E45*(-0.0833333333333333*a2*d2 + 0.0833333333333333*a3*d3)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + (E45*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a2*c2 - 0.0833333333333333*b3*d3)/Ac + E55*(-0.0833333333333333*a2*d2 + 0.0833333333333333*a3*d3)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)
     k0[i1*dof+3, i1*dof+3] += Ac*((-0.0833333333333333*a2*d2 + 0.0833333333333333*a3*d3)*(E45*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a2*c2 - 0.0833333333333333*b3*d3)/Ac + E55*(-0.0833333333333333*a2*d2 + 0.0833333333333333*a3*d3)/Ac)/Ac + (D11*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + D16*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + (D16*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + D66*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + (E44*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a2*c2 - 0.0833333333333333*b3*d3)/Ac + E45*(-0.0833333333333333*a2*d2 + 0.0833333333333333*a3*d3)/Ac)*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a2*c2 - 0.0833333333333333*b3*d3)/Ac)
-    k0[i1*dof+3, i1*dof+4] += Ac*(-0.166666666666667*d2*(D11*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + D16*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)/Ac + (0.0833333333333333*b2*c2 - 0.0833333333333333*b3*c3)*(E44*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a2*c2 - 0.0833333333333333*b3*d3)/Ac + E45*(-0.0833333333333333*a2*d2 + 0.0833333333333333*a3*d3)/Ac)/Ac + (D12*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + D26*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + d2/2 + d3/2)/Ac + (D16*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + D66*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + (E45*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a2*c2 - 0.0833333333333333*b3*d3)/Ac + E55*(-0.0833333333333333*a2*d2 + 0.0833333333333333*a3*d3)/Ac)*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)
+    k0[i1*dof+3, i1*dof+4] += Ac*((0.0833333333333333*b2*c2 - 0.0833333333333333*b3*c3)*(E44*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a2*c2 - 0.0833333333333333*b3*d3)/Ac + E45*(-0.0833333333333333*a2*d2 + 0.0833333333333333*a3*d3)/Ac)/Ac + (D12*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + D26*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + (D16*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + D66*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + (E45*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a2*c2 - 0.0833333333333333*b3*d3)/Ac + E55*(-0.0833333333333333*a2*d2 + 0.0833333333333333*a3*d3)/Ac)*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)
     k0[i1*dof+3, i2*dof+0] += Ac*((B11*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + B16*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + (B16*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + B66*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)
     k0[i1*dof+3, i2*dof+1] += Ac*((B12*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + B26*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + (B16*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + B66*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)
     k0[i1*dof+3, i2*dof+2] += Ac*((E44*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a2*c2 - 0.0833333333333333*b3*d3)/Ac + E45*(-0.0833333333333333*a2*d2 + 0.0833333333333333*a3*d3)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + (E45*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a2*c2 - 0.0833333333333333*b3*d3)/Ac + E55*(-0.0833333333333333*a2*d2 + 0.0833333333333333*a3*d3)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)
     k0[i1*dof+3, i2*dof+3] += Ac*((D11*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + D16*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + (D16*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + D66*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + (E44*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a2*c2 - 0.0833333333333333*b3*d3)/Ac + E45*(-0.0833333333333333*a2*d2 + 0.0833333333333333*a3*d3)/Ac)*(0.166666666666667*Ac1 + a1*c1/4 + 0.0833333333333333*a2*c2 + a3*c3/4 - 0.0833333333333333*b3*d3)/Ac + (E45*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a2*c2 - 0.0833333333333333*b3*d3)/Ac + E55*(-0.0833333333333333*a2*d2 + 0.0833333333333333*a3*d3)/Ac)*(-a1*d1/4 - 0.0833333333333333*a2*d2 - 0.166666666666667*a3*d3)/Ac)
-    k0[i1*dof+3, i2*dof+4] += Ac*((D11*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + D16*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(-d1/2 - 0.166666666666667*d2 - d3/2)/Ac + (D12*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + D26*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + (D16*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + D66*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + (E44*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a2*c2 - 0.0833333333333333*b3*d3)/Ac + E45*(-0.0833333333333333*a2*d2 + 0.0833333333333333*a3*d3)/Ac)*(b1*c1/4 + 0.0833333333333333*b2*c2 + 0.166666666666667*b3*c3)/Ac + (E45*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a2*c2 - 0.0833333333333333*b3*d3)/Ac + E55*(-0.0833333333333333*a2*d2 + 0.0833333333333333*a3*d3)/Ac)*(0.166666666666667*Ac1 + 0.0833333333333333*a3*c3 - b1*d1/4 - 0.0833333333333333*b2*d2 - b3*d3/4)/Ac)
+    k0[i1*dof+3, i2*dof+4] += Ac*((D12*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + D26*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + (D16*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + D66*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + (E44*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a2*c2 - 0.0833333333333333*b3*d3)/Ac + E45*(-0.0833333333333333*a2*d2 + 0.0833333333333333*a3*d3)/Ac)*(b1*c1/4 + 0.0833333333333333*b2*c2 + 0.166666666666667*b3*c3)/Ac + (E45*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a2*c2 - 0.0833333333333333*b3*d3)/Ac + E55*(-0.0833333333333333*a2*d2 + 0.0833333333333333*a3*d3)/Ac)*(0.166666666666667*Ac1 + 0.0833333333333333*a3*c3 - b1*d1/4 - 0.0833333333333333*b2*d2 - b3*d3/4)/Ac)
     k0[i1*dof+3, i3*dof+0] += Ac*((B11*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + B16*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + (B16*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + B66*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)
     k0[i1*dof+3, i3*dof+1] += Ac*((B12*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + B26*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + (B16*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + B66*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)
     k0[i1*dof+3, i3*dof+2] += Ac*((E44*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a2*c2 - 0.0833333333333333*b3*d3)/Ac + E45*(-0.0833333333333333*a2*d2 + 0.0833333333333333*a3*d3)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + (E45*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a2*c2 - 0.0833333333333333*b3*d3)/Ac + E55*(-0.0833333333333333*a2*d2 + 0.0833333333333333*a3*d3)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)
     k0[i1*dof+3, i3*dof+3] += Ac*((D11*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + D16*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + (D16*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + D66*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + (E44*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a2*c2 - 0.0833333333333333*b3*d3)/Ac + E45*(-0.0833333333333333*a2*d2 + 0.0833333333333333*a3*d3)/Ac)*(0.166666666666667*Ac1 + 0.0833333333333333*a2*c2 - b1*d1/4 - b2*d2/4 - 0.0833333333333333*b3*d3)/Ac + (E45*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a2*c2 - 0.0833333333333333*b3*d3)/Ac + E55*(-0.0833333333333333*a2*d2 + 0.0833333333333333*a3*d3)/Ac)*(a1*d1/4 + 0.166666666666667*a2*d2 + 0.0833333333333333*a3*d3)/Ac)
-    k0[i1*dof+3, i3*dof+4] += Ac*(-0.166666666666667*d2*(D11*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + D16*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)/Ac + (D12*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + D26*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + (D16*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + D66*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + (E44*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a2*c2 - 0.0833333333333333*b3*d3)/Ac + E45*(-0.0833333333333333*a2*d2 + 0.0833333333333333*a3*d3)/Ac)*(-b1*c1/4 - 0.166666666666667*b2*c2 - 0.0833333333333333*b3*c3)/Ac + (E45*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a2*c2 - 0.0833333333333333*b3*d3)/Ac + E55*(-0.0833333333333333*a2*d2 + 0.0833333333333333*a3*d3)/Ac)*(0.166666666666667*Ac1 + a1*c1/4 + a2*c2/4 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)
-    k0[i1*dof+4, i1*dof+0] += Ac*((-0.166666666666667*B11*d2/Ac + B12*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + d2/2 + d3/2)/Ac + B16*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + (-0.166666666666667*B16*d2/Ac + B26*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + d2/2 + d3/2)/Ac + B66*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)
-    k0[i1*dof+4, i1*dof+1] += Ac*((-0.166666666666667*B12*d2/Ac + B22*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + d2/2 + d3/2)/Ac + B26*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + (-0.166666666666667*B16*d2/Ac + B26*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + d2/2 + d3/2)/Ac + B66*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)
+    k0[i1*dof+3, i3*dof+4] += Ac*((D12*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + D26*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + (D16*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + D66*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + (E44*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a2*c2 - 0.0833333333333333*b3*d3)/Ac + E45*(-0.0833333333333333*a2*d2 + 0.0833333333333333*a3*d3)/Ac)*(-b1*c1/4 - 0.166666666666667*b2*c2 - 0.0833333333333333*b3*c3)/Ac + (E45*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a2*c2 - 0.0833333333333333*b3*d3)/Ac + E55*(-0.0833333333333333*a2*d2 + 0.0833333333333333*a3*d3)/Ac)*(0.166666666666667*Ac1 + a1*c1/4 + a2*c2/4 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)
+    k0[i1*dof+4, i1*dof+0] += Ac*((B12*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + B16*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + (B26*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + B66*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)
+    k0[i1*dof+4, i1*dof+1] += Ac*((B22*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + B26*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + (B26*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + B66*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)
     k0[i1*dof+4, i1*dof+2] += Ac*((E44*(0.0833333333333333*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E45*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + (E45*(0.0833333333333333*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E55*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)
-    k0[i1*dof+4, i1*dof+3] += Ac*((-0.0833333333333333*a2*d2 + 0.0833333333333333*a3*d3)*(E45*(0.0833333333333333*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E55*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)/Ac + (E44*(0.0833333333333333*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E45*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a2*c2 - 0.0833333333333333*b3*d3)/Ac + (-0.166666666666667*D11*d2/Ac + D12*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + d2/2 + d3/2)/Ac + D16*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + (-0.166666666666667*D16*d2/Ac + D26*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + d2/2 + d3/2)/Ac + D66*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)
-    k0[i1*dof+4, i1*dof+4] += Ac*(-0.166666666666667*d2*(-0.166666666666667*D11*d2/Ac + D12*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + d2/2 + d3/2)/Ac + D16*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)/Ac + (0.0833333333333333*b2*c2 - 0.0833333333333333*b3*c3)*(E44*(0.0833333333333333*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E45*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)/Ac + (E45*(0.0833333333333333*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E55*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac + (-0.166666666666667*D12*d2/Ac + D22*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + d2/2 + d3/2)/Ac + D26*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + d2/2 + d3/2)/Ac + (-0.166666666666667*D16*d2/Ac + D26*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + d2/2 + d3/2)/Ac + D66*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)
-    k0[i1*dof+4, i2*dof+0] += Ac*((-0.166666666666667*B11*d2/Ac + B12*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + d2/2 + d3/2)/Ac + B16*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + (-0.166666666666667*B16*d2/Ac + B26*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + d2/2 + d3/2)/Ac + B66*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)
-    k0[i1*dof+4, i2*dof+1] += Ac*((-0.166666666666667*B12*d2/Ac + B22*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + d2/2 + d3/2)/Ac + B26*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + (-0.166666666666667*B16*d2/Ac + B26*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + d2/2 + d3/2)/Ac + B66*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)
+    k0[i1*dof+4, i1*dof+3] += Ac*((-0.0833333333333333*a2*d2 + 0.0833333333333333*a3*d3)*(E45*(0.0833333333333333*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E55*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)/Ac + (D12*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + D16*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + (D26*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + D66*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + (E44*(0.0833333333333333*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E45*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a2*c2 - 0.0833333333333333*b3*d3)/Ac)
+    k0[i1*dof+4, i1*dof+4] += Ac*((0.0833333333333333*b2*c2 - 0.0833333333333333*b3*c3)*(E44*(0.0833333333333333*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E45*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)/Ac + (D22*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + D26*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + (D26*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + D66*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + (E45*(0.0833333333333333*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E55*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)
+    k0[i1*dof+4, i2*dof+0] += Ac*((B12*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + B16*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + (B26*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + B66*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)
+    k0[i1*dof+4, i2*dof+1] += Ac*((B22*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + B26*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + (B26*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + B66*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)
     k0[i1*dof+4, i2*dof+2] += Ac*((E44*(0.0833333333333333*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E45*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + (E45*(0.0833333333333333*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E55*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)
-    k0[i1*dof+4, i2*dof+3] += Ac*((E44*(0.0833333333333333*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E45*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)*(0.166666666666667*Ac1 + a1*c1/4 + 0.0833333333333333*a2*c2 + a3*c3/4 - 0.0833333333333333*b3*d3)/Ac + (E45*(0.0833333333333333*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E55*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)*(-a1*d1/4 - 0.0833333333333333*a2*d2 - 0.166666666666667*a3*d3)/Ac + (-0.166666666666667*D11*d2/Ac + D12*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + d2/2 + d3/2)/Ac + D16*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + (-0.166666666666667*D16*d2/Ac + D26*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + d2/2 + d3/2)/Ac + D66*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)
-    k0[i1*dof+4, i2*dof+4] += Ac*((E44*(0.0833333333333333*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E45*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)*(b1*c1/4 + 0.0833333333333333*b2*c2 + 0.166666666666667*b3*c3)/Ac + (E45*(0.0833333333333333*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E55*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)*(0.166666666666667*Ac1 + 0.0833333333333333*a3*c3 - b1*d1/4 - 0.0833333333333333*b2*d2 - b3*d3/4)/Ac + (-0.166666666666667*a1 + 0.166666666666667*a3 + 0.166666666666667*d1)*(-0.166666666666667*D12*d2/Ac + D22*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + d2/2 + d3/2)/Ac + D26*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)/Ac + (-d1/2 - 0.166666666666667*d2 - d3/2)*(-0.166666666666667*D11*d2/Ac + D12*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + d2/2 + d3/2)/Ac + D16*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)/Ac + (-0.166666666666667*D16*d2/Ac + D26*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + d2/2 + d3/2)/Ac + D66*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)
-    k0[i1*dof+4, i3*dof+0] += Ac*((-0.166666666666667*B11*d2/Ac + B12*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + d2/2 + d3/2)/Ac + B16*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + (-0.166666666666667*B16*d2/Ac + B26*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + d2/2 + d3/2)/Ac + B66*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)
-    k0[i1*dof+4, i3*dof+1] += Ac*((-0.166666666666667*B12*d2/Ac + B22*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + d2/2 + d3/2)/Ac + B26*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + (-0.166666666666667*B16*d2/Ac + B26*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + d2/2 + d3/2)/Ac + B66*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)
+    k0[i1*dof+4, i2*dof+3] += Ac*((D12*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + D16*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + (D26*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + D66*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + (E44*(0.0833333333333333*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E45*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)*(0.166666666666667*Ac1 + a1*c1/4 + 0.0833333333333333*a2*c2 + a3*c3/4 - 0.0833333333333333*b3*d3)/Ac + (E45*(0.0833333333333333*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E55*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)*(-a1*d1/4 - 0.0833333333333333*a2*d2 - 0.166666666666667*a3*d3)/Ac)
+    k0[i1*dof+4, i2*dof+4] += Ac*((D22*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + D26*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + (D26*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + D66*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + (E44*(0.0833333333333333*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E45*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)*(b1*c1/4 + 0.0833333333333333*b2*c2 + 0.166666666666667*b3*c3)/Ac + (E45*(0.0833333333333333*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E55*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)*(0.166666666666667*Ac1 + 0.0833333333333333*a3*c3 - b1*d1/4 - 0.0833333333333333*b2*d2 - b3*d3/4)/Ac)
+    k0[i1*dof+4, i3*dof+0] += Ac*((B12*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + B16*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + (B26*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + B66*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)
+    k0[i1*dof+4, i3*dof+1] += Ac*((B22*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + B26*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + (B26*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + B66*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)
     k0[i1*dof+4, i3*dof+2] += Ac*((E44*(0.0833333333333333*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E45*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + (E45*(0.0833333333333333*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E55*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)
-    k0[i1*dof+4, i3*dof+3] += Ac*((E44*(0.0833333333333333*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E45*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)*(0.166666666666667*Ac1 + 0.0833333333333333*a2*c2 - b1*d1/4 - b2*d2/4 - 0.0833333333333333*b3*d3)/Ac + (E45*(0.0833333333333333*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E55*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)*(a1*d1/4 + 0.166666666666667*a2*d2 + 0.0833333333333333*a3*d3)/Ac + (-0.166666666666667*D11*d2/Ac + D12*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + d2/2 + d3/2)/Ac + D16*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + (-0.166666666666667*D16*d2/Ac + D26*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + d2/2 + d3/2)/Ac + D66*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)
-    k0[i1*dof+4, i3*dof+4] += Ac*(-0.166666666666667*d2*(-0.166666666666667*D11*d2/Ac + D12*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + d2/2 + d3/2)/Ac + D16*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)/Ac + (E44*(0.0833333333333333*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E45*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)*(-b1*c1/4 - 0.166666666666667*b2*c2 - 0.0833333333333333*b3*c3)/Ac + (E45*(0.0833333333333333*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E55*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)*(0.166666666666667*Ac1 + a1*c1/4 + a2*c2/4 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac + (-0.166666666666667*D12*d2/Ac + D22*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + d2/2 + d3/2)/Ac + D26*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + (-0.166666666666667*D16*d2/Ac + D26*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + d2/2 + d3/2)/Ac + D66*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)
+    k0[i1*dof+4, i3*dof+3] += Ac*((D12*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + D16*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + (D26*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + D66*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + (E44*(0.0833333333333333*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E45*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)*(0.166666666666667*Ac1 + 0.0833333333333333*a2*c2 - b1*d1/4 - b2*d2/4 - 0.0833333333333333*b3*d3)/Ac + (E45*(0.0833333333333333*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E55*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)*(a1*d1/4 + 0.166666666666667*a2*d2 + 0.0833333333333333*a3*d3)/Ac)
+    k0[i1*dof+4, i3*dof+4] += Ac*((D22*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + D26*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + (D26*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + D66*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + (E44*(0.0833333333333333*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E45*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)*(-b1*c1/4 - 0.166666666666667*b2*c2 - 0.0833333333333333*b3*c3)/Ac + (E45*(0.0833333333333333*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E55*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)*(0.166666666666667*Ac1 + a1*c1/4 + a2*c2/4 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)
     k0[i2*dof+0, i1*dof+0] += Ac*((A11*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + A16*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + (A16*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + A66*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)
     k0[i2*dof+0, i1*dof+1] += Ac*((A12*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + A26*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + (A16*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + A66*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)
     k0[i2*dof+0, i1*dof+3] += Ac*((B11*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + B16*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + (B16*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + B66*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)
-    k0[i2*dof+0, i1*dof+4] += Ac*(-0.166666666666667*d2*(B11*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + B16*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)/Ac + (B12*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + B26*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + d2/2 + d3/2)/Ac + (B16*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + B66*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)
+    k0[i2*dof+0, i1*dof+4] += Ac*((B12*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + B26*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + (B16*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + B66*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)
     k0[i2*dof+0, i2*dof+0] += Ac*((A11*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + A16*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + (A16*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + A66*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)
     k0[i2*dof+0, i2*dof+1] += Ac*((A12*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + A26*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + (A16*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + A66*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)
     k0[i2*dof+0, i2*dof+3] += Ac*((B11*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + B16*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + (B16*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + B66*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)
-    k0[i2*dof+0, i2*dof+4] += Ac*((B11*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + B16*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(-d1/2 - 0.166666666666667*d2 - d3/2)/Ac + (B12*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + B26*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + (B16*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + B66*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)
+    k0[i2*dof+0, i2*dof+4] += Ac*((B12*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + B26*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + (B16*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + B66*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)
     k0[i2*dof+0, i3*dof+0] += Ac*((A11*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + A16*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + (A16*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + A66*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)
     k0[i2*dof+0, i3*dof+1] += Ac*((A12*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + A26*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + (A16*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + A66*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)
     k0[i2*dof+0, i3*dof+3] += Ac*((B11*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + B16*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + (B16*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + B66*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)
-    k0[i2*dof+0, i3*dof+4] += Ac*(-0.166666666666667*d2*(B11*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + B16*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)/Ac + (B12*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + B26*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + (B16*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + B66*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)
+    k0[i2*dof+0, i3*dof+4] += Ac*((B12*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + B26*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + (B16*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + B66*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)
     k0[i2*dof+1, i1*dof+0] += Ac*((A12*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + A16*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + (A26*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + A66*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)
     k0[i2*dof+1, i1*dof+1] += Ac*((A22*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + A26*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + (A26*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + A66*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)
     k0[i2*dof+1, i1*dof+3] += Ac*((B12*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + B16*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + (B26*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + B66*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)
-    k0[i2*dof+1, i1*dof+4] += Ac*(-0.166666666666667*d2*(B12*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + B16*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)/Ac + (B22*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + B26*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + d2/2 + d3/2)/Ac + (B26*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + B66*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)
+    k0[i2*dof+1, i1*dof+4] += Ac*((B22*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + B26*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + (B26*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + B66*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)
     k0[i2*dof+1, i2*dof+0] += Ac*((A12*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + A16*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + (A26*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + A66*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)
     k0[i2*dof+1, i2*dof+1] += Ac*((A22*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + A26*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + (A26*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + A66*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)
     k0[i2*dof+1, i2*dof+3] += Ac*((B12*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + B16*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + (B26*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + B66*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)
-    k0[i2*dof+1, i2*dof+4] += Ac*((B12*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + B16*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(-d1/2 - 0.166666666666667*d2 - d3/2)/Ac + (B22*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + B26*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + (B26*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + B66*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)
+    k0[i2*dof+1, i2*dof+4] += Ac*((B22*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + B26*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + (B26*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + B66*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)
     k0[i2*dof+1, i3*dof+0] += Ac*((A12*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + A16*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + (A26*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + A66*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)
     k0[i2*dof+1, i3*dof+1] += Ac*((A22*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + A26*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + (A26*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + A66*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)
     k0[i2*dof+1, i3*dof+3] += Ac*((B12*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + B16*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + (B26*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + B66*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)
-    k0[i2*dof+1, i3*dof+4] += Ac*(-0.166666666666667*d2*(B12*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + B16*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)/Ac + (B22*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + B26*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + (B26*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + B66*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)
+    k0[i2*dof+1, i3*dof+4] += Ac*((B22*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + B26*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + (B26*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + B66*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)
     k0[i2*dof+2, i1*dof+2] += Ac*((E44*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + E45*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + (E45*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + E55*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)
     k0[i2*dof+2, i1*dof+3] += Ac*((-0.0833333333333333*a2*d2 + 0.0833333333333333*a3*d3)*(E45*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + E55*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)/Ac + (E44*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + E45*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a2*c2 - 0.0833333333333333*b3*d3)/Ac)
     k0[i2*dof+2, i1*dof+4] += Ac*((0.0833333333333333*b2*c2 - 0.0833333333333333*b3*c3)*(E44*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + E45*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)/Ac + (E45*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + E55*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)
@@ -405,56 +405,56 @@ for tria in trias:
     k0[i2*dof+3, i1*dof+1] += Ac*((B12*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + B26*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + (B16*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + B66*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)
     k0[i2*dof+3, i1*dof+2] += Ac*((E44*(0.166666666666667*Ac1 + a1*c1/4 + 0.0833333333333333*a2*c2 + a3*c3/4 - 0.0833333333333333*b3*d3)/Ac + E45*(-a1*d1/4 - 0.0833333333333333*a2*d2 - 0.166666666666667*a3*d3)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + (E45*(0.166666666666667*Ac1 + a1*c1/4 + 0.0833333333333333*a2*c2 + a3*c3/4 - 0.0833333333333333*b3*d3)/Ac + E55*(-a1*d1/4 - 0.0833333333333333*a2*d2 - 0.166666666666667*a3*d3)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)
     k0[i2*dof+3, i1*dof+3] += Ac*((-0.0833333333333333*a2*d2 + 0.0833333333333333*a3*d3)*(E45*(0.166666666666667*Ac1 + a1*c1/4 + 0.0833333333333333*a2*c2 + a3*c3/4 - 0.0833333333333333*b3*d3)/Ac + E55*(-a1*d1/4 - 0.0833333333333333*a2*d2 - 0.166666666666667*a3*d3)/Ac)/Ac + (D11*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + D16*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + (D16*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + D66*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + (E44*(0.166666666666667*Ac1 + a1*c1/4 + 0.0833333333333333*a2*c2 + a3*c3/4 - 0.0833333333333333*b3*d3)/Ac + E45*(-a1*d1/4 - 0.0833333333333333*a2*d2 - 0.166666666666667*a3*d3)/Ac)*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a2*c2 - 0.0833333333333333*b3*d3)/Ac)
-    k0[i2*dof+3, i1*dof+4] += Ac*(-0.166666666666667*d2*(D11*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + D16*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)/Ac + (0.0833333333333333*b2*c2 - 0.0833333333333333*b3*c3)*(E44*(0.166666666666667*Ac1 + a1*c1/4 + 0.0833333333333333*a2*c2 + a3*c3/4 - 0.0833333333333333*b3*d3)/Ac + E45*(-a1*d1/4 - 0.0833333333333333*a2*d2 - 0.166666666666667*a3*d3)/Ac)/Ac + (D12*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + D26*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + d2/2 + d3/2)/Ac + (D16*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + D66*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + (E45*(0.166666666666667*Ac1 + a1*c1/4 + 0.0833333333333333*a2*c2 + a3*c3/4 - 0.0833333333333333*b3*d3)/Ac + E55*(-a1*d1/4 - 0.0833333333333333*a2*d2 - 0.166666666666667*a3*d3)/Ac)*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)
+    k0[i2*dof+3, i1*dof+4] += Ac*((0.0833333333333333*b2*c2 - 0.0833333333333333*b3*c3)*(E44*(0.166666666666667*Ac1 + a1*c1/4 + 0.0833333333333333*a2*c2 + a3*c3/4 - 0.0833333333333333*b3*d3)/Ac + E45*(-a1*d1/4 - 0.0833333333333333*a2*d2 - 0.166666666666667*a3*d3)/Ac)/Ac + (D12*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + D26*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + (D16*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + D66*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + (E45*(0.166666666666667*Ac1 + a1*c1/4 + 0.0833333333333333*a2*c2 + a3*c3/4 - 0.0833333333333333*b3*d3)/Ac + E55*(-a1*d1/4 - 0.0833333333333333*a2*d2 - 0.166666666666667*a3*d3)/Ac)*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)
     k0[i2*dof+3, i2*dof+0] += Ac*((B11*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + B16*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + (B16*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + B66*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)
     k0[i2*dof+3, i2*dof+1] += Ac*((B12*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + B26*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + (B16*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + B66*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)
     k0[i2*dof+3, i2*dof+2] += Ac*((E44*(0.166666666666667*Ac1 + a1*c1/4 + 0.0833333333333333*a2*c2 + a3*c3/4 - 0.0833333333333333*b3*d3)/Ac + E45*(-a1*d1/4 - 0.0833333333333333*a2*d2 - 0.166666666666667*a3*d3)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + (E45*(0.166666666666667*Ac1 + a1*c1/4 + 0.0833333333333333*a2*c2 + a3*c3/4 - 0.0833333333333333*b3*d3)/Ac + E55*(-a1*d1/4 - 0.0833333333333333*a2*d2 - 0.166666666666667*a3*d3)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)
     k0[i2*dof+3, i2*dof+3] += Ac*((D11*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + D16*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + (D16*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + D66*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + (E44*(0.166666666666667*Ac1 + a1*c1/4 + 0.0833333333333333*a2*c2 + a3*c3/4 - 0.0833333333333333*b3*d3)/Ac + E45*(-a1*d1/4 - 0.0833333333333333*a2*d2 - 0.166666666666667*a3*d3)/Ac)*(0.166666666666667*Ac1 + a1*c1/4 + 0.0833333333333333*a2*c2 + a3*c3/4 - 0.0833333333333333*b3*d3)/Ac + (E45*(0.166666666666667*Ac1 + a1*c1/4 + 0.0833333333333333*a2*c2 + a3*c3/4 - 0.0833333333333333*b3*d3)/Ac + E55*(-a1*d1/4 - 0.0833333333333333*a2*d2 - 0.166666666666667*a3*d3)/Ac)*(-a1*d1/4 - 0.0833333333333333*a2*d2 - 0.166666666666667*a3*d3)/Ac)
-    k0[i2*dof+3, i2*dof+4] += Ac*((D11*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + D16*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(-d1/2 - 0.166666666666667*d2 - d3/2)/Ac + (D12*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + D26*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + (D16*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + D66*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + (E44*(0.166666666666667*Ac1 + a1*c1/4 + 0.0833333333333333*a2*c2 + a3*c3/4 - 0.0833333333333333*b3*d3)/Ac + E45*(-a1*d1/4 - 0.0833333333333333*a2*d2 - 0.166666666666667*a3*d3)/Ac)*(b1*c1/4 + 0.0833333333333333*b2*c2 + 0.166666666666667*b3*c3)/Ac + (E45*(0.166666666666667*Ac1 + a1*c1/4 + 0.0833333333333333*a2*c2 + a3*c3/4 - 0.0833333333333333*b3*d3)/Ac + E55*(-a1*d1/4 - 0.0833333333333333*a2*d2 - 0.166666666666667*a3*d3)/Ac)*(0.166666666666667*Ac1 + 0.0833333333333333*a3*c3 - b1*d1/4 - 0.0833333333333333*b2*d2 - b3*d3/4)/Ac)
+    k0[i2*dof+3, i2*dof+4] += Ac*((D12*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + D26*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + (D16*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + D66*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + (E44*(0.166666666666667*Ac1 + a1*c1/4 + 0.0833333333333333*a2*c2 + a3*c3/4 - 0.0833333333333333*b3*d3)/Ac + E45*(-a1*d1/4 - 0.0833333333333333*a2*d2 - 0.166666666666667*a3*d3)/Ac)*(b1*c1/4 + 0.0833333333333333*b2*c2 + 0.166666666666667*b3*c3)/Ac + (E45*(0.166666666666667*Ac1 + a1*c1/4 + 0.0833333333333333*a2*c2 + a3*c3/4 - 0.0833333333333333*b3*d3)/Ac + E55*(-a1*d1/4 - 0.0833333333333333*a2*d2 - 0.166666666666667*a3*d3)/Ac)*(0.166666666666667*Ac1 + 0.0833333333333333*a3*c3 - b1*d1/4 - 0.0833333333333333*b2*d2 - b3*d3/4)/Ac)
     k0[i2*dof+3, i3*dof+0] += Ac*((B11*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + B16*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + (B16*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + B66*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)
     k0[i2*dof+3, i3*dof+1] += Ac*((B12*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + B26*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + (B16*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + B66*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)
     k0[i2*dof+3, i3*dof+2] += Ac*((E44*(0.166666666666667*Ac1 + a1*c1/4 + 0.0833333333333333*a2*c2 + a3*c3/4 - 0.0833333333333333*b3*d3)/Ac + E45*(-a1*d1/4 - 0.0833333333333333*a2*d2 - 0.166666666666667*a3*d3)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + (E45*(0.166666666666667*Ac1 + a1*c1/4 + 0.0833333333333333*a2*c2 + a3*c3/4 - 0.0833333333333333*b3*d3)/Ac + E55*(-a1*d1/4 - 0.0833333333333333*a2*d2 - 0.166666666666667*a3*d3)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)
     k0[i2*dof+3, i3*dof+3] += Ac*((D11*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + D16*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + (D16*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + D66*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + (E44*(0.166666666666667*Ac1 + a1*c1/4 + 0.0833333333333333*a2*c2 + a3*c3/4 - 0.0833333333333333*b3*d3)/Ac + E45*(-a1*d1/4 - 0.0833333333333333*a2*d2 - 0.166666666666667*a3*d3)/Ac)*(0.166666666666667*Ac1 + 0.0833333333333333*a2*c2 - b1*d1/4 - b2*d2/4 - 0.0833333333333333*b3*d3)/Ac + (E45*(0.166666666666667*Ac1 + a1*c1/4 + 0.0833333333333333*a2*c2 + a3*c3/4 - 0.0833333333333333*b3*d3)/Ac + E55*(-a1*d1/4 - 0.0833333333333333*a2*d2 - 0.166666666666667*a3*d3)/Ac)*(a1*d1/4 + 0.166666666666667*a2*d2 + 0.0833333333333333*a3*d3)/Ac)
-    k0[i2*dof+3, i3*dof+4] += Ac*(-0.166666666666667*d2*(D11*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + D16*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)/Ac + (D12*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + D26*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + (D16*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + D66*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + (E44*(0.166666666666667*Ac1 + a1*c1/4 + 0.0833333333333333*a2*c2 + a3*c3/4 - 0.0833333333333333*b3*d3)/Ac + E45*(-a1*d1/4 - 0.0833333333333333*a2*d2 - 0.166666666666667*a3*d3)/Ac)*(-b1*c1/4 - 0.166666666666667*b2*c2 - 0.0833333333333333*b3*c3)/Ac + (E45*(0.166666666666667*Ac1 + a1*c1/4 + 0.0833333333333333*a2*c2 + a3*c3/4 - 0.0833333333333333*b3*d3)/Ac + E55*(-a1*d1/4 - 0.0833333333333333*a2*d2 - 0.166666666666667*a3*d3)/Ac)*(0.166666666666667*Ac1 + a1*c1/4 + a2*c2/4 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)
-    k0[i2*dof+4, i1*dof+0] += Ac*((B11*(-d1/2 - 0.166666666666667*d2 - d3/2)/Ac + B12*(-0.166666666666667*a1 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + B16*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + (B16*(-d1/2 - 0.166666666666667*d2 - d3/2)/Ac + B26*(-0.166666666666667*a1 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + B66*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)
-    k0[i2*dof+4, i1*dof+1] += Ac*((B12*(-d1/2 - 0.166666666666667*d2 - d3/2)/Ac + B22*(-0.166666666666667*a1 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + B26*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + (B16*(-d1/2 - 0.166666666666667*d2 - d3/2)/Ac + B26*(-0.166666666666667*a1 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + B66*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)
+    k0[i2*dof+3, i3*dof+4] += Ac*((D12*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + D26*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + (D16*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + D66*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + (E44*(0.166666666666667*Ac1 + a1*c1/4 + 0.0833333333333333*a2*c2 + a3*c3/4 - 0.0833333333333333*b3*d3)/Ac + E45*(-a1*d1/4 - 0.0833333333333333*a2*d2 - 0.166666666666667*a3*d3)/Ac)*(-b1*c1/4 - 0.166666666666667*b2*c2 - 0.0833333333333333*b3*c3)/Ac + (E45*(0.166666666666667*Ac1 + a1*c1/4 + 0.0833333333333333*a2*c2 + a3*c3/4 - 0.0833333333333333*b3*d3)/Ac + E55*(-a1*d1/4 - 0.0833333333333333*a2*d2 - 0.166666666666667*a3*d3)/Ac)*(0.166666666666667*Ac1 + a1*c1/4 + a2*c2/4 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)
+    k0[i2*dof+4, i1*dof+0] += Ac*((B12*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + B16*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + (B26*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + B66*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)
+    k0[i2*dof+4, i1*dof+1] += Ac*((B22*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + B26*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + (B26*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + B66*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)
     k0[i2*dof+4, i1*dof+2] += Ac*((E44*(b1*c1/4 + 0.0833333333333333*b2*c2 + 0.166666666666667*b3*c3)/Ac + E45*(0.166666666666667*Ac1 + 0.0833333333333333*a3*c3 - b1*d1/4 - 0.0833333333333333*b2*d2 - b3*d3/4)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + (E45*(b1*c1/4 + 0.0833333333333333*b2*c2 + 0.166666666666667*b3*c3)/Ac + E55*(0.166666666666667*Ac1 + 0.0833333333333333*a3*c3 - b1*d1/4 - 0.0833333333333333*b2*d2 - b3*d3/4)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)
-    k0[i2*dof+4, i1*dof+3] += Ac*((-0.0833333333333333*a2*d2 + 0.0833333333333333*a3*d3)*(E45*(b1*c1/4 + 0.0833333333333333*b2*c2 + 0.166666666666667*b3*c3)/Ac + E55*(0.166666666666667*Ac1 + 0.0833333333333333*a3*c3 - b1*d1/4 - 0.0833333333333333*b2*d2 - b3*d3/4)/Ac)/Ac + (E44*(b1*c1/4 + 0.0833333333333333*b2*c2 + 0.166666666666667*b3*c3)/Ac + E45*(0.166666666666667*Ac1 + 0.0833333333333333*a3*c3 - b1*d1/4 - 0.0833333333333333*b2*d2 - b3*d3/4)/Ac)*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a2*c2 - 0.0833333333333333*b3*d3)/Ac + (D11*(-d1/2 - 0.166666666666667*d2 - d3/2)/Ac + D12*(-0.166666666666667*a1 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + D16*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + (D16*(-d1/2 - 0.166666666666667*d2 - d3/2)/Ac + D26*(-0.166666666666667*a1 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + D66*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)
-    k0[i2*dof+4, i1*dof+4] += Ac*(-0.166666666666667*d2*(D11*(-d1/2 - 0.166666666666667*d2 - d3/2)/Ac + D12*(-0.166666666666667*a1 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + D16*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)/Ac + (0.0833333333333333*b2*c2 - 0.0833333333333333*b3*c3)*(E44*(b1*c1/4 + 0.0833333333333333*b2*c2 + 0.166666666666667*b3*c3)/Ac + E45*(0.166666666666667*Ac1 + 0.0833333333333333*a3*c3 - b1*d1/4 - 0.0833333333333333*b2*d2 - b3*d3/4)/Ac)/Ac + (E45*(b1*c1/4 + 0.0833333333333333*b2*c2 + 0.166666666666667*b3*c3)/Ac + E55*(0.166666666666667*Ac1 + 0.0833333333333333*a3*c3 - b1*d1/4 - 0.0833333333333333*b2*d2 - b3*d3/4)/Ac)*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac + (D12*(-d1/2 - 0.166666666666667*d2 - d3/2)/Ac + D22*(-0.166666666666667*a1 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + D26*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + d2/2 + d3/2)/Ac + (D16*(-d1/2 - 0.166666666666667*d2 - d3/2)/Ac + D26*(-0.166666666666667*a1 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + D66*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)
-    k0[i2*dof+4, i2*dof+0] += Ac*((B11*(-d1/2 - 0.166666666666667*d2 - d3/2)/Ac + B12*(-0.166666666666667*a1 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + B16*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + (B16*(-d1/2 - 0.166666666666667*d2 - d3/2)/Ac + B26*(-0.166666666666667*a1 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + B66*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)
-    k0[i2*dof+4, i2*dof+1] += Ac*((B12*(-d1/2 - 0.166666666666667*d2 - d3/2)/Ac + B22*(-0.166666666666667*a1 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + B26*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + (B16*(-d1/2 - 0.166666666666667*d2 - d3/2)/Ac + B26*(-0.166666666666667*a1 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + B66*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)
+    k0[i2*dof+4, i1*dof+3] += Ac*((-0.0833333333333333*a2*d2 + 0.0833333333333333*a3*d3)*(E45*(b1*c1/4 + 0.0833333333333333*b2*c2 + 0.166666666666667*b3*c3)/Ac + E55*(0.166666666666667*Ac1 + 0.0833333333333333*a3*c3 - b1*d1/4 - 0.0833333333333333*b2*d2 - b3*d3/4)/Ac)/Ac + (D12*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + D16*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + (D26*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + D66*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + (E44*(b1*c1/4 + 0.0833333333333333*b2*c2 + 0.166666666666667*b3*c3)/Ac + E45*(0.166666666666667*Ac1 + 0.0833333333333333*a3*c3 - b1*d1/4 - 0.0833333333333333*b2*d2 - b3*d3/4)/Ac)*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a2*c2 - 0.0833333333333333*b3*d3)/Ac)
+    k0[i2*dof+4, i1*dof+4] += Ac*((0.0833333333333333*b2*c2 - 0.0833333333333333*b3*c3)*(E44*(b1*c1/4 + 0.0833333333333333*b2*c2 + 0.166666666666667*b3*c3)/Ac + E45*(0.166666666666667*Ac1 + 0.0833333333333333*a3*c3 - b1*d1/4 - 0.0833333333333333*b2*d2 - b3*d3/4)/Ac)/Ac + (D22*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + D26*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + (D26*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + D66*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + (E45*(b1*c1/4 + 0.0833333333333333*b2*c2 + 0.166666666666667*b3*c3)/Ac + E55*(0.166666666666667*Ac1 + 0.0833333333333333*a3*c3 - b1*d1/4 - 0.0833333333333333*b2*d2 - b3*d3/4)/Ac)*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)
+    k0[i2*dof+4, i2*dof+0] += Ac*((B12*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + B16*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + (B26*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + B66*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)
+    k0[i2*dof+4, i2*dof+1] += Ac*((B22*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + B26*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + (B26*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + B66*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)
     k0[i2*dof+4, i2*dof+2] += Ac*((E44*(b1*c1/4 + 0.0833333333333333*b2*c2 + 0.166666666666667*b3*c3)/Ac + E45*(0.166666666666667*Ac1 + 0.0833333333333333*a3*c3 - b1*d1/4 - 0.0833333333333333*b2*d2 - b3*d3/4)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + (E45*(b1*c1/4 + 0.0833333333333333*b2*c2 + 0.166666666666667*b3*c3)/Ac + E55*(0.166666666666667*Ac1 + 0.0833333333333333*a3*c3 - b1*d1/4 - 0.0833333333333333*b2*d2 - b3*d3/4)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)
-    k0[i2*dof+4, i2*dof+3] += Ac*((E44*(b1*c1/4 + 0.0833333333333333*b2*c2 + 0.166666666666667*b3*c3)/Ac + E45*(0.166666666666667*Ac1 + 0.0833333333333333*a3*c3 - b1*d1/4 - 0.0833333333333333*b2*d2 - b3*d3/4)/Ac)*(0.166666666666667*Ac1 + a1*c1/4 + 0.0833333333333333*a2*c2 + a3*c3/4 - 0.0833333333333333*b3*d3)/Ac + (E45*(b1*c1/4 + 0.0833333333333333*b2*c2 + 0.166666666666667*b3*c3)/Ac + E55*(0.166666666666667*Ac1 + 0.0833333333333333*a3*c3 - b1*d1/4 - 0.0833333333333333*b2*d2 - b3*d3/4)/Ac)*(-a1*d1/4 - 0.0833333333333333*a2*d2 - 0.166666666666667*a3*d3)/Ac + (D11*(-d1/2 - 0.166666666666667*d2 - d3/2)/Ac + D12*(-0.166666666666667*a1 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + D16*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + (D16*(-d1/2 - 0.166666666666667*d2 - d3/2)/Ac + D26*(-0.166666666666667*a1 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + D66*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)
-    k0[i2*dof+4, i2*dof+4] += Ac*((E44*(b1*c1/4 + 0.0833333333333333*b2*c2 + 0.166666666666667*b3*c3)/Ac + E45*(0.166666666666667*Ac1 + 0.0833333333333333*a3*c3 - b1*d1/4 - 0.0833333333333333*b2*d2 - b3*d3/4)/Ac)*(b1*c1/4 + 0.0833333333333333*b2*c2 + 0.166666666666667*b3*c3)/Ac + (E45*(b1*c1/4 + 0.0833333333333333*b2*c2 + 0.166666666666667*b3*c3)/Ac + E55*(0.166666666666667*Ac1 + 0.0833333333333333*a3*c3 - b1*d1/4 - 0.0833333333333333*b2*d2 - b3*d3/4)/Ac)*(0.166666666666667*Ac1 + 0.0833333333333333*a3*c3 - b1*d1/4 - 0.0833333333333333*b2*d2 - b3*d3/4)/Ac + (-0.166666666666667*a1 + 0.166666666666667*a3 + 0.166666666666667*d1)*(D12*(-d1/2 - 0.166666666666667*d2 - d3/2)/Ac + D22*(-0.166666666666667*a1 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + D26*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)/Ac + (-d1/2 - 0.166666666666667*d2 - d3/2)*(D11*(-d1/2 - 0.166666666666667*d2 - d3/2)/Ac + D12*(-0.166666666666667*a1 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + D16*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)/Ac + (D16*(-d1/2 - 0.166666666666667*d2 - d3/2)/Ac + D26*(-0.166666666666667*a1 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + D66*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)
-    k0[i2*dof+4, i3*dof+0] += Ac*((B11*(-d1/2 - 0.166666666666667*d2 - d3/2)/Ac + B12*(-0.166666666666667*a1 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + B16*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + (B16*(-d1/2 - 0.166666666666667*d2 - d3/2)/Ac + B26*(-0.166666666666667*a1 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + B66*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)
-    k0[i2*dof+4, i3*dof+1] += Ac*((B12*(-d1/2 - 0.166666666666667*d2 - d3/2)/Ac + B22*(-0.166666666666667*a1 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + B26*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + (B16*(-d1/2 - 0.166666666666667*d2 - d3/2)/Ac + B26*(-0.166666666666667*a1 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + B66*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)
+    k0[i2*dof+4, i2*dof+3] += Ac*((D12*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + D16*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + (D26*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + D66*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + (E44*(b1*c1/4 + 0.0833333333333333*b2*c2 + 0.166666666666667*b3*c3)/Ac + E45*(0.166666666666667*Ac1 + 0.0833333333333333*a3*c3 - b1*d1/4 - 0.0833333333333333*b2*d2 - b3*d3/4)/Ac)*(0.166666666666667*Ac1 + a1*c1/4 + 0.0833333333333333*a2*c2 + a3*c3/4 - 0.0833333333333333*b3*d3)/Ac + (E45*(b1*c1/4 + 0.0833333333333333*b2*c2 + 0.166666666666667*b3*c3)/Ac + E55*(0.166666666666667*Ac1 + 0.0833333333333333*a3*c3 - b1*d1/4 - 0.0833333333333333*b2*d2 - b3*d3/4)/Ac)*(-a1*d1/4 - 0.0833333333333333*a2*d2 - 0.166666666666667*a3*d3)/Ac)
+    k0[i2*dof+4, i2*dof+4] += Ac*((D22*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + D26*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + (D26*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + D66*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + (E44*(b1*c1/4 + 0.0833333333333333*b2*c2 + 0.166666666666667*b3*c3)/Ac + E45*(0.166666666666667*Ac1 + 0.0833333333333333*a3*c3 - b1*d1/4 - 0.0833333333333333*b2*d2 - b3*d3/4)/Ac)*(b1*c1/4 + 0.0833333333333333*b2*c2 + 0.166666666666667*b3*c3)/Ac + (E45*(b1*c1/4 + 0.0833333333333333*b2*c2 + 0.166666666666667*b3*c3)/Ac + E55*(0.166666666666667*Ac1 + 0.0833333333333333*a3*c3 - b1*d1/4 - 0.0833333333333333*b2*d2 - b3*d3/4)/Ac)*(0.166666666666667*Ac1 + 0.0833333333333333*a3*c3 - b1*d1/4 - 0.0833333333333333*b2*d2 - b3*d3/4)/Ac)
+    k0[i2*dof+4, i3*dof+0] += Ac*((B12*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + B16*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + (B26*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + B66*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)
+    k0[i2*dof+4, i3*dof+1] += Ac*((B22*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + B26*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + (B26*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + B66*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)
     k0[i2*dof+4, i3*dof+2] += Ac*((E44*(b1*c1/4 + 0.0833333333333333*b2*c2 + 0.166666666666667*b3*c3)/Ac + E45*(0.166666666666667*Ac1 + 0.0833333333333333*a3*c3 - b1*d1/4 - 0.0833333333333333*b2*d2 - b3*d3/4)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + (E45*(b1*c1/4 + 0.0833333333333333*b2*c2 + 0.166666666666667*b3*c3)/Ac + E55*(0.166666666666667*Ac1 + 0.0833333333333333*a3*c3 - b1*d1/4 - 0.0833333333333333*b2*d2 - b3*d3/4)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)
-    k0[i2*dof+4, i3*dof+3] += Ac*((E44*(b1*c1/4 + 0.0833333333333333*b2*c2 + 0.166666666666667*b3*c3)/Ac + E45*(0.166666666666667*Ac1 + 0.0833333333333333*a3*c3 - b1*d1/4 - 0.0833333333333333*b2*d2 - b3*d3/4)/Ac)*(0.166666666666667*Ac1 + 0.0833333333333333*a2*c2 - b1*d1/4 - b2*d2/4 - 0.0833333333333333*b3*d3)/Ac + (E45*(b1*c1/4 + 0.0833333333333333*b2*c2 + 0.166666666666667*b3*c3)/Ac + E55*(0.166666666666667*Ac1 + 0.0833333333333333*a3*c3 - b1*d1/4 - 0.0833333333333333*b2*d2 - b3*d3/4)/Ac)*(a1*d1/4 + 0.166666666666667*a2*d2 + 0.0833333333333333*a3*d3)/Ac + (D11*(-d1/2 - 0.166666666666667*d2 - d3/2)/Ac + D12*(-0.166666666666667*a1 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + D16*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + (D16*(-d1/2 - 0.166666666666667*d2 - d3/2)/Ac + D26*(-0.166666666666667*a1 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + D66*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)
-    k0[i2*dof+4, i3*dof+4] += Ac*(-0.166666666666667*d2*(D11*(-d1/2 - 0.166666666666667*d2 - d3/2)/Ac + D12*(-0.166666666666667*a1 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + D16*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)/Ac + (E44*(b1*c1/4 + 0.0833333333333333*b2*c2 + 0.166666666666667*b3*c3)/Ac + E45*(0.166666666666667*Ac1 + 0.0833333333333333*a3*c3 - b1*d1/4 - 0.0833333333333333*b2*d2 - b3*d3/4)/Ac)*(-b1*c1/4 - 0.166666666666667*b2*c2 - 0.0833333333333333*b3*c3)/Ac + (E45*(b1*c1/4 + 0.0833333333333333*b2*c2 + 0.166666666666667*b3*c3)/Ac + E55*(0.166666666666667*Ac1 + 0.0833333333333333*a3*c3 - b1*d1/4 - 0.0833333333333333*b2*d2 - b3*d3/4)/Ac)*(0.166666666666667*Ac1 + a1*c1/4 + a2*c2/4 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac + (D12*(-d1/2 - 0.166666666666667*d2 - d3/2)/Ac + D22*(-0.166666666666667*a1 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + D26*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + (D16*(-d1/2 - 0.166666666666667*d2 - d3/2)/Ac + D26*(-0.166666666666667*a1 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + D66*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)
+    k0[i2*dof+4, i3*dof+3] += Ac*((D12*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + D16*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + (D26*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + D66*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + (E44*(b1*c1/4 + 0.0833333333333333*b2*c2 + 0.166666666666667*b3*c3)/Ac + E45*(0.166666666666667*Ac1 + 0.0833333333333333*a3*c3 - b1*d1/4 - 0.0833333333333333*b2*d2 - b3*d3/4)/Ac)*(0.166666666666667*Ac1 + 0.0833333333333333*a2*c2 - b1*d1/4 - b2*d2/4 - 0.0833333333333333*b3*d3)/Ac + (E45*(b1*c1/4 + 0.0833333333333333*b2*c2 + 0.166666666666667*b3*c3)/Ac + E55*(0.166666666666667*Ac1 + 0.0833333333333333*a3*c3 - b1*d1/4 - 0.0833333333333333*b2*d2 - b3*d3/4)/Ac)*(a1*d1/4 + 0.166666666666667*a2*d2 + 0.0833333333333333*a3*d3)/Ac)
+    k0[i2*dof+4, i3*dof+4] += Ac*((D22*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + D26*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + (D26*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + D66*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + (E44*(b1*c1/4 + 0.0833333333333333*b2*c2 + 0.166666666666667*b3*c3)/Ac + E45*(0.166666666666667*Ac1 + 0.0833333333333333*a3*c3 - b1*d1/4 - 0.0833333333333333*b2*d2 - b3*d3/4)/Ac)*(-b1*c1/4 - 0.166666666666667*b2*c2 - 0.0833333333333333*b3*c3)/Ac + (E45*(b1*c1/4 + 0.0833333333333333*b2*c2 + 0.166666666666667*b3*c3)/Ac + E55*(0.166666666666667*Ac1 + 0.0833333333333333*a3*c3 - b1*d1/4 - 0.0833333333333333*b2*d2 - b3*d3/4)/Ac)*(0.166666666666667*Ac1 + a1*c1/4 + a2*c2/4 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)
     k0[i3*dof+0, i1*dof+0] += Ac*((A11*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + A16*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + (A16*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + A66*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)
     k0[i3*dof+0, i1*dof+1] += Ac*((A12*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + A26*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + (A16*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + A66*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)
     k0[i3*dof+0, i1*dof+3] += Ac*((B11*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + B16*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + (B16*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + B66*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)
-    k0[i3*dof+0, i1*dof+4] += Ac*(-0.166666666666667*d2*(B11*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + B16*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)/Ac + (B12*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + B26*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + d2/2 + d3/2)/Ac + (B16*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + B66*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)
+    k0[i3*dof+0, i1*dof+4] += Ac*((B12*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + B26*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + (B16*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + B66*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)
     k0[i3*dof+0, i2*dof+0] += Ac*((A11*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + A16*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + (A16*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + A66*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)
     k0[i3*dof+0, i2*dof+1] += Ac*((A12*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + A26*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + (A16*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + A66*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)
     k0[i3*dof+0, i2*dof+3] += Ac*((B11*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + B16*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + (B16*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + B66*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)
-    k0[i3*dof+0, i2*dof+4] += Ac*((B11*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + B16*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(-d1/2 - 0.166666666666667*d2 - d3/2)/Ac + (B12*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + B26*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + (B16*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + B66*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)
+    k0[i3*dof+0, i2*dof+4] += Ac*((B12*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + B26*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + (B16*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + B66*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)
     k0[i3*dof+0, i3*dof+0] += Ac*((A11*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + A16*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + (A16*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + A66*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)
     k0[i3*dof+0, i3*dof+1] += Ac*((A12*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + A26*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + (A16*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + A66*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)
     k0[i3*dof+0, i3*dof+3] += Ac*((B11*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + B16*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + (B16*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + B66*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)
-    k0[i3*dof+0, i3*dof+4] += Ac*(-0.166666666666667*d2*(B11*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + B16*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)/Ac + (B12*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + B26*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + (B16*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + B66*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)
+    k0[i3*dof+0, i3*dof+4] += Ac*((B12*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + B26*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + (B16*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + B66*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)
     k0[i3*dof+1, i1*dof+0] += Ac*((A12*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + A16*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + (A26*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + A66*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)
     k0[i3*dof+1, i1*dof+1] += Ac*((A22*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + A26*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + (A26*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + A66*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)
     k0[i3*dof+1, i1*dof+3] += Ac*((B12*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + B16*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + (B26*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + B66*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)
-    k0[i3*dof+1, i1*dof+4] += Ac*(-0.166666666666667*d2*(B12*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + B16*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)/Ac + (B22*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + B26*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + d2/2 + d3/2)/Ac + (B26*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + B66*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)
+    k0[i3*dof+1, i1*dof+4] += Ac*((B22*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + B26*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + (B26*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + B66*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)
     k0[i3*dof+1, i2*dof+0] += Ac*((A12*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + A16*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + (A26*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + A66*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)
     k0[i3*dof+1, i2*dof+1] += Ac*((A22*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + A26*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + (A26*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + A66*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)
     k0[i3*dof+1, i2*dof+3] += Ac*((B12*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + B16*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + (B26*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + B66*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)
-    k0[i3*dof+1, i2*dof+4] += Ac*((B12*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + B16*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(-d1/2 - 0.166666666666667*d2 - d3/2)/Ac + (B22*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + B26*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + (B26*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + B66*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)
+    k0[i3*dof+1, i2*dof+4] += Ac*((B22*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + B26*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + (B26*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + B66*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)
     k0[i3*dof+1, i3*dof+0] += Ac*((A12*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + A16*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + (A26*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + A66*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)
     k0[i3*dof+1, i3*dof+1] += Ac*((A22*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + A26*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + (A26*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + A66*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)
     k0[i3*dof+1, i3*dof+3] += Ac*((B12*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + B16*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + (B26*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + B66*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)
-    k0[i3*dof+1, i3*dof+4] += Ac*(-0.166666666666667*d2*(B12*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + B16*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)/Ac + (B22*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + B26*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + (B26*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + B66*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)
+    k0[i3*dof+1, i3*dof+4] += Ac*((B22*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + B26*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + (B26*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + B66*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)
     k0[i3*dof+2, i1*dof+2] += Ac*((E44*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + E45*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + (E45*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + E55*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)
     k0[i3*dof+2, i1*dof+3] += Ac*((-0.0833333333333333*a2*d2 + 0.0833333333333333*a3*d3)*(E45*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + E55*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)/Ac + (E44*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + E45*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a2*c2 - 0.0833333333333333*b3*d3)/Ac)
     k0[i3*dof+2, i1*dof+4] += Ac*((0.0833333333333333*b2*c2 - 0.0833333333333333*b3*c3)*(E44*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + E45*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)/Ac + (E45*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + E55*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)
@@ -468,32 +468,32 @@ for tria in trias:
     k0[i3*dof+3, i1*dof+1] += Ac*((B12*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + B26*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + (B16*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + B66*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)
     k0[i3*dof+3, i1*dof+2] += Ac*((E44*(0.166666666666667*Ac1 + 0.0833333333333333*a2*c2 - b1*d1/4 - b2*d2/4 - 0.0833333333333333*b3*d3)/Ac + E45*(a1*d1/4 + 0.166666666666667*a2*d2 + 0.0833333333333333*a3*d3)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + (E45*(0.166666666666667*Ac1 + 0.0833333333333333*a2*c2 - b1*d1/4 - b2*d2/4 - 0.0833333333333333*b3*d3)/Ac + E55*(a1*d1/4 + 0.166666666666667*a2*d2 + 0.0833333333333333*a3*d3)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)
     k0[i3*dof+3, i1*dof+3] += Ac*((-0.0833333333333333*a2*d2 + 0.0833333333333333*a3*d3)*(E45*(0.166666666666667*Ac1 + 0.0833333333333333*a2*c2 - b1*d1/4 - b2*d2/4 - 0.0833333333333333*b3*d3)/Ac + E55*(a1*d1/4 + 0.166666666666667*a2*d2 + 0.0833333333333333*a3*d3)/Ac)/Ac + (D11*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + D16*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + (D16*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + D66*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + (E44*(0.166666666666667*Ac1 + 0.0833333333333333*a2*c2 - b1*d1/4 - b2*d2/4 - 0.0833333333333333*b3*d3)/Ac + E45*(a1*d1/4 + 0.166666666666667*a2*d2 + 0.0833333333333333*a3*d3)/Ac)*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a2*c2 - 0.0833333333333333*b3*d3)/Ac)
-    k0[i3*dof+3, i1*dof+4] += Ac*(-0.166666666666667*d2*(D11*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + D16*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)/Ac + (0.0833333333333333*b2*c2 - 0.0833333333333333*b3*c3)*(E44*(0.166666666666667*Ac1 + 0.0833333333333333*a2*c2 - b1*d1/4 - b2*d2/4 - 0.0833333333333333*b3*d3)/Ac + E45*(a1*d1/4 + 0.166666666666667*a2*d2 + 0.0833333333333333*a3*d3)/Ac)/Ac + (D12*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + D26*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + d2/2 + d3/2)/Ac + (D16*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + D66*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + (E45*(0.166666666666667*Ac1 + 0.0833333333333333*a2*c2 - b1*d1/4 - b2*d2/4 - 0.0833333333333333*b3*d3)/Ac + E55*(a1*d1/4 + 0.166666666666667*a2*d2 + 0.0833333333333333*a3*d3)/Ac)*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)
+    k0[i3*dof+3, i1*dof+4] += Ac*((0.0833333333333333*b2*c2 - 0.0833333333333333*b3*c3)*(E44*(0.166666666666667*Ac1 + 0.0833333333333333*a2*c2 - b1*d1/4 - b2*d2/4 - 0.0833333333333333*b3*d3)/Ac + E45*(a1*d1/4 + 0.166666666666667*a2*d2 + 0.0833333333333333*a3*d3)/Ac)/Ac + (D12*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + D26*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + (D16*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + D66*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + (E45*(0.166666666666667*Ac1 + 0.0833333333333333*a2*c2 - b1*d1/4 - b2*d2/4 - 0.0833333333333333*b3*d3)/Ac + E55*(a1*d1/4 + 0.166666666666667*a2*d2 + 0.0833333333333333*a3*d3)/Ac)*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)
     k0[i3*dof+3, i2*dof+0] += Ac*((B11*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + B16*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + (B16*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + B66*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)
     k0[i3*dof+3, i2*dof+1] += Ac*((B12*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + B26*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + (B16*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + B66*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)
     k0[i3*dof+3, i2*dof+2] += Ac*((E44*(0.166666666666667*Ac1 + 0.0833333333333333*a2*c2 - b1*d1/4 - b2*d2/4 - 0.0833333333333333*b3*d3)/Ac + E45*(a1*d1/4 + 0.166666666666667*a2*d2 + 0.0833333333333333*a3*d3)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + (E45*(0.166666666666667*Ac1 + 0.0833333333333333*a2*c2 - b1*d1/4 - b2*d2/4 - 0.0833333333333333*b3*d3)/Ac + E55*(a1*d1/4 + 0.166666666666667*a2*d2 + 0.0833333333333333*a3*d3)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)
     k0[i3*dof+3, i2*dof+3] += Ac*((D11*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + D16*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + (D16*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + D66*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + (E44*(0.166666666666667*Ac1 + 0.0833333333333333*a2*c2 - b1*d1/4 - b2*d2/4 - 0.0833333333333333*b3*d3)/Ac + E45*(a1*d1/4 + 0.166666666666667*a2*d2 + 0.0833333333333333*a3*d3)/Ac)*(0.166666666666667*Ac1 + a1*c1/4 + 0.0833333333333333*a2*c2 + a3*c3/4 - 0.0833333333333333*b3*d3)/Ac + (E45*(0.166666666666667*Ac1 + 0.0833333333333333*a2*c2 - b1*d1/4 - b2*d2/4 - 0.0833333333333333*b3*d3)/Ac + E55*(a1*d1/4 + 0.166666666666667*a2*d2 + 0.0833333333333333*a3*d3)/Ac)*(-a1*d1/4 - 0.0833333333333333*a2*d2 - 0.166666666666667*a3*d3)/Ac)
-    k0[i3*dof+3, i2*dof+4] += Ac*((D11*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + D16*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(-d1/2 - 0.166666666666667*d2 - d3/2)/Ac + (D12*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + D26*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + (D16*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + D66*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + (E44*(0.166666666666667*Ac1 + 0.0833333333333333*a2*c2 - b1*d1/4 - b2*d2/4 - 0.0833333333333333*b3*d3)/Ac + E45*(a1*d1/4 + 0.166666666666667*a2*d2 + 0.0833333333333333*a3*d3)/Ac)*(b1*c1/4 + 0.0833333333333333*b2*c2 + 0.166666666666667*b3*c3)/Ac + (E45*(0.166666666666667*Ac1 + 0.0833333333333333*a2*c2 - b1*d1/4 - b2*d2/4 - 0.0833333333333333*b3*d3)/Ac + E55*(a1*d1/4 + 0.166666666666667*a2*d2 + 0.0833333333333333*a3*d3)/Ac)*(0.166666666666667*Ac1 + 0.0833333333333333*a3*c3 - b1*d1/4 - 0.0833333333333333*b2*d2 - b3*d3/4)/Ac)
+    k0[i3*dof+3, i2*dof+4] += Ac*((D12*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + D26*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + (D16*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + D66*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + (E44*(0.166666666666667*Ac1 + 0.0833333333333333*a2*c2 - b1*d1/4 - b2*d2/4 - 0.0833333333333333*b3*d3)/Ac + E45*(a1*d1/4 + 0.166666666666667*a2*d2 + 0.0833333333333333*a3*d3)/Ac)*(b1*c1/4 + 0.0833333333333333*b2*c2 + 0.166666666666667*b3*c3)/Ac + (E45*(0.166666666666667*Ac1 + 0.0833333333333333*a2*c2 - b1*d1/4 - b2*d2/4 - 0.0833333333333333*b3*d3)/Ac + E55*(a1*d1/4 + 0.166666666666667*a2*d2 + 0.0833333333333333*a3*d3)/Ac)*(0.166666666666667*Ac1 + 0.0833333333333333*a3*c3 - b1*d1/4 - 0.0833333333333333*b2*d2 - b3*d3/4)/Ac)
     k0[i3*dof+3, i3*dof+0] += Ac*((B11*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + B16*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + (B16*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + B66*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)
     k0[i3*dof+3, i3*dof+1] += Ac*((B12*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + B26*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + (B16*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + B66*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)
     k0[i3*dof+3, i3*dof+2] += Ac*((E44*(0.166666666666667*Ac1 + 0.0833333333333333*a2*c2 - b1*d1/4 - b2*d2/4 - 0.0833333333333333*b3*d3)/Ac + E45*(a1*d1/4 + 0.166666666666667*a2*d2 + 0.0833333333333333*a3*d3)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + (E45*(0.166666666666667*Ac1 + 0.0833333333333333*a2*c2 - b1*d1/4 - b2*d2/4 - 0.0833333333333333*b3*d3)/Ac + E55*(a1*d1/4 + 0.166666666666667*a2*d2 + 0.0833333333333333*a3*d3)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)
     k0[i3*dof+3, i3*dof+3] += Ac*((D11*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + D16*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + (D16*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + D66*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + (E44*(0.166666666666667*Ac1 + 0.0833333333333333*a2*c2 - b1*d1/4 - b2*d2/4 - 0.0833333333333333*b3*d3)/Ac + E45*(a1*d1/4 + 0.166666666666667*a2*d2 + 0.0833333333333333*a3*d3)/Ac)*(0.166666666666667*Ac1 + 0.0833333333333333*a2*c2 - b1*d1/4 - b2*d2/4 - 0.0833333333333333*b3*d3)/Ac + (E45*(0.166666666666667*Ac1 + 0.0833333333333333*a2*c2 - b1*d1/4 - b2*d2/4 - 0.0833333333333333*b3*d3)/Ac + E55*(a1*d1/4 + 0.166666666666667*a2*d2 + 0.0833333333333333*a3*d3)/Ac)*(a1*d1/4 + 0.166666666666667*a2*d2 + 0.0833333333333333*a3*d3)/Ac)
-    k0[i3*dof+3, i3*dof+4] += Ac*(-0.166666666666667*d2*(D11*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + D16*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)/Ac + (D12*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + D26*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + (D16*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + D66*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + (E44*(0.166666666666667*Ac1 + 0.0833333333333333*a2*c2 - b1*d1/4 - b2*d2/4 - 0.0833333333333333*b3*d3)/Ac + E45*(a1*d1/4 + 0.166666666666667*a2*d2 + 0.0833333333333333*a3*d3)/Ac)*(-b1*c1/4 - 0.166666666666667*b2*c2 - 0.0833333333333333*b3*c3)/Ac + (E45*(0.166666666666667*Ac1 + 0.0833333333333333*a2*c2 - b1*d1/4 - b2*d2/4 - 0.0833333333333333*b3*d3)/Ac + E55*(a1*d1/4 + 0.166666666666667*a2*d2 + 0.0833333333333333*a3*d3)/Ac)*(0.166666666666667*Ac1 + a1*c1/4 + a2*c2/4 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)
-    k0[i3*dof+4, i1*dof+0] += Ac*((-0.166666666666667*B11*d2/Ac + B12*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + B16*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + (-0.166666666666667*B16*d2/Ac + B26*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + B66*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)
-    k0[i3*dof+4, i1*dof+1] += Ac*((-0.166666666666667*B12*d2/Ac + B22*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + B26*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + (-0.166666666666667*B16*d2/Ac + B26*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + B66*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)
+    k0[i3*dof+3, i3*dof+4] += Ac*((D12*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + D26*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + (D16*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + D66*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + (E44*(0.166666666666667*Ac1 + 0.0833333333333333*a2*c2 - b1*d1/4 - b2*d2/4 - 0.0833333333333333*b3*d3)/Ac + E45*(a1*d1/4 + 0.166666666666667*a2*d2 + 0.0833333333333333*a3*d3)/Ac)*(-b1*c1/4 - 0.166666666666667*b2*c2 - 0.0833333333333333*b3*c3)/Ac + (E45*(0.166666666666667*Ac1 + 0.0833333333333333*a2*c2 - b1*d1/4 - b2*d2/4 - 0.0833333333333333*b3*d3)/Ac + E55*(a1*d1/4 + 0.166666666666667*a2*d2 + 0.0833333333333333*a3*d3)/Ac)*(0.166666666666667*Ac1 + a1*c1/4 + a2*c2/4 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)
+    k0[i3*dof+4, i1*dof+0] += Ac*((B12*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + B16*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + (B26*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + B66*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)
+    k0[i3*dof+4, i1*dof+1] += Ac*((B22*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + B26*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + (B26*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + B66*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)
     k0[i3*dof+4, i1*dof+2] += Ac*((E44*(-b1*c1/4 - 0.166666666666667*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E45*(0.166666666666667*Ac1 + a1*c1/4 + a2*c2/4 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + (E45*(-b1*c1/4 - 0.166666666666667*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E55*(0.166666666666667*Ac1 + a1*c1/4 + a2*c2/4 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)
-    k0[i3*dof+4, i1*dof+3] += Ac*((-0.0833333333333333*a2*d2 + 0.0833333333333333*a3*d3)*(E45*(-b1*c1/4 - 0.166666666666667*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E55*(0.166666666666667*Ac1 + a1*c1/4 + a2*c2/4 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)/Ac + (E44*(-b1*c1/4 - 0.166666666666667*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E45*(0.166666666666667*Ac1 + a1*c1/4 + a2*c2/4 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a2*c2 - 0.0833333333333333*b3*d3)/Ac + (-0.166666666666667*D11*d2/Ac + D12*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + D16*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + (-0.166666666666667*D16*d2/Ac + D26*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + D66*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)
-    k0[i3*dof+4, i1*dof+4] += Ac*(-0.166666666666667*d2*(-0.166666666666667*D11*d2/Ac + D12*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + D16*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)/Ac + (0.0833333333333333*b2*c2 - 0.0833333333333333*b3*c3)*(E44*(-b1*c1/4 - 0.166666666666667*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E45*(0.166666666666667*Ac1 + a1*c1/4 + a2*c2/4 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)/Ac + (E45*(-b1*c1/4 - 0.166666666666667*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E55*(0.166666666666667*Ac1 + a1*c1/4 + a2*c2/4 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac + (-0.166666666666667*D12*d2/Ac + D22*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + D26*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + d2/2 + d3/2)/Ac + (-0.166666666666667*D16*d2/Ac + D26*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + D66*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)
-    k0[i3*dof+4, i2*dof+0] += Ac*((-0.166666666666667*B11*d2/Ac + B12*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + B16*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + (-0.166666666666667*B16*d2/Ac + B26*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + B66*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)
-    k0[i3*dof+4, i2*dof+1] += Ac*((-0.166666666666667*B12*d2/Ac + B22*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + B26*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + (-0.166666666666667*B16*d2/Ac + B26*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + B66*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)
+    k0[i3*dof+4, i1*dof+3] += Ac*((-0.0833333333333333*a2*d2 + 0.0833333333333333*a3*d3)*(E45*(-b1*c1/4 - 0.166666666666667*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E55*(0.166666666666667*Ac1 + a1*c1/4 + a2*c2/4 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)/Ac + (D12*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + D16*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + (D26*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + D66*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + (E44*(-b1*c1/4 - 0.166666666666667*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E45*(0.166666666666667*Ac1 + a1*c1/4 + a2*c2/4 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a2*c2 - 0.0833333333333333*b3*d3)/Ac)
+    k0[i3*dof+4, i1*dof+4] += Ac*((0.0833333333333333*b2*c2 - 0.0833333333333333*b3*c3)*(E44*(-b1*c1/4 - 0.166666666666667*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E45*(0.166666666666667*Ac1 + a1*c1/4 + a2*c2/4 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)/Ac + (D22*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + D26*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + (D26*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + D66*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + (E45*(-b1*c1/4 - 0.166666666666667*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E55*(0.166666666666667*Ac1 + a1*c1/4 + a2*c2/4 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)
+    k0[i3*dof+4, i2*dof+0] += Ac*((B12*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + B16*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + (B26*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + B66*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)
+    k0[i3*dof+4, i2*dof+1] += Ac*((B22*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + B26*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + (B26*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + B66*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)
     k0[i3*dof+4, i2*dof+2] += Ac*((E44*(-b1*c1/4 - 0.166666666666667*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E45*(0.166666666666667*Ac1 + a1*c1/4 + a2*c2/4 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + (E45*(-b1*c1/4 - 0.166666666666667*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E55*(0.166666666666667*Ac1 + a1*c1/4 + a2*c2/4 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)
-    k0[i3*dof+4, i2*dof+3] += Ac*((E44*(-b1*c1/4 - 0.166666666666667*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E45*(0.166666666666667*Ac1 + a1*c1/4 + a2*c2/4 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)*(0.166666666666667*Ac1 + a1*c1/4 + 0.0833333333333333*a2*c2 + a3*c3/4 - 0.0833333333333333*b3*d3)/Ac + (E45*(-b1*c1/4 - 0.166666666666667*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E55*(0.166666666666667*Ac1 + a1*c1/4 + a2*c2/4 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)*(-a1*d1/4 - 0.0833333333333333*a2*d2 - 0.166666666666667*a3*d3)/Ac + (-0.166666666666667*D11*d2/Ac + D12*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + D16*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + (-0.166666666666667*D16*d2/Ac + D26*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + D66*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)
-    k0[i3*dof+4, i2*dof+4] += Ac*((E44*(-b1*c1/4 - 0.166666666666667*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E45*(0.166666666666667*Ac1 + a1*c1/4 + a2*c2/4 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)*(b1*c1/4 + 0.0833333333333333*b2*c2 + 0.166666666666667*b3*c3)/Ac + (E45*(-b1*c1/4 - 0.166666666666667*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E55*(0.166666666666667*Ac1 + a1*c1/4 + a2*c2/4 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)*(0.166666666666667*Ac1 + 0.0833333333333333*a3*c3 - b1*d1/4 - 0.0833333333333333*b2*d2 - b3*d3/4)/Ac + (-0.166666666666667*a1 + 0.166666666666667*a3 + 0.166666666666667*d1)*(-0.166666666666667*D12*d2/Ac + D22*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + D26*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)/Ac + (-d1/2 - 0.166666666666667*d2 - d3/2)*(-0.166666666666667*D11*d2/Ac + D12*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + D16*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)/Ac + (-0.166666666666667*D16*d2/Ac + D26*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + D66*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)
-    k0[i3*dof+4, i3*dof+0] += Ac*((-0.166666666666667*B11*d2/Ac + B12*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + B16*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + (-0.166666666666667*B16*d2/Ac + B26*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + B66*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)
-    k0[i3*dof+4, i3*dof+1] += Ac*((-0.166666666666667*B12*d2/Ac + B22*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + B26*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + (-0.166666666666667*B16*d2/Ac + B26*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + B66*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)
+    k0[i3*dof+4, i2*dof+3] += Ac*((D12*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + D16*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + (D26*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + D66*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + (E44*(-b1*c1/4 - 0.166666666666667*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E45*(0.166666666666667*Ac1 + a1*c1/4 + a2*c2/4 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)*(0.166666666666667*Ac1 + a1*c1/4 + 0.0833333333333333*a2*c2 + a3*c3/4 - 0.0833333333333333*b3*d3)/Ac + (E45*(-b1*c1/4 - 0.166666666666667*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E55*(0.166666666666667*Ac1 + a1*c1/4 + a2*c2/4 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)*(-a1*d1/4 - 0.0833333333333333*a2*d2 - 0.166666666666667*a3*d3)/Ac)
+    k0[i3*dof+4, i2*dof+4] += Ac*((D22*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + D26*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + (D26*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + D66*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + (E44*(-b1*c1/4 - 0.166666666666667*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E45*(0.166666666666667*Ac1 + a1*c1/4 + a2*c2/4 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)*(b1*c1/4 + 0.0833333333333333*b2*c2 + 0.166666666666667*b3*c3)/Ac + (E45*(-b1*c1/4 - 0.166666666666667*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E55*(0.166666666666667*Ac1 + a1*c1/4 + a2*c2/4 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)*(0.166666666666667*Ac1 + 0.0833333333333333*a3*c3 - b1*d1/4 - 0.0833333333333333*b2*d2 - b3*d3/4)/Ac)
+    k0[i3*dof+4, i3*dof+0] += Ac*((B12*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + B16*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + (B26*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + B66*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)
+    k0[i3*dof+4, i3*dof+1] += Ac*((B22*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + B26*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + (B26*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + B66*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)
     k0[i3*dof+4, i3*dof+2] += Ac*((E44*(-b1*c1/4 - 0.166666666666667*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E45*(0.166666666666667*Ac1 + a1*c1/4 + a2*c2/4 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + (E45*(-b1*c1/4 - 0.166666666666667*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E55*(0.166666666666667*Ac1 + a1*c1/4 + a2*c2/4 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)
-    k0[i3*dof+4, i3*dof+3] += Ac*((E44*(-b1*c1/4 - 0.166666666666667*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E45*(0.166666666666667*Ac1 + a1*c1/4 + a2*c2/4 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)*(0.166666666666667*Ac1 + 0.0833333333333333*a2*c2 - b1*d1/4 - b2*d2/4 - 0.0833333333333333*b3*d3)/Ac + (E45*(-b1*c1/4 - 0.166666666666667*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E55*(0.166666666666667*Ac1 + a1*c1/4 + a2*c2/4 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)*(a1*d1/4 + 0.166666666666667*a2*d2 + 0.0833333333333333*a3*d3)/Ac + (-0.166666666666667*D11*d2/Ac + D12*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + D16*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + (-0.166666666666667*D16*d2/Ac + D26*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + D66*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)
-    k0[i3*dof+4, i3*dof+4] += Ac*(-0.166666666666667*d2*(-0.166666666666667*D11*d2/Ac + D12*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + D16*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)/Ac + (E44*(-b1*c1/4 - 0.166666666666667*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E45*(0.166666666666667*Ac1 + a1*c1/4 + a2*c2/4 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)*(-b1*c1/4 - 0.166666666666667*b2*c2 - 0.0833333333333333*b3*c3)/Ac + (E45*(-b1*c1/4 - 0.166666666666667*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E55*(0.166666666666667*Ac1 + a1*c1/4 + a2*c2/4 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)*(0.166666666666667*Ac1 + a1*c1/4 + a2*c2/4 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac + (-0.166666666666667*D12*d2/Ac + D22*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + D26*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + (-0.166666666666667*D16*d2/Ac + D26*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + D66*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)
+    k0[i3*dof+4, i3*dof+3] += Ac*((D12*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + D16*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + (D26*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + D66*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + (E44*(-b1*c1/4 - 0.166666666666667*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E45*(0.166666666666667*Ac1 + a1*c1/4 + a2*c2/4 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)*(0.166666666666667*Ac1 + 0.0833333333333333*a2*c2 - b1*d1/4 - b2*d2/4 - 0.0833333333333333*b3*d3)/Ac + (E45*(-b1*c1/4 - 0.166666666666667*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E55*(0.166666666666667*Ac1 + a1*c1/4 + a2*c2/4 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)*(a1*d1/4 + 0.166666666666667*a2*d2 + 0.0833333333333333*a3*d3)/Ac)
+    k0[i3*dof+4, i3*dof+4] += Ac*((D22*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + D26*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + (D26*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + D66*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + (E44*(-b1*c1/4 - 0.166666666666667*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E45*(0.166666666666667*Ac1 + a1*c1/4 + a2*c2/4 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)*(-b1*c1/4 - 0.166666666666667*b2*c2 - 0.0833333333333333*b3*c3)/Ac + (E45*(-b1*c1/4 - 0.166666666666667*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E55*(0.166666666666667*Ac1 + a1*c1/4 + a2*c2/4 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)*(0.166666666666667*Ac1 + a1*c1/4 + a2*c2/4 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)
 
 print('Atotal:', Atotal)
 
diff --git a/theory/sfem/stiffmatrices.py b/theory/sfem/stiffmatrices.py
index b54a1d5..10cfe03 100644
--- a/theory/sfem/stiffmatrices.py
+++ b/theory/sfem/stiffmatrices.py
@@ -139,8 +139,8 @@ Bm = 1/Ac*(Ac1*Bm1 + Ac2*Bm2 + Ac3*Bm3)
 
 Bb1 = 1/(2*Ac1)*(Matrix([
          #node1          node 2                node 3
-  [0, 0, 0, 0, 0,    0, 0, 0,  c1, -d1,      0, 0, 0, -b1,   0],
-  [0, 0, 0, 0, 0,    0, 0, 0,   0,   0,      0, 0, 0,   0,  a1],
+  [0, 0, 0, 0, 0,    0, 0, 0,  c1,   0,      0, 0, 0, -b1,   0],
+  [0, 0, 0, 0, 0,    0, 0, 0,   0, -d1,      0, 0, 0,   0,  a1],
   [0, 0, 0, 0, 0,    0, 0, 0, -d1,  c1,      0, 0, 0,  a1, -b1]])
 
   +
@@ -158,15 +158,15 @@ Bb2 = 1/(2*Ac2)*(Matrix([
 
   +
 
-  1/3*Matrix([[0, 0, 0,  c2, -d2,    0, 0, 0,  c2, -d2,    0, 0, 0,  c2, -d2],
-              [0, 0, 0,   0,   0,    0, 0, 0,   0,   0,    0, 0, 0,   0,   0],
+  1/3*Matrix([[0, 0, 0,  c2,   0,    0, 0, 0,  c2,   0,    0, 0, 0,  c2,   0],
+              [0, 0, 0,   0, -d2,    0, 0, 0,   0, -d2,    0, 0, 0,   0, -d2],
               [0, 0, 0, -d2,  c2,    0, 0, 0, -d2,  c2,    0, 0, 0, -d2,  c2]])
       )
 
 Bb3 = 1/(2*Ac3)*(Matrix([
          #node1                  node 2                node 3
-  [0, 0, 0, b3-c3,     0,    0, 0, 0,  c3, -d3,      0, 0, 0, 0, 0],
-  [0, 0, 0,     0, d3-a3,    0, 0, 0,   0,   0,      0, 0, 0, 0, 0],
+  [0, 0, 0, b3-c3,     0,    0, 0, 0,  c3,   0,      0, 0, 0, 0, 0],
+  [0, 0, 0,     0, d3-a3,    0, 0, 0,   0, -d3,      0, 0, 0, 0, 0],
   [0, 0, 0, d3-a3, b3-c3,    0, 0, 0, -d3,  c3,      0, 0, 0, 0, 0]])
 
   +
-- 
2.43.0


From e089762db2bd280b7fb2304a315132c098ca97f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:23 +0000
Subject: [PATCH 11/11] fix: refuse decks whose GRIDs rely on a GRDSET
 coordinate system

---
 meshless/espim/read_mesh.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/meshless/espim/read_mesh.py b/meshless/espim/read_mesh.py
index 203e1f1..6980363 100644
--- a/meshless/espim/read_mesh.py
+++ b/meshless/espim/read_mesh.py
@@ -24,6 +24,11 @@ def read_mesh(filepath, silent=True):
     """
     msg('Reading mesh...', silent=silent)
     mesh = read_bdf(filepath, debug=False)
+    if mesh.grdset is not None and mesh.grdset.Cp() != 0:
+        # pyNastran reads a blank CP as 0, ignoring the default of GRDSET
+        if any(node.Cp() == 0 for node in mesh.nodes.values()):
+            raise NotImplementedError('GRDSET with a coordinate system not '
+                    'supported for GRIDs that do not define their own')
     for node in mesh.nodes.values():
         if node.Cp() != 0:
             # everywhere node.xyz are coordinates in the basic system
-- 
2.43.0

