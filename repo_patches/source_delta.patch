From 962f30260d3b08e85ccb06827d004a6c820bcee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:39 +0000
Subject: [PATCH 01/26] fix: reduce exact numbers with integer division

c/g went through float64 and lost digits once an intermediate integer exceeded 2**53,
although it still fits in int64.
---
 src/pyqcstrc/dode2/math1.py | 18 +++++++++---------
 src/pyqcstrc/ico2/math1.py  | 18 +++++++++---------
 2 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/pyqcstrc/dode2/math1.py b/src/pyqcstrc/dode2/math1.py
index 3d06b91..5ffbda0 100755
--- a/src/pyqcstrc/dode2/math1.py
+++ b/src/pyqcstrc/dode2/math1.py
@@ -32,9 +32,9 @@ def add(a: NDArray[np.int64], b:NDArray[np.int64]) -> NDArray[np.int64]:
     c3=a[2]*b[2]
     x=np.array([c1,c2,c3],dtype=np.int64)
     g=np.gcd.reduce(x)
-    c1=int(c1/g)
-    c2=int(c2/g)
-    c3=int(c3/g)
+    c1=int(c1//g)
+    c2=int(c2//g)
+    c3=int(c3//g)
     if c3<0:
         return np.array([-c1,-c2,-c3])
     else:
@@ -60,9 +60,9 @@ def mul(a: NDArray[np.int64], b:NDArray[np.int64]) -> NDArray[np.int64]:
     c3=4*a[2]*b[2]
     x=np.array([c1,c2,c3],dtype=np.int64)
     g=np.gcd.reduce(x)
-    c1=int(c1/g)
-    c2=int(c2/g)
-    c3=int(c3/g)
+    c1=int(c1//g)
+    c2=int(c2//g)
+    c3=int(c3//g)
     if c3<0:
         return np.array([-c1,-c2,-c3])
     else:
@@ -130,9 +130,9 @@ def div(a: NDArray[np.int64], b:NDArray[np.int64]) -> NDArray[np.int64]:
             x=np.array([c1,c2,c3],dtype=np.int64)
             g=np.gcd.reduce(x)
             if g!=0:
-                c1=int(c1/g)
-                c2=int(c2/g)
-                c3=int(c3/g)
+                c1=int(c1//g)
+                c2=int(c2//g)
+                c3=int(c3//g)
                 if c3<0:
                     return np.array([-c1,-c2,-c3],dtype=np.int64)
                 else:
diff --git a/src/pyqcstrc/ico2/math1.py b/src/pyqcstrc/ico2/math1.py
index 393e87b..5ecf634 100755
--- a/src/pyqcstrc/ico2/math1.py
+++ b/src/pyqcstrc/ico2/math1.py
@@ -31,9 +31,9 @@ def add(a: NDArray[np.int64], b:NDArray[np.int64]) -> NDArray[np.int64]:
     c3=a[2]*b[2]
     x=np.array([c1,c2,c3],dtype=np.int64)
     g=np.gcd.reduce(x)
-    c1=c1/g
-    c2=c2/g
-    c3=c3/g
+    c1=c1//g
+    c2=c2//g
+    c3=c3//g
     if c3<0:
         return np.array([int(-c1),int(-c2),int(-c3)])
     else:
@@ -59,9 +59,9 @@ def mul(a: NDArray[np.int64], b:NDArray[np.int64]) -> NDArray[np.int64]:
     c3=a[2]*b[2]
     x=np.array([c1,c2,c3],dtype=np.int64)
     g=np.gcd.reduce(x)
-    c1=c1/g
-    c2=c2/g
-    c3=c3/g
+    c1=c1//g
+    c2=c2//g
+    c3=c3//g
     if c3<0:
         return np.array([int(-c1),int(-c2),int(-c3)])
     else:
@@ -124,9 +124,9 @@ def div(a: NDArray[np.int64], b:NDArray[np.int64]) -> NDArray[np.int64]:
             x=np.array([c1,c2,c3],dtype=np.int64)
             g=np.gcd.reduce(x)
             if g!=0:
-                c1=c1/g
-                c2=c2/g
-                c3=c3/g
+                c1=c1//g
+                c2=c2//g
+                c3=c3//g
                 if c3<0:
                     return np.array([int(-c1),int(-c2),int(-c3)],dtype=np.int64)
                 else:
-- 
2.43.0


From 36326e948bacd94c1ee27a62aba71652dd6c0ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:39 +0000
Subject: [PATCH 02/26] fix: det_matrix referred to an undefined name

---
 src/pyqcstrc/dode2/math1.py | 2 +-
 src/pyqcstrc/ico2/math1.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyqcstrc/dode2/math1.py b/src/pyqcstrc/dode2/math1.py
index 5ffbda0..191503d 100755
--- a/src/pyqcstrc/dode2/math1.py
+++ b/src/pyqcstrc/dode2/math1.py
@@ -654,7 +654,7 @@ def det_matrix(mtx: NDArray[np.int64]) -> NDArray[np.int64]:
     t1=mul(t3,mtx[2][2])
     #
     t3=mul(mtx[0][2],mtx[1][0])
-    t2=mul(t3,c[1])
+    t2=mul(t3,mtx[2][1])
     #
     t1=add(t1,t2)
     
diff --git a/src/pyqcstrc/ico2/math1.py b/src/pyqcstrc/ico2/math1.py
index 5ecf634..45e2047 100755
--- a/src/pyqcstrc/ico2/math1.py
+++ b/src/pyqcstrc/ico2/math1.py
@@ -670,7 +670,7 @@ def det_matrix(mtx: NDArray[np.int64]) -> NDArray[np.int64]:
     t1=mul(t3,mtx[2][2])
     #
     t3=mul(mtx[0][2],mtx[1][0])
-    t2=mul(t3,c[1])
+    t2=mul(t3,mtx[2][1])
     #
     t1=add(t1,t2)
     
-- 
2.43.0


From 1b65ca344f6ad6602e87e81eeca2ab2aca5583eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:40 +0000
Subject: [PATCH 03/26] fix: dot_product_1 multiplied the wrong column of the
 integer matrix

---
 src/pyqcstrc/dode2/math1.py | 2 +-
 src/pyqcstrc/ico2/math1.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyqcstrc/dode2/math1.py b/src/pyqcstrc/dode2/math1.py
index 191503d..b9f010e 100755
--- a/src/pyqcstrc/dode2/math1.py
+++ b/src/pyqcstrc/dode2/math1.py
@@ -390,7 +390,7 @@ def dot_product_1(mat1: NDArray[np.int64], mat2:NDArray[np.int64]) -> NDArray[np
                 for j in range(u):
                     a=np.array([0,0,1])
                     for i in range(t1):
-                        val=np.array([mat1[k][j],0,1])
+                        val=np.array([mat1[k][i],0,1])
                         b=mul(val,mat2[i][j])
                         a=add(a,b)
                     mat_new[k][j]=a
diff --git a/src/pyqcstrc/ico2/math1.py b/src/pyqcstrc/ico2/math1.py
index 45e2047..a9188b5 100755
--- a/src/pyqcstrc/ico2/math1.py
+++ b/src/pyqcstrc/ico2/math1.py
@@ -384,7 +384,7 @@ def dot_product_1(mat1: NDArray[np.int64], mat2:NDArray[np.int64]) -> NDArray[np
                 for j in range(u):
                     a=np.array([0,0,1])
                     for i in range(t1):
-                        val=np.array([mat1[k][j],0,1])
+                        val=np.array([mat1[k][i],0,1])
                         b=mul(val,mat2[i][j])
                         a=add(a,b)
                     mat_new[k][j]=a
-- 
2.43.0


From 5759ce56d3e8d13c04f77540406f5bca3e89a8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:40 +0000
Subject: [PATCH 04/26] fix: mul_vectors returned nothing for a set of
 simplices

---
 src/pyqcstrc/dode2/math1.py | 1 +
 src/pyqcstrc/ico2/math1.py  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/pyqcstrc/dode2/math1.py b/src/pyqcstrc/dode2/math1.py
index b9f010e..a81e914 100755
--- a/src/pyqcstrc/dode2/math1.py
+++ b/src/pyqcstrc/dode2/math1.py
@@ -230,6 +230,7 @@ def mul_vectors(vts: NDArray[np.int64], coeff:NDArray[np.int64]) -> NDArray[np.i
         for i1,vt in enumerate(vts):
             for i2,v in enumerate(vt):
                 a[i1][i2]=mul_vector(v,coeff)
+        return a
     else:
         print('incorrect shape')
         return
diff --git a/src/pyqcstrc/ico2/math1.py b/src/pyqcstrc/ico2/math1.py
index a9188b5..97e346b 100755
--- a/src/pyqcstrc/ico2/math1.py
+++ b/src/pyqcstrc/ico2/math1.py
@@ -224,6 +224,7 @@ def mul_vectors(vts: NDArray[np.int64], coeff:NDArray[np.int64]) -> NDArray[np.i
         for i1,vt in enumerate(vts):
             for i2,v in enumerate(vt):
                 a[i1][i2]=mul_vector(v,coeff)
+        return a
     else:
         print('incorrect shape')
         return
-- 
2.43.0


From 426a9a00f3b9d031f21f471154f7f9d428eb3ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:27 +0000
Subject: [PATCH 05/26] fix: two segments touching at an end point were missed
 by rounding

---
 src/pyqcstrc/dode2/numericalc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyqcstrc/dode2/numericalc.py b/src/pyqcstrc/dode2/numericalc.py
index c0e5034..2d80e05 100755
--- a/src/pyqcstrc/dode2/numericalc.py
+++ b/src/pyqcstrc/dode2/numericalc.py
@@ -421,7 +421,7 @@ def check_intersection_two_segment_numerical(ln1: NDArray[np.float64], ln2: NDAr
     else:
         s=t1/t2
         t=(-np.dot(vecAC,vecCD)+s*np.dot(vecAB,vecCD))/np.dot(vecCD,vecCD)
-        if s>=0.0 and s<=1.0 and t>=0.0 and t<=1.0:
+        if s>=0.0-EPS and s<=1.0+EPS and t>=0.0-EPS and t<=1.0+EPS:
             dd=0
             for i in range(3):
                 dd+=((L2a[i]-L1a[i])-s*(L1b[i]-L1a[i])+t*(L2b[i]-L2a[i]))**2
-- 
2.43.0


From 3356d3269b25828493b114cdc5fe5543e3615f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:07 +0000
Subject: [PATCH 06/26] fix: applying a list of symmetry operations referred to
 an undefined name

---
 src/pyqcstrc/dode2/symmetry.py | 6 +++---
 src/pyqcstrc/ico2/symmetry.py  | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/pyqcstrc/dode2/symmetry.py b/src/pyqcstrc/dode2/symmetry.py
index 29aa176..a2cded3 100755
--- a/src/pyqcstrc/dode2/symmetry.py
+++ b/src/pyqcstrc/dode2/symmetry.py
@@ -99,11 +99,11 @@ def generator_obj_symmetric_triangle_specific_symop(obj,centre,list_of_symmetry_
     # using specific symmetry operations
     if obj.ndim==3 or obj.ndim==4:
         mop=dodesymop()
-        shape=tuple([len(index_of_symmetry_operation)])
+        shape=tuple([len(list_of_symmetry_operation_index)])
         a=np.zeros(shape+obj.shape,dtype=np.int64)
         i=0
-        for i in index_of_symmetry_operation:
-            a[i]=symop_obj(mop[i],obj,centre)
+        for indx in list_of_symmetry_operation_index:
+            a[i]=symop_obj(mop[indx],obj,centre)
             i+=1
         return a
     else:
diff --git a/src/pyqcstrc/ico2/symmetry.py b/src/pyqcstrc/ico2/symmetry.py
index aaa20dd..434134a 100755
--- a/src/pyqcstrc/ico2/symmetry.py
+++ b/src/pyqcstrc/ico2/symmetry.py
@@ -91,11 +91,11 @@ def generator_obj_symmetric_tetrahedron_specific_symop(obj,centre,list_of_symmet
     # using specific symmetry operations
     if obj.ndim==3 or obj.ndim==4:
         mop=icosasymop()
-        shape=tuple([len(index_of_symmetry_operation)])
+        shape=tuple([len(list_of_symmetry_operation_index)])
         a=np.zeros(shape+obj.shape,dtype=np.int64)
         i=0
-        for i in index_of_symmetry_operation:
-            a[i]=symop_obj(mop[i],obj,centre)
+        for indx in list_of_symmetry_operation_index:
+            a[i]=symop_obj(mop[indx],obj,centre)
             i+=1
         return a
     else:
-- 
2.43.0


From 74e00538411c5b02ad644945e2df2ef2b0ed97fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:07 +0000
Subject: [PATCH 07/26] fix: generator_equivalent_vectors passed a function
 instead of its result

---
 src/pyqcstrc/dode2/symmetry.py | 2 +-
 src/pyqcstrc/ico2/symmetry.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyqcstrc/dode2/symmetry.py b/src/pyqcstrc/dode2/symmetry.py
index a2cded3..12c0d41 100755
--- a/src/pyqcstrc/dode2/symmetry.py
+++ b/src/pyqcstrc/dode2/symmetry.py
@@ -124,7 +124,7 @@ def generator_obj_symmetric_vec(vectors, centre):
 def generator_equivalent_vectors(vectors,centre):
     """
     """
-    a=generator_obj_symmetric_obj
+    a=generator_obj_symmetric_obj(vectors,centre)
     return remove_doubling_in_perp_space(a)
 
 def generator_equivalent_vec(vector,centre):
diff --git a/src/pyqcstrc/ico2/symmetry.py b/src/pyqcstrc/ico2/symmetry.py
index 434134a..8cf99e0 100755
--- a/src/pyqcstrc/ico2/symmetry.py
+++ b/src/pyqcstrc/ico2/symmetry.py
@@ -110,7 +110,7 @@ def generator_obj_symmetric_vec(vectors, centre):
     return generator_obj_symmetric_obj(vectors,centre)
 
 def generator_equivalent_vectors(vectors,centre):
-    a=generator_obj_symmetric_obj
+    a=generator_obj_symmetric_obj(vectors,centre)
     return remove_doubling_in_perp_space(a)
 
 def generator_equivalent_vec(vector,centre):
-- 
2.43.0


From bbe539b8ce942c5948950ac947abd84c967d1a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:05 +0000
Subject: [PATCH 08/26] fix: coplanar points were reported not coplanar when
 every random draw was collinear

---
 src/pyqcstrc/dode2/numericalc.py | 10 ++++++----
 src/pyqcstrc/ico2/numericalc.py  | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/pyqcstrc/dode2/numericalc.py b/src/pyqcstrc/dode2/numericalc.py
index 2d80e05..aa65101 100755
--- a/src/pyqcstrc/dode2/numericalc.py
+++ b/src/pyqcstrc/dode2/numericalc.py
@@ -6,6 +6,7 @@
 import numpy as np
 from numpy.typing import NDArray
 import random
+import itertools
 
 TAU=np.sqrt(3)/2.0
 EPS=1e-6
@@ -48,8 +49,9 @@ def coplanar_check_numeric(pns: NDArray[np.float64],num_iteration: int=5) -> boo
     if num>3:
         flag=0
         lst0=[i for i in range(num)]
-        for _ in range(num_iteration):
-            lst3=random.sample(lst0, 3)
+        draws=(random.sample(lst0, 3) for _ in range(num_iteration))
+        # when every draw was collinear, go through all the triples.
+        for lst3 in itertools.chain(draws,itertools.combinations(lst0, 3)):
             #
             xyz1=pns[lst3[1]]-pns[lst3[0]]
             xyz2=pns[lst3[2]]-pns[lst3[0]]
@@ -76,8 +78,8 @@ def coplanar_check_numeric(pns: NDArray[np.float64],num_iteration: int=5) -> boo
             else:
                 return False
         else:
-            'error in coplanar_check_numeric. increase num_iteration.'
-            return 
+            # all the points are on a line.
+            return True
     else:
         return True
 
diff --git a/src/pyqcstrc/ico2/numericalc.py b/src/pyqcstrc/ico2/numericalc.py
index 4387b5a..8985376 100755
--- a/src/pyqcstrc/ico2/numericalc.py
+++ b/src/pyqcstrc/ico2/numericalc.py
@@ -6,6 +6,7 @@
 import numpy as np
 from numpy.typing import NDArray
 import random
+import itertools
 
 TAU=(1+np.sqrt(5))/2.0
 EPS=1e-6
@@ -48,8 +49,9 @@ def coplanar_check_numeric(pns: NDArray[np.float64],num_iteration: int=5) -> boo
     if num>3:
         flag=0
         lst0=[i for i in range(num)]
-        for _ in range(num_iteration):
-            lst3=random.sample(lst0, 3)
+        draws=(random.sample(lst0, 3) for _ in range(num_iteration))
+        # when every draw was collinear, go through all the triples.
+        for lst3 in itertools.chain(draws,itertools.combinations(lst0, 3)):
             #
             xyz1=pns[lst3[1]]-pns[lst3[0]]
             xyz2=pns[lst3[2]]-pns[lst3[0]]
@@ -76,8 +78,8 @@ def coplanar_check_numeric(pns: NDArray[np.float64],num_iteration: int=5) -> boo
             else:
                 return False
         else:
-            'error in coplanar_check_numeric. increase num_iteration.'
-            return 
+            # all the points are on a line.
+            return True
     else:
         return True
 
-- 
2.43.0


From 044224a295bb3ac0ab771c5e60515e7538dbed73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:45 +0000
Subject: [PATCH 09/26] fix: unique edges and triangles compared rounded
 coordinates

---
 src/pyqcstrc/dode2/utils.py | 4 ++--
 src/pyqcstrc/ico2/utils.py  | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/pyqcstrc/dode2/utils.py b/src/pyqcstrc/dode2/utils.py
index a1a99ea..7750086 100755
--- a/src/pyqcstrc/dode2/utils.py
+++ b/src/pyqcstrc/dode2/utils.py
@@ -260,10 +260,10 @@ def generator_unique_edges(obj: NDArray[np.int64]) -> NDArray[np.int64]:
     # (2) 重複のないユニークな辺を得る。
     #print('number of edges:',len(edges))
     num_edges=len(edges)
-    a=np.zeros((num_edges,3),dtype=np.float64)
+    a=np.zeros((num_edges,3,3),dtype=np.int64)
     for i1 in range(num_edges):
         vt=centroid(edges[i1])
-        a[i1]=get_internal_component_numerical(vt)
+        a[i1]=projection3(vt)
     b=np.unique(a,return_index=True,axis=0)[1]
     num=len(b)
     #print('number of unique edges:',num)
diff --git a/src/pyqcstrc/ico2/utils.py b/src/pyqcstrc/ico2/utils.py
index b127b59..f2d2561 100755
--- a/src/pyqcstrc/ico2/utils.py
+++ b/src/pyqcstrc/ico2/utils.py
@@ -353,10 +353,10 @@ def generator_unique_triangles(obj: NDArray[np.int64]) -> NDArray[np.int64]:
         # 三角形が重複していれば重心も同じことを利用する。重心が一致すれば重複しているとは限らないが、
         # objが正しく与えられているとすれば問題ない。
         #print('number of trianges:',len(triangles))
-        a=np.zeros((n1*4,3),dtype=np.float64)
+        a=np.zeros((n1*4,3,3),dtype=np.int64)
         for i1 in range(n1*4):
             vt=centroid(triangles[i1])
-            a[i1]=get_internal_component_numerical(vt)
+            a[i1]=projection3(vt)
         b=np.unique(a,return_index=True,axis=0)[1]
         num=len(b)
         #print('number of unique trianges:',num)
@@ -449,10 +449,10 @@ def generator_unique_edges(obj: NDArray[np.int64]) -> NDArray[np.int64]:
     # (2) 重複のないユニークな辺を得る。
     #print('number of edges:',len(edges))
     num_edges=len(edges)
-    a=np.zeros((num_edges,3),dtype=np.float64)
+    a=np.zeros((num_edges,3,3),dtype=np.int64)
     for i1 in range(num_edges):
         vt=centroid(edges[i1])
-        a[i1]=get_internal_component_numerical(vt)
+        a[i1]=projection3(vt)
     b=np.unique(a,return_index=True,axis=0)[1]
     num=len(b)
     #print('number of unique edges:',num)
-- 
2.43.0


From 01e73a5ccf25217cd7c7dccded83f4a9f3f93247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:05 +0000
Subject: [PATCH 10/26] fix: shared faces written with different 6D coordinates
 could be left in the surface

---
 src/pyqcstrc/ico2/utils.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/pyqcstrc/ico2/utils.py b/src/pyqcstrc/ico2/utils.py
index f2d2561..c9ddaaf 100755
--- a/src/pyqcstrc/ico2/utils.py
+++ b/src/pyqcstrc/ico2/utils.py
@@ -245,10 +245,10 @@ def generator_surface_1(obj: NDArray[np.int64], verbose: int=0) -> NDArray[np.in
         # objが正しく与えられているとすれば問題ない。
         #
         # まず重心xyzを求める
-        xyz=np.zeros((n1*4,3),dtype=np.float64)
+        xyz=np.zeros((n1*4,9),dtype=np.int64)
         for i1 in range(n1*4):
             vt=centroid(triangles[i1])
-            xyz[i1]=get_internal_component_numerical(vt)
+            xyz[i1]=projection3(vt).reshape(9)
         
         """
         # 以下のやり方では効率悪い。
@@ -279,26 +279,26 @@ def generator_surface_1(obj: NDArray[np.int64], verbose: int=0) -> NDArray[np.in
         # xyz座標のソートをx,y,zに対して行い、重複チェックを効率化(O(n))。
         #===========ここから============
         # xyzをx,y,zの順で優先的にソートし、indexを得る。
-        indx_xyz=np.lexsort((xyz[:,2],xyz[:,1],xyz[:,0]))
+        indx_xyz=np.lexsort(xyz.T)
         #print('number of trianges:',len(indx_xyz))
         #print('indx_xyz:',indx_xyz)
         
         # 表面のtriangleのみを選び出すには、重複しているtriangleを除けば良い。
         # 上でxyzをx,y,zの順で優先的にソートできていれば、着目している点をその前後と比べるだけで重複があるか判断できる。
         lst=[]
-        if np.allclose(xyz[indx_xyz[0]],xyz[indx_xyz[1]]):
+        if np.array_equal(xyz[indx_xyz[0]],xyz[indx_xyz[1]]):
             pass
         else:
             lst.append(indx_xyz[0])
         for i1 in range(1,len(indx_xyz)-1):
             counter=0
             for i2 in [-1,1]:
-                if np.allclose(xyz[indx_xyz[i1]],xyz[indx_xyz[i1+i2]]): # equivalent
+                if np.array_equal(xyz[indx_xyz[i1]],xyz[indx_xyz[i1+i2]]): # equivalent
                     counter+=1
                     break
             if counter==0:
                 lst.append(indx_xyz[i1])
-        if np.allclose(xyz[indx_xyz[-1]],xyz[indx_xyz[-2]]):
+        if np.array_equal(xyz[indx_xyz[-1]],xyz[indx_xyz[-2]]):
             pass
         else:
             lst.append(indx_xyz[-1])
-- 
2.43.0


From 1e7e6e0b744b220e6644c9a59e3b9dc62643713b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:05 +0000
Subject: [PATCH 11/26] fix: check_connectivity_triangles compared a triangle
 with itself

---
 src/pyqcstrc/dode2/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyqcstrc/dode2/utils.py b/src/pyqcstrc/dode2/utils.py
index 7750086..8babd51 100755
--- a/src/pyqcstrc/dode2/utils.py
+++ b/src/pyqcstrc/dode2/utils.py
@@ -709,7 +709,7 @@ def merge_two_triangles(triangle_1: NDArray[np.int64], triangle_2: NDArray[np.in
 def check_connectivity_triangles(triangle_1: NDArray[np.int64], triangle_2: NDArray[np.int64]) -> bool:
     """Checking whether triangle_1 and _2 are sharing an edge or not.
     """
-    a=np.vstack([triangle_1,triangle_1])
+    a=np.vstack([triangle_1,triangle_2])
     a=remove_doubling_in_perp_space(a)
     if len(a)==4:
         return True # common edge
-- 
2.43.0


From 053eaadf703d3cf3c0b69c0b6fae2d327d877cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:05 +0000
Subject: [PATCH 12/26] fix: get_common_edge_in_two_triangles referred to
 undefined names

---
 src/pyqcstrc/dode2/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyqcstrc/dode2/utils.py b/src/pyqcstrc/dode2/utils.py
index 8babd51..04f9506 100755
--- a/src/pyqcstrc/dode2/utils.py
+++ b/src/pyqcstrc/dode2/utils.py
@@ -719,8 +719,8 @@ def check_connectivity_triangles(triangle_1: NDArray[np.int64], triangle_2: NDAr
 def get_common_edge_in_two_triangles(triangle_1: NDArray[np.int64], triangle_2: NDArray[np.int64]) -> NDArray[np.int64]:
     """ Return common edge of two connected triangles.
     """
-    edge1=get_triangle_edge(triangle_1)
-    edge2=get_triangle_edge(triangle_2)
+    edges1=get_triangle_edge(triangle_1)
+    edges2=get_triangle_edge(triangle_2)
     
     count=0
     for edge_1 in edges1:
-- 
2.43.0


From f18208da9dbee5603099fe24b1325b384167f83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:05 +0000
Subject: [PATCH 13/26] fix: removing every vector of a set returned the set
 unchanged

---
 src/pyqcstrc/dode2/utils.py | 24 ++++++++----------------
 src/pyqcstrc/ico2/utils.py  | 24 ++++++++----------------
 2 files changed, 16 insertions(+), 32 deletions(-)

diff --git a/src/pyqcstrc/dode2/utils.py b/src/pyqcstrc/dode2/utils.py
index 04f9506..42b983e 100755
--- a/src/pyqcstrc/dode2/utils.py
+++ b/src/pyqcstrc/dode2/utils.py
@@ -638,14 +638,10 @@ def remove_vectors(vts1: NDArray[np.int64], vts2: NDArray[np.int64]) -> NDArray[
                 break
         if counter==0:
             lst.append(i1)
-    num=len(lst)
-    if num!=0:
-        out=np.zeros((len(lst),6,3),dtype=np.int64)
-        for i1 in range(len(lst)):
-            out[i1]=vts1[lst[i1]]
-        return out
-    else:
-        return vts1
+    out=np.zeros((len(lst),6,3),dtype=np.int64)
+    for i1 in range(len(lst)):
+        out[i1]=vts1[lst[i1]]
+    return out
 
 def remove_vector(vts: NDArray[np.int64], vt: NDArray[np.int64]) -> NDArray[np.int64]:
     """ remove a 6d vector(vt2) from a set of 6d vectors (vts).
@@ -658,14 +654,10 @@ def remove_vector(vts: NDArray[np.int64], vt: NDArray[np.int64]) -> NDArray[np.i
             pass
         else:
             lst.append(i1)
-    num=len(lst)
-    if num!=0:
-        out=np.zeros((len(lst),6,3),dtype=np.int64)
-        for i1 in range(len(lst)):
-            out[i1]=vts[lst[i1]]
-        return out
-    else:
-        return vts
+    out=np.zeros((len(lst),6,3),dtype=np.int64)
+    for i1 in range(len(lst)):
+        out[i1]=vts[lst[i1]]
+    return out
 
 #################################
 ####
diff --git a/src/pyqcstrc/ico2/utils.py b/src/pyqcstrc/ico2/utils.py
index c9ddaaf..b147f92 100755
--- a/src/pyqcstrc/ico2/utils.py
+++ b/src/pyqcstrc/ico2/utils.py
@@ -892,14 +892,10 @@ def remove_vectors(vts1: NDArray[np.int64], vts2: NDArray[np.int64]) -> NDArray[
                 break
         if counter==0:
             lst.append(i1)
-    num=len(lst)
-    if num!=0:
-        out=np.zeros((len(lst),6,3),dtype=np.int64)
-        for i1 in range(len(lst)):
-            out[i1]=vts1[lst[i1]]
-        return out
-    else:
-        return vts1
+    out=np.zeros((len(lst),6,3),dtype=np.int64)
+    for i1 in range(len(lst)):
+        out[i1]=vts1[lst[i1]]
+    return out
 
 def remove_vector(vts: NDArray[np.int64], vt: NDArray[np.int64]) -> NDArray[np.int64]:
     """ remove a 6d vector(vt2) from a set of 6d vectors (vts).
@@ -912,14 +908,10 @@ def remove_vector(vts: NDArray[np.int64], vt: NDArray[np.int64]) -> NDArray[np.i
             pass
         else:
             lst.append(i1)
-    num=len(lst)
-    if num!=0:
-        out=np.zeros((len(lst),6,3),dtype=np.int64)
-        for i1 in range(len(lst)):
-            out[i1]=vts[lst[i1]]
-        return out
-    else:
-        return vts
+    out=np.zeros((len(lst),6,3),dtype=np.int64)
+    for i1 in range(len(lst)):
+        out[i1]=vts[lst[i1]]
+    return out
 
 #################################
 ####
-- 
2.43.0


From 19d1af5b8ccd0eb4c70ebef84db4cff58d7a6304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:28 +0000
Subject: [PATCH 14/26] fix: equivalent() compared an object's size with itself

---
 src/pyqcstrc/dode2/utils.py | 2 +-
 src/pyqcstrc/ico2/utils.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyqcstrc/dode2/utils.py b/src/pyqcstrc/dode2/utils.py
index 42b983e..fb7cf23 100755
--- a/src/pyqcstrc/dode2/utils.py
+++ b/src/pyqcstrc/dode2/utils.py
@@ -466,7 +466,7 @@ def equivalent(obj1: NDArray[np.int64], obj2: NDArray[np.int64]) -> bool:
     """
     def check1(a,b,n):
         n1,_,_=a.shape
-        n2,_,_=a.shape
+        n2,_,_=b.shape
         if n1==n2:
             a=np.vstack([a,b])
             a=remove_doubling_in_perp_space(a)
diff --git a/src/pyqcstrc/ico2/utils.py b/src/pyqcstrc/ico2/utils.py
index b147f92..f295da0 100755
--- a/src/pyqcstrc/ico2/utils.py
+++ b/src/pyqcstrc/ico2/utils.py
@@ -681,7 +681,7 @@ def equivalent(obj1: NDArray[np.int64], obj2: NDArray[np.int64]) -> bool:
     
     def check1(a,b,n):
         n1,_,_=a.shape
-        n2,_,_=a.shape
+        n2,_,_=b.shape
         if n1==n2:
             a=np.vstack([a,b])
             a=remove_doubling_in_perp_space(a)
-- 
2.43.0


From f796baa33edc18ca250c2d976e0c89f664b009ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:37 +0000
Subject: [PATCH 15/26] fix: intersection_two_triangles failed when no edges
 cross

---
 src/pyqcstrc/dode2/intsct.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyqcstrc/dode2/intsct.py b/src/pyqcstrc/dode2/intsct.py
index 552b302..f723659 100755
--- a/src/pyqcstrc/dode2/intsct.py
+++ b/src/pyqcstrc/dode2/intsct.py
@@ -383,7 +383,8 @@ def intersection_two_triangles(triangle_1: NDArray[np.int64], triangle_2: NDArra
             else:
                 tmp=np.vstack([tmp,vtx]) # intersecting points
             counter+=1
-    tmp=tmp.reshape(int(len(tmp)/6),6,3)
+    if counter>0:
+        tmp=tmp.reshape(int(len(tmp)/6),6,3)
     
     # get vertces of triangle_1 that are inside triangle_2
     for vtx in triangle_1:
-- 
2.43.0


From 684f77a8b20c4c5a37eef7b9d2ae85a188ef67f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:15 +0000
Subject: [PATCH 16/26] fix: intersection of convex domains failed when no
 vertex lies inside the other

---
 src/pyqcstrc/dode2/intsct.py | 10 +++++++---
 src/pyqcstrc/ico2/intsct.py  |  6 +++++-
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/pyqcstrc/dode2/intsct.py b/src/pyqcstrc/dode2/intsct.py
index f723659..a3d1e2b 100755
--- a/src/pyqcstrc/dode2/intsct.py
+++ b/src/pyqcstrc/dode2/intsct.py
@@ -608,7 +608,7 @@ def intersection_two_obj_convex(obj1: NDArray[np.int64], obj2: NDArray[np.int64]
     for vrtx in vertices1:
         counter2a=0
         for triangle2 in obj2:
-            if inside_outside_ttriangle_tau(vrtx,triangle2):
+            if inside_outside_triangle_tau(vrtx,triangle2):
                 counter2a+=1
                 break
             else:
@@ -686,12 +686,16 @@ def intersection_two_obj_convex(obj1: NDArray[np.int64], obj2: NDArray[np.int64]
         if counter==0:
             return 
         else:
-            point1=remove_doubling_in_perp_space(p)
+            point1=remove_doubling_in_perp_space(p.reshape(-1,6,3))
             #
             # (3) Sum point A, point B and Intersections --->>> common part
             #
             # common part = point1 + point_a1 + point_b1
-            points=np.vstack([point1,point_a1,point_b1])
+            points=point1
+            if counter1a>0:
+                points=np.vstack([points,point_a1])
+            if counter1b>0:
+                points=np.vstack([points,point_b1])
             points=remove_doubling_in_perp_space(points)
             common=triangulation_points(points)
             if np.all(common==None):
diff --git a/src/pyqcstrc/ico2/intsct.py b/src/pyqcstrc/ico2/intsct.py
index 1ac3f3e..391855a 100755
--- a/src/pyqcstrc/ico2/intsct.py
+++ b/src/pyqcstrc/ico2/intsct.py
@@ -768,7 +768,11 @@ def intersection_two_obj_convex(obj1: NDArray[np.int64], obj2: NDArray[np.int64]
             # (3) Sum point A, point B and Intersections --->>> common part
             #
             # common part = point1 + point_a1 + point_b1
-            points=np.vstack([point1,point_a1,point_b1])
+            points=point1
+            if counter1a>0:
+                points=np.vstack([points,point_a1])
+            if counter1b>0:
+                points=np.vstack([points,point_b1])
             points=remove_doubling_in_perp_space(points)
             common=tetrahedralization_points(points)
             if np.all(common==None):
-- 
2.43.0


From 3f062abf2d4cd0d4f38611329230ec933b194b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:24 +0000
Subject: [PATCH 17/26] fix: tetrahedralization_points failed for a flat set of
 points

---
 src/pyqcstrc/ico2/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyqcstrc/ico2/utils.py b/src/pyqcstrc/ico2/utils.py
index f295da0..986f95e 100755
--- a/src/pyqcstrc/ico2/utils.py
+++ b/src/pyqcstrc/ico2/utils.py
@@ -852,7 +852,7 @@ def tetrahedralization_points(points: NDArray[np.int64]) -> NDArray[np.int64]:
         
     ltmp=decomposition(tmp)
     p=points
-    if ltmp!=[0]:
+    if ltmp is not None:
         counter=0
         for i in ltmp:
             tmp3=np.array([p[i[0]],p[i[1]],p[i[2]],p[i[3]]]).reshape(4,6,3)
-- 
2.43.0


From 974e8d4ee6af7b730b488778de64e96de0224037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:08 +0000
Subject: [PATCH 18/26] fix: volumes of single tetrahedra in XYZ files were
 those of the last one

---
 src/pyqcstrc/ico2/occupation_domain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyqcstrc/ico2/occupation_domain.py b/src/pyqcstrc/ico2/occupation_domain.py
index 6e3aec8..ebaaa0c 100755
--- a/src/pyqcstrc/ico2/occupation_domain.py
+++ b/src/pyqcstrc/ico2/occupation_domain.py
@@ -900,7 +900,7 @@ def write_xyz(obj,path='.',basename='tmp',select='tetrahedron',verbose=0):
         vol=utils.obj_volume_6d(obj)
         f.write('volume = %d %d %d (%8.6f)\n'%(vol[0],vol[1],vol[2],numericalc.numeric_value(vol)))
         for i1 in range(len(obj)):
-            v=utils.tetrahedron_volume_6d(tetrahedron)
+            v=utils.tetrahedron_volume_6d(obj[i1])
             f.write('%3d-the tetrahedron, %d %d %d (%8.6f)\n'\
                     %(i1,v[0],v[1],v[2],numericalc.numeric_value(v)))
         f.close()
-- 
2.43.0


From 7dfd04b1a70bcba85e702303cbcfc2d46a9820ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:08 +0000
Subject: [PATCH 19/26] fix: write_xyz wrote edges as triangles, with a wrong
 number of atoms

---
 src/pyqcstrc/dode2/occupation_domain.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pyqcstrc/dode2/occupation_domain.py b/src/pyqcstrc/dode2/occupation_domain.py
index ca96e94..cdc9fca 100755
--- a/src/pyqcstrc/dode2/occupation_domain.py
+++ b/src/pyqcstrc/dode2/occupation_domain.py
@@ -989,17 +989,17 @@ def write_xyz(obj,path='.',basename='tmp',select='triangle',verbose=0):
         #    if verbose>0:
         #        print('    written in %s/%s.xyz'%(path,basename))
         #    return 0
-        if select == 'triangle' or 't':
+        if select == 'triangle' or select == 't':
             generator_xyz_dim4_triangle(obj, file_name)
             if verbose>0:
                 print('    written in %s/%s.xyz'%(path,basename))
             return 0
-        elif select == 'edge' or 'e':
+        elif select == 'edge' or select == 'e':
             generator_xyz_dim4_edge(obj, file_name)
             if verbose>0:
                 print('    written in %s/%s.xyz'%(path,basename))
             return 0
-        elif select == 'vertex' or 'v':
+        elif select == 'vertex' or select == 'v':
             generator_xyz_dim4_vertex(obj, file_name)
             if verbose>0:
                 print('    written in %s/%s.xyz'%(path,basename))
-- 
2.43.0


From 3a780168674f7ae7983da9856cb2fe46ff71092a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:20 +0000
Subject: [PATCH 20/26] fix: write_xyz refused sets of vertices

---
 src/pyqcstrc/dode2/occupation_domain.py | 2 +-
 src/pyqcstrc/ico2/occupation_domain.py  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pyqcstrc/dode2/occupation_domain.py b/src/pyqcstrc/dode2/occupation_domain.py
index cdc9fca..1ca611c 100755
--- a/src/pyqcstrc/dode2/occupation_domain.py
+++ b/src/pyqcstrc/dode2/occupation_domain.py
@@ -979,7 +979,7 @@ def write_xyz(obj,path='.',basename='tmp',select='triangle',verbose=0):
     if np.all(obj==None):
         print('empty obj')
         return 
-    elif obj.ndim!=4:
+    elif obj.ndim!=4 and not ((select=='vertex' or select=='v') and obj.ndim==3):
         print('object has an incorrect shape!')
         return 
     else:
diff --git a/src/pyqcstrc/ico2/occupation_domain.py b/src/pyqcstrc/ico2/occupation_domain.py
index ebaaa0c..b7d899b 100755
--- a/src/pyqcstrc/ico2/occupation_domain.py
+++ b/src/pyqcstrc/ico2/occupation_domain.py
@@ -1006,14 +1006,14 @@ def write_xyz(obj,path='.',basename='tmp',select='tetrahedron',verbose=0):
             point[3][0],point[3][1],point[3][2],\
             point[4][0],point[4][1],point[4][2],\
             point[5][0],point[5][1],point[5][2]))
-            i1=0
+            i1+=1
         f.closed
         return 0
     
     if np.all(obj==None):
         print('empty obj')
         return 
-    elif obj.ndim!=4:
+    elif obj.ndim!=4 and not (select=='vertex' and obj.ndim==3):
         print('object has an incorrect shape!')
         return 
     else:
-- 
2.43.0


From 21a7a9e57f19c6cae426085c881b8767677f5b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:30 +0000
Subject: [PATCH 21/26] fix: simplification replaced a non-convex domain by its
 convex hull

---
 src/pyqcstrc/dode2/occupation_domain.py | 3 +--
 src/pyqcstrc/ico2/occupation_domain.py  | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/pyqcstrc/dode2/occupation_domain.py b/src/pyqcstrc/dode2/occupation_domain.py
index 1ca611c..33ebc75 100755
--- a/src/pyqcstrc/dode2/occupation_domain.py
+++ b/src/pyqcstrc/dode2/occupation_domain.py
@@ -1107,8 +1107,7 @@ def simplification(obj,verbose=0):
     else:
         vol0=utils.obj_area_6d(obj)
         obj_convex_hull=utils.generate_convex_hull(obj)
-        obj_tmp=intsct.intersection_two_obj_1(obj_convex_hull,obj)
-        vol1=utils.obj_area_6d(obj_tmp)
+        vol1=utils.obj_area_6d(obj_convex_hull)
         if np.all(vol0==vol1):
             if verbose>0:
                 print('      simplification succeed:')
diff --git a/src/pyqcstrc/ico2/occupation_domain.py b/src/pyqcstrc/ico2/occupation_domain.py
index b7d899b..ade1162 100755
--- a/src/pyqcstrc/ico2/occupation_domain.py
+++ b/src/pyqcstrc/ico2/occupation_domain.py
@@ -1141,8 +1141,7 @@ def simplification(obj,verbose=0):
     else:
         vol0=utils.obj_volume_6d(obj)
         obj_convex_hull=utils.generate_convex_hull(obj)
-        obj_tmp=intsct.intersection_two_obj_1(obj_convex_hull,obj)
-        vol1=utils.obj_volume_6d(obj_tmp)
+        vol1=utils.obj_volume_6d(obj_convex_hull)
         if np.all(vol0==vol1):
             if verbose>0:
                 print('      simplification succeed:')
-- 
2.43.0


From 0a4e329976485872ea9f07be17855b58c4b23ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:45 +0000
Subject: [PATCH 22/26] fix: generate_border_edges called a function that does
 not exist

---
 src/pyqcstrc/dode2/occupation_domain.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pyqcstrc/dode2/occupation_domain.py b/src/pyqcstrc/dode2/occupation_domain.py
index 33ebc75..b831ecc 100755
--- a/src/pyqcstrc/dode2/occupation_domain.py
+++ b/src/pyqcstrc/dode2/occupation_domain.py
@@ -1132,8 +1132,7 @@ def generate_border_edges(obj):
             The shape is (num,2,6,3), where num=numbre_of_edge.
     
     """
-    triangle_surface=utils.generator_surface_1(obj)
-    return utils.surface_cleaner(triangle_surface)
+    return utils.surface_cleaner(obj)
 
 def outline(obj):
     """
-- 
2.43.0


From d617d952dff1325ecb29fa51765c415d7fdac7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:05 +0000
Subject: [PATCH 23/26] fix: inside_outside_obj returned the inverted verdict
 and inside_outside_obj_tau raised NameError

---
 src/pyqcstrc/dode2/numericalc.py | 19 +++++++++----------
 src/pyqcstrc/ico2/numericalc.py  | 17 ++++++++---------
 2 files changed, 17 insertions(+), 19 deletions(-)

diff --git a/src/pyqcstrc/dode2/numericalc.py b/src/pyqcstrc/dode2/numericalc.py
index aa65101..68eaa8d 100755
--- a/src/pyqcstrc/dode2/numericalc.py
+++ b/src/pyqcstrc/dode2/numericalc.py
@@ -490,13 +490,12 @@ def triangle_area_numerical(a: NDArray[np.float64]) -> float:
 
 def inside_outside_obj_tau(point: NDArray[np.int64], obj: NDArray[np.int64]) -> bool:
     
-    # TAU-style to Float
-    point=numerical_vector(point)
-    obj=numerical_vectors(obj)
-    # 
-    point=get_internal_component_numerical(ln)
-    obj=get_internal_component_sets_numerical(obj)
-    return inside_outside_obj(point,obj)
+    point=get_internal_component_numerical(point)
+    n1,n2,_,_=obj.shape
+    tmp=np.zeros((n1,n2,3),dtype=np.float64)
+    for i1 in range(n1):
+        tmp[i1]=get_internal_component_sets_numerical(obj[i1])
+    return inside_outside_obj(point,tmp)
     
 def inside_outside_obj(point: NDArray[np.float64], obj: NDArray[np.float64]) -> bool:
     """this function judges whether the point is inside an object (set of triangle) or not
@@ -509,14 +508,14 @@ def inside_outside_obj(point: NDArray[np.float64], obj: NDArray[np.float64]) ->
         vertex coordinates of triangle, (xyz1, xyz2, xyz3), (), (), ...
     """
     flg=0
-    for tetrahedron in obj:
+    for triangle in obj:
         if inside_outside_triangle(point,triangle):
             flg+=1
             break
     if flg==0:
-        return True # inside
-    else:
         return False # outside
+    else:
+        return True # inside
 
 def inside_outside_triangle_tau(point: NDArray[np.int64], triangle: NDArray[np.int64]) -> bool:
     """this function judges whether the point is inside a triangle or not
diff --git a/src/pyqcstrc/ico2/numericalc.py b/src/pyqcstrc/ico2/numericalc.py
index 8985376..dfb7064 100755
--- a/src/pyqcstrc/ico2/numericalc.py
+++ b/src/pyqcstrc/ico2/numericalc.py
@@ -424,13 +424,12 @@ def triangle_area_numerical(a: NDArray[np.float64]) -> float:
 
 def inside_outside_obj_tau(point: NDArray[np.int64], obj: NDArray[np.int64]) -> bool:
     
-    # TAU-style to Float
-    point=numerical_vector(point)
-    obj=numerical_vectors(obj)
-    # 
-    point=get_internal_component_numerical(ln)
-    obj=get_internal_component_sets_numerical(obj)
-    return inside_outside_obj(point,obj)
+    point=get_internal_component_numerical(point)
+    n1,n2,_,_=obj.shape
+    tmp=np.zeros((n1,n2,3),dtype=np.float64)
+    for i1 in range(n1):
+        tmp[i1]=get_internal_component_sets_numerical(obj[i1])
+    return inside_outside_obj(point,tmp)
     
 def inside_outside_obj(point: NDArray[np.float64], obj: NDArray[np.float64]) -> bool:
     """this function judges whether the point is inside an object (set of tetrahedra) or not
@@ -448,9 +447,9 @@ def inside_outside_obj(point: NDArray[np.float64], obj: NDArray[np.float64]) ->
             flg+=1
             break
     if flg==0:
-        return True # inside
-    else:
         return False # outside
+    else:
+        return True # inside
 
 def inside_outside_tetrahedron_tau(point: NDArray[np.int64], tetrahedron: NDArray[np.int64]) -> bool:
     """this function judges whether the point is inside a tetrahedron or not
-- 
2.43.0


From 69b997ffa0c043c0c94688786ce7701d921d7725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:05 +0000
Subject: [PATCH 24/26] fix: middle_position referred to an undefined name

---
 src/pyqcstrc/dode2/utils.py | 2 +-
 src/pyqcstrc/ico2/utils.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyqcstrc/dode2/utils.py b/src/pyqcstrc/dode2/utils.py
index fb7cf23..a409488 100755
--- a/src/pyqcstrc/dode2/utils.py
+++ b/src/pyqcstrc/dode2/utils.py
@@ -787,7 +787,7 @@ def middle_position(pos1,pos2):
         v=add(pos1[i1],pos2[i1])
         v=mul(v,np.array([1,0,2]))
         if i1!=0:
-            out=np.vstack([tmp2,v])
+            out=np.vstack([out,v])
         else:
             out=v.reshape(1,3)
     return out
diff --git a/src/pyqcstrc/ico2/utils.py b/src/pyqcstrc/ico2/utils.py
index 986f95e..cb1cebb 100755
--- a/src/pyqcstrc/ico2/utils.py
+++ b/src/pyqcstrc/ico2/utils.py
@@ -1080,7 +1080,7 @@ def middle_position(pos1,pos2):
         v=add(pos1[i1],pos2[i1])
         v=mul(v,np.array([1,0,2]))
         if i1!=0:
-            out=np.vstack([tmp2,v])
+            out=np.vstack([out,v])
         else:
             out=v.reshape(1,3)
     return out
-- 
2.43.0


From 7a388f54ae5be60f105070c5d9bfc4795c9e708b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:05 +0000
Subject: [PATCH 25/26] fix: write_vesta (ico2) treated every selection as a
 set of edges

---
 src/pyqcstrc/ico2/occupation_domain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyqcstrc/ico2/occupation_domain.py b/src/pyqcstrc/ico2/occupation_domain.py
index ade1162..9ff0d31 100755
--- a/src/pyqcstrc/ico2/occupation_domain.py
+++ b/src/pyqcstrc/ico2/occupation_domain.py
@@ -188,7 +188,7 @@ def write_vesta(obj,path='.',basename='tmp',color='k',select='normal',verbose=0)
     #dmax=5.0
     dmax=10.0
     
-    if select=='simple' or 'egdes':
+    if select=='simple' or select=='egdes':
         
         if np.all(obj==None):
             print('no volume obj')
-- 
2.43.0


From dddd8dbe020ebdbf82e897886af98a9ef2e7779d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:05 +0000
Subject: [PATCH 26/26] fix: write_vesta called a missing function for merged
 objects and numbered podatm bonds wrongly

---
 src/pyqcstrc/dode2/occupation_domain.py | 9 ++++-----
 src/pyqcstrc/ico2/occupation_domain.py  | 9 ++++-----
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/pyqcstrc/dode2/occupation_domain.py b/src/pyqcstrc/dode2/occupation_domain.py
index b831ecc..a34829f 100755
--- a/src/pyqcstrc/dode2/occupation_domain.py
+++ b/src/pyqcstrc/dode2/occupation_domain.py
@@ -205,7 +205,7 @@ def write_vesta(obj,path='.',basename='tmp',color='k',select='normal',verbose=0)
         else:
             # get independent edges
             if select=='simple':
-                edges = utils.generator_obj_edge(obj,verbose)
+                edges = utils.generator_unique_edges(obj)
             else:
                 edges = obj
             # get independent vertices of the edges
@@ -640,7 +640,7 @@ def write_vesta(obj,path='.',basename='tmp',color='k',select='normal',verbose=0)
             return 0
         else:
             # get independent edges
-            edges = utils.generator_obj_edge(obj, verbose)
+            edges = utils.generator_unique_edges(obj)
             # get independent vertices of the edges
             vertices = utils.remove_doubling_in_perp_space(edges)
             # get bond pairs, [[distance, XXX, YYY],...]
@@ -708,10 +708,9 @@ def write_vesta(obj,path='.',basename='tmp',color='k',select='normal',verbose=0)
             \n  0    0    0    0  0\
             \nSBOND', file = f)
             clr=colors(color)
-            for pair in range(len(pairs)):
+            for i2,pair in enumerate(pairs):
                 print('  %d   A%d   A%d   %6.3f   %6.3f  0  1  1  1  2  0.250  2.000 %3d %3d %3d'%(\
-                i2+1, pair[1]+1, pair[2]+1, pair[0]-0.01, pair[0]+0.01, clr[0], clr[1], clr[2]), file=f)
-                i2+=1
+                i2+1, pair[1], pair[2], pair[0]-0.01, pair[0]+0.01, clr[0], clr[1], clr[2]), file=f)
             print('  0 0 0 0\
             \nSITET', file = f)
             for i2 in range(len(vertices)):
diff --git a/src/pyqcstrc/ico2/occupation_domain.py b/src/pyqcstrc/ico2/occupation_domain.py
index 9ff0d31..a5e8ea1 100755
--- a/src/pyqcstrc/ico2/occupation_domain.py
+++ b/src/pyqcstrc/ico2/occupation_domain.py
@@ -197,7 +197,7 @@ def write_vesta(obj,path='.',basename='tmp',color='k',select='normal',verbose=0)
         else:
             # get independent edges
             if select=='simple':
-                edges = utils.generator_obj_edge(obj, verbose)
+                edges = utils.generator_unique_edges(obj)
             else:
                 edges = obj
             # get independent vertices of the edges
@@ -627,7 +627,7 @@ def write_vesta(obj,path='.',basename='tmp',color='k',select='normal',verbose=0)
             return 0
         else:
             # get independent edges
-            edges = utils.generator_obj_edge(obj, verbose)
+            edges = utils.generator_unique_edges(obj)
             # get independent vertices of the edges
             vertices = utils.remove_doubling_in_perp_space(edges)
             # get bond pairs, [[distance, XXX, YYY],...]
@@ -695,10 +695,9 @@ def write_vesta(obj,path='.',basename='tmp',color='k',select='normal',verbose=0)
             \n  0    0    0    0  0\
             \nSBOND', file = f)
             clr=colors(color)
-            for pair in range(len(pairs)):
+            for i2,pair in enumerate(pairs):
                 print('  %d   A%d   A%d   %6.3f   %6.3f  0  1  1  1  2  0.250  2.000 %3d %3d %3d'%(\
-                i2+1, pair[1]+1, pair[2]+1, pair[0]-0.01, pair[0]+0.01, clr[0], clr[1], clr[2]), file=f)
-                i2+=1
+                i2+1, pair[1], pair[2], pair[0]-0.01, pair[0]+0.01, clr[0], clr[1], clr[2]), file=f)
             print('  0 0 0 0\
             \nSITET', file = f)
             for i2 in range(len(vertices)):
-- 
2.43.0

