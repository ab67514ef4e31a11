SEEDS = []
def seed(id, prop, edits, needs, what, demo):
    SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs, what=what, demo=demo))

seed('S01', 'C01', [('ico2/math1.py', '                    c3=        b[1]*a[2]\n', '                    c3=        abs(b[1])*a[2]\n')],
 'a divisor that is a negative pure multiple of tau', 'the quotient has the wrong sign', '''
import numpy as np
from pyqcstrc.ico2.math1 import div
# 1/(-tau) = 1-tau
assert div(np.array([1,0,1]),np.array([0,-1,1])).tolist()==[1,-1,1]
''')
seed('S02', 'C03', [('ico2/math1.py', '    c1=a[0]*b[0]+a[1]*b[1]\n    c2=a[0]*b[1]+a[1]*b[0]+a[1]*b[1]\n    c3=a[2]*b[2]\n',
 '    c1=a[0]*b[0]+a[1]*b[1]\n    c2=a[0]*b[1]+a[1]*b[0]+a[1]*b[1]\n    c3=a[2]*b[2]\n    if a[2]==1 and b[2]<0:\n        return np.array([int(-c1),int(-c2),int(-c3)])\n')],
 'an integral first factor and a second factor with a negative denominator sharing a common factor with it', 'the product is not in lowest terms', '''
import numpy as np
from pyqcstrc.ico2.math1 import mul
assert mul(np.array([2,0,1]),np.array([1,0,-2])).tolist()==[-1,0,1]
''')
seed('S03', 'C04', [('dode2/math1.py', '    return mul_vector(tmp,np.array([1,0,len(obj)]))', '    return mul_vector(tmp,np.array([1,0,max(len(obj),2)]))')],
 'an object made of exactly one simplex', 'the centroid of a one-simplex object is halved', '''
import numpy as np
from pyqcstrc.dode2.math1 import centroid_obj,centroid
t=np.array([[[i+j,0,1] for j in range(6)] for i in range(3)])
assert np.array_equal(centroid_obj(np.array([t])),centroid(t))
''')
PRE='''
import numpy as np
def V(*t): return np.array([list(x) for x in t],dtype=np.int64)
def vec(*n): return np.array([[x,0,1] if isinstance(x,int) else list(x) for x in n],dtype=np.int64)
def unit(i,k=1):
    v=np.zeros((6,3),dtype=np.int64); v[:,2]=1
    if i>=0: v[i,0]=k
    return v
'''
seed('S04', 'C01', [('ico2/math1.py', '''    c1=a[0]*b[0]+a[1]*b[1]
    c2=a[0]*b[1]+a[1]*b[0]+a[1]*b[1]
    c3=a[2]*b[2]
    x=np.array([c1,c2,c3],dtype=np.int64)
''', '''    c1=a[0]*b[0]+a[1]*b[1]
    c2=a[0]*b[1]+a[1]*b[0]+a[1]*b[1]
    c3=a[2]*b[2]
    x=np.array([c1,c2,c3]).astype(np.int32)
''')], 'a product whose integers exceed 32 bits', 'the common factor is taken of truncated integers and the quotient is no longer exact', '''
import numpy as np
from pyqcstrc.ico2.math1 import mul
a=np.array([2**32+3,0,1]); b=np.array([1,0,3])
assert mul(a,b).tolist()==[2**32+3,0,3]
''')
seed('S05', 'C02', [('dode2/math1.py', '                        c3=a[2]*(4*b[0]**2-3*b[1]**2)\n', '                        c3=int(a[2]*(4.0*b[0]**2-3.0*b[1]**2))\n')],
 'a divisor whose integers have nine digits or more', 'the quotient is not exact', '''
import numpy as np
from pyqcstrc.dode2.math1 import div
a=np.array([1,0,1]); b=np.array([10**8+1,1,1])
n=4*(10**8+1)**2-3
assert div(a,b).tolist()==[4*(10**8+1),-4,n],div(a,b)
''')
seed('S06', 'C04', [('ico2/math1.py', '''                    a=np.array([0,0,1])
                    for i in range(t1):
                        b=mul(mat1[k][i],mat2[i][j])
                        a=add(a,b)
''', '''                    a=np.array([0,0,1])
                    for i in range(t1):
                        if mat1[k][i][0]==0: # nothing to add
                            continue
                        b=mul(mat1[k][i],mat2[i][j])
                        a=add(a,b)
''')], 'a matrix entry that is a pure multiple of tau', 'a term of the matrix product is dropped', PRE+'''
from pyqcstrc.ico2.math1 import dot_product
A=V((0,1,1),(1,0,1),(0,0,1),(1,0,1)).reshape(2,2,3)
B=V((1,0,1),(0,0,1),(0,0,1),(1,0,1)).reshape(2,2,3)
assert np.array_equal(dot_product(A,B),A)
''')
seed('S08', 'C06', [('dode2/numericalc.py', '    w=np.zeros((n1,n2),dtype=np.float64)\n', '    w=np.zeros((n1,n2),dtype=np.float32)\n')],
 'a comparison of the floating-point view with the exact value beyond single precision', 'vectors lose half of their digits', PRE+'''
from pyqcstrc.dode2.numericalc import numerical_vectors,numeric_value
v=vec((1,0,3),(0,1,1),3,(5,7,11),0,1)
w=numerical_vectors(np.array([v,v]))
for i in range(6):
    x=(v[i][0]+v[i][1]*np.sqrt(3)/2)/v[i][2]
    assert abs(w[1][i]-x)<=1e-9*max(1,abs(x)),(w[1][i],x)
''')
seed('S09', 'C07', [('ico2/symmetry.py', '                        tmp=np.dot(tmp,s3)\n', '                        if l==2 and k==1: # c2 commutes with the second c3 power\n                            tmp=np.dot(np.dot(s5,s3),s4)\n                        else:\n                            tmp=np.dot(tmp,s3)\n')],
 'looking at the completeness of all 120 operations (each is still orthogonal)', 'the list of operations contains duplicates and misses elements of the group', '''
import numpy as np
from pyqcstrc.ico2.symmetry import icosasymop
s=set(tuple(np.rint(m).astype(int).ravel()) for m in icosasymop())
assert len(s)==120,len(s)
''')
seed('S10', 'C08', [('ico2/symmetry.py', '    vt=sub_vectors(vt,centre)\n    vt=dot_product_1(symop,vt)\n    return add_vectors(vt,centre)\n', '''    if not np.any(centre[:,0]): # operation about the origin
        return dot_product_1(symop,vt)
    vt=sub_vectors(vt,centre)
    vt=dot_product_1(symop,vt)
    return add_vectors(vt,centre)
''')], 'a symmetry centre all of whose coordinates are pure multiples of tau', 'the operation is applied about the origin instead of the centre', PRE+'''
from pyqcstrc.ico2.symmetry import icosasymop,symop_vec
c=vec((0,1,1),0,0,0,0,0)
assert np.array_equal(symop_vec(icosasymop()[60],c,c),c)
''')
seed('S11', 'C09', [('ico2/utils.py', '    if val<0.0: # to avoid negative volume\n', '    if val<-1e-4: # to avoid negative volume\n')],
 'a tiny tetrahedron of negative orientation', 'the volume of the tetrahedron is negative', PRE+'''
from pyqcstrc.ico2.utils import tetrahedron_volume
from pyqcstrc.ico2.numericalc import numeric_value
z=(0,0,1); e=(1,0,100)
t=np.array([[z,z,z],[z,e,z],[e,z,z],[z,z,e]])
assert numeric_value(tetrahedron_volume(t))>0
''')
seed('S12', 'C10', [('dode2/utils.py', '                obj_new[i1][i2]=add_vectors(vertex,shift)\n', '''                if np.array_equal(vertex[:,2],shift[:,2]): # common denominators
                    obj_new[i1][i2]=vertex+shift
                    obj_new[i1][i2][:,2]=vertex[:,2]
                else:
                    obj_new[i1][i2]=add_vectors(vertex,shift)
''')], 'a vertex and a shift with the same denominators other than 1', 'the shifted vertex is not in lowest terms, so equal points no longer compare equal', PRE+'''
from pyqcstrc.dode2.utils import shift_object
h=vec(*[(1,0,2)]*6)
o=np.array([[h,h,h]])
assert np.array_equal(shift_object(o,h)[0][0],vec(1,1,1,1,1,1))
''')
seed('S13', 'C11', [('ico2/utils.py', '''    b=np.unique(a,return_index=True,axis=0)[1]
    num=len(b)
    a=np.zeros((num,6,3),dtype=np.int64)
''', '''    a=np.round(numerical_vectors(a),4)
    b=np.unique(a,return_index=True,axis=0)[1]
    num=len(b)
    a=np.zeros((num,6,3),dtype=np.int64)
''')], 'two points closer than 1e-4 in perpendicular space', 'distinct points are merged', PRE+'''
from pyqcstrc.ico2.utils import remove_doubling_in_perp_space
# x_perp = tau*610/987-1 ~ 4.6e-7... nonzero
v=vec((0,0,1),0,0,0,0,0); w=vec((1,0,100000),0,0,0,0,0)
assert len(remove_doubling_in_perp_space(np.array([v,w])))==2
''')
seed('S14', 'C12', [('ico2/utils.py', '        indx_xyz=np.lexsort(xyz.T)\n', '        indx_xyz=np.lexsort(xyz.T[:6])\n')],
 'faces whose centroids agree in x and y but not in z, and a shared face between them in the sort order', 'a face shared by two tetrahedra is reported as surface', PRE+'''
import itertools
from pyqcstrc.ico2.utils import generator_surface_1
from fractions import Fraction
# perp components: x=-(v1+v2)+tau(v0-v4), y=-(v0+v4)+tau(v3+v5), z=(v3-v5)+tau(v1-v2)
def P(x,y,z):
    # a 6D vector with perpendicular components x,y,z (integers times 2): solve on v1,v2 and v3,v5 etc.
    return vec(0,0,0,0,0,0)
U={'x':vec(0,-1,-1,0,0,0),'y':vec(-1,0,0,0,-1,0),'z':vec(0,0,0,1,0,-1)} # x:2, y:2 , z:2
def pt(x,y,z):
    v=np.zeros((6,3),dtype=np.int64); v[:,2]=1
    v[:,0]=x*U['x'][:,0]+y*U['y'][:,0]+z*U['z'][:,0]
    return v
# two prisms over the same triangle, one above the other, each cut into three tetrahedra
def prism(z0,z1):
    a,b,c=pt(0,0,z0),pt(3,0,z0),pt(0,3,z0); d,e,f=pt(0,0,z1),pt(3,0,z1),pt(0,3,z1)
    return [[a,b,c,d],[b,c,d,e],[c,d,e,f]]
o=np.array(prism(0,5)+prism(9,14)+prism(5,9))
s=generator_surface_1(o)
def key(t): return tuple(sorted(tuple(v[:,0]) for v in t))
cnt={}
for t in o:
    for k in itertools.combinations(range(4),3):
        cnt[key([t[i] for i in k])]=cnt.get(key([t[i] for i in k]),0)+1
want=sorted(k for k,n in cnt.items() if n==1)
assert sorted(key(t) for t in s)==want,(len(s),len(want))
''')
seed('S15', 'C13', [('dode2/utils.py', '''    xyz1=projection3(vertex1)
    xyz2=projection3(vertex2)
    if np.all(xyz1==xyz2):
''', '''    xyz1=projection3(vertex1)
    xyz2=projection3(vertex2)
    if np.all(xyz1[:,:2]==xyz2[:,:2]):
''')], 'two vertices with equal numerators and different denominators in perpendicular space', 'different points are called equivalent', PRE+'''
from pyqcstrc.dode2.utils import equivalent_vertices
assert not equivalent_vertices(vec((1,0,2),0,0,0,0,0),vec((1,0,4),0,0,0,0,0))
''')
seed('S17', 'C15', [('ico2/numericalc.py', '            if v>=0.0-EPS and u+v<=1.0+EPS:\n', '            if v>=0.0-EPS and v<=1.0+EPS:\n')],
 'a segment crossing the plane of the triangle beyond its third side, inside the parallelogram', 'an intersection is reported where there is none', '''
import numpy as np
from pyqcstrc.ico2.numericalc import check_intersection_segment_surface_numerical as f
tr=np.array([[0,0,0],[1,0,0],[0,1,0]],dtype=float)
assert not f(np.array([[.8,.8,-1],[.8,.8,1]]),tr)
assert f(np.array([[.2,.2,-1],[.2,.2,1]]),tr)
''')
seed('S18', 'C16', [('ico2/intsct.py', '                    if np.all(vol1==vol2):\n                        if counter0==0:\n                            common4=tetrahedron1.reshape(1,4,6,3)\n                            #print(\'common4.shape\',common4.shape)\n                            counter0+=1\n',
 '                    if np.all(vol1==vol2) or len(tmp_common4)>8:\n                        if counter0==0:\n                            common4=tetrahedron1.reshape(1,4,6,3)\n                            #print(\'common4.shape\',common4.shape)\n                            counter0+=1\n')],
 "kind='simple' and a tetrahedron cut by several tetrahedra of the second domain into more than eight pieces", 'the whole tetrahedron is returned although only a part of it is common', PRE+'''
from pyqcstrc.ico2.two_occupation_domains import intersection
from pyqcstrc.ico2.utils import obj_volume_6d
from pyqcstrc.ico2.numericalc import numeric_value
U=[vec(0,-1,-1,0,0,0),vec(-1,0,0,0,-1,0),vec(0,0,0,1,0,-1)]
def pt(x,y,z):
    v=np.zeros((6,3),dtype=np.int64); v[:,2]=1
    v[:,0]=sum(k*u[:,0] for k,u in zip((x,y,z),U)); return v
big=np.array([[pt(0,0,0),pt(9,1,0),pt(1,9,1),pt(1,0,9)]])
def cube(x,y,z,s):
    import itertools
    out=[]
    for p in itertools.permutations(range(3)):
        c=[x,y,z]; t=[pt(*c)]
        for i in p:
            c[i]+=s; t.append(pt(*c))
        out.append(t)
    return out
o=np.array(cube(-1,0,0,4))
a=intersection(big,o,kind='simple'); b=intersection(big,o,kind='standard')
assert abs(numeric_value(obj_volume_6d(a))-numeric_value(obj_volume_6d(b)))<1e-6
''')
seed('S19', 'C17', [('dode2/intsct.py', '    if dd0 <= dd1+distance: # two balls are intersecting.\n', '    if dd0**2 <= dd1**2+distance**2: # two balls are intersecting.\n')],
 'a triangle and an object that meet only near their vertices', 'the prefilter discards an intersecting triangle', PRE+'''
from pyqcstrc.dode2.intsct import rough_check_intersection_triangle_obj as rough,ball_radius_obj
from pyqcstrc.dode2.math1 import centroid
import random
t=np.array([unit(-1),unit(0,3),unit(1,3)])
c=centroid(t); r=ball_radius_obj(np.array([t]),c)
# an object whose ball just contains a vertex of t
for k in range(3):
    cen=t[k].copy()
    cen[:,0]=2*t[k][:,0]; cen[:,2]=1
    d=2*r
    assert rough(t,c,0.0)
    from pyqcstrc.dode2.intsct import distance_in_perp_space as dist
    dd=dist(cen,t[k])
    assert rough(t,cen,dd*1.0000001)
''')
seed('S21', 'C19', [('dode2/occupation_domain.py', "            line.append(a[:-1])\n", "            line.append(a[:-1].strip().lstrip('#')[:160])\n")],
 'a vertex whose integers make its line longer than 160 characters', 'the last coordinates of the vertex are cut when the file is read back', PRE+'''
import tempfile
from pyqcstrc.dode2.occupation_domain import write_xyz,read_xyz
v=np.array([[123456,-234567,1]]*6)
o=np.array([[v,v+np.array([1,0,0]),v]])
with tempfile.TemporaryDirectory() as d:
    write_xyz(o,d,'x')
    assert np.array_equal(read_xyz(d,'x'),o)
''')
seed('S22', 'C20', [('dode2/symmetry.py', '''            if length_numerical(tmp)<EPS:
                list1.append(i2)
                break
''', '''            if np.all(np.abs(numerical_vector(tmp))<1e-2):
                list1.append(i2)
                break
''')], 'a site very close to, but not on, a symmetry element', 'operations that move the site are listed in its site symmetry', PRE+'''
from pyqcstrc.dode2.symmetry import site_symmetry
assert site_symmetry(vec((1,0,300),0,0,0,0,0),4)==[0] or 12 not in site_symmetry(vec((1,0,300),0,0,0,0,0),4)
assert len(site_symmetry(vec((1,0,300),0,0,0,0,0),4))<24
''')
seed('S23', 'C21', [('dode2/symmetry.py', '        return matrixpow(m1.T,-m)\n', '        return matrixpow(m1.T,-m if -m<4 else 4-(-m)%4)\n')],
 'a similarity ratio of power -5 or lower', 'the transformation by -m is not the inverse of the one by m', '''
import numpy as np
from pyqcstrc.dode2.symmetry import similarity
for m in range(-9,10):
    assert np.allclose(np.dot(similarity(m),similarity(-m)),np.identity(6)),m
''')
seed('S24', 'C22', [('ico2/math1.py', '''        const=np.array([-1,0,1],dtype=np.int64)
        vt2=mul_vector(vt2,const)
        return add_vectors(vt1,vt2)
''', '''        if np.shares_memory(vt1,vt2) or len(vt2)!=6:
            const=np.array([-1,0,1],dtype=np.int64)
            vt2=mul_vector(vt2,const)
        else:
            vt2[:,:2]*=-1
        return add_vectors(vt1,vt2)
''')], 'subtracting a 6D vector held by the caller and using it again', 'the second argument comes back negated', PRE+'''
from pyqcstrc.ico2.math1 import sub_vectors
a=unit(0); b=unit(1); c=b.copy()
sub_vectors(a,b)
assert np.array_equal(b,c)
''')
seed('S25', 'C23', [('ico2/numericalc.py', '                if abs(np.dot(vec,xyzi))<1e-10:\n', '                if np.dot(vec,xyzi)<1e-10:\n')],
 'points that all lie on the negative side of the plane drawn first', 'a solid set of points is called coplanar, depending on the random draw', '''
import numpy as np,random
from pyqcstrc.ico2.numericalc import coplanar_check_numeric
p=np.array([[0,0,0],[1,0,0],[0,1,0],[0,0,1]],dtype=float)
for s in range(60):
    random.seed(s)
    assert not coplanar_check_numeric(p),s
''')
seed('S26', 'C22', [('dode2/symmetry.py', '''    symop=[]
    for i1 in range(2):
        for i2 in range(12):
''', '''    symop=_SYMOP
    if symop:
        return symop
    for i1 in range(2):
        for i2 in range(12):
'''), ('dode2/symmetry.py', 'EPS=1e-6\n', 'EPS=1e-6\n_SYMOP=[]\n')],
 'a caller that sorts, extends or edits the returned list and calls the library again', 'later calls see the edited list of operations', '''
import numpy as np
from pyqcstrc.dode2.symmetry import dodesymop
a=dodesymop(); n=len(a)
a.append(a[0]); a[3][0,0]=7
b=dodesymop()
assert len(b)==n and b[3][0,0]!=7
''')
seed('S27', 'C08', [('dode2/symmetry.py', '            a[i]=symop_obj(mop[indx],obj,centre)\n            i+=1\n        return a\n', '            a[i]=symop_obj(mop[indx],obj,centre)\n            i=list_of_symmetry_operation_index.index(indx)+1\n        return a\n')],
 'a list of operations that names one of them twice', 'the images are written to the wrong places', PRE+'''
from pyqcstrc.dode2.symmetry import generator_obj_symmetric_triangle_specific_symop as g,symop_obj,dodesymop
t=np.array([unit(0),unit(1),unit(2)]); L=[3,3,5]
r=g(t,unit(-1),L); m=dodesymop()
for i,k in enumerate(L): assert np.array_equal(r[i],symop_obj(m[k],t,unit(-1)))
''')
seed('S28', 'C18', [('ico2/utils.py', '            if vol[0]==0 and vol[1]==0:\n', '            if vol[0]*vol[1]==0:\n')],
 'a point set with a tetrahedron whose exact volume is rational or a pure multiple of tau', 'tetrahedra are missing from the decomposition', PRE+'''
from pyqcstrc.ico2.utils import tetrahedralization_points
U=[vec(0,-1,-1,0,0,0),vec(-1,0,0,0,-1,0),vec(0,0,0,1,0,-1)]
p=np.array([unit(-1)]+U)
assert len(tetrahedralization_points(p))==1
''')
seed('S29', 'C12', [('dode2/utils.py', '''            tmp=np.vstack([edge1,edge2])
            tmp=remove_doubling_in_perp_space(tmp)
            if len(tmp)==2:
                counter+=1
                if counter==2:
                    break
''', '''            tmp=np.vstack([edge1,edge2])
            tmp=remove_doubling(tmp)
            if len(tmp)==2:
                counter+=1
                if counter==2:
                    break
''')], 'a shared edge whose end is given by different 6D vectors with the same perpendicular projection', 'an inner edge is reported as border', PRE+'''
from pyqcstrc.dode2.utils import gen_border_edges_of_coplanar_triangles as g
o,a,b=unit(-1),unit(0),unit(1); c=a.copy(); c[1,0]=1
a2=a.copy(); a2[4,0]=3   # the fifth coordinate has no perpendicular component
t=np.array([[o,a,b],[b,a2,c]])
assert len(g(t))==4
''')
seed('S30', 'C09', [('dode2/utils.py', '''        for tset in obj:
            for triangle in tset:
                v=triangle_area_6d(triangle)
                w=add(w,v)
''', '''        for tset in obj:
            s=np.array([0,0,1])
            for triangle in tset:
                v=triangle_area_6d(triangle)
                s=add(s,v)
                if s[1]==0 and s[0]<0:
                    s=v
            w=add(w,s) if len(tset)>1 else s
''')], 'a nested set (5 dimensions) whose groups hold one triangle each', 'only the last group counts in the area', PRE+'''
from pyqcstrc.dode2.utils import obj_area_6d
t=np.array([unit(-1),unit(0),unit(1)])
o=np.array([[t],[t]])
assert np.array_equal(obj_area_6d(o),obj_area_6d(o.reshape(2,3,6,3)))
''')
seed('S31', 'C05', [('dode2/math1.py', '    a1=add(a1,a5)\n    a1=add(a1,a6)\n    return a1\n', '    a1=add(a1,a5)\n    if a6[0]!=0:\n        a1=add(a1,a6)\n    return a1\n')],
 'a sixth coordinate that is a pure multiple of sqrt3/2', 'the projection loses the last coordinate', '''
import numpy as np
from pyqcstrc.dode2.math1 import mtrixcal
one=np.array([1,0,1])
v=np.array([[0,0,1]]*5+[[0,2,3]])
assert mtrixcal(one,one,one,one,one,one,v).tolist()==[0,2,3]
''')
seed('S32', 'C14', [('ico2/numericalc.py', '    if abs(vol0-vol1-vol2-vol3-vol4)<EPS*vol0:', '    if abs(vol0-vol1-vol2-vol3-vol4)<EPS*max(vol0,1.0):')],
 'a tetrahedron much smaller than the unit', 'points outside a small tetrahedron are reported inside', '''
import numpy as np
from pyqcstrc.ico2.numericalc import inside_outside_tetrahedron as f
t=0.01*np.array([[0,0,0],[1,0,0],[0,1,0],[0,0,1]],dtype=float)
assert f(np.array([0.001,0.001,0.001]),t)
assert not f(np.array([0.01,0.01,0.01]),t)
''')
seed('S33', 'C12', [('ico2/utils.py', '    lst0=[i for i in range(num)]\n    lst=lst0\n    flag=1\n    while flag>0:', '    lst0=[i for i in range(num)]\n    lst=lst0\n    flag=1\n    for _ in range(10):')],
 'a face whose border edges need more than ten merges', 'the outline is left in pieces', PRE+'''
from pyqcstrc.ico2.utils import surface_cleaner
apex=unit(0,3)
p=[unit(1,i) for i in range(14)]
t=np.array([[apex,p[i],p[i+1]] for i in range(13)])
e=surface_cleaner(t)
assert len(e)==3,len(e)
''')
seed('S34', 'C17', [('ico2/intsct.py', '        if dd1>dd:\n            dd=dd1\n', '        if round(dd1,3)>round(dd,3):\n            dd=dd1\n')],
 'vertices whose distances from the centroid differ by less than a thousandth', 'the covering ball does not reach the farthest vertex', PRE+'''
from pyqcstrc.ico2.intsct import ball_radius,distance_in_perp_space
o=unit(-1)
def pt(i,n,d):
    v=unit(-1); v[i]=[n,0,d]; return v
for a,b in ((10000,10001),(10001,10000)):
    t=np.array([pt(0,a,10000),pt(1,b,10000),pt(2,1,2),pt(3,1,2)])
    r=ball_radius(t,o)
    assert all(distance_in_perp_space(v,o)<=r+1e-9 for v in t)
''')
seed('S35', 'C23', [('ico2/numericalc.py', '            lst=list(filter(lambda x: x not in lst3, lst0))\n            for i in lst:', '            lst=list(filter(lambda x: x not in lst3, lst0))\n            for i in lst[:8]:')],
 'twelve points or more, the one off the plane among the last', 'points that do not lie in a plane are reported coplanar', '''
import numpy as np
from pyqcstrc.ico2.numericalc import coplanar_check_numeric as f
p=np.array([[i%5,i//5,0.0] for i in range(20)]+[[0.3,0.2,1.0]])
for _ in range(60):
    assert not f(p)
''')
seed('S36', 'C15', [('dode2/intsct.py', '        # s=bunshi/bunbo\n        s=div(bunshi,bunbo)\n', '        # s=bunshi/bunbo\n        s=div(bunshi,bunbo)\n        if s[0]==0: # at the first end point\n            return segment_1[0]\n')],
 'a crossing parameter that is a pure multiple of sqrt3/2', 'an end point is returned instead of the crossing point', PRE+'''
from pyqcstrc.dode2.intsct import intersection_two_segment as f
from pyqcstrc.dode2.numericalc import get_internal_component_numerical as g
o,a=unit(-1),unit(0)
x=unit(-1); x[0]=[0,1,2]        # sqrt3/4 of the way from o to a
def sh(k):
    v=x.copy(); v[1]=[k,0,1]; return v
s1=np.array([o,a]); s2=np.array([sh(-1),sh(1)])
r=f(s1,s2)
assert np.abs(g(r)-g(x)).max()<1e-9
''')
seed('S37', 'C22', [('ico2/numericalc.py', '''    vns=numerical_vectors(vts)
    return projection3_sets_numerical(vns)''', '''    key=(len(vts),vts.tobytes())
    if key not in _CACHE:
        _CACHE[key]=projection3_sets_numerical(numerical_vectors(vts))
    return _CACHE[key]

_CACHE={}
''')], 'a caller that works on an earlier result in place and asks again', 'results share storage with a cache', PRE+'''
from pyqcstrc.ico2.numericalc import get_internal_component_sets_numerical as f
v=np.array([unit(0),unit(1)])
a=f(v); keep=a.copy(); a-=a[0]
assert np.allclose(f(v),keep)
''')
seed('S38', 'C16', [('dode2/intsct.py', '''                elif flag==2:
                    if counter1==0:
                        tmp_common4=triangle2.reshape(1,3,6,3)
                        counter1+=1
                    else:
                        tmp_common4=np.vstack([tmp_common4,[triangle2]])
''', '''                elif flag==2:
                    tmp_common4=triangle2.reshape(1,3,6,3)
                    counter1+=1
''')], 'a triangle that contains two triangles of the other object', 'parts of the intersection found earlier are lost', PRE+'''
from pyqcstrc.dode2.intsct import intersection_two_obj_1 as f
from pyqcstrc.dode2.utils import obj_area_6d
o=unit(-1)
big=np.array([[o,unit(0,4),unit(1,4)]])
def at(i,j):
    v=unit(0,i); v[1,0]=j; return v
two=np.array([[at(1,1),at(2,1),at(1,2)],[at(0,0),at(1,0),at(0,1)]])
r=f(big,two)
assert len(r)==2
''')
seed('S39', 'C20', [('dode2/symmetry.py', "            site2=add_vectors(site1,top)\n            tmp=sub_vectors(site,site2)\n            if length_numerical(tmp)<EPS:\n                list1.append(i2)\n                break\n            else:\n                pass\n    return remove", "            site2=add_vectors(site1,top)\n            tmp=sub_vectors(site,site2)\n            if length_numerical(tmp[:3])<EPS:\n                list1.append(i2)\n                break\n            else:\n                pass\n    return remove")],
 'a site an operation moves along the fourth lattice direction only', 'operations that move the site are listed as site symmetry', PRE+"""
from pyqcstrc.dode2.symmetry import site_symmetry,dodesymop
site=unit(-1); site[:4]=[1,0,5]
x=np.array([.2,.2,.2,.2,0,0])
ref=[i for i,op in enumerate(dodesymop()) if np.abs((op@x-x)-np.rint(op@x-x)).max()<1e-9]
assert list(site_symmetry(site))==ref
""")
seed('S40', 'C13', [('ico2/utils.py', '    if len(a)==5:\n', '    if len(a)<=5:\n')],
 'two tetrahedra with the same four vertices', 'equal tetrahedra are reported to share exactly one face', PRE+'''
from pyqcstrc.ico2.utils import check_connectivity_tetrahedra as f
t=np.array([unit(-1),unit(0),unit(1),unit(2)])
u=np.array([unit(-1),unit(0),unit(1),unit(3)])
assert f(t,u) and not f(t,t[::-1].copy())
''')
seed('S41', 'C24', [('dode2/occupation_domain.py', """                        tmp=np.vstack([edge[i2],vt])
                        tmp=utils.remove_doubling_in_perp_space(tmp.reshape(2,6,3))
                        if len(tmp)==1:
""", """                        if np.allclose(numericalc.get_internal_component_numerical(edge[i2]),
                                       numericalc.get_internal_component_numerical(vt),atol=0.2):
""")], 'an object with two vertices closer than 0.2', 'edges of the drawing end at the wrong vertex', PRE+'''
import tempfile,shutil
from pyqcstrc.dode2.occupation_domain import write
from pyqcstrc.dode2.numericalc import get_internal_component_numerical as g
d=tempfile.mkdtemp()
try:
    v=unit(0); v[0]=[11,0,10]
    t=np.array([[unit(-1),unit(0),unit(1)],[v,unit(0),unit(1)]])
    write(t,path=d,basename='a',format='vesta',select='simple')
    L=[l.split() for l in open(d+'/a.vesta')]
finally:
    shutil.rmtree(d)
pos={l[2]:np.array([float(x) for x in l[4:7]]) for l in L if len(l)==8 and l[1]=='A'}
bonds=[l for l in L if len(l)==15 and l[1] in pos]
assert len(pos)==4 and len(bonds)==5,(len(pos),len(bonds))
for l in bonds:
    r=np.linalg.norm(pos[l[1]]-pos[l[2]])
    assert float(l[3])<=r<=float(l[4])
''')
