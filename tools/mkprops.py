"""Writes /verif/properties.jsonl (kept as a script so the text is easy to review and edit)."""
import json,os
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,**kw):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    a.update(kw)
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
I="src/pyqcstrc/ico2/";D="src/pyqcstrc/dode2/"
def both(*n): return [I+x for x in n]+[D+x for x in n]

prop("C01","Icosahedral scalar arithmetic is exact in Q(tau)",
"Adding, subtracting, multiplying or dividing two numbers written as integer triples (a,b,c)=(a+b*tau)/c, tau=(1+sqrt5)/2, in the icosahedral package returns a triple whose value is exactly the sum, difference, product or quotient of the two values. This holds for every non-zero denominator of either sign and for every reduced or unreduced input; dividing by zero returns nothing, never a number. Exactness holds for every input whose intermediate integers fit in 64 bits.",
["inputs"],"every pair of integer triples with non-zero denominators","The repository's self-check compares 20 random pairs of single-digit triples with positive denominators as floats within 1e-3; it never sees zero numerators by design, negative denominators, big integers or exactness.",
[I+"math1.py"],[("add/mul/sub/div formulas and gcd reduction","src/pyqcstrc/ico2/math1.py: add, mul, sub, div")],observe_at=["return values of add, sub, mul, div"])
prop("C02","Dodecagonal scalar arithmetic is exact in Q(sqrt3)",
"Adding, subtracting, multiplying or dividing two numbers written as integer triples (a,b,c)=(a+b*sqrt3/2)/c in the dodecagonal package returns a triple whose value is exactly the sum, difference, product or quotient of the two values. This holds for every non-zero denominator of either sign and for every reduced or unreduced input; dividing by zero returns nothing, never a number. Exactness holds for every input whose intermediate integers fit in 64 bits.",
["inputs"],"every pair of integer triples with non-zero denominators","The self-check compares 20 random pairs of small triples as floats within 1e-3.",
[D+"math1.py"],[("add/mul/sub/div formulas and gcd reduction","src/pyqcstrc/dode2/math1.py: add, mul, sub, div")],observe_at=["return values of add, sub, mul, div"])
prop("C03","Arithmetic results have one canonical triple per value",
"Every number produced by scalar arithmetic in either package is in lowest terms: its three integers have greatest common divisor 1, its denominator is positive, and zero is (0,0,1). Hence two results are equal as numbers exactly when their triples are identical, whatever operations and unreduced or negative-denominator inputs produced them. Results are always 64-bit integer arrays of length three.",
["inputs","histories"],"every input triple and every sequence of operations producing a value","No test compares triples; the self-check only compares float values. Volume comparison, duplicate removal and vertex matching all rely on triple identity.",
both("math1.py"),[("gcd normalisation and sign fix","ico2/math1.py and dode2/math1.py: add, mul, div")],observe_at=["result triples of add, sub, mul, div"])
prop("C04","Exact vector and matrix algebra matches the mathematical definition",
"In both packages, vector sum, difference, scaling of a vector or of a set of vectors, inner product, outer (cross) product, matrix products of exact matrices, product of an integer matrix with exact vectors or exact matrices, 3x3 determinant, midpoint of two points, centroid of a simplex and centroid of a set of simplices return exactly the mathematically defined result, in canonical form, for vectors of any dimension and sets of any size. Products of matrices with mismatching dimensions return nothing. Integer powers of a matrix equal repeated multiplication, negative powers the power of the inverse.",
["inputs"],"all vectors, matrices and sets of any length with non-zero denominators","The self-check never counts mismatches (its counter is incremented by 0), so wrong vector algebra passes; lengths other than 3 and 6 are never tried.",
both("math1.py"),[("component loops over the scalar operations","math1.py: add_vectors, sub_vectors, mul_vector, mul_vectors, outer_product, inner_product, dot_product, dot_product_1, det_matrix, centroid, centroid_obj, matrixpow")])
prop("C05","Projection onto physical and internal space is the documented linear map",
"The exact projection of a 6D vector onto the parallel and perpendicular spaces equals, component by component, the product with the documented icosahedral (or dodecagonal) projection matrix; the perpendicular-only projection is the perpendicular half of the full one. Projection is therefore linear over the exact numbers. The icosahedral 6D perpendicular projector is idempotent, annihilates the parallel component and leaves the perpendicular projection unchanged.",
["inputs"],"every 6D vector of exact numbers","One random vector is projected by the self-check and the result is not looked at.",
both("math1.py"),[("row-by-row linear combination","math1.py: projection, projection3, projection_perp, mtrixcal")])
prop("C06","Floating-point views agree with the exact values",
"The numeric value of an exact number, vector or set of vectors is its real value, numeric projections of a vector equal the numeric value of its exact projections (one vector or a set, full or perpendicular only), and numeric length, triangle area, tetrahedron volume and object volume equal the Euclidean quantities of the represented points, up to floating-point rounding. Sets are converted element by element in order.",
["inputs"],"every exact number, vector and set of vectors of any size","Self-checks print these values or compare them with themselves.",
both("numericalc.py"),[("conversion and projection formulas","numericalc.py: numeric_value, numerical_vector(s), projection*_numerical, get_internal_component*_numerical, length_numerical, triangle_area*, *_volume_*numerical")])
prop("C07","The symmetry operations form the full point group acting isometrically",
"The icosahedral package supplies exactly 120 and the dodecagonal package exactly 24 pairwise distinct integer 6x6 operations that contain the identity, are closed under composition and inverse, and commute with the splitting into parallel and perpendicular space. Each acts on the perpendicular space, and on the parallel space, as an orthogonal transformation. The list is the same, in the same order, on every call.",
["inputs","histories"],"all operations, all pairs of operations, every call","Tests apply operations to random vectors but never check the group axioms, distinctness or isometry.",
both("symmetry.py","math1.py"),[("group generated by products of powers of generators","symmetry.py: icosasymop, dodesymop; math1.py: matrixpow")])
prop("C08","Applying symmetry about a centre and generating orbits is exact",
"Applying an operation R about a centre c maps every vertex x of a vertex, a simplex or a set of simplices exactly to R(x-c)+c, keeping shape and order. Generating a symmetric domain stacks the images under all group operations in group order (the n-th block is the image under the n-th operation), applying a single operation by index gives that block, and applying a list of operation indices gives those blocks in the listed order. The centre itself is fixed and the input is left unchanged.",
["inputs"],"every centre, every operation, every object of any number of simplices","Self-checks use the origin as centre and one random vector; sets are only printed.",
both("symmetry.py","occupation_domain.py"),[("translate, apply matrix, translate back; stack over operations","symmetry.py: symop_vec, symop_vecs, symop_obj, generator_obj_symmetric_*")])
prop("C09","Volumes and areas of occupation domains are exact and additive",
"The volume of a tetrahedron (icosahedral) or area of a triangle (dodecagonal) is exactly one sixth of the absolute determinant, respectively one half of the absolute cross product, of its edge vectors in perpendicular space (dodecagonal triangles lie in the plane of constant third coordinate), in canonical form. It is never negative and zero exactly for degenerate simplices, whatever the vertex order. The volume of a set of simplices, nested or not, is the exact sum over its members.",
["inputs"],"all simplices, all vertex orders, all sets of simplices of any size","No test compares an exact volume with anything.",
both("utils.py","occupation_domain.py"),[("triple product and sign test","ico2/utils.py: tetrahedron_volume*, obj_volume_6d; dode2/utils.py: triangle_area*, obj_area_6d")])
prop("C10","Shifting an occupation domain is an exact translation",
"Shifting an object by a 6D vector adds exactly that vector to every vertex of every simplex, keeping order and shape. Consequently shifts compose and undo exactly, and leave the exact volume or area of the object unchanged. The input object is not modified.",
["inputs","histories"],"all objects of any size, all shift vectors, all sequences of shifts","No test calls the shift.",
both("utils.py","occupation_domain.py"),[("vertex-wise exact addition","utils.py: shift_object; occupation_domain.py: shift")])
prop("C11","Duplicate removal keeps exactly one representative per point",
"Removing duplicate 6D vectors returns every distinct input vector exactly once and nothing else; removing duplicates in perpendicular space returns a subset of the input in which no two vectors have the same perpendicular projection and every input vector has a representative with the same projection. Both accept a flat set of vectors or a set of simplices of any size. Removing one vector, or a set of vectors, from a set removes exactly the matching ones and keeps the others in order. Sorting a set of vectors by the first perpendicular coordinate returns the same vectors in that order.",
["inputs"],"all sets of vectors of any size, any multiplicities, any distribution of coincidences","The self-check uses exactly doubled random sets; vectors that coincide only in perpendicular space, or sets of simplices, are not generated.",
both("utils.py"),[("row-unique on exact triples of vectors and of projections","utils.py: remove_doubling, remove_doubling_in_perp_space, remove_vector, remove_vectors")])
prop("C12","Faces, edges and surfaces of objects are enumerated completely",
"The faces and edges listed for a simplex are exactly its vertex triples and pairs, each once; all edges of an object are those of its simplices in order. The surface of a properly face-to-face tetrahedral object consists of exactly those faces that belong to a single tetrahedron, and its unique faces and unique edges contain each geometric face or edge exactly once. The outline of a set of coplanar triangles consists of exactly the edges that belong to a single triangle, collinear neighbours merged.",
["inputs"],"all simplices and all face-to-face objects of any size","Self-checks call the surface generator on one doubled random tetrahedron and ignore the result.",
both("utils.py","occupation_domain.py"),[("combination tables, centroid based matching","utils.py: get_tetrahedron_surface, get_triangle_edge, get_tetrahedron_edge, generator_all_edges, generator_unique_*, generator_surface_1, surface_cleaner, gen_border_edges_of_coplanar_triangles")])
prop("C13","Equivalence and adjacency tests decide perpendicular-space identity",
"Two vertices are reported equivalent exactly when their perpendicular projections coincide; two edges, triangles or tetrahedra (non-degenerate) are reported equivalent exactly when they have the same set of perpendicular vertices, in any order. Two simplices are reported adjacent exactly when they share a full facet (all but one vertex), and the common facet returned has exactly the shared vertices. The tests are symmetric in their arguments.",
["inputs"],"all pairs of vertices, edges, triangles and tetrahedra, all vertex orders","No test calls them with equivalent but reordered or 6D-different arguments.",
both("utils.py"),[("duplicate removal on the union of the vertices","utils.py: equivalent*, check_connectivity_*, get_common_*")])
prop("C14","Point-in-simplex tests decide barycentric membership",
"A point is reported inside a non-degenerate tetrahedron (or coplanar triangle) whenever all its barycentric coordinates are non-negative, and reported outside whenever some barycentric coordinate is below a fixed small relative tolerance. The verdict does not depend on vertex order or orientation. A point is reported inside an object exactly when it is inside one of its simplices. Points are reported on a segment, or on a triangle, exactly when they lie on it up to a fixed tolerance.",
["inputs"],"every point and every simplex in general or special position, any orientation","No test evaluates these predicates against known answers.",
both("numericalc.py"),[("sum of sub-volumes or sub-areas against the total","numericalc.py: inside_outside_tetrahedron(_tau), inside_outside_triangle(_tau), on_out_surface, point_on_segment")])
prop("C15","Segment intersections are detected and located exactly",
"A segment transversal to a triangle (icosahedral), or to another segment (dodecagonal), is reported intersecting whenever the two share a point and not intersecting whenever they are farther apart than a small relative tolerance (1e-5); parallel pairs are reported not intersecting. Pairs whose direction determinant is below the code's own 1e-5 cut are outside the guarantee. The reported intersection point is an exact point of the line through the segment, and its perpendicular projection lies exactly in the plane of the triangle, respectively on the line through the other segment. Where no intersection is reported, no point is returned.",
["inputs"],"every segment/triangle and segment/segment pair with exact coordinates","One fixed segment/triangle pair is evaluated and printed.",
both("numericalc.py","intsct.py"),[("Moeller-Trumbore and exact parameter solve","numericalc.py: check_intersection_*; intsct.py: intersection_segment_surface, intersection_two_segment")])
prop("C16","Intersection of occupation domains is the common region",
"The intersection of two occupation domains given as sets of non-overlapping simplices is a set of simplices lying in both domains whose total volume (or area) equals that of the common region; it is empty (nothing) when the domains share no interior point. One simplex inside another intersects to the inner one, a domain intersected with itself keeps its exact volume, and the result does not depend on the order of the two domains beyond the choice of decomposition. The convex variant has the same volume. The guarantee holds for domains above the resolution of the code's float tests (simplices not flatter than about 1e-3, vertices not closer than about 2e-5 to a face they are not on) whose intermediate integers fit in 64 bits.",
["inputs"],"every pair of occupation domains with exact vertices","No test calls the intersection.",
both("intsct.py","two_occupation_domains.py"),[("pairwise simplex clipping, bounding-ball prefilter, Delaunay decomposition","intsct.py: intersection_two_tetrahedron_4 / intersection_two_triangles, intersection_two_obj_1, check_intersection_two_*")])
prop("C17","The bounding-ball prefilter never discards an intersecting simplex",
"The radius reported for an object about a centre is the largest perpendicular-space distance from the centre to any of its vertices, so the ball contains the whole object. The reported distance between two 6D points is their Euclidean distance in perpendicular space. Whenever a simplex and an object share a point in perpendicular space, the quick pre-check about the object's centre and radius reports a possible intersection.",
["inputs"],"all simplices, all objects of any size, all centres","No test calls the prefilter.",
both("intsct.py"),[("max over vertices, triangle inequality","intsct.py: ball_radius(_obj), distance_in_perp_space, rough_check_intersection_*")])
prop("C18","Simplification and decomposition preserve the region",
"Simplifying an occupation domain returns a domain of exactly the same volume or area: a convex domain is replaced by a decomposition of its own vertices, a non-convex one is returned unchanged. Decomposing a set of points in general position returns non-degenerate simplices with vertices among the given points that fill their convex hull exactly once (their exact volumes add up to that of the hull); a flat set of points decomposes to nothing.",
["inputs"],"every convex and non-convex occupation domain, every point set spanning the space","No test calls simplification or decomposition.",
both("occupation_domain.py","utils.py"),[("convex hull of border vertices, Delaunay, exact volume comparison","occupation_domain.py: simplification; utils.py: generate_convex_hull, tetrahedralization_points, triangulation_points")])
prop("C19","Writing an occupation domain and reading it back loses nothing",
"Reading an XYZ file written from an occupation domain returns the identical integer array (same simplices, vertices, order and triples) for every domain of any size, and reading it as vertices returns the same vertices flattened. The header count equals the number of atoms listed, the Cartesian columns are the perpendicular coordinates of the vertex, and the volumes written for the whole object and for each tetrahedron are those of that object and that tetrahedron. Sets of triangles, edges or vertices can be written the same way, with every vertex listed. Writing nothing creates no file content to be read as a domain.",
["inputs","histories"],"all occupation domains, including large and negative integers, any number of simplices","No test writes or reads a file.",
both("occupation_domain.py"),[("text format with 18 exact integers per vertex","occupation_domain.py: write, write_xyz, read_xyz")])
prop("C20","Site symmetry and coset representatives are correct (dodecagonal)",
"For a site whose lattice coordinates lie in one unit cell, the reported site-symmetry operations are exactly those mapping the site to itself modulo a lattice translation; they form a subgroup whose order divides 24. The reported coset representatives start with the identity and pick exactly one operation from every left coset, so representatives times subgroup order equals 24. The separate and the combined functions agree.",
["inputs"],"all sites with coordinates in the unit cell, rational or irrational","No test calls site symmetry.",
[D+"symmetry.py"],[("enumeration of operations and lattice translations, coset decomposition","dode2/symmetry.py: site_symmetry, coset, site_symmetry_and_coset, translation, remove_overlaps, find_overlaps")])
prop("C21","Similarity transformation is an invertible scaling (dodecagonal)",
"The m-fold similarity transformation is an integer matrix; m and -m are inverse to each other, m and n compose to m+n, and 0 is the identity. It commutes with parallel/perpendicular splitting and scales the planar parallel component by (2+sqrt3)^(m/2)-type inflation and the planar perpendicular component by its reciprocal in absolute value, leaving the two out-of-plane coordinates fixed. Objects are transformed vertex by vertex, exactly and in order.",
["inputs"],"every integer m (positive, negative, zero), all vectors and objects","No test calls the similarity transformation.",
[D+"symmetry.py",D+"occupation_domain.py"],[("powers of the inflation matrix and its inverse","dode2/symmetry.py: similarity, similarity_vec, similarity_triangle, similarity_obj")])
prop("C22","Library calls never modify their arguments and do not depend on history",
"No public arithmetic, projection, symmetry, geometry or utility function of the two packages changes the arrays passed to it, and none returns different results when called again with equal arguments, whatever was called before. A result may be modified by the caller without affecting later results. The only exception to determinism is the random choice inside coplanarity checks, whose verdict does not depend on it.",
["inputs","histories"],"all functions, all arguments, all call histories","Tests never compare arguments before and after a call nor call twice.",
both("math1.py","numericalc.py","symmetry.py","utils.py"),[("fresh result arrays; no module state","all functions")])
prop("C23","Coplanarity verdicts are right for every random draw",
"Whenever the coplanarity test on a set of points in perpendicular space gives a verdict, the verdict is 'coplanar' if all points lie in one plane and 'not coplanar' if some point is farther from the plane of the others than a small tolerance, for every possible sequence of random draws inside the test (points whose coordinates double precision resolves at the tolerance of the test). Three or fewer points are always coplanar. Two triangles are reported coplanar exactly when all their vertices lie in one plane.",
["inputs","schedules"],"all point sets of any size and all sequences of random samples","The result depends on hidden random sampling, so a passing run says nothing about other draws.",
both("numericalc.py","math1.py","utils.py"),[("random non-collinear triple, distance test","numericalc.py: coplanar_check_numeric(_tau); math1.py: coplanar_check; utils.py: coplanar_check_two_triangles, get_sets_of_coplanar_triangles")])
prop("C24","VESTA export draws exactly the given object",
"Exporting an occupation domain in VESTA format writes, in the default mode, one molecule per simplex with exactly its vertices, in order, at their perpendicular coordinates to the printed precision; in the edges mode it writes one atom per distinct vertex and one bond per given edge, in order, between the atoms at its end points and spanning its length; in the merged modes each geometric edge of the object is one bond, and the mode for structure refinement also returns every distinct vertex once. This holds for objects of any size. Exporting nothing writes no molecule.",
["inputs"],"all objects of any size and all export modes","Only a few files can be compared by hand, and the format has no reader in the library; every vertex of every object has to appear at the right place.",
both("occupation_domain.py"),[("loops over simplices, vertices and edges writing the sections of the file","occupation_domain.py: write, write_vesta")])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,"properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+"\n")
print(len(P))
