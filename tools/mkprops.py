"""Source of properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os
M='meshless/espim/'
K0=M+'plate2d_calc_k0.py'; KG=M+'plate2d_calc_kG.py'; ADD=M+'plate2d_add_k0s.py'
CELL=M+'plate2d_add_k0s_cell_based.py'; NS=M+'plate2d_add_k0s_cell_based_no_smoothing.py'; EDGE=M+'plate2d_add_k0s_edge_based.py'
RM=M+'read_mesh.py'; CL=M+'classes.py'; UT='meshless/utils.py'; IN='meshless/interpolate.py'; SY='meshless/dev/sympytools.py'
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    P.append(dict(id=id,title=title,statement=statement,
        quantifier=dict(over=over,text=text),why_tests_cant=why,
        anchors=dict(files=files,state=state or [],
            mechanism=[dict(name=n,where=w) for n,w in mech],
            observe_at=observe or [],hook_needed=None)))

p('C01','Mesh readers build a complete, consistent topology',
 "For any triangulation, read from a Nastran deck or built from a Delaunay result, the returned mesh has exactly one node per input point/GRID and one element per input triangle with the same corner nodes (ids as in the deck, or counted from 1 in input order for arrays), and its edges are exactly the distinct unordered pairs of triangle corners, each keyed by its sorted pair of node ids. Every edge lists exactly the triangles that contain it, every triangle lists exactly its three edges, and every node lists exactly its incident edges and the ids of its incident triangles; nothing is missing, duplicated or foreign, whatever the node numbering, element order, orientation, holes, disconnected parts or unused points. Freshly read nodes and elements carry no property.",
 ['inputs'],'all triangulations (points, connectivity, ids, orientation), through both readers',
 'test_read_mesh/test_read_delaunay only count nodes, elements and edges of one 4x4 deck and one 3x3 grid; no reference (edge->tria, node->edge, ...) is looked at.',
 [RM,CL],[('edge table keyed by element edge ids',RM+': read_mesh, read_delaunay')],['return value of read_mesh / read_delaunay'])
p('C02','Mesh geometry is the input geometry, in one global frame',
 "The coordinates of every mesh node equal the global position given by the input: 2D points get z=0, 3D points are kept, and GRIDs defined in a local coordinate system of the deck are placed where that system puts them. Reading the same triangulation from a deck (in whatever coordinate systems its GRIDs are written) or from arrays gives the same matrices, and the mesh owns its coordinates: moving mesh nodes does not change the caller's point array, nor the other way round.",
 ['inputs','configurations'],'all point clouds (2D/3D, list/array, int/float), decks with basic, rectangular, cylindrical coordinate systems',
 'The tests use one deck, all GRIDs in the basic system, and never compare coordinates.',
 [RM],[('GRID creation from points',RM+': read_delaunay'),('read_bdf with cross-reference',RM+': read_mesh')],['node.xyz after reading, matrices of both routes'])
p('C03','Unsupported input is refused, never assembled into garbage',
 "A deck with an element that is not a 3-node triangle is refused with NotImplementedError; an edge shared by more than two triangles is refused with NotImplementedError when the stiffness is calculated; a node (nodal properties) or triangle (element properties) used by the mesh that has no property is refused with ValueError; a deck whose GRIDs leave their coordinate system to a GRDSET is refused (or placed by it), never read as if basic; an unknown transverse-shear method is refused with ValueError leaving the given matrix unchanged. Conversely, input without these defects is never refused, in particular properties that the selected mode does not use may be missing.",
 ['inputs','configurations'],'all positions of the offending item in otherwise valid meshes, both property modes',
 'No existing test exercises any refusal.',
 [RM,K0,ADD],[('property check loop and edge-valence check',K0+': calc_k0'),('element type check',RM+': read_mesh'),('method dispatch',ADD+': add_k0s')],['exception type raised, state of k0 afterwards'])
p('C04','k0 is the edge-smoothed membrane/bending stiffness',
 "For every mesh of the xy plane and every laminate property field, the constitutive stiffness equals the sum over mesh edges of A_e * B^T [A B; B D] B, where A_e is the area of the edge's smoothing domain (one third of each adjacent triangle), B is the area-weighted mean over that domain of the linear-triangle gradients of u, v, phix, phiy (exx=u,x eyy=v,y gxy=u,y+v,x kxx=phix,x kyy=phiy,y kxy=phix,y+phiy,x), and the A, B, D matrices are the area-weighted mean of the adjacent triangles' properties (element properties) or the mean over the corners of the smoothing domain, each centroid counting as the mean of its triangle's nodes (nodal properties). Degrees of freedom are ordered 5*index + (u, v, w, phix, phiy) and the matrix is 5N x 5N.",
 ['inputs','configurations'],'all triangulations, ids, orientations, property fields (fully populated A, B, D; per node or per element)',
 'test_calc_linear_static/buckling check one displacement field to 5% and one eigenvalue, on one mesh with one isotropic laminate (B=0, A16=A26=D16=D26=0).',
 [K0,CL,UT],[('boundary integration over smoothing-domain segments',K0+': calc_k0')],['return value of calc_k0'])
p('C05','Membrane/bending stiffness: rigid motions, exactness, energy',
 "For every mesh and positive-definite property field the constitutive stiffness is symmetric and positive semidefinite, produces no force under rigid in-plane translation, rigid in-plane rotation or constant rotation fields phix, phiy, and has no entry in any w row or column. For uniform properties, any linear field u, v, phix, phiy stores exactly 1/2 * Area * (strain energy density of its constant strains and curvatures), and produces no nodal force at nodes not on the boundary.",
 ['inputs'],'all meshes, laminates and linear displacement fields',
 'The existing tests only solve two boundary-value problems; energy, null space and symmetry are never observed.',
 [K0],[('k0 assembly',K0+': calc_k0')],['k0, k0@u, u@k0@u'])
p('C06','Stiffness responds linearly and locally to the property field',
 "Each of k0 and kG (at fixed displacements) is linear in the property matrices: scaling all properties scales the matrix and adding two property fields adds the matrices. A uniform property gives the same k0, k0s and kG whether assigned per node or per element, each mode reads only its own assignment, changing the property of one triangle or node changes only entries among nodes of the edge domains touching it, and the current assignments at the time of the call are used.",
 ['inputs','configurations','histories'],'all property fields and single-item changes on all meshes, both assignment modes',
 'All existing tests assign one single laminate to everything in both modes.',
 [K0,KG,CELL,NS,EDGE],[('property averaging per edge / triangle',K0+', '+KG+', add_k0s modules')],['k0, k0s and kG before and after property changes'])
p('C07','Node indices are a bijection and assembly is local',
 "Calculating the stiffness assigns every mesh node a distinct index in 0..N-1, and all matrices (k0, k0s, kG) are expressed in that numbering with five degrees of freedom per node. Two nodes are coupled only if they belong to the same triangle or to two triangles sharing an edge (only the same triangle for the cell-based shear terms), and nodes that belong to no triangle have zero rows and columns.",
 ['inputs'],'all meshes including unused points, disconnected parts and non-consecutive or unordered node ids',
 'Tests use node.index but never check uniqueness, range, coupling pattern or unused nodes.',
 [K0,KG,CELL,NS,EDGE],[('node.index numbering',K0+': calc_k0'),('dummy fourth index for boundary edges',K0+', '+KG)],['node.index, sparsity pattern of the matrices'])
p('C08','Results do not depend on numbering, ordering or orientation',
 "Renumbering nodes and elements, reordering nodes, points or elements in the input, and listing a triangle's corners in another cyclic order or reversed, leaves k0, the cell-based k0s and kG unchanged once rows and columns are matched by physical node. The energy of any nodal field is therefore a function of the physical mesh alone.",
 ['inputs','configurations'],'all permutations/relabelings/orientation flips of all meshes',
 'Each existing test uses a single fixed numbering.',
 [RM,K0,KG,CELL],[('orientation tests against the z axis',K0+', '+CELL),('sorted edge ids',RM)],['matrices of the relabelled meshes'])
p('C09','Results transform correctly under rigid motion and scaling',
 "Translating the mesh (in the plane or to another z level) leaves k0, k0s (both cell-based variants) and kG unchanged. Rotating mesh and displacement field together leaves all energies of an isotropic plate unchanged; rotating by 90 degrees with the laminate rotated accordingly leaves them unchanged for any laminate, and so does (for k0, the cell-based k0s and kG) mirroring mesh and laminate in the x or y axis. Scaling all lengths by s leaves the membrane part unchanged, and k0s scales by the dimensional rule of its w and rotation terms when the thickness is scaled along.",
 ['inputs'],'all meshes, translations, rotation angles, scale factors, laminates',
 'Each existing test uses one fixed position, orientation and size.',
 [K0,KG,CELL,NS,UT],[('coordinate differences only',K0+', '+KG+', '+CELL)],['energies of transformed meshes'])
p('C10','Cell-based shear stiffness is the smoothed DSG triangle',
 "The cell-based method adds, for every triangle, A * Bs^T diag(Gxz, Gyz) Bs on the (w, phix, phiy) dofs, where Bs is the area average over the three centroid sub-triangles of the discrete-shear-gap strains gxz = w,x+phix, gyz = w,y+phiy with the centroid carrying the mean of the corner values. Gxz = k13 * (laminate xz shear stiffness) and Gyz = k23 * (laminate yz shear stiffness), each divided by 1 + alpha*l^2/h^2, with properties of the triangle or the mean of its three nodes. Rigid plate motion (w linear with phix=-w,x, phiy=-w,y) stores no energy, any linear w with zero rotations stores 1/2*Area*(Gxz*w,x^2 + Gyz*w,y^2), and the added matrix is symmetric positive semidefinite.",
 ['inputs','configurations'],'all meshes, orthotropic laminates (G13 != G23, k13 != k23), alpha >= 0, both property modes',
 'Only isotropic laminates (where xz and yz cannot be told apart) on one mesh with alpha=0.2 are tested, to 5% in w.',
 [CELL,UT],[('sub-triangle assembly',CELL+': add_k0s')],['difference of the matrix before/after add_k0s'])
p('C11','Unsmoothed cell-based shear stiffness is the DSG triangle',
 "The cell-based-no-smoothing method adds, for every triangle, A * Bs^T diag(Gxz, Gyz) Bs with the plain three-node discrete-shear-gap strains (anchored at the first corner, triangle taken counter-clockwise), and the same Gxz, Gyz, stabilisation and property rules as the cell-based method. Rigid plate motion stores no energy, any linear w with zero rotations stores exactly its constant-shear energy, and the added matrix is symmetric positive semidefinite.",
 ['inputs','configurations'],'all meshes, orthotropic laminates, alpha >= 0, both property modes',
 'Same single isotropic mesh as the cell-based method.',
 [NS],[('DSG triangle assembly',NS+': add_k0s')],['difference of the matrix before/after add_k0s'])
p('C12','Edge-based shear stiffness is the edge-smoothed DSG field',
 "The edge-based method adds, for every edge, A_e * Bs^T G Bs where Bs is the area average over the edge's one or two centroid sub-triangles of the discrete-shear-gap strains with centroids carrying the mean of their triangle's corner values, and G holds the stabilised xz and yz shear stiffness averaged as for the constitutive stiffness. For laminates without xz-yz coupling, rigid plate motion stores no energy and linear w with zero rotations stores exactly its constant-shear energy, for interior as well as boundary edges.",
 ['inputs','configurations'],'all meshes, laminates without shear coupling, alpha >= 0, both property modes',
 'One eigenvalue (of one mesh) is pinned; it was recorded with the interior-edge defect listed in known_findings.json.',
 [EDGE,K0],[('boundary_edge / interior_edge assembly',EDGE)],['difference of the matrix before/after add_k0s'])
p('C13','Adding shear stiffness is in place, additive and isolated',
 "For every method, adding the transverse shear stiffness modifies the given matrix in place and returns that same object; what is added does not depend on what the matrix contained, so adding n times adds n copies and adding to a zero matrix gives the bare shear stiffness. Only (w, phix, phiy) entries change, the method argument selects exactly one formulation ('cell-based' by default, alpha 0.08, edge length based), and property mode, alpha and length option reach the formulation unchanged.",
 ['inputs','configurations','histories'],'all methods and option combinations, any initial matrix (zero, k0, random, non-contiguous), repeated calls',
 'The tests call add_k0s once per fresh k0 with explicit method and alpha=0.2; default arguments and the length option are never used.',
 [ADD,CELL,NS,EDGE],[('dispatch',ADD+': add_k0s'),('in-place +=',CELL+', '+NS+', '+EDGE)],['matrix object identity and increments'])
p('C14','Shear stabilisation follows Lyly\'s factor',
 "For every method the stabilisation divides each triangle's (edge domain's) shear stiffness by exactly 1 + alpha*l^2/h^2: alpha=0 gives the unmodified shear stiffness, increasing alpha never increases the energy of any field, and the element matrix at two alphas is in the ratio of the factors. l is the longest edge of the triangle (for the edge-based method the longest segment of the smoothing domain or its edge), or the square root of the triangle (domain) area when the area option is set, and h is the laminate thickness at that place.",
 ['inputs','configurations'],'all alpha >= 0, both length options, thickness fields, all three methods, all element shapes',
 'Only alpha=0.2 with the default length option is run.',
 [CELL,NS,EDGE],[('factor alpha*maxl**2/h**2',CELL+', '+NS+', '+EDGE)],['k0s increments at several alphas'])
p('C15','kG is the edge-smoothed geometric stiffness of the membrane state',
 "For every mesh, property field and displacement vector, the geometric stiffness equals the sum over edges of A_e * G^T [Nxx Nxy; Nxy Nyy] G on the w dofs, where G is the smoothed gradient of w on the edge's domain and (Nxx, Nyy, Nxy) = A*em + B*kb are the membrane forces from the smoothed membrane strains and curvatures of the displacements there, with properties averaged as for the constitutive stiffness. It is symmetric and has no entry outside w rows and columns; under uniform properties and a linear displacement field, w = a*x + b*y gives exactly Area*(Nxx*a^2 + 2*Nxy*a*b + Nyy*b^2).",
 ['inputs','configurations'],'all meshes, laminates (B != 0, shear-extension coupling), displacement vectors, both property modes',
 'Only the lowest buckling load of one uniaxially compressed isotropic plate is checked (Nyy, Nxy, B and node/element averaging do not matter there).',
 [KG],[('kG assembly',KG+': calc_kG')],['return value of calc_kG'])
p('C16','kG depends linearly on the pre-buckling state only',
 "The geometric stiffness is linear in the displacement vector, is exactly zero for rigid in-plane motions, constant rotations and any deflection w, and its rows sum to zero (constant w feels no force). Reversing the load reverses its sign, so critical load factors scale inversely with the reference load.",
 ['inputs'],'all displacement vectors on all meshes',
 'One displacement vector (from one solve) is used per test.',
 [KG],[('stress recovery from d',KG+': calc_kG')],['calc_kG at combinations of displacement vectors'])
p('C17','Analyses are independent of history and of each other',
 "The matrices returned for a mesh depend only on its current coordinates, connectivity and properties and on the arguments of the call: repeating a calculation, running other analyses (on other meshes, other methods, other modes, or failed ones) in between or concurrently in other threads, and reaching the same state by modifying and restoring coordinates or properties gives the same results. After properties or coordinates are changed, repeating the analysis (after a change of coordinates or connectivity starting with the constitutive stiffness, which sets up node indices and smoothing domains) gives the results of a freshly built mesh in that state, and matrices already returned are never altered by later calls.",
 ['histories','schedules'],'all interleavings of read/assign/calc_k0/add_k0s/calc_kG sessions over several meshes, repeated and with changes in between',
 'Every test runs each calculation once or twice on a fresh mesh in a fixed order.',
 [K0,KG,ADD,CELL,NS,EDGE,RM,CL],[('per-edge cached data rebuilt by calc_k0',K0+': calc_k0')],['results along session histories compared with fresh replays'])
p('C18','Library calls leave caller data and the environment alone',
 "Reading a mesh, computing stiffness matrices and interpolating never modify the caller's inputs (point arrays, triangulation, property objects and their matrices, displacement vectors, node and field arrays, deck file), apart from the documented in-place addition to k0 and the references kept on the mesh. By default importing and calling them prints nothing, writes no files, and leaves NumPy's global state (random state, error and print settings) as it was.",
 ['inputs','histories'],'all API calls with all kinds of argument objects (lists, arrays, read-only arrays, views)',
 'No existing test observes side effects.',
 [RM,K0,KG,ADD,CELL,NS,EDGE,IN,'meshless/logger.py'],[('silent flag','meshless/logger.py: msg')],['digests of inputs before/after, captured output, directory listing'])
p('C19','Static solutions satisfy the patch test, equilibrium and theory',
 "With displacements prescribed as a linear in-plane field (or constant-curvature-free plate field) on the boundary of any mesh, the static solution reproduces that field at all interior nodes for any uniform laminate. For arbitrary loads on a supported plate the reactions balance the applied forces, work is reciprocal, the stiffness k0+k0s of an edge-connected mesh (two or more triangles, cell-based methods) admits no other zero-energy motion than the six rigid motions, and on refined regular meshes with the documented stabilisation deflections of simply supported and clamped plates approach first-order shear-deformation theory within the discretisation error (a few percent), thick or thin.",
 ['inputs','configurations'],'all meshes/laminates for the exact parts; aspect ratios, thickness ratios, diagonals and mesh patterns at the stated refinement for the convergence part',
 'One cantilever on one 4x4 mesh is compared within 5%.',
 [K0,ADD,CELL,NS],[('k0 + k0s',K0+', '+CELL)],['solution of k0 u = f'])
p('C20','Buckling loads satisfy theory and invariance',
 "The pipeline static solve, geometric stiffness, eigenvalue (cell-based methods) reproduces on refined regular meshes the first-order shear-deformation buckling loads of simply supported isotropic and specially orthotropic rectangular plates under uniaxial, biaxial and in-plane loads in x or y within the discretisation error of the mesh (a few percent for long-wave modes). Critical load factors scale inversely with the load, do not depend on numbering or on which in-plane axis carries the (correspondingly rotated) problem, and increase proportionally with all stiffness properties for a given load.",
 ['inputs','configurations'],'load directions, aspect ratios, laminates, numberings, load scales',
 'One pinned eigenvalue per method on one coarse mesh with one load direction; the remaining buckling test fails on the original tree.',
 [K0,KG,ADD,CELL,NS],[('calc_k0 + add_k0s + calc_kG',K0+', '+KG+', '+CELL)],['lowest eigenvalue of (k0, kG)'])
p('C21','2D Lagrange interpolation is the tensor-product interpolant',
 "For any distinct control coordinates and control values, 2D interpolation returns the unique tensor-product polynomial of degree M-1 by N-1 through the control values: it reproduces the control values at the control nodes and every polynomial of those degrees everywhere (inside or outside the node range), is linear in the values, and its weights sum to one. Queries are independent of each other, and the result does not depend on the order of control nodes or whether inputs are lists or arrays, integer or float (grids with at least two control nodes in all); control values whose shape does not fit the control nodes are refused.",
 ['inputs'],'all node counts, spacings, offsets, orders, control values and query points',
 'One 3x3 symmetric control grid with values constant along y is tested.',
 [IN],[('Lagrange products',IN+': interpolate_lagrange_2D')],['return value'])
p('C22','3D Lagrange interpolation is the tensor-product interpolant',
 "For any distinct control coordinates and control values, 3D interpolation returns the unique tensor-product polynomial of degree M-1 by N-1 by P-1 through the control values: it reproduces the control values at the control nodes and every polynomial of those degrees everywhere, is linear in the values, its weights sum to one, and it reduces to 2D interpolation when the values do not vary along one direction. Queries are independent of each other, the order of control nodes does not matter, and control values whose shape does not fit the control nodes are refused.",
 ['inputs'],'all node counts, spacings, offsets, orders, control values and query points',
 'One control grid is tested, and the expected values recorded there are not the interpolant (values at control nodes are not reproduced): see known_findings.json.',
 [IN],[('Lagrange products',IN+': interpolate_lagrange_3D')],['return value'])
p('C23','Power expansion preserves the value of every expression',
 "For any expression text of the kind SymPy prints (names, numbers, + - * /, calls, nested parentheses, powers written x**n, (expr)**n or pow(expr, n) with any exponent), the expanded text parses and evaluates to the same value at every point. Powers of a plain name to a literal positive integer are written as products with no ** left for them, text without powers comes back unchanged, and expanding twice changes nothing more in value. The printing functions write the powers of names in the entries they print one by one in this way, unless told not to.",
 ['inputs','programs'],'all arithmetic expressions',
 'One string is tested.',
 [SY],[('regular-expression substitution',SY+': pow2mul')],['evaluation of input and output text'])
p('C24','Generated sparse assembly code reproduces the matrix',
 "Executing the code printed for sparse assembly, for any symbolic matrix and any combination of options, appends exactly one triplet per printed entry and accumulates exactly the entries of the matrix at the right row and column (i<node>*dof+k when a node size is given); entries not printed are zero. With the symmetric option exactly the entries of the upper triangle (row <= column in the full matrix) are printed, the announced count equals the number of printed entries, and substitutions announced in the header are applied to every printed entry and restore the original expressions; a given header is printed once, before the code.",
 ['inputs','programs','configurations'],'all symbolic matrices, subs, header, collect_for, pow_by_mul, symmetric and dofpernode combinations',
 'test_print_as_sparse computes comparisons without asserting them.',
 [SY],[('line generation',SY+': mprint_as_sparse')],['execution of the returned text'])
p('C25','Generated dense assembly code reproduces the matrix',
 "Executing the code printed for dense assembly, for any symbolic matrix and any combination of options, adds exactly the matrix into the target at the right indices (i<node>*dof+k when a node size is given) and touches nothing else; zero entries are not printed, and the announced count equals the number of non-zero entries. Announced substitutions are applied to every printed entry and restore the original expressions, collected output lists terms that add up to the entry, and a given header is printed once, before the code.",
 ['inputs','programs','configurations'],'all symbolic matrices and option combinations',
 'One 1x2 matrix is printed and compared as text.',
 [SY],[('line generation',SY+': mprint_as_dense')],['execution of the returned text'])
p('C26','Generated flat-array code reproduces the matrix',
 "Executing the code printed for flat arrays, for any symbolic matrix, gives exactly the matrix entries at pos+k with k in row-major ('C') or column-major ('F') order using the requested operator, with or without common-subexpression elimination; with elimination every temporary is declared exactly once and assigned before use. Zero entries are not printed, the announced count equals the number of printed entries, and a given header is printed once, before the code.",
 ['inputs','programs','configurations'],'all symbolic matrices, order, op, use_cse, pow_by_mul and collect_for combinations',
 'One 1x3 matrix is printed and compared as text.',
 [SY],[('line generation',SY+': mprint_as_array')],['execution of the returned text'])
p('C27','Printing has no side effect beyond the requested file',
 "The printing functions never modify the matrix, substitution or option objects given to them, so printing again or in another format gives the same text. With file output on, exactly one file print_<name>[_<suffix>].txt is written in the current directory, containing exactly the returned text and replacing any older one; with file output off no file is touched.",
 ['inputs','histories','configurations'],'all printers, matrices (mutable and immutable) and call sequences',
 'Tests print a fresh matrix and never look at the matrix or the file afterwards.',
 [SY],[('file writing, in-place CSE replacement',SY)],['matrix and directory before/after'])
p('C28','Geometric helpers are correct for every polygon and element',
 "The polygon area is the true area of any simple polygon, convex or not, independent of orientation, starting vertex, repeated closing vertex, translation and rotation, and scaling quadratically; the smoothing-domain areas of all edges add up to the area of the mesh. The unit vector has norm one and the direction of its argument, and mid points of elements and edges are the means of their nodes' global positions.",
 ['inputs'],'all simple polygons, non-zero vectors, elements and edges of both readers',
 'The helpers have no test of their own.',
 [UT,CL,K0],[('shoelace sum',UT+': area_of_polygon')],['return values, Edge.Ac after calc_k0'])
p('C29','Theory derivations, published tables and shipped code agree',
 "Running the symbolic derivations shipped with the ES-PIM membrane and plate theory produces assembly code that is numerically the same as the tables published next to them and as the matrices the library assembles for a single edge or triangle, entry by entry, for all values of the geometric and material symbols (edge-based method: on boundary edges, and on interior edges up to the listed known finding).",
 ['inputs','programs'],'all values of the symbols in the derived matrices; all element/edge geometries',
 'Neither the derivation scripts nor their tables are run or read by any test.',
 ['theory/espim/2D/plate/FSDT/transverse_shear_cell_based/stiffmatrices.py','theory/espim/2D/plate/FSDT/transverse_shear_cell_based_no_smoothing/stiffmatrices.py','theory/espim/2D/plate/FSDT/transverse_shear_edge_based/stiffmatrices.py',SY,K0,KG,CELL,NS,EDGE],
 [('mprint_as_dense of B^T C B','theory/.../stiffmatrices.py')],['generated and published tables executed on numbers'])
p('C30','Valid meshes of any size and scale give finite matrices',
 "For every valid mesh (positive-area triangles, up to two triangles per edge) and positive laminate stiffness, from micrometre to kilometre sizes, thin to thick, from one triangle to hundreds of nodes, all matrices contain only finite numbers and no invalid or division-by-zero floating-point operation occurs while computing them. The results keep their relative accuracy: a mesh whose coordinates are offset by many times its size, or with very different element sizes, gives the same matrices as computed from local coordinates, up to the rounding of the coordinates.",
 ['inputs'],'all valid meshes, scales, aspect ratios, thicknesses',
 'One mesh of size 7 x 2 is used.',
 [K0,KG,CELL,NS,EDGE,UT],[('area and normal computations',K0+', '+UT)],['IEEE exception flags and finiteness of results'])
LG='meshless/logger.py'
p('C31','Progress messages do not influence results',
 "Every function with a silent flag gives the same result, the same mesh and the same refusal whether it is silent or not; verbose calls report their progress on standard output only and silent ones, which is the default, print nothing. The message functions return the message (prefixed WARNING: or ERROR: for warn and error), and unless silent print it exactly once, indented by one tab per level.",
 ['inputs','configurations'],'all functions with a silent flag, all meshes and messages',
 'All tests run silently.',
 [LG,RM,K0,KG,CELL,NS,EDGE],[('message functions',LG+': msg, warn, error')],['return values and captured streams'])
p('C32','Smoothing domains tile the mesh and close',
 "After calculating the stiffness every edge carries its smoothing domain for the current coordinates: a closed polygon through its end nodes and the centroids of its triangles with area Ac, one third of each adjacent triangle, so that all domains cover every triangle exactly once. The boundary data (positions, unit outward normals, segment lengths, shape-function values) integrate exactly: the normals close, the boundary integral of x is the area (divergence theorem), and the shape functions sum to one and give the position of their point. It does not depend on the order of the triangles of the edge, and later calculations leave it alone.",
 ['inputs','histories'],'all meshes, orders and orientations of triangles, moved meshes',
 'No test looks at the domain data.',
 [K0,CL,UT],[('smoothing-domain construction',K0+': calc_k0'),('IntegrationPoint',CL)],['edge.sdomain, edge.ipts, edge.Ac after calc_k0'])
TH='theory/espim/2D/'
p('C33','Worked theory examples solve the system the library would',
 "For any plate dimensions, node positions, material and laminate, the worked examples of the theory (membrane, cell-based, cell-based without smoothing, edge-based, SFEM and the one on top of the library) assemble, restrain and solve the stiffness given by B^T C B: the edge-smoothed stiffness of the library plus the transverse shear of their method without stabilisation (edge-based: sub-triangles anchored at the centroids; SFEM: linear triangles with the shear smoothed over the three sub-triangles, as its derivation script gives), and the buckling example the geometric stiffness of the membrane forces it states. Their triangles cover the stated plate once, whole sides of it are supported, and the load is a uniform line load on a side or a balanced pair of forces; every deck shipped with the repository is read as written and analysed like any other mesh.",
 ['inputs','programs'],'all dimensions, materials, laminates and node positions of the examples; all shipped decks',
 'The examples are not run by any test; each has one fixed geometry and material, for which a wrong pairing or term changes the printed numbers only slightly.',
 [TH+'membrane/espim_example.py',TH+'plate/FSDT/transverse_shear_cell_based/espim_example.py',TH+'plate/FSDT/transverse_shear_cell_based_no_smoothing/espim_example.py',TH+'plate/FSDT/transverse_shear_edge_based/espim_example.py','theory/sfem/sfem_tria3_example.py','theory/sfem/stiffmatrices.py',TH+'plate/FSDT/transverse_shear_cell_based/espim_example_from_module.py'],
 [('assembly loops over edges and triangles','theory/.../espim_example.py')],['arguments and results of structsolve.solve / lb, matrices k0 and kG of the examples'])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
for x in P:
    if len(x['title'])>80: print('TITLE',x['id'],len(x['title']))
    n=x['statement'].replace('.txt','').count('. ')+1
    if n>3: print('SENT',x['id'],n)
