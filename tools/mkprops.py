"""Writes properties.jsonl (the list lives here in a readable form)."""
import json, os
P = []
RM = 'meshless/espim/read_mesh.py'; K0 = 'meshless/espim/plate2d_calc_k0.py'; KG = 'meshless/espim/plate2d_calc_kG.py'
CL = 'meshless/espim/classes.py'; UT = 'meshless/utils.py'; ST = 'meshless/dev/sympytools.py'; IP = 'meshless/interpolate.py'
AD = 'meshless/espim/plate2d_add_k0s.py'
CB = 'meshless/espim/plate2d_add_k0s_cell_based.py'; NS = 'meshless/espim/plate2d_add_k0s_cell_based_no_smoothing.py'
EB = 'meshless/espim/plate2d_add_k0s_edge_based.py'
LG = 'meshless/logger.py'
def p(id, title, st, over, qt, why, files, mech, observe=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if observe: a['observe_at'] = observe
    P.append({'id': id, 'title': title, 'statement': st, 'quantifier': {'over': over, 'text': qt},
              'why_tests_cant': why, 'anchors': a})

MESH = 'every planar conforming triangulation (any size, connectivity, orientation of each triangle, numbering, boundary shape, holes)'
p('C01', 'Mesh edges are exactly the distinct triangle sides with their triangles',
  'After a mesh is read, its edges are exactly the distinct sides of its triangles, each present once; every edge names its two end nodes and lists exactly the triangles (one on the boundary, two inside, more where the input is not a manifold) that have that side.',
  ['inputs'], MESH + ', given as a Nastran deck or as points plus simplices',
  'The tests read one 16-node plate and one square and check counts; a wrong pairing needs particular numberings, orientations or boundary shapes.',
  [RM, CL], [('collecting sides per triangle, one Edge per distinct side', RM)], ['mesh.edges', 'edge.trias', 'edge.nodes'])
p('C02', 'Nodes, edges and triangles refer to each other consistently',
  'After a mesh is read, each node knows exactly the triangles and the edges it belongs to, each triangle knows exactly its own three edges and its three corner nodes in connectivity order, and each edge its end nodes and triangles. All these references denote the same shared objects, belong to no other mesh, and start without properties.',
  ['inputs', 'histories'], MESH + ', both readers, several meshes alive at once',
  'The tests check two or three sets on fixed meshes; cross references must agree for every connectivity and must not leak between meshes.',
  [RM, CL], [('filling node.trias, node.edges, tria.edges, edge.trias', RM)])
p('C03', 'Readers keep ids, coordinates and connectivity and reject non-triangles',
  'A read mesh has exactly the given nodes with their ids and positions in the global coordinate system (missing third coordinates are zero) and exactly the given triangles with their ids and corner order; point clouds are numbered from 1 in the order given. Both readers produce the same mesh for the same data, and a deck with any finite element (mass points and rigid links are none) that is not a three-node triangle is refused with a not-implemented error.',
  ['inputs'], MESH + '; decks in small-field, large-field and free format, arbitrary ids, local coordinate systems; other element types among the triangles',
  'The tests use one deck with consecutive ids in the basic coordinate system and never mix in other elements.',
  [RM], [('read_bdf plus reference building; GRID/CTRIA3 construction from points', RM)])
p('C04', 'Smoothing domains tile the mesh',
  'After the constitutive stiffness is computed, the smoothing domain of every edge is the polygon through its end nodes and the centroids of its one or two triangles, its recorded area is one third of the total area of those triangles, and the areas of all domains add up to the area of the mesh. The outward normals times the side lengths of a domain sum to zero, each normal being a unit vector perpendicular to its side, in plane and pointing out of the domain.',
  ['inputs', 'histories'], MESH + '; any sequence of earlier computations on the same mesh',
  'No test looks at areas, normals or boundary polygons; a wrong sign or centroid only shows for some orientations or for boundary edges.',
  [K0, UT, CL], [('construction of sdomain, Ac and integration points with outward normals', K0)], ['edge.Ac', 'edge.sdomain', 'edge.ipts'])
p('C05', 'Integration points reproduce linear fields on domain sides',
  'Each side of a smoothing domain carries one integration point with the length of that side, the triangle it lies in, and weights on that triangle\'s three corners that are non-negative, sum to one and place the point at the middle of the side. Interpolating any linear nodal field with these weights therefore gives its exact value there.',
  ['inputs', 'histories'], MESH + ', any linear field',
  'Tests only look at global displacements of one mesh; swapped weights on one side of one kind of domain can cancel there.',
  [K0, CL], [('shape function weights 2/3-1/6-1/6 and 1/2-1/2-0 at segment midpoints', K0)], ['edge.ipts'])
p('C06', 'Constitutive stiffness is the exact smoothed Galerkin sum over all domains',
  'Every entry of the constitutive stiffness matrix equals the sum over the smoothing domains of area times (smoothed strain of one degree of freedom) times (blended membrane, coupling and bending stiffness) times (smoothed strain of the other), where the smoothed strains come from the boundary integral of the shape functions and the blending is that of the stated property mode.',
  ['inputs', 'configurations'], MESH + ', any symmetric positive constitutive data including full membrane-bending coupling and anisotropy, per-node or per-element properties',
  'The tests compare five eigenvalues or one displacement for one symmetric laminate; most of the 25 blocks and the coupling terms never influence them.',
  [K0], [('400 unrolled assembly statements per domain', K0)], ['returned matrix'])
p('C07', 'Constitutive stiffness is symmetric, semi-definite and blind to rigid motion',
  'The constitutive stiffness matrix is symmetric, has no negative energy for any displacement vector, contains nothing in the deflection rows and columns, and gives zero force for constant in-plane translation, in-plane rotation and constant or skew-linear bending rotations.',
  ['inputs', 'configurations'], MESH + ', any displacement vector, any symmetric positive semi-definite constitutive data, both property modes',
  'Symmetry and rigid modes quantify over all displacement vectors and meshes; tests solve one load case.',
  [K0], [('upper and lower blocks are assembled by separate statements', K0)])
p('C08', 'Linear displacement fields pass the patch test',
  'For uniform properties, the forces the constitutive stiffness gives for a linear field of in-plane displacements and rotations vanish at every interior node, and the energy equals that of the constant strain over the exact area of the mesh.',
  ['inputs', 'configurations'], MESH + ', any linear field, any uniform constitutive data, both property modes',
  'The patch test quantifies over meshes, fields and laminates; tests do not run one.',
  [K0], [('smoothed strains and domain areas', K0)])
p('C09', 'Property blending is convex, local, and consistent between modes',
  'With per-node properties a boundary domain blends its end nodes with 4/9 each and the opposite node with 1/9, an interior domain 5/12 each and 1/12 each; with per-element properties domains blend their triangles by area. The stiffness matrices depend linearly on membrane, coupling and bending data, a change of one property affects only entries of nodes sharing a domain with it, and equal properties everywhere give the same matrix in both modes.',
  ['inputs', 'configurations', 'histories'], MESH + ', any assignment of properties to nodes or elements and any change of it',
  'Tests assign one uniform laminate, so all blends give the same result.',
  [K0, KG, CB, NS, EB], [('weighted sums of prop.A, prop.B, prop.D, prop.E, h and shear factors', K0)])
p('C10', 'Matrix numbering is a bijection shared by all matrices',
  'Computing the constitutive stiffness numbers the nodes 0..N-1, each number once, and the matrix has five rows per node in that order (two in-plane displacements, deflection, two rotations); the matrices computed afterwards use the same numbering and size. Nodes that belong to no triangle are numbered too and have zero rows.',
  ['inputs', 'histories'], MESH + ', arbitrary node ids, isolated nodes, recomputation',
  'Tests build right-hand sides through the numbering of one mesh with consecutive ids.',
  [K0, KG, AD], [('node.index assignment over mesh.nodes', K0)])
p('C11', 'Results do not depend on labels, listing order, orientation or placement',
  'Renumbering nodes or elements, reordering them in the input, reversing or rotating the corner order of triangles, and translating the mesh leave the constitutive stiffness and the geometric stiffness unchanged up to the corresponding permutation, and rotating the mesh by a quarter turn with its properties rotates them. The same holds for cell-based transverse shear, and for the method without smoothing as long as each triangle keeps its corner order.',
  ['inputs', 'configurations'], 'every pair of equivalent inputs: ' + MESH,
  'Relational property over pairs of meshes; tests never compare two numberings.',
  [K0, KG, CB, NS, RM], [('orientation normalisation before assembling', K0)])
p('C12', 'Computations leave inputs alone and depend only on the current mesh data',
  'Computing any of the matrices changes no coordinates, connectivity, properties or displacement input, and repeating a computation gives the same result. After any sequence of computations, property changes and node movements, a computation of the constitutive stiffness (and of the other matrices after it) gives what a freshly read mesh with the same data gives, and independent meshes do not influence each other.',
  ['histories'], 'every history of reads, property changes, node moves and matrix computations over one or several meshes',
  'Tests use each mesh once, so stale cached geometry or accumulated state cannot show.',
  [K0, KG, AD, CB, NS, EB, RM], [('geometry and numbering are cached on edges and nodes', K0)])
p('C13', 'Missing properties, non-manifold meshes and unknown methods are refused',
  'Computing the constitutive stiffness when a property needed in the requested mode is missing raises a value error before anything on the mesh changes; an edge shared by more than two triangles raises a not-implemented error; an unknown transverse shear method raises a value error and leaves the matrix unchanged. In every other case of valid input the computation succeeds.',
  ['inputs', 'fault_sequences'], MESH + ' with any subset of properties missing in either mode, meshes with edges of three or more triangles, any method name',
  'Only the success path is tested.',
  [K0, AD], [('property check loop before building domains; trias count check; method dispatch', K0)])
p('C14', 'Cell-based transverse shear equals its discrete-shear-gap formula',
  'The cell-based method adds, for every triangle, area times the product of the area-averaged discrete-shear-gap strains of the three sub-triangles around the centroid with the blended, stabilised transverse shear stiffness.',
  ['inputs', 'configurations'], MESH + ', unequal shear moduli and correction factors, per-node or per-element properties, every stabilisation setting, any matrix to add to',
  'Tests see one isotropic plate; most of the 81 unrolled entries per triangle are unobserved.',
  [CB], [('unrolled cell-based assembly', CB)])
p('C15', 'Unsmoothed transverse shear equals its discrete-shear-gap formula',
  'The method without smoothing adds, for every triangle, area times the product of its discrete-shear-gap strains, gaps measured from the first listed corner of a counter-clockwise triangle (second of a clockwise one), with the blended, stabilised transverse shear stiffness.',
  ['inputs', 'configurations'], MESH + ', as for the cell-based method',
  'One isotropic plate is tested.',
  [NS], [('unrolled assembly without smoothing', NS)])
p('C16', 'Edge-based transverse shear equals its discrete-shear-gap formula',
  'The edge-based method adds, for every edge domain, area times the product of the area-averaged discrete-shear-gap strains of its one or two sub-triangles with the blended, stabilised transverse shear stiffness.',
  ['inputs', 'configurations'], MESH + ', as for the cell-based method, boundary and interior edges',
  'One isotropic plate is tested by its first buckling loads.',
  [EB], [('boundary_edge and interior_edge assembly', EB)])
p('C17', 'Transverse shear matrices are symmetric, semi-definite and rigid-motion free',
  'Whatever the method, the transverse shear stiffness is added in place to the given matrix, which is also returned; the added part is symmetric, semi-definite, touches only deflection and rotation entries, and gives zero force for a constant deflection, for a rigid tilt (linear deflection with matching rotations), and no in-plane coupling.',
  ['inputs', 'configurations'], MESH + ', any positive transverse shear data, all three methods, any starting matrix',
  'Tests never inspect the shear matrix or its null space.',
  [AD, CB, NS, EB], [('dispatch and in-place addition', AD)])
p('C18', 'Shear stabilisation scales stiffness exactly as its settings say',
  'The added transverse shear stiffness is the unstabilised discrete-shear-gap one divided by (1 + alpha l^2/h^2) per domain, with h the blended thickness and l the longest side of the triangle, or of the edge domain and its edge, or the square root of its area when so requested; alpha zero means no reduction, and increasing alpha never increases the energy of any deformation.',
  ['inputs', 'configurations'], MESH + ', every alpha >= 0, thickness, both length rules, all three methods, default settings included',
  'Tests use the default settings only.',
  [AD, CB, NS, EB], [('factor alpha*maxl**2/h**2', CB)])
p('C19', 'Constant transverse shear is reproduced with the right planes',
  'A constant transverse shear deformation (linear deflection, zero or constant rotations) gets, without stabilisation and for uniform properties without xz-yz coupling, exactly the energy of that strain over the mesh area, with the xz strain paired with the xz shear modulus and its correction factor and the yz strain with the yz ones.',
  ['inputs', 'configurations'], MESH + ', unequal transverse moduli and correction factors, cell-based and unsmoothed methods on any mesh, edge-based method on any mesh (see known findings)',
  'Tests with per-test accuracy use isotropic shear, where the pairing cannot be seen.',
  [CB, NS, EB], [('E44/E55 and k13/k23 pairing', CB)])
p('C20', 'Geometric stiffness equals the smoothed membrane-force formula',
  'Every deflection entry of the geometric stiffness equals the sum over domains of area times the smoothed deflection gradients contracted with the domain\'s membrane forces, which are the blended membrane stiffness times the smoothed membrane strains plus the blended coupling stiffness times the smoothed curvatures of the given displacements.',
  ['inputs', 'configurations'], MESH + ', any displacement vector, full coupling data, both property modes',
  'One buckling test with uniform symmetric laminate: coupling and shear forces never matter.',
  [KG], [('Nxx, Nyy, Nxy recovery and unrolled assembly', KG)])
p('C21', 'Geometric stiffness is symmetric, linear in displacements, deflection-only',
  'The geometric stiffness is symmetric, linear in the displacement vector, nonzero only between deflections, independent of the deflections in that vector, zero for rigid in-plane motion, and gives zero force for a constant deflection.',
  ['inputs', 'configurations'], MESH + ', any pair of displacement vectors and factors',
  'Linearity and null spaces quantify over all displacement vectors.',
  [KG], [('unrolled assembly', KG)])
p('C22', 'Two-dimensional Lagrange interpolation is exact on its tensor space',
  'Interpolating reproduces every field value at the control points and every polynomial whose degree in each direction is below the number of control points there; it is linear in the field, elementwise over evaluation points, independent of the order in which control points are listed, and refuses fields whose shape does not match.',
  ['inputs'], 'every set of distinct control coordinates (including single points per direction), field and scalar or array evaluation points',
  'The tests compare a few values on fixed 3x3 grids.',
  [IP], [('product of Lagrange bases', IP)])
p('C23', 'Three-dimensional Lagrange interpolation is exact on its tensor space',
  'Interpolating reproduces every field value at the control points and every polynomial whose degree in each of the three directions is below the number of control points there; it is linear in the field, elementwise over evaluation points and refuses fields whose shape does not match.',
  ['inputs'], 'every set of distinct control coordinates per direction, including different numbers and positions per direction, and every field',
  'The test enshrines values on one grid.',
  [IP], [('product of three Lagrange bases', IP)])
p('C24', 'Power expansion preserves the value of every expression',
  'Expanding powers into products yields an expression with the same value for every assignment of its variables and every interpretation of its functions; powers with positive integer exponents on names, numbers, function calls, indexed names and parenthesised bases, written with ** or pow(), contain no power operation afterwards, and expressions without powers are unchanged.',
  ['programs'], 'every arithmetic expression with nested parentheses, calls, powers of any kind (integer, zero, negative, fractional, symbolic, nested), similar names, spacing',
  'One string is tested.',
  [ST], [('power search and replacement', ST)])
p('C25', 'Dense printing denotes the matrix',
  'Executing the dense printout, after its listed substitutions, builds exactly the given matrix: every nonzero entry once at its (node block, position) place, nothing else, with the announced number of terms; options for power expansion and collected terms do not change the denoted values, with power expansion on no uncollected term keeps a positive integer power, and the given matrix is left unmodified.',
  ['programs', 'configurations'], 'every symbolic matrix, substitution, collect list, degrees of freedom per node',
  'Two 1x2 matrices are printed.',
  [ST], [('mprint_as_dense', ST)])
p('C26', 'Sparse printing denotes the matrix or its upper triangle',
  'Executing the sparse printout builds coordinate triplets that denote exactly the given matrix (exactly its upper triangle including the diagonal when declared symmetric), every nonzero entry once, with the announced number of terms; options for power expansion, collected terms, substitutions and degrees of freedom per node do not change the denoted values, with power expansion on no uncollected term keeps a positive integer power, and the given matrix is left unmodified.',
  ['programs', 'configurations'], 'every symbolic matrix, substitution, symmetric declaration, degrees of freedom per node',
  'The sparse tests compare without asserting.',
  [ST], [('mprint_as_sparse', ST)])
p('C27', 'Array printing denotes the matrix in the requested order',
  'Executing the array printout assigns every nonzero entry of the given matrix to its row-major or column-major position with the requested operator and announces their number; common-subexpression definitions appear before use, are all declared, and together with the entries denote the original matrix, which is left unmodified; with power expansion on no uncollected entry keeps a positive integer power.',
  ['programs', 'configurations'], 'every symbolic matrix, both orders, any operator, with and without common subexpressions and collected terms',
  'One row matrix is printed.',
  [ST], [('mprint_as_array', ST)])
p('C28', 'Printed files hold exactly the returned text',
  'With file output requested, the printers write one file named after the matrix name and suffix in the working directory whose content is the returned text, replacing an earlier one; with file output off nothing is written.',
  ['inputs', 'histories'], 'every matrix, name, suffix, printer and sequence of prints',
  'Tests ignore the files they leave behind.',
  [ST], [('print_file branch of the three printers', ST)])
p('C29', 'Geometry helpers return the exact area, direction and centroid',
  'The polygon area helper returns the exact area of every simple polygon, independent of start vertex, direction, translation; the unit vector helper returns a parallel vector of length one; the centroid helpers return the mean of the node positions of an element or an edge, also after nodes have moved.',
  ['inputs'], 'every simple polygon (convex or not), nonzero vector of any dimension, element, edge',
  'Helpers are only tested indirectly on triangles.',
  [UT], [('area_of_polygon, unitvec, getMid', UT)])
p('C30', 'Silent means silent, and silence changes no result',
  'Readers and matrix computations print nothing unless asked to, print only through the logger when asked, and return the same results in both cases; logging helpers return the prefixed message and print it indented by its level exactly once unless silent.',
  ['configurations'], 'every entry point with and without silence, every message and level',
  'No test looks at the output.',
  [LG, K0, KG, AD, RM], [('silent argument handed through to the logger', LG)])
with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['title']
        f.write(json.dumps(x) + '\n')
